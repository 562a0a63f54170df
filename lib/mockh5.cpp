// Model of the parallel HDF5 calls DNDSR uses: one in-memory file system shared by the simulated ranks.
// An object is visible to a rank once that rank took part in creating it (creation is collective); at the close of a file all
// ranks must have made the same collective calls with the same arguments. Refused as HDF5 does: creating what exists, opening
// what does not, selections beyond the extent, selections of different counts, zero-length string types, independent writes to
// compressed datasets on several ranks, closing a file with open objects. No type conversion is modelled.
#include <hdf5.h>
#include <mpi.h>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "vh.h"
namespace {
enum { FILE_ = 1, GROUP, DSET, SPACE, PLIST, TYPE, ATTR };
struct Data
{
    int kind = GROUP; // or DSET
    unsigned seen = 0;
    hid_t type = 0;
    std::vector<hsize_t> dims;
    std::vector<char> bytes;
    bool filtered = false;
    std::map<std::string, Data> attrs;
    long size = 0; // element size
    bool str = false;
    unsigned wrote = 0;
};
struct File
{
    std::map<std::string, Data> objs;
    std::map<int, std::vector<std::string>> log;
    bool read = false;
    int closing = 0;
};
struct H
{
    int kind = 0;
    File *f = nullptr;
    std::string path;
    Data *d = nullptr;
    std::vector<hsize_t> dims, off, cnt;
    bool sel = false, scalar = false;
    long size = 0;
    bool str = false, chunk = false, deflate = false, coll = false;
    std::vector<hsize_t> chunkDims;
    int rank = 0;
};
std::map<std::string, File> *FS;
std::map<hid_t, H> *HS;
hid_t NEXT = 1000;
int rk() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
int nr() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
H &mk(int kind, hid_t &id)
{
    if (!HS) HS = new std::map<hid_t, H>, FS = new std::map<std::string, File>;
    id = NEXT++;
    H &h = (*HS)[id];
    h.kind = kind, h.rank = rk();
    return h;
}
H *get(hid_t id, int kind)
{
    if (!HS) return nullptr;
    auto it = HS->find(id);
    return it == HS->end() || it->second.kind != kind ? nullptr : &it->second;
}
herr_t drop(hid_t id, int kind)
{
    H *h = get(id, kind);
    if (!h) return -1;
    vh_assert(h->rank == rk(), "HDF5: a rank closes another rank's object");
    HS->erase(id);
    return 0;
}
struct At { File *f; std::string path; };
At resolve(hid_t loc, const char *name)
{
    At a{nullptr, ""};
    H *h = get(loc, FILE_);
    if (!h) h = get(loc, GROUP);
    if (!h) return a;
    a.f = h->f;
    std::string s = name, base = s.size() && s[0] == '/' ? "" : h->path;
    // drop repeated and trailing slashes
    std::string out = base == "/" ? "" : base;
    size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && s[i] == '/') i++;
        size_t j = i;
        while (j < s.size() && s[j] != '/') j++;
        if (j > i) out += "/" + s.substr(i, j - i);
        i = j;
    }
    a.path = out.empty() ? "/" : out;
    return a;
}
std::string parent(const std::string &p) { auto k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
Data *see(File *f, const std::string &p)
{
    auto it = f->objs.find(p);
    if (it == f->objs.end()) return nullptr;
    return f->read || (it->second.seen >> rk() & 1) ? &it->second : nullptr;
}
void note(File *f, const std::string &s) { f->log[rk()].push_back(s); }
struct NT { hid_t id; long size; };
long nativeSize(hid_t t)
{
    if (t == H5T_NATIVE_INT_g) return sizeof(int);
    if (t == H5T_NATIVE_INT64_g || t == H5T_NATIVE_DOUBLE_g) return 8;
    if (t == H5T_NATIVE_INT32_g) return 4;
    if (t == H5T_NATIVE_UINT8_g) return 1;
    return -1;
}
bool typeOf(hid_t t, long &size, bool &str)
{
    size = nativeSize(t), str = false;
    if (size > 0) return true;
    H *h = get(t, TYPE);
    if (!h) return false;
    size = h->size, str = h->str;
    return true;
}
bool sameType(hid_t a, hid_t b)
{
    if (a == b) return true;
    auto isI32 = [](hid_t t) { return t == H5T_NATIVE_INT_g || t == H5T_NATIVE_INT32_g; };
    return isI32(a) && isI32(b);
}
std::string num(long v) { std::string s; if (v < 0) return "-"; do s = char('0' + v % 10) + s; while (v /= 10); return s; }
}
extern "C"
{
    hid_t H5T_NATIVE_INT_g = 11, H5T_NATIVE_INT64_g = 12, H5T_NATIVE_INT32_g = 13, H5T_NATIVE_DOUBLE_g = 14, H5T_NATIVE_UINT8_g = 15;
    hid_t H5P_CLS_FILE_ACCESS_ID_g = 21, H5P_CLS_DATASET_CREATE_ID_g = 22, H5P_CLS_DATASET_ACCESS_ID_g = 23, H5P_CLS_DATASET_XFER_ID_g = 24, H5P_CLS_LINK_ACCESS_ID_g = 25, H5P_CLS_GROUP_ACCESS_ID_g = 26, H5P_CLS_ATTRIBUTE_ACCESS_ID_g = 27;
    herr_t H5open() { return 0; }
    herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
    hid_t H5Pcreate(hid_t) { hid_t id; mk(PLIST, id); return id; }
    herr_t H5Pclose(hid_t p) { return drop(p, PLIST); }
    herr_t H5Pset_all_coll_metadata_ops(hid_t p, hbool_t) { return get(p, PLIST) ? 0 : -1; }
    herr_t H5Pset_coll_metadata_write(hid_t p, hbool_t) { return get(p, PLIST) ? 0 : -1; }
    herr_t H5Pset_fapl_mpio(hid_t p, MPI_Comm, MPI_Info) { return get(p, PLIST) ? 0 : -1; }
    herr_t H5Pset_dxpl_mpio(hid_t p, H5FD_mpio_xfer_t m) { H *h = get(p, PLIST); if (!h) return -1; h->coll = m == H5FD_MPIO_COLLECTIVE; return 0; }
    herr_t H5Pset_chunk(hid_t p, int n, const hsize_t *d)
    {
        H *h = get(p, PLIST);
        if (!h || n < 1) return -1;
        for (int i = 0; i < n; i++) if (d[i] == 0) return -1;
        h->chunk = true, h->chunkDims.assign(d, d + n);
        return 0;
    }
    herr_t H5Pset_deflate(hid_t p, unsigned l) { H *h = get(p, PLIST); if (!h || l > 9) return -1; h->deflate = true; return 0; }
    hid_t H5Fcreate(const char *name, unsigned, hid_t, hid_t fapl)
    {
        if (!get(fapl, PLIST)) return -1;
        MPI_Barrier(MPI_COMM_WORLD);
        hid_t id;
        H &h = mk(FILE_, id);
        if (rk() == 0) { File nf; nf.objs["/"].seen = ~0u; (*FS)[name] = nf; }
        MPI_Barrier(MPI_COMM_WORLD);
        h.f = &(*FS)[name], h.path = "/";
        return id;
    }
    hid_t H5Fopen(const char *name, unsigned, hid_t fapl)
    {
        if (!get(fapl, PLIST) || !FS || !FS->count(name)) return -1;
        MPI_Barrier(MPI_COMM_WORLD);
        hid_t id;
        H &h = mk(FILE_, id);
        h.f = &(*FS)[name], h.path = "/";
        h.f->read = true;
        MPI_Barrier(MPI_COMM_WORLD);
        return id;
    }
    herr_t H5Fclose(hid_t id)
    {
        H *h = get(id, FILE_);
        if (!h) return -1;
        File *f = h->f;
        for (auto &kv : *HS)
            vh_assert(!(kv.second.rank == rk() && (kv.second.kind == GROUP || kv.second.kind == DSET || kv.second.kind == ATTR)), "HDF5: a file is closed with objects still open");
        MPI_Barrier(MPI_COMM_WORLD);
        auto &mine = f->log[rk()], &first = f->log[0];
        vh_assert(mine == first, "HDF5: all ranks make the same collective calls");
        MPI_Barrier(MPI_COMM_WORLD);
        if (rk() == 0) f->log.clear();
        MPI_Barrier(MPI_COMM_WORLD);
        return drop(id, FILE_);
    }
    htri_t H5Lexists(hid_t loc, const char *name, hid_t)
    {
        At a = resolve(loc, name);
        if (!a.f) return -1;
        if (a.path == "/") return 1;
        if (!see(a.f, parent(a.path))) return -1;
        return see(a.f, a.path) ? 1 : 0;
    }
    hid_t H5Gopen2(hid_t loc, const char *name, hid_t)
    {
        At a = resolve(loc, name);
        if (!a.f) return -1;
        Data *d = see(a.f, a.path);
        if (!d || d->kind != GROUP) return -1;
        hid_t id;
        H &h = mk(GROUP, id);
        h.f = a.f, h.path = a.path, h.d = d;
        return id;
    }
    hid_t H5Gcreate2(hid_t loc, const char *name, hid_t, hid_t, hid_t)
    {
        At a = resolve(loc, name);
        if (!a.f || a.f->read || see(a.f, a.path)) return -1;
        Data *p = see(a.f, parent(a.path));
        if (!p || p->kind != GROUP) return -1;
        Data &d = a.f->objs[a.path];
        d.kind = GROUP, d.seen |= 1u << rk();
        note(a.f, "group " + a.path);
        hid_t id;
        H &h = mk(GROUP, id);
        h.f = a.f, h.path = a.path, h.d = &d;
        return id;
    }
    herr_t H5Gclose(hid_t id) { return drop(id, GROUP); }
    hid_t H5Screate(H5S_class_t t) { if (t != H5S_SCALAR) return -1; hid_t id; mk(SPACE, id).scalar = true; return id; }
    hid_t H5Screate_simple(int n, const hsize_t *d, const hsize_t *m)
    {
        if (n < 1 || n > 2) return -1;
        for (int i = 0; i < n; i++)
        {
            if (d[i] > (hsize_t(1) << 60)) return -1;
            if (m && m[i] != H5S_UNLIMITED && m[i] < d[i]) return -1;
        }
        hid_t id;
        mk(SPACE, id).dims.assign(d, d + n);
        return id;
    }
    herr_t H5Sclose(hid_t id) { return drop(id, SPACE); }
    int H5Sget_simple_extent_ndims(hid_t id) { H *h = get(id, SPACE); return h ? int(h->dims.size()) : -1; }
    int H5Sget_simple_extent_dims(hid_t id, hsize_t *d, hsize_t *m)
    {
        H *h = get(id, SPACE);
        if (!h) return -1;
        for (size_t i = 0; i < h->dims.size(); i++) { if (d) d[i] = h->dims[i]; if (m) m[i] = h->dims[i]; }
        return h->dims.size();
    }
    herr_t H5Sselect_hyperslab(hid_t id, H5S_seloper_t, const hsize_t *off, const hsize_t *stride, const hsize_t *cnt, const hsize_t *block)
    {
        H *h = get(id, SPACE);
        if (!h || stride || block) return -1;
        h->off.assign(off, off + h->dims.size()), h->cnt.assign(cnt, cnt + h->dims.size()), h->sel = true;
        return 0;
    }
    hid_t H5Tcreate(H5T_class_t c, size_t n) { if (c != H5T_STRING || n == 0) return -1; hid_t id; H &h = mk(TYPE, id); h.size = n, h.str = true; return id; }
    herr_t H5Tset_strpad(hid_t t, H5T_str_t) { return get(t, TYPE) ? 0 : -1; }
    herr_t H5Tclose(hid_t t) { return drop(t, TYPE); }
    htri_t H5Tis_variable_str(hid_t t) { return get(t, TYPE) ? 0 : -1; }
    size_t H5Tget_size(hid_t t) { long s; bool b; return typeOf(t, s, b) ? s : 0; }
    herr_t H5free_memory(void *) { return 0; }
    // attributes
    hid_t H5Acreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t)
    {
        H *g = get(loc, GROUP), *s = get(space, SPACE);
        long size;
        bool str;
        if (!g || !s || !s->scalar || g->f->read || !typeOf(type, size, str)) return -1;
        Data &d = g->d->attrs[name];
        if (d.seen >> rk() & 1) return -1;
        d.seen |= 1u << rk();
        if (d.type == 0) d.type = str ? 1 : type, d.size = size, d.str = str, d.bytes.resize(size);
        vh_assert((d.str ? str && d.size == size : !str && sameType(d.type, type)), "HDF5: all ranks create an attribute alike");
        note(g->f, "attr " + g->path + "@" + name);
        hid_t id;
        H &h = mk(ATTR, id);
        h.f = g->f, h.d = &d, h.path = g->path + "@" + name;
        return id;
    }
    herr_t H5Awrite(hid_t id, hid_t type, const void *buf)
    {
        H *h = get(id, ATTR);
        long size;
        bool str;
        if (!h || !typeOf(type, size, str) || str != h->d->str || size != h->d->size) return -1;
        if (h->d->wrote)
        {
            bool same;
            if (!str && type == H5T_NATIVE_DOUBLE_g) same = *(const double *)buf == *(double *)h->d->bytes.data();
            else if (!str && size == 8) same = *(const int64_t *)buf == *(int64_t *)h->d->bytes.data();
            else if (!str && size == 4) same = *(const int32_t *)buf == *(int32_t *)h->d->bytes.data();
            else same = memcmp(buf, h->d->bytes.data(), size) == 0;
            vh_assert(same, "HDF5: all ranks write the same attribute value");
        }
        memcpy(h->d->bytes.data(), buf, size);
        h->d->wrote = 1;
        note(h->f, "awrite " + h->path);
        return 0;
    }
    hid_t H5Aopen(hid_t loc, const char *name, hid_t)
    {
        H *g = get(loc, GROUP);
        if (!g || !g->d->attrs.count(name)) return -1;
        hid_t id;
        H &h = mk(ATTR, id);
        h.f = g->f, h.d = &g->d->attrs[name];
        return id;
    }
    htri_t H5Aexists(hid_t loc, const char *name) { H *g = get(loc, GROUP); return !g ? -1 : g->d->attrs.count(name) ? 1 : 0; }
    hid_t H5Aget_space(hid_t id) { if (!get(id, ATTR)) return -1; hid_t s; mk(SPACE, s).scalar = true; return s; }
    hid_t H5Aget_type(hid_t id)
    {
        H *h = get(id, ATTR);
        if (!h) return -1;
        Data *d = h->d;
        hid_t t;
        H &n = mk(TYPE, t);
        n.size = d->size, n.str = d->str;
        return t;
    }
    herr_t H5Aread(hid_t id, hid_t type, void *buf)
    {
        H *h = get(id, ATTR);
        long size;
        bool str;
        if (!h || !typeOf(type, size, str) || str != h->d->str || (!str && !sameType(type, h->d->type)) || size != h->d->size) return -1;
        memcpy(buf, h->d->bytes.data(), size);
        return 0;
    }
    herr_t H5Aclose(hid_t id) { return drop(id, ATTR); }
    // datasets
    hid_t H5Dcreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t dcpl, hid_t)
    {
        H *g = get(loc, GROUP), *s = get(space, SPACE), *p = get(dcpl, PLIST);
        if (!g || !s || s->scalar || !p || g->f->read || nativeSize(type) < 0) return -1;
        if (p->chunk && p->chunkDims.size() != s->dims.size()) return -1;
        if (p->deflate && !p->chunk) return -1;
        At a = resolve(loc, name);
        if (see(a.f, a.path)) return -1;
        Data *pa = see(a.f, parent(a.path));
        if (!pa || pa->kind != GROUP) return -1;
        Data &d = a.f->objs[a.path];
        long n = 1;
        for (auto x : s->dims) n *= x;
        if (d.seen == 0) d.kind = DSET, d.type = type, d.size = nativeSize(type), d.dims = s->dims, d.bytes.resize(n * d.size), d.filtered = p->deflate;
        vh_assert(d.type == type && d.dims == s->dims && d.filtered == p->deflate, "HDF5: all ranks create a dataset alike");
        d.seen |= 1u << rk();
        note(a.f, "dset " + a.path);
        hid_t id;
        H &h = mk(DSET, id);
        h.f = a.f, h.d = &d, h.path = a.path;
        return id;
    }
    hid_t H5Dopen2(hid_t loc, const char *name, hid_t)
    {
        At a = resolve(loc, name);
        if (!a.f) return -1;
        Data *d = see(a.f, a.path);
        if (!d || d->kind != DSET) return -1;
        hid_t id;
        H &h = mk(DSET, id);
        h.f = a.f, h.d = d, h.path = a.path;
        return id;
    }
    hid_t H5Dget_space(hid_t id) { H *h = get(id, DSET); if (!h) return -1; Data *d = h->d; hid_t s; mk(SPACE, s).dims = d->dims; return s; }
    herr_t H5Dclose(hid_t id) { return drop(id, DSET); }
    static herr_t transfer(hid_t id, hid_t mt, hid_t ms, hid_t fs, hid_t dx, char *buf, bool write)
    {
        H *h = get(id, DSET), *m = get(ms, SPACE), *f = get(fs, SPACE), *p = get(dx, PLIST);
        if (!h || !m || !f || !p || f->dims != h->d->dims) return -1;
        if (p->coll) note(h->f, std::string(write ? "write " : "read ") + h->path);
        if (write && h->f->read) return -1;
        if (!sameType(mt, h->d->type)) return -1;
        long es = h->d->size;
        std::vector<hsize_t> off = f->sel ? f->off : std::vector<hsize_t>(f->dims.size(), 0), cnt = f->sel ? f->cnt : f->dims;
        hsize_t nm = 1, nf = 1;
        for (auto x : m->dims) nm *= x;
        for (auto x : cnt) nf *= x;
        if (nm != nf) return -1;
        if (nf)
            for (size_t i = 0; i < cnt.size(); i++) if (off[i] > f->dims[i] || cnt[i] > f->dims[i] - off[i]) return -1;
        if (write && h->d->filtered && !p->coll && nr() > 1) return -1;
        if (nf == 0) return 0;
        hsize_t inner = cnt.size() == 2 ? f->dims[1] : 1, w = cnt.size() == 2 ? cnt[1] : 1, o1 = cnt.size() == 2 ? off[1] : 0;
        for (hsize_t i = 0; i < cnt[0]; i++)
        {
            char *at = h->d->bytes.data() + ((off[0] + i) * inner + o1) * es;
            if (write) memcpy(at, buf + i * w * es, w * es);
            else memcpy(buf + i * w * es, at, w * es);
        }
        return 0;
    }
    herr_t H5Dwrite(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t dx, const void *buf) { return transfer(d, mt, ms, fs, dx, (char *)buf, true); }
    herr_t H5Dread(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t dx, void *buf) { return transfer(d, mt, ms, fs, dx, (char *)buf, false); }
}
