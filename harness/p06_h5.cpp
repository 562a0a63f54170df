//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/DNDS/SerializerH5.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockh5.cpp"]}
//@run {"prop":"P06","entry":"h_scalars","bounds":"1..2 ranks, any int, index and real, strings of 0..2 any characters, relative, absolute and nested paths, collective metadata on and off","reach":["scalars"],"shard":[["n",1,2],["len",0,2]]}
//@run {"prop":"P06","entry":"h_vec","bounds":"1..3 ranks, 0..2 entries per rank with any contents of each element type; in parts, at given offsets, same size per rank and rank 0 only; plain, chunked and compressed; collective and independent","reach":["vec"],"shard":[["n",1,3],["mode",0,3],["chunk",0,2]],"time":600}
//@run {"prop":"P06","entry":"h_shared","bounds":"1..2 ranks, 4 names under 2 paths over 2 vectors, shared in any way (also differently on each rank), any contents, writer's or reader's vectors released or replaced in between","reach":["shared"],"shard":[["n",1,2],["life",0,2]],"time":600}
//@run {"prop":"P06","entry":"h_reuse","bounds":"1..2 ranks, one serializer object used for two files in turn (write, write, read, read; write, read), the same shared vectors in both at the same or another path and any contents","reach":["reuse"],"shard":[["n",1,2],["same",0,1],["objs",1,2]]}
//@run {"prop":"P06","entry":"h_refuse","bounds":"reading on another number of ranks, missing names, creating groups while reading","reach":["refuse"],"shard":[["what",0,3]]}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include <string>
#include "DNDS/SerializerH5.hpp"
namespace DNDS::VH {
using namespace Serializer;
struct Sc { int n, len, coll, i; index x; real r; char s[4]; };
static const char *W[3][2] = {{"a", "b"}, {"/a", "/a/b"}, {"a/b/", "c"}};
static void scalars(int r, void *p)
{
    auto &c = *(Sc *)p;
    MPIInfo mpi;
    mpi.setWorld();
    std::string str(c.s, c.len);
    for (int k = 0; k < 3; k++)
    {
        std::string cwd[2];
        {
            SerializerH5 s(mpi);
            s.SetCollectiveRW(c.coll, false);
            s.OpenFile("f.h5", false);
            s.WriteInt("root", k);
            s.CreatePath(W[k][0]), s.GoToPath(W[k][0]);
            cwd[0] = s.GetCurrentPath();
            s.WriteInt("i", c.i), s.WriteIndex("x", c.x), s.WriteReal("r", c.r), s.WriteString("s", str);
            s.CreatePath(W[k][1]), s.GoToPath(W[k][1]);
            cwd[1] = s.GetCurrentPath();
            s.WriteInt("i", c.i + 1), s.WriteString("s", "other");
            s.GoToPath(cwd[0]);
            vh_assert(s.GetCurrentPath() == cwd[0], "going back to a path that was current");
            s.WriteInt("late", 5);
            s.CloseFile();
        }
        SerializerH5 s(mpi);
        s.SetCollectiveRW(c.coll, false);
        s.OpenFile("f.h5", true);
        int i = -1;
        index x = -1;
        real v = -1;
        std::string t = "?", u;
        s.ReadInt("root", i);
        vh_assert(i == k, "an int at the root");
        s.GoToPath(W[k][0]);
        vh_assert(s.GetCurrentPath() == cwd[0], "the same path when reading");
        s.ReadInt("i", i), s.ReadIndex("x", x), s.ReadReal("r", v), s.ReadString("s", t);
        vh_assert(i == c.i, "an int is read back");
        vh_assert(x == c.x, "an index is read back");
        vh_assert(v == c.r, "a real is read back");
        vh_assert(t == str, "a string is read back");
        s.ReadInt("late", i);
        vh_assert(i == 5, "values added later under the same path");
        s.GoToPath(W[k][1]);
        s.ReadInt("i", i), s.ReadString("s", u);
        vh_assert(i == c.i + 1 && u == "other", "values under a nested path");
        s.CloseFile();
    }
}
template <class T> struct El;
template <> struct El<index> { static index mk() { return vh_int("v", -(1L << 62), 1L << 62); } static void wr(SerializerH5 &s, const char *n, std::vector<index> &v, ArrayGlobalOffset o) { s.WriteIndexVector(n, v, o); } static void rd(SerializerH5 &s, const char *n, std::vector<index> &v, ArrayGlobalOffset &o) { s.ReadIndexVector(n, v, o); } };
template <> struct El<rowsize> { static rowsize mk() { return vh_int("w", -100000, 100000); } static void wr(SerializerH5 &s, const char *n, std::vector<rowsize> &v, ArrayGlobalOffset o) { s.WriteRowsizeVector(n, v, o); } static void rd(SerializerH5 &s, const char *n, std::vector<rowsize> &v, ArrayGlobalOffset &o) { s.ReadRowsizeVector(n, v, o); } };
template <> struct El<real> { static real mk() { return vh_real("x", -100, 100); } static void wr(SerializerH5 &s, const char *n, std::vector<real> &v, ArrayGlobalOffset o) { s.WriteRealVector(n, v, o); } static void rd(SerializerH5 &s, const char *n, std::vector<real> &v, ArrayGlobalOffset &o) { s.ReadRealVector(n, v, o); } };
template <> struct El<uint8_t>
{
    static uint8_t mk() { return vh_int("u", 0, 255); }
    static void wr(SerializerH5 &s, const char *n, std::vector<uint8_t> &v, ArrayGlobalOffset o) { s.WriteUint8Array(n, v.data(), v.size(), o); }
    static void rd(SerializerH5 &s, const char *n, std::vector<uint8_t> &v, ArrayGlobalOffset &o)
    {
        index sz = -1;
        s.ReadUint8Array(n, nullptr, sz, o);
        v.resize(sz), s.ReadUint8Array(n, v.data(), sz, o);
        vh_assert(sz == (index)v.size(), "the size stays what it was");
    }
};
enum { PARTS, DIST, PERRANK, ONE };
template <class T> struct Vec { int n, mode, chunk, cm, cd; std::vector<T> v[3]; index off[4]; };
template <class T> static void vec(int r, void *p)
{
    auto &c = *(Vec<T> *)p;
    MPIInfo mpi;
    mpi.setWorld();
    auto &v = c.v[r];
    {
        SerializerH5 s(mpi);
        s.SetCollectiveRW(c.cm, c.cd);
        s.SetChunkAndDeflate(c.chunk ? 2 : 0, c.chunk == 2 ? 5 : 0);
        s.OpenFile("f.h5", false);
        s.CreatePath("p"), s.GoToPath("p");
        if (c.mode == PARTS) El<T>::wr(s, "v", v, ArrayGlobalOffset_Parts);
        if (c.mode == DIST) El<T>::wr(s, "v", v, ArrayGlobalOffset(c.off[c.n], c.off[r]));
        if (c.mode == ONE) El<T>::wr(s, "v", v, ArrayGlobalOffset_One);
        if constexpr (std::is_same_v<T, index>)
            if (c.mode == PERRANK) s.WriteIndexVectorPerRank("v", v);
        s.CloseFile();
    }
    SerializerH5 s(mpi);
    s.SetCollectiveRW(c.cm, c.cd);
    s.OpenFile("f.h5", true);
    s.GoToPath("p");
    std::vector<T> w;
    ArrayGlobalOffset o = c.mode == ONE ? ArrayGlobalOffset_One : ArrayGlobalOffset_Unknown;
    El<T>::rd(s, "v", w, o);
    auto &e = c.mode == ONE ? c.v[0] : v;
    vh_assert(w.size() == e.size(), "a rank reads back as many entries as it wrote");
    for (size_t i = 0; i < e.size(); i++) vh_assert(w[i] == e[i], "a rank reads back its own entries");
    if (c.mode == ONE) vh_assert(o == ArrayGlobalOffset_One, "offset of a single array");
    else vh_assert(o.size() == c.off[c.n] && o.offset() == c.off[r], "the offset tells where this rank's part lies");
    s.CloseFile();
}
template <class T> static void vecs(int n, int mode, int chunk, int cm, int cd)
{
    Vec<T> c;
    c.n = n, c.mode = mode, c.chunk = chunk, c.cm = cm, c.cd = cd;
    int same = mode >= PERRANK ? vh_concretize(vh_int("size", 0, 2)) : 0;
    c.off[0] = 0;
    for (int r = 0; r < n; r++)
    {
        int k = mode >= PERRANK ? same : vh_concretize(vh_int("size", 0, 2));
        for (int i = 0; i < k; i++) c.v[r].push_back(El<T>::mk());
        c.off[r + 1] = c.off[r] + k;
    }
    mm_run(n, vec<T>, &c);
    vh_reach("vec");
}
// vectors at addresses that are used again as soon as they are released
template <class T> struct Pool
{
    alignas(16) char at[2][8][sizeof(std::vector<T>)];
    bool used[2][8] = {};
    ssp<std::vector<T>> make(int r, const std::vector<T> &v)
    {
        int k = 0;
        while (used[r][k]) k++;
        used[r][k] = true;
        return ssp<std::vector<T>>(new (at[r][k]) std::vector<T>(v), [this, r, k](std::vector<T> *p) { p->~vector(), used[r][k] = false; });
    }
};
struct Sh { int n, life, pick[2][4]; std::vector<index> v[2][2]; std::vector<rowsize> w[2][2]; Pool<index> pv; Pool<rowsize> pw; };
static const char *N[4] = {"a", "b", "c", "a"}; // the last one lies under another path
static void shared(int r, void *p)
{
    auto &c = *(Sh *)p;
    MPIInfo mpi;
    mpi.setWorld();
    bool tmp = c.life == 1; // written vectors do not outlive the call
    {
        SerializerH5 s(mpi);
        s.OpenFile("f.h5", false);
        ssp<std::vector<index>> v[2];
        ssp<std::vector<rowsize>> w[2];
        for (int k = 0; k < 2; k++) v[k] = std::make_shared<std::vector<index>>(c.v[r][k]), w[k] = std::make_shared<std::vector<rowsize>>(c.w[r][k]);
        s.CreatePath("p"), s.GoToPath("p");
        for (int i = 0; i < 4; i++)
        {
            if (i == 3) s.CreatePath("/q"), s.GoToPath("/q");
            int k = c.pick[r][i];
            if (tmp)
            {
                auto t = c.pv.make(r, c.v[r][k]);
                auto u = c.pw.make(r, c.w[r][k]);
                s.WriteSharedIndexVector(N[i], t, ArrayGlobalOffset_Parts), s.WriteSharedRowsizeVector(std::string(N[i]) + "_w", u, ArrayGlobalOffset_Parts);
            }
            else
                s.WriteSharedIndexVector(N[i], v[k], ArrayGlobalOffset_Parts), s.WriteSharedRowsizeVector(std::string(N[i]) + "_w", w[k], ArrayGlobalOffset_Parts);
        }
        s.CloseFile();
    }
    SerializerH5 s(mpi);
    s.OpenFile("f.h5", true);
    ssp<std::vector<index>> v[4];
    ssp<std::vector<rowsize>> w[4];
    s.GoToPath("p");
    for (int i = 0; i < 4; i++)
    {
        if (i == 3) s.GoToPath("/q");
        auto &e = c.v[r][c.pick[r][i]];
        auto &f = c.w[r][c.pick[r][i]];
        ArrayGlobalOffset o = ArrayGlobalOffset_Unknown, q = ArrayGlobalOffset_Unknown;
        ssp<std::vector<index>> a;
        ssp<std::vector<rowsize>> b;
        s.ReadSharedIndexVector(N[i], c.life == 2 ? a : v[i], o), s.ReadSharedRowsizeVector(std::string(N[i]) + "_w", c.life == 2 ? b : w[i], q);
        if (c.life == 2)
            v[i] = a, w[i] = b, a = std::make_shared<std::vector<index>>(7), b = std::make_shared<std::vector<rowsize>>(7); // the caller replaces what it holds
        vh_assert(*v[i] == e, "a shared index vector is read back");
        vh_assert(*w[i] == f, "a shared row-size vector is read back");
    }
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < i; j++)
        {
            bool all = !tmp && c.pick[r][i] == c.pick[r][j]; // and the ranks share alike
            for (int q = 0; q < c.n; q++)
                for (int k = 0; k < 4; k++) all = all && c.pick[q][k] == c.pick[r][k];
            if (all) vh_assert(v[i] == v[j] && w[i] == w[j], "what was shared is shared again");
            bool apart = tmp || c.pick[r][i] != c.pick[r][j];
            if (apart) vh_assert(v[i] != v[j] && w[i] != w[j], "what was not shared is not shared");
        }
    s.CloseFile();
}
struct Re { int n, same, objs, rc; std::vector<index> v[2][2]; std::vector<rowsize> w[2][2]; };
static void reuse(int r, void *p)
{
    auto &c = *(Re *)p;
    MPIInfo mpi;
    mpi.setWorld();
    SerializerH5 s0(mpi), s1(mpi);
    auto &s = s0, &t = c.objs == 1 ? s0 : s1; // writer and reader
    auto v = std::make_shared<std::vector<index>>(c.v[r][0]);
    auto w = std::make_shared<std::vector<rowsize>>(c.w[r][0]);
    const char *F[2] = {"f.h5", "g.h5"}, *D[2] = {"p", c.same ? "p" : "q"};
    for (int f = 0; f < 2; f++)
    {
        if (f) *v = c.v[r][1], *w = c.w[r][1]; // the same vectors, other contents
        s.OpenFile(F[f], false);
        s.CreatePath(D[f]), s.GoToPath(D[f]);
        s.WriteInt("which", f);
        s.WriteSharedIndexVector("v", v, ArrayGlobalOffset_Parts), s.WriteSharedRowsizeVector("w", w, ArrayGlobalOffset_Parts);
        s.WriteSharedIndexVector("v2", v, ArrayGlobalOffset_Parts);
        s.CloseFile();
    }
    ssp<std::vector<index>> rv[2], rv2[2];
    ssp<std::vector<rowsize>> rw[2];
    for (int f = 0; f < 2; f++)
    {
        t.OpenFile(F[f], true);
        vh_assert(t.GetCurrentPath() == "", "a newly opened file is at its root");
        t.GoToPath(D[f]);
        int which = -1;
        t.ReadInt("which", which);
        vh_assert(which == f, "each file has its own values");
        ArrayGlobalOffset o = ArrayGlobalOffset_Unknown, q = o, z = o;
        t.ReadSharedIndexVector("v", rv[f], o), t.ReadSharedRowsizeVector("w", rw[f], q), t.ReadSharedIndexVector("v2", rv2[f], z);
        t.CloseFile();
        vh_assert(*rv[f] == c.v[r][f] && *rv2[f] == c.v[r][f], "each file's own index vector is read back");
        vh_assert(*rw[f] == c.w[r][f], "each file's own row-size vector is read back");
        vh_assert(rv[f] == rv2[f], "sharing within the file is read back");
    }
    vh_assert(rv[0] != rv[1] && rw[0] != rw[1], "nothing is shared between files");
    vh_assert(*rv[0] == c.v[r][0] && *rw[0] == c.w[r][0], "what was read first stays");
}
static int WHAT;
static void refuseW(int r, void *)
{
    MPIInfo mpi;
    mpi.setWorld();
    SerializerH5 s(mpi);
    s.OpenFile("f.h5", false);
    s.CreatePath("p"), s.GoToPath("p");
    std::vector<index> v(1, r);
    s.WriteIndexVector("v", v, ArrayGlobalOffset_Parts);
    s.WriteIndexVector("one", v, ArrayGlobalOffset_One);
    s.WriteInt("i", 1);
    s.CloseFile();
}
static void refuseR(int r, void *)
{
    MPIInfo mpi;
    mpi.setWorld();
    vh_reach("refuse");
    vh_expect_refuse();
    SerializerH5 s(mpi);
    s.OpenFile("f.h5", true);
    s.GoToPath(WHAT == 3 ? "nowhere" : "p");
    std::vector<index> w;
    int i;
    ArrayGlobalOffset o = ArrayGlobalOffset_Unknown;
    if (WHAT == 0) s.ReadIndexVector("v", w, o);
    if (WHAT == 1) s.ReadIndexVector("one", w, o);
    if (WHAT == 2) s.ReadIndexVector("missing", w, o);
    if (WHAT == 3) s.ReadInt("i", i);
    vh_assert(false, "what cannot be read back is refused");
}
}
using namespace DNDS::VH;
VH_ENTRY h_scalars()
{
    Sc c;
    c.n = vh_concretize(vh_int("n", 1, 2)), c.len = vh_concretize(vh_int("len", 0, 2)), c.coll = vh_concretize(vh_int("coll", 0, 1));
    c.i = vh_int("i", -1000000, 1000000), c.x = vh_int("x", -(1L << 62), 1L << 62), c.r = vh_real("r", -1e6, 1e6);
    for (int k = 0; k < 4; k++) c.s[k] = vh_int("ch", 1, 127);
    mm_run(c.n, scalars, &c);
    vh_reach("scalars");
}
VH_ENTRY h_vec()
{
    int n = vh_concretize(vh_int("n", 1, 3)), mode = vh_concretize(vh_int("mode", 0, 3)), chunk = vh_concretize(vh_int("chunk", 0, 2));
    int cm = vh_concretize(vh_int("collmeta", 0, 1)), cd = vh_concretize(vh_int("colldata", 0, 1));
    int t = mode == PERRANK ? 0 : vh_concretize(vh_int("type", 0, 3));
    if (t == 0) vecs<DNDS::index>(n, mode, chunk, cm, cd);
    if (t == 1) vecs<DNDS::rowsize>(n, mode, chunk, cm, cd);
    if (t == 2) vecs<DNDS::real>(n, mode, chunk, cm, cd);
    if (t == 3) vecs<uint8_t>(n, mode, chunk, cm, cd);
}
VH_ENTRY h_shared()
{
    Sh c;
    c.n = vh_concretize(vh_int("n", 1, 2)), c.life = vh_concretize(vh_int("life", 0, 2));
    for (int r = 0; r < c.n; r++)
    {
        c.pick[r][0] = 0;
        for (int i = 1; i < 4; i++) c.pick[r][i] = vh_concretize(vh_int("pick", 0, 1));
        for (int k = 0; k < 2; k++)
            for (int i = 0; i < 1 + k; i++)
                c.v[r][k].push_back(vh_int("v", -100000, 100000)), c.w[r][k].push_back(vh_int("w", -100000, 100000));
    }
    mm_run(c.n, shared, &c);
    vh_reach("shared");
}
VH_ENTRY h_reuse()
{
    Re c;
    c.n = vh_concretize(vh_int("n", 1, 2)), c.same = vh_concretize(vh_int("same", 0, 1)), c.objs = vh_concretize(vh_int("objs", 1, 2));
    for (int r = 0; r < c.n; r++)
        for (int f = 0; f < 2; f++)
            for (int i = 0; i < 1 + f; i++) c.v[r][f].push_back(vh_int("v", -100000, 100000)), c.w[r][f].push_back(vh_int("w", -100000, 100000));
    mm_run(c.n, reuse, &c);
    vh_reach("reuse");
}
VH_ENTRY h_refuse()
{
    WHAT = vh_concretize(vh_int("what", 0, 3));
    int n = WHAT == 0 ? 2 : vh_concretize(vh_int("n", 1, 2));
    mm_run(n, refuseW, nullptr);
    mm_run(WHAT == 0 ? 1 : n, refuseR, nullptr);
}
