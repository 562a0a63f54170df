//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/DNDS/SerializerH5.cpp","src/DNDS/SerializerJSON.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockh5.cpp","mockz.cpp"]}
//@run {"prop":"P06","entry":"h_array","bounds":"every layout, element types real, index, 32-bit int and pairs; 1..2 ranks of 0..2 rows of 0..2 entries, any contents; two arrays per file sharing their row structure; read back also as another compatible layout","reach":["array"],"shard":[["lay",0,6],["n",1,2]],"time":600}
//@run {"prop":"P06","entry":"h_pair","bounds":"2 ranks of together 0..3 rows, any sets of ghosts, any contents, fixed, padded and compressed rows; read back, mapping rebuilt, pulled","reach":["pair"],"shard":[["lay",0,6]],"time":600}
//@run {"prop":"P06","entry":"h_matrix","bounds":"1..2 ranks of 0..2 matrices of up to 2x2, fixed, run-time and per-row sizes, any contents; read back also as another compatible layout; batches of matrices","reach":["matrix"],"shard":[["kind",0,5],["n",1,2]],"time":600}
//@run {"prop":"P06","entry":"h_mismatch","bounds":"arrays read as one of another element size, row size or row structure","reach":["mismatch"],"shard":[["what",0,5]]}
//@run {"prop":"P06","entry":"h_periodic","bounds":"1..2 ranks, any rotations, centers and translations","reach":["periodic"]}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include "DNDS/SerializerH5.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/ArrayPair.hpp"
#include "Geom/PeriodicInfo.hpp"
namespace DNDS::VH {
using namespace Serializer;
using PairT = std::array<index, 2>;
template <class T> struct Elem;
template <> struct Elem<real> { static real mk(const char *n) { return vh_real(n, -4, 4); } };
template <> struct Elem<index> { static index mk(const char *n) { return vh_int(n, -1000000, 1000000); } };
template <> struct Elem<int> { static int mk(const char *n) { return vh_int(n, -1000000, 1000000); } };
template <> struct Elem<PairT> { static PairT mk(const char *n) { PairT p; p[0] = vh_int(n, -1000000, 1000000), p[1] = vh_int(n, -1000000, 1000000); return p; } };
template <class T> static bool eq(const T &a, const T &b) { return a == b; }
static bool eq(const PairT &a, const PairT &b) { return (a[0] == b[0]) & (a[1] == b[1]); }
template <class T> using Rows = std::vector<std::vector<T>>;
template <class A, DataLayout L> static void shape(A &a, const std::vector<int> &sz, int width)
{
    index n = sz.size();
    if constexpr (L == TABLE_StaticFixed) a.Resize(n);
    if constexpr (L == TABLE_Fixed) a.Resize(n, width);
    if constexpr (L == TABLE_StaticMax) { a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
    if constexpr (L == TABLE_Max) { a.Resize(n, width); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
    if constexpr (L == CSR) { a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
}
struct File
{
    ssp<SerializerBase> s;
    int deflate;
    File(const MPIInfo &mpi, bool read, int deflate = 0)
    {
        auto h = std::make_shared<SerializerH5>(mpi);
        h->SetChunkAndDeflate(deflate ? 2 : 0, deflate), h->SetCollectiveRW(true, deflate);
        s = h;
        s->OpenFile("f.h5", read);
    }
    ~File() { s->CloseFile(); }
};
template <class A, class B, class T, DataLayout L> struct Arr
{
    int n, width, press;
    Rows<T> want[2], other[2];
    std::vector<int> sz[2];
    static void same(B &a, Rows<T> &w, const char *m)
    {
        vh_assert(a.Size() == (index)w.size(), "an array is read back with its size");
        for (size_t i = 0; i < w.size(); i++)
        {
            vh_assert(a.RowSize(i) == (rowsize)w[i].size(), "an array is read back with its row sizes");
            for (size_t j = 0; j < w[i].size(); j++) vh_assert(eq(a(i, j), w[i][j]), m);
        }
    }
    static void body(int r, void *p)
    {
        auto &c = *(Arr *)p;
        MPIInfo mpi;
        mpi.setWorld();
        {
            auto a = std::make_shared<A>(mpi);
            shape<A, L>(*a, c.sz[r], c.width);
            if (L == CSR && c.press) a->Compress();
            for (size_t i = 0; i < c.sz[r].size(); i++)
                for (int j = 0; j < c.sz[r][i]; j++) (*a)(i, j) = c.want[r][i][j];
            auto b = std::make_shared<A>(*a);
            for (size_t i = 0; i < c.sz[r].size(); i++)
                for (int j = 0; j < c.sz[r][i]; j++) (*b)(i, j) = c.other[r][i][j];
            File f(mpi, false, c.press ? 5 : 0);
            f.s->CreatePath("top"), f.s->GoToPath("top");
            a->WriteSerializer(f.s, "a", ArrayGlobalOffset_Parts);
            b->WriteSerializer(f.s, "b", ArrayGlobalOffset_Parts);
            vh_assert(f.s->GetCurrentPath() == "/top", "writing an array leaves the current path");
        }
        B a(mpi), b(mpi);
        {
            File f(mpi, true, c.press ? 5 : 0);
            f.s->GoToPath("top");
            auto o = ArrayGlobalOffset_Unknown, q = ArrayGlobalOffset_Unknown;
            a.ReadSerializer(f.s, "a", o);
            b.ReadSerializer(f.s, "b", q);
            vh_assert(f.s->GetCurrentPath() == "/top", "reading an array leaves the current path");
        }
        same(a, c.want[r], "an array is read back with its contents");
        same(b, c.other[r], "an array is read back with its own contents");
        // the arrays read are usable and independent
        if (c.sz[r].size() && c.sz[r][0])
        {
            if constexpr (L == CSR) a.Decompress(), a.ResizeRow(0, 1);
            if constexpr (L == TABLE_Max || L == TABLE_StaticMax) a.ResizeRow(0, 1);
            a(0, 0) = c.other[r][0][0];
            same(b, c.other[r], "arrays read are independent");
        }
    }
    static void go(int n)
    {
        Arr c;
        c.n = n, c.press = vh_concretize(vh_int("press", 0, 1));
        c.width = L == TABLE_Fixed ? vh_concretize(vh_int("width", 0, 2)) : 2;
        for (int r = 0; r < n; r++)
        {
            int k = vh_concretize(vh_int("rows", 0, 2));
            for (int i = 0; i < k; i++)
            {
                int w = L == TABLE_Max || L == TABLE_StaticMax || L == CSR ? vh_concretize(vh_int("w", 0, 2)) : c.width;
                c.sz[r].push_back(w);
                c.want[r].emplace_back(), c.other[r].emplace_back();
                for (int j = 0; j < w; j++) c.want[r].back().push_back(Elem<T>::mk("a")), c.other[r].back().push_back(Elem<T>::mk("b"));
            }
        }
        mm_run(n, body, &c);
        vh_reach("array");
    }
};
template <class A, class T, DataLayout L> struct Pr
{
    int width;
    Rows<T> want;
    std::vector<int> sz[2];
    int mask[2];
    index off[3];
    static void body(int r, void *p)
    {
        auto &c = *(Pr *)p;
        MPIInfo mpi;
        mpi.setWorld();
        using P = ArrayPair<A>;
        {
            P a;
            a.father = std::make_shared<A>(mpi), a.son = std::make_shared<A>(mpi);
            shape<A, L>(*a.father, c.sz[r], c.width);
            for (size_t i = 0; i < c.sz[r].size(); i++)
                for (int j = 0; j < c.sz[r][i]; j++) (*a.father)(i, j) = c.want[c.off[r] + i][j];
            a.TransAttach();
            a.trans.createFatherGlobalMapping();
            std::vector<index> pull;
            for (size_t g = 0; g < c.want.size(); g++)
                if (c.mask[r] >> g & 1) pull.push_back(g);
            a.trans.createGhostMapping(pull);
            a.trans.createMPITypes();
            a.trans.pullOnce();
            File f(mpi, false);
            a.WriteSerialize(f.s, "pair");
        }
        P a;
        a.father = std::make_shared<A>(mpi), a.son = std::make_shared<A>(mpi);
        {
            File f(mpi, true);
            a.ReadSerialize(f.s, "pair");
        }
        for (int again = 0; again < 2; again++)
        {
            vh_assert(a.father->Size() == (index)c.sz[r].size(), "own rows are read back");
            index k = a.father->Size();
            for (index i = 0; i < k; i++)
            {
                vh_assert(a.RowSize(i) == c.sz[r][i], "own rows are read back with their sizes");
                for (int j = 0; j < c.sz[r][i]; j++) vh_assert(eq(a(i, j), c.want[c.off[r] + i][j]), "own rows are read back with their contents");
            }
            for (size_t g = 0; g < c.want.size(); g++)
                if (c.mask[r] >> g & 1)
                {
                    vh_assert(k < a.Size() && a.RowSize(k) == (rowsize)c.want[g].size(), "ghost rows are read back with their sizes");
                    for (size_t j = 0; j < c.want[g].size(); j++) vh_assert(eq(a(k, j), c.want[g][j]), again ? "a pull after reading brings the owner's contents" : "ghost rows are read back with their contents");
                    k++;
                }
            vh_assert(k == a.Size(), "no more rows than were written");
            if (again) break;
            a.trans.createMPITypes();
            a.trans.pullOnce();
        }
        vh_reach("pair");
    }
    static void go()
    {
        Pr c;
        c.width = L == TABLE_Fixed ? vh_concretize(vh_int("width", 0, 2)) : 2;
        c.off[0] = 0;
        bool vary = L == TABLE_Max || L == TABLE_StaticMax || L == CSR;
        for (int r = 0; r < 2; r++)
        {
            int k = vh_concretize(vh_int("rows", 0, 2));
            for (int i = 0; i < k; i++)
            {
                int w = vary ? vh_concretize(vh_int("w", 0, 1)) + (vary && i) : c.width;
                c.sz[r].push_back(w);
                c.want.emplace_back();
                for (int j = 0; j < w; j++) c.want.back().push_back(Elem<T>::mk("a"));
            }
            c.off[r + 1] = c.off[r] + k;
        }
        vh_assume(c.off[2] <= 3);
        for (int r = 0; r < 2; r++) c.mask[r] = vh_concretize(vh_int("mask", 0, (1 << c.off[2]) - 1));
        mm_run(2, body, &c);
    }
};
// matrices
struct Mat { int ni, nj; real v[4]; };
template <class A, class B, int NI, int NJ> struct Mx
{
    int n, ni, nj;
    std::vector<Mat> m[2];
    static void body(int r, void *p)
    {
        auto &c = *(Mx *)p;
        MPIInfo mpi;
        mpi.setWorld();
        {
            auto a = std::make_shared<A>(mpi);
            a->Resize(c.m[r].size(), c.ni, c.nj);
            for (size_t i = 0; i < c.m[r].size(); i++)
            {
                auto &w = c.m[r][i];
                if constexpr (NI == NonUniformSize || NJ == NonUniformSize) a->ResizeMat(i, w.ni, w.nj);
            }
            for (size_t i = 0; i < c.m[r].size(); i++)
                for (int x = 0; x < c.m[r][i].ni; x++)
                    for (int y = 0; y < c.m[r][i].nj; y++) (*a)[i](x, y) = c.m[r][i].v[x * 2 + y];
            File f(mpi, false);
            a->WriteSerializer(f.s, "m", ArrayGlobalOffset_Parts);
        }
        B b(mpi);
        {
            File f(mpi, true);
            auto o = ArrayGlobalOffset_Unknown;
            b.ReadSerializer(f.s, "m", o);
        }
        vh_assert(b.Size() == (index)c.m[r].size(), "matrices are read back with their number");
        for (size_t i = 0; i < c.m[r].size(); i++)
        {
            auto &w = c.m[r][i];
            vh_assert(b.MatRowSize(i) == w.ni && b.MatColSize(i) == w.nj && b[i].rows() == w.ni && b[i].cols() == w.nj, "matrices are read back with their shapes");
            for (int x = 0; x < w.ni; x++)
                for (int y = 0; y < w.nj; y++) vh_assert(b[i](x, y) == w.v[x * 2 + y], "matrices are read back with their contents");
        }
    }
    static void go(int n, int iLo = 1)
    {
        Mx c;
        c.n = n;
        c.ni = NI >= 0 ? NI : NI == NonUniformSize ? 2 : vh_concretize(vh_int("ni", 1, 2)), c.nj = NJ >= 0 ? NJ : NJ == NonUniformSize ? 2 : vh_concretize(vh_int("nj", 1, 2));
        for (int r = 0; r < n; r++)
        {
            int k = vh_concretize(vh_int("mats", 0, 2));
            for (int i = 0; i < k; i++)
            {
                Mat w;
                w.ni = NI == NonUniformSize ? vh_concretize(vh_int("i", 1, 2)) : c.ni;
                w.nj = NJ == NonUniformSize ? vh_concretize(vh_int("j", 1, 2)) : c.nj;
                for (auto &x : w.v) x = vh_real("v", -4, 4);
                c.m[r].push_back(w);
            }
        }
        mm_run(n, body, &c);
        vh_reach("matrix");
    }
};
struct Bt
{
    int n, ni, nj;
    std::vector<std::vector<Mat>> m[2];
    using A = ArrayEigenUniMatrixBatch<DynamicSize, DynamicSize>;
    static void body(int r, void *p)
    {
        auto &c = *(Bt *)p;
        MPIInfo mpi;
        mpi.setWorld();
        {
            auto a = std::make_shared<A>(mpi);
            a->Resize(c.m[r].size(), c.ni, c.nj);
            for (size_t i = 0; i < c.m[r].size(); i++) a->ResizeBatch(i, c.m[r][i].size());
            for (size_t i = 0; i < c.m[r].size(); i++)
                for (size_t k = 0; k < c.m[r][i].size(); k++)
                    for (int x = 0; x < c.ni; x++)
                        for (int y = 0; y < c.nj; y++) (*a)(i, k)(x, y) = c.m[r][i][k].v[x * 2 + y];
            File f(mpi, false);
            a->WriteSerializer(f.s, "m", ArrayGlobalOffset_Parts);
        }
        A b(mpi);
        {
            File f(mpi, true);
            auto o = ArrayGlobalOffset_Unknown;
            b.ReadSerializer(f.s, "m", o);
        }
        vh_assert(b.Size() == (index)c.m[r].size(), "batches are read back with their number");
        for (size_t i = 0; i < c.m[r].size(); i++)
        {
            vh_assert(b.BatchSize(i) == (rowsize)c.m[r][i].size() && b.Rows() == c.ni && b.Cols() == c.nj, "batches are read back with their sizes");
            for (size_t k = 0; k < c.m[r][i].size(); k++)
                for (int x = 0; x < c.ni; x++)
                    for (int y = 0; y < c.nj; y++) vh_assert(b(i, k)(x, y) == c.m[r][i][k].v[x * 2 + y], "batches are read back with their contents");
        }
    }
    static void go(int n)
    {
        Bt c;
        c.n = n, c.ni = vh_concretize(vh_int("ni", 1, 2)), c.nj = vh_concretize(vh_int("nj", 1, 2));
        for (int r = 0; r < n; r++)
        {
            c.m[r].resize(vh_concretize(vh_int("rows", 0, 2)));
            for (auto &b : c.m[r])
            {
                b.resize(vh_concretize(vh_int("batch", 0, 2)));
                for (auto &w : b)
                    for (auto &x : w.v) x = vh_real("v", -4, 4);
            }
        }
        mm_run(n, body, &c);
        vh_reach("matrix");
    }
};
template <class A, class B, DataLayout L> static void mismatch(int r, void *)
{
    MPIInfo mpi;
    mpi.setWorld();
    auto a = std::make_shared<A>(mpi);
    shape<A, L>(*a, std::vector<int>(1, 2), 2);
    {
        File f(mpi, false);
        a->WriteSerializer(f.s, "a", ArrayGlobalOffset_Parts);
    }
    vh_reach("mismatch");
    vh_expect_refuse();
    B b(mpi);
    File f(mpi, true);
    auto o = ArrayGlobalOffset_Unknown;
    b.ReadSerializer(f.s, "a", o);
    vh_assert(false, "an array of another element or row size is refused");
}
struct Per { Geom::Periodicity p; };
static void periodic(int r, void *q)
{
    auto &c = *(Per *)q;
    MPIInfo mpi;
    mpi.setWorld();
    {
        File f(mpi, false);
        c.p.WriteSerializer(f.s, "per");
    }
    Geom::Periodicity o;
    {
        File f(mpi, true);
        o.ReadSerializer(f.s, "per");
    }
    for (int i = 1; i < 4; i++)
        for (int a = 0; a < 3; a++)
        {
            vh_assert(o.translation[i](a) == c.p.translation[i](a) && o.rotationCenter[i](a) == c.p.rotationCenter[i](a), "translations and centers are read back");
            for (int b = 0; b < 3; b++) vh_assert(o.rotation[i](a, b) == c.p.rotation[i](a, b), "rotations are read back");
        }
}
}
using namespace DNDS::VH;
using namespace DNDS;
VH_ENTRY h_array()
{
    int lay = vh_concretize(vh_int("lay", 0, 6)), n = vh_concretize(vh_int("n", 1, 2));
    switch (lay)
    {
    case 0: return Arr<ParArray<real, 2>, ParArray<real, 2>, real, TABLE_StaticFixed>::go(n);
    case 1: return Arr<ParArray<DNDS::index, DynamicSize>, ParArray<DNDS::index, DynamicSize>, DNDS::index, TABLE_Fixed>::go(n);
    case 2: return Arr<ParArray<PairT, 2>, ParArray<PairT, DynamicSize>, PairT, TABLE_StaticFixed>::go(n);
    case 3: return Arr<ParArray<DNDS::index, NonUniformSize, 2>, ParArray<DNDS::index, NonUniformSize, 2>, DNDS::index, TABLE_StaticMax>::go(n);
    case 4: return Arr<ParArray<real, NonUniformSize, DynamicSize>, ParArray<real, NonUniformSize, DynamicSize>, real, TABLE_Max>::go(n);
    case 5: return Arr<ParArray<real, NonUniformSize>, ParArray<real, NonUniformSize>, real, CSR>::go(n);
    case 6: return Arr<ParArray<int, NonUniformSize>, ParArray<int, NonUniformSize>, int, CSR>::go(n);
    }
}
VH_ENTRY h_pair()
{
    int lay = vh_concretize(vh_int("lay", 0, 6));
    switch (lay)
    {
    case 0: return Pr<ParArray<real, 2>, real, TABLE_StaticFixed>::go();
    case 1: return Pr<ParArray<DNDS::index, DynamicSize>, DNDS::index, TABLE_Fixed>::go();
    case 2: return Pr<ParArray<PairT, 2>, PairT, TABLE_StaticFixed>::go();
    case 3: return Pr<ParArray<DNDS::index, NonUniformSize, 2>, DNDS::index, TABLE_StaticMax>::go();
    case 4: return Pr<ParArray<real, NonUniformSize, DynamicSize>, real, TABLE_Max>::go();
    case 5: return Pr<ParArray<real, NonUniformSize>, real, CSR>::go();
    case 6: return Pr<ParArray<int, NonUniformSize>, int, CSR>::go();
    }
}
VH_ENTRY h_matrix()
{
    int k = vh_concretize(vh_int("kind", 0, 5)), n = vh_concretize(vh_int("n", 1, 2));
    using D = ArrayEigenMatrix<DynamicSize, DynamicSize>;
    using F = ArrayEigenMatrix<2, 2>;
    using H = ArrayEigenMatrix<DynamicSize, 2>;
    using N = ArrayEigenMatrix<NonUniformSize, 2>;
    switch (k)
    {
    case 0: return Mx<F, F, 2, 2>::go(n);
    case 1: return Mx<D, D, DynamicSize, DynamicSize>::go(n);
    case 2: return Mx<H, H, DynamicSize, 2>::go(n);
    case 3: return Mx<N, N, NonUniformSize, 2>::go(n);
    case 4: return Mx<F, H, 2, 2>::go(n);
    case 5: return Bt::go(n);
    }
}
VH_ENTRY h_mismatch()
{
    switch (vh_concretize(vh_int("what", 0, 5)))
    {
    case 0: return mm_run(1, mismatch<ParArray<real, 2>, ParArray<real, 3>, TABLE_StaticFixed>, nullptr);
    case 1: return mm_run(1, mismatch<ParArray<int, 2>, ParArray<PairT, 2>, TABLE_StaticFixed>, nullptr);
    case 2: return mm_run(1, mismatch<ParArray<int, DynamicSize>, ParArray<int, 3>, TABLE_Fixed>, nullptr);
    case 3: return mm_run(1, mismatch<ParArray<int, NonUniformSize>, ParArray<int, 2>, CSR>, nullptr);
    case 4: return mm_run(1, mismatch<ParArray<int, 2>, ParArray<int, NonUniformSize>, TABLE_StaticFixed>, nullptr);
    case 5: return mm_run(1, mismatch<ParArray<int, NonUniformSize, 2>, ParArray<int, NonUniformSize, 3>, TABLE_StaticMax>, nullptr);
    }
}
VH_ENTRY h_periodic()
{
    Per c;
    int n = vh_concretize(vh_int("n", 1, 2));
    for (int i = 1; i < 4; i++)
        for (int a = 0; a < 3; a++)
        {
            c.p.translation[i](a) = vh_real("t", -4, 4), c.p.rotationCenter[i](a) = vh_real("c", -4, 4);
            for (int b = 0; b < 3; b++) c.p.rotation[i](a, b) = vh_real("r", -1, 1);
        }
    mm_run(n, periodic, &c);
    vh_reach("periodic");
}
