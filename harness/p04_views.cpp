//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P04","entry":"h_adj","bounds":"adjacency arrays of <=2 rows of <=3 entries (fixed, padded, compressed), any entries, any position","reach":["adj","refused"]}
//@run {"prop":"P04","entry":"h_vec","bounds":"vector arrays of <=2 rows of <=3 entries, any entries","reach":["vec"]}
//@run {"prop":"P04","entry":"h_mat","bounds":"matrix arrays of <=2 matrices of 1..2 x 1..2 entries, every combination of fixed, run-time and per-matrix sizes, any entries","reach":["mat"],"shard":[["kind",0,8]]}
//@run {"prop":"P04","entry":"h_batch","bounds":"<=2 rows of <=2 matrices of 0..2 x 0..2, any entries; rewriting a row, compressing","reach":["batch"],"shard":[["n",0,2]]}
//@run {"prop":"P04","entry":"h_fields","bounds":"any 16- and 32-bit header values","reach":["fields"]}
//@run {"prop":"P04","entry":"h_uni","bounds":"<=2 rows of <=2 matrices, fixed and run-time sizes 1..2 x 1..2","reach":["uni","refused"]}
//@run {"prop":"P04","entry":"h_pair","bounds":"own and ghost part of <=2 rows of <=2 entries, any position","reach":["own","ghost","refused"]}
//@run {"prop":"P04","entry":"h_pairswap","bounds":"2 ranks of <=1 row, any ghosts, swapped with and without a persistent pull set up; both transports","reach":["swapped"]}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
namespace DNDS::VH {
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
static MPIInfo one()
{
    MPIInfo m;
    m.comm = MPI_COMM_WORLD, m.rank = 0, m.size = 1;
    return m;
}
template <class A> static void adj(A &a, const std::vector<rowsize> &sz)
{
    index n = sz.size();
    std::vector<std::vector<index>> ref(n);
    for (index i = 0; i < n; i++)
    {
        for (rowsize j = 0; j < sz[i]; j++) ref[i].push_back(vh_int("v", -1000, 1000));
        if (pick("how", 0, 1)) a[i] = ref[i];
        else
            for (rowsize j = 0; j < sz[i]; j++) a[i][j] = ref[i][j];
    }
    auto same = [&](const char *m) {
        for (index i = 0; i < n; i++)
        {
            auto r = a[i];
            const A &ca = a;
            vh_assert(r.size() == (rowsize)ref[i].size() && r.end() - r.begin() == r.size() && r.cend() - r.cbegin() == r.size(), "an adjacency row has the size of the row");
            vh_assert(a.rowPtr(i) == r.begin() && ca[i].cbegin() == r.cbegin(), "an adjacency row views the row's storage");
            std::vector<index> v = r;
            vh_assert(v.size() == ref[i].size(), "an adjacency row converts to a list of its size");
            for (size_t j = 0; j < ref[i].size(); j++)
                vh_assert((r[j] == ref[i][j]) & (ca[i][j] == ref[i][j]) & (a(i, j) == ref[i][j]) & (v[j] == ref[i][j]) & (r.begin()[j] == ref[i][j]), m);
        }
    };
    same("an adjacency row reads what was written, through every access");
    if (n == 2 && sz[0] == sz[1])
    {
        a[0] = a[1];
        ref[0] = ref[1];
        same("assigning a row copies every entry and changes no other row");
    }
    vh_reach("adj");
    if (n == 0) return;
    index i = vh_int("i", -3, 5);
    rowsize j = vh_int("j", -(1l << 31), (1l << 31) - 1);
    bool in = false;
    for (index k = 0; k < n; k++) in = in | ((i == k) & (j >= 0) & (j < sz[k]));
    vh_assume(!in);
    vh_expect_refuse();
    if (i >= 0 && i < n && pick("list", 0, 1))
    {
        std::vector<index> w(sz[vh_concretize(i)] + 1, 3);
        a[vh_concretize(i)] = w;
        vh_assert(false, "assigning a list of another size is refused");
    }
    index x = a[i][j];
    vh_assert(x != x, "an adjacency entry out of range is refused");
}
VH_ENTRY h_adj()
{
    index n = pick("n", 0, 2);
    long k = pick("kind", 0, 3);
    std::vector<rowsize> sz(n);
    for (auto &s : sz) s = k == 0 ? 3 : pick("r", 0, 2);
    auto rows = [&](auto &a) { for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); };
    if (k == 0) { ArrayAdjacency<3> a(one()); a.Resize(n); adj(a, sz); }
    if (k == 1) { ArrayAdjacency<NonUniformSize, 3> a(one()); a.Resize(n); rows(a); adj(a, sz); }
    if (k == 2) { ArrayAdjacency<NonUniformSize> a(one()); a.Resize(n); rows(a); adj(a, sz); }
    if (k == 3) { ArrayAdjacency<NonUniformSize> a(one()); a.Resize(n); rows(a); a.Compress(); adj(a, sz); }
    ArrayIndex x(one());
    x.Resize(n);
    for (index i = 0; i < n; i++) x[i] = 10 + i;
    for (index i = 0; i < n; i++) vh_assert(x[i] == 10 + i && x(i, 0) == 10 + i && *x.rowPtr(i) == 10 + i, "an index array holds one index per row");
}
VH_ENTRY h_vec()
{
    index n = pick("n", 0, 2);
    long k = pick("kind", 0, 3);
    auto go = [&](auto &a, const std::vector<rowsize> &sz) {
        std::vector<std::vector<real>> ref(n);
        for (index i = 0; i < n; i++)
            for (rowsize j = 0; j < sz[i]; j++) ref[i].push_back(vh_real("v", -4, 4)), a[i](j) = ref[i][j];
        for (index i = 0; i < n; i++)
        {
            vh_assert(a[i].size() == sz[i] && a[i].rows() == sz[i] && a[i].cols() == 1, "a vector view has the size of the row");
            for (rowsize j = 0; j < sz[i]; j++) vh_assert(a[i](j) == ref[i][j] && a(i, j) == ref[i][j], "a vector view reads and writes its row only");
        }
    };
    std::vector<rowsize> sz(n);
    int m = pick("m", 0, 3);
    for (auto &s : sz) s = k == 0 ? 3 : k == 1 ? m : pick("r", 0, 3);
    if (k == 0) { ArrayEigenVector<3> a(one()); a.Resize(n); go(a, sz); }
    if (k == 1) { ArrayEigenVector<DynamicSize> a(one()); a.Resize(n, m); go(a, sz); }
    if (k == 2) { ArrayEigenVector<NonUniformSize, 3> a(one()); a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); go(a, sz); }
    if (k == 3) { ArrayEigenVector<NonUniformSize> a(one()); a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); if (pick("c", 0, 1)) a.Compress(); go(a, sz); }
    vh_reach("vec");
}
template <int ni, int nj, int ni_max, int nj_max> static void mat()
{
    using A = ArrayEigenMatrix<ni, nj, ni_max, nj_max>;
    constexpr bool var = ni == NonUniformSize || nj == NonUniformSize;
    A a(one()), b(one());
    index n = pick("n", 0, 2);
    int R0 = ni_max > 0 ? ni_max : pick("R", 1, 2), C0 = nj_max > 0 ? nj_max : pick("C", 1, 2);
    std::vector<int> R(n, R0), C(n, C0), R2(n, R0), C2(n, C0);
    auto fill = [&](A &x, std::vector<int> &R, std::vector<int> &C, std::vector<MatrixXR> &ref) {
        x.Resize(n, R0, C0);
        if constexpr (var)
            for (index i = 0; i < n; i++)
            {
                if (ni == NonUniformSize) R[i] = pick("r", 1, ni_max > 0 ? ni_max : 2);
                if (nj == NonUniformSize) C[i] = pick("c", 1, nj_max > 0 ? nj_max : 2);
                x.ResizeMat(i, R[i], C[i]);
            }
        for (index i = 0; i < n; i++)
        {
            ref.push_back(MatrixXR::Zero(R[i], C[i]));
            for (int c = 0; c < C[i]; c++)
                for (int r = 0; r < R[i]; r++) x[i](r, c) = ref[i](r, c) = vh_real("v", -4, 4);
        }
    };
    auto same = [&](A &x, std::vector<int> &R, std::vector<int> &C, std::vector<MatrixXR> &ref, const char *m) {
        vh_assert(x.Size() == n, "as many matrices as asked for");
        for (index i = 0; i < n; i++)
        {
            auto M = x[i];
            auto K = ((const A &)x)[i];
            vh_assert(M.rows() == R[i] && M.cols() == C[i] && K.rows() == R[i] && K.cols() == C[i], "a matrix has the size it was given");
            vh_assert(x.MatRowSize(i) == R[i] && x.MatColSize(i) == C[i], "the reported size is the size of the matrix");
            for (int c = 0; c < C[i]; c++)
                for (int r = 0; r < R[i]; r++) vh_assert(M(r, c) == ref[i](r, c) && K(r, c) == ref[i](r, c), m);
        }
    };
    std::vector<MatrixXR> ra, rb;
    fill(a, R, C, ra);
    same(a, R, C, ra, "a matrix reads what was written to it");
    A d(a);
    fill(b, R2, C2, rb);
    for (index i = 0; i < n; i++) d[i].setConstant(9);
    if constexpr (var)
        if (n && pick("dresize", 0, 1)) d.ResizeMat(0, ni > 0 ? R0 : 3 - R[0], nj > 0 ? C0 : 3 - C[0]);
    same(a, R, C, ra, "a copy has matrices of its own");
    if (ni_max > 0 || nj_max > 0 || !var)
    { // swapping needs the same storage
        a.SwapData(b);
        same(a, R2, C2, rb, "swapping exchanges the matrices");
        same(b, R, C, ra, "swapping exchanges the matrices");
    }
    vh_reach("mat");
}
VH_ENTRY h_mat()
{
    switch (pick("kind", 0, 8))
    {
    case 0: return mat<2, 2, 2, 2>();
    case 1: return mat<2, DynamicSize, 2, DynamicSize>();
    case 2: return mat<DynamicSize, 2, DynamicSize, 2>();
    case 3: return mat<DynamicSize, DynamicSize, DynamicSize, DynamicSize>();
    case 4: return mat<NonUniformSize, NonUniformSize, NonUniformSize, NonUniformSize>();
    case 5: return mat<NonUniformSize, 2, NonUniformSize, 2>();
    case 6: return mat<2, NonUniformSize, 2, NonUniformSize>();
    case 7: return mat<NonUniformSize, NonUniformSize, 2, 2>();
    case 8: return mat<NonUniformSize, 1, 2, 1>();
    }
}
VH_ENTRY h_batch()
{
    index n = pick("n", 0, 2);
    ArrayEigenMatrixBatch a(one());
    a.Resize(n);
    std::vector<std::vector<MatrixXR>> ref(n);
    auto mk = [](int most) {
        std::vector<MatrixXR> v;
        int k = pick("k", 0, most);
        for (int q = 0; q < k; q++)
        {
            int r = pick("r", 0, 2), c = pick("c", 0, 2);
            MatrixXR m(r, c);
            for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) m(x, y) = vh_real("v", -4, 4);
            v.push_back(m);
        }
        return v;
    };
    auto same = [&](const char *msg) {
        for (index i = 0; i < n; i++)
        {
            auto b = a[i];
            vh_assert(b.Size() == ref[i].size(), "a batch holds as many matrices as were put in");
            for (size_t q = 0; q < ref[i].size(); q++)
            {
                auto m = a(i, q);
                vh_assert(m.rows() == ref[i][q].rows() && m.cols() == ref[i][q].cols() && b.getNRow(q) == m.rows() && b.getNCol(q) == m.cols(), "a batched matrix keeps its size");
                for (int x = 0; x < m.rows(); x++) for (int y = 0; y < m.cols(); y++) vh_assert(m(x, y) == ref[i][q](x, y) && b[q](x, y) == m(x, y), msg);
            }
        }
    };
    for (index i = 0; i < n; i++) ref[i] = mk(i ? 1 : 2), a.InitializeWriteRow(i, ref[i]);
    same("a batched matrix reads what was put in");
    if (n && pick("again", 0, 1))
    {
        index i = pick("i", 0, n - 1);
        ref[i] = mk(1);
        a.InitializeWriteRow(i, ref[i]);
        same("rewriting a row changes no other row");
    }
    a.Compress();
    same("compressing keeps the batches");
    vh_reach("batch");
}
VH_ENTRY h_fields()
{
    MatrixBatch::UInt16QuadIn64 q;
    MatrixBatch::UInt32PairIn64 p;
    q.data = vh_int("q", -9223372036854775807l - 1, 9223372036854775807l);
    p.data = q.data;
    uint16_t o[4] = {q.getA(), q.getB(), q.getC(), q.getD()};
    uint32_t m[2] = {p.getM(), p.getN()};
    vh_assert((uint64_t(o[0]) | uint64_t(o[1]) << 16 | uint64_t(o[2]) << 32 | uint64_t(o[3]) << 48) == q.data, "four fields make the word");
    vh_assert((uint64_t(m[0]) | uint64_t(m[1]) << 32) == p.data, "two fields make the word");
    uint16_t v = vh_int("v", 0, 65535);
    uint32_t w = vh_int("w", 0, 4294967295l);
    int f = pick("f", 0, 3);
    if (f == 0) q.setA(v); if (f == 1) q.setB(v); if (f == 2) q.setC(v); if (f == 3) q.setD(v);
    o[f] = v;
    vh_assert((q.getA() == o[0]) & (q.getB() == o[1]) & (q.getC() == o[2]) & (q.getD() == o[3]), "setting a field sets that field only");
    if (f & 1) p.setN(w); else p.setM(w);
    m[f & 1] = w;
    vh_assert((p.getM() == m[0]) & (p.getN() == m[1]), "setting a field sets that field only");
    vh_reach("fields");
}
template <int r, int c> static void uni()
{
    int R = r > 0 ? r : pick("R", 1, 2), C = c > 0 ? c : pick("C", 1, 2);
    index n = pick("n", 0, 2);
    ArrayEigenUniMatrixBatch<r, c> a(one());
    a.Resize(n, R, C);
    vh_assert(a.Rows() == R && a.Cols() == C && a.MSize() == R * C, "the matrix size is the one asked for");
    std::vector<std::vector<MatrixXR>> ref(n);
    for (index i = 0; i < n; i++)
    {
        int k = pick("k", 0, 2);
        if (pick("how", 0, 1)) a.ResizeRow(i, k);
        else a.ResizeBatch(i, k);
        for (int q = 0; q < k; q++)
        {
            MatrixXR m(R, C);
            for (int x = 0; x < R; x++) for (int y = 0; y < C; y++) m(x, y) = vh_real("v", -4, 4);
            ref[i].push_back(m);
            a(i, q) = m;
        }
    }
    for (int pass = 0; pass < 2; pass++)
    {
        for (index i = 0; i < n; i++)
        {
            vh_assert(a.BatchSize(i) == (rowsize)ref[i].size() && a.RowSize(i) == (rowsize)ref[i].size(), "a row holds as many matrices as asked for");
            auto all = a[i];
            vh_assert(all.size() == ref[i].size(), "a row lists all its matrices");
            for (size_t q = 0; q < ref[i].size(); q++)
            {
                auto m = a(i, q);
                auto k = ((const ArrayEigenUniMatrixBatch<r, c> &)a)(i, q);
                vh_assert(m.rows() == R && m.cols() == C && all[q].rows() == R && all[q].cols() == C && k.rows() == R && k.cols() == C, "a matrix has the common size");
                for (int x = 0; x < R; x++) for (int y = 0; y < C; y++) vh_assert(m(x, y) == ref[i][q](x, y) && all[q](x, y) == ref[i][q](x, y) && k(x, y) == m(x, y), "a matrix reads what was written to it");
            }
        }
        a.Compress();
    }
    vh_reach("uni");
    if (n == 0) return;
    index i = pick("i", 0, n - 1);
    rowsize j = vh_int("j", -(1l << 31), (1l << 31) - 1);
    vh_assume((j < 0) | (j >= (rowsize)ref[i].size()));
    vh_expect_refuse();
    a(i, j);
    vh_assert(false, "a matrix out of range is refused");
}
VH_ENTRY h_uni()
{
    switch (pick("kind", 0, 3))
    {
    case 0: return uni<2, 1>();
    case 1: return uni<Eigen::Dynamic, 2>();
    case 2: return uni<2, Eigen::Dynamic>();
    case 3: return uni<Eigen::Dynamic, Eigen::Dynamic>();
    }
}
VH_ENTRY h_pair()
{
    ArrayAdjacencyPair<NonUniformSize> p;
    p.father = std::make_shared<ArrayAdjacency<NonUniformSize>>(one()), p.son = std::make_shared<ArrayAdjacency<NonUniformSize>>(one());
    index nf = pick("nf", 0, 2), ns = pick("ns", 0, 2);
    p.father->Resize(nf), p.son->Resize(ns);
    vh_assert(p.Size() == nf + ns, "a pair has the rows of both parts");
    std::vector<std::vector<index>> ref(nf + ns);
    for (index i = 0; i < nf + ns; i++)
    {
        ref[i].resize(pick("r", 0, 2));
        p.ResizeRow(i, ref[i].size());
        for (size_t j = 0; j < ref[i].size(); j++) p(i, j) = ref[i][j] = vh_int("v", -9, 9);
    }
    if (pick("comp", 0, 1)) p.CompressBoth();
    const auto &cp = p;
    for (index i = 0; i < nf + ns; i++)
    {
        auto &part = i < nf ? *p.father : *p.son;
        index k = i < nf ? i : i - nf;
        vh_assert(p.RowSize(i) == (rowsize)ref[i].size() && part.RowSize(k) == p.RowSize(i) && p[i].size() == p.RowSize(i), "a row of a pair has the size it was given");
        vh_assert(p[i].begin() == part.rowPtr(k) && cp[i].cbegin() == part.rowPtr(k), "rows of a pair are its own rows, then its ghosts");
        for (size_t j = 0; j < ref[i].size(); j++) vh_assert(p(i, j) == ref[i][j] && cp(i, j) == ref[i][j] && p[i][j] == ref[i][j] && part(k, j) == ref[i][j], "a row of a pair reads what was written");
        vh_reach(i < nf ? "own" : "ghost");
    }
    index i = vh_int("i", -(1l << 40), 1l << 40);
    vh_assume((i < 0) | (i >= nf + ns));
    vh_expect_refuse();
    index x = p(i, 0);
    vh_assert(x != x, "a row out of range is refused");
}
struct SwapC { int late, insitu, init; index len[2]; int mask[2]; std::vector<real> A, B; };
static void swapBody(int r, void *q)
{
    auto &c = *(SwapC *)q;
    MPIInfo mpi;
    mpi.setWorld();
    using Pair = ArrayPair<ArrayEigenMatrix<DynamicSize, 1>>;
    Pair a, b;
    index off = r ? c.len[0] : 0;
    auto mk = [&](Pair &p, std::vector<real> &v) {
        p.father = std::make_shared<ArrayEigenMatrix<DynamicSize, 1>>(mpi), p.son = std::make_shared<ArrayEigenMatrix<DynamicSize, 1>>(mpi);
        p.father->Resize(c.len[r], 2, 1), p.son->Resize(0, 2, 1);
        p.TransAttach();
        p.trans.createFatherGlobalMapping();
        std::vector<index> pull;
        for (size_t g = 0; g < c.A.size(); g++) if (c.mask[r] >> g & 1) pull.push_back(g);
        p.trans.createGhostMapping(pull);
        p.trans.createMPITypes();
        for (index i = 0; i < c.len[r]; i++) p[i](0) = v[off + i], p[i](1) = 2 * v[off + i];
    };
    auto same = [&](Pair &p, std::vector<real> &v, const char *m) {
        index k = c.len[r];
        for (index i = 0; i < c.len[r]; i++) vh_assert(p[i](0) == v[off + i] && p[i](1) == 2 * v[off + i], m);
        for (size_t g = 0; g < v.size(); g++)
            if (c.mask[r] >> g & 1)
            {
                vh_assert(p[k](0) == v[g] && p[k](1) == 2 * v[g], m);
                k++;
            }
        vh_assert(p.Size() == k, "a pair has its own rows and its ghosts");
    };
    mk(a, c.A), mk(b, c.B);
    if (c.init == 2) a.trans.initPersistentPull(), b.trans.initPersistentPull();
    if (c.init == 1) a.trans.pullOnce(), b.trans.pullOnce();
    if (c.init == 2) a.trans.startPersistentPull(), a.trans.waitPersistentPull(), b.trans.startPersistentPull(), b.trans.waitPersistentPull();
    if (c.init) same(a, c.A, "a pull fills the ghosts"), same(b, c.B, "a pull fills the ghosts");
    a.SwapDataFatherSon(b);
    if (c.init) same(a, c.B, "swapping pairs exchanges own rows and ghosts"), same(b, c.A, "swapping pairs exchanges own rows and ghosts");
    if (c.init != 2) a.trans.initPersistentPull(), b.trans.initPersistentPull();
    for (index i = 0; i < c.len[r]; i++) a[i] *= 3;
    a.trans.startPersistentPull(), a.trans.waitPersistentPull(), b.trans.startPersistentPull(), b.trans.waitPersistentPull();
    std::vector<real> B3 = c.B;
    for (auto &x : B3) x *= 3;
    same(a, B3, "a pull after a swap fills the ghosts from the exchanged rows"), same(b, c.A, "a pull after a swap fills the ghosts from the exchanged rows");
    Pair d;
    d.father = std::make_shared<ArrayEigenMatrix<DynamicSize, 1>>(mpi), d.son = std::make_shared<ArrayEigenMatrix<DynamicSize, 1>>(mpi);
    d.father->Resize(c.len[r], 2, 1), d.son->Resize(0, 2, 1);
    d.CopyFather(a);
    a.trans.clearPersistentPull(), b.trans.clearPersistentPull();
    for (index i = 0; i < c.len[r]; i++) vh_assert(d[i](0) == B3[off + i] && d[i](1) == 2 * B3[off + i] && d[i].data() != a[i].data(), "copying takes the own rows");
    vh_reach("swapped");
}
VH_ENTRY h_pairswap()
{
    SwapC c;
    c.late = pick("late", 0, 1), c.insitu = pick("insitu", 0, 1), c.init = pick("init", 0, 2);
    c.len[0] = pick("len", 0, 1), c.len[1] = pick("len", 0, 1);
    int n = c.len[0] + c.len[1];
    c.mask[0] = pick("mask", 0, (1 << n) - 1), c.mask[1] = pick("mask", 0, (1 << n) - 1);
    for (int i = 0; i < n; i++) c.A.push_back(vh_real("a", -4, 4)), c.B.push_back(vh_real("b", -4, 4));
    mm_late = c.late;
    MPI::CommStrategy::Instance().SetArrayStrategy(c.insitu ? MPI::CommStrategy::InSituPack : MPI::CommStrategy::HIndexed);
    mm_run(2, swapBody, &c);
}
} // namespace
