//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P14","entry":"h_struct","bounds":"every symmetric pattern of <=4 unknowns, natural order and 5 permutations (incl. reversed, rotated), fill codes -1..2","reach":["full","ilu"],"shard":[["code",-1,2],["ord",0,5]]}
//@run {"prop":"P14","entry":"h_lu","bounds":"<=4 scalar unknowns, every symmetric pattern, natural order and 3 permutations, fill codes -1..1, any matrix with pivots in [1,2] and factor entries in [-1,1], any right-hand side; both decomposition variants","reach":["lu"],"shard":[["var",0,1],["code",-1,1],["ord",0,3]],"time":700}
//@run {"prop":"P14","entry":"h_ldlt","bounds":"<=4 scalar unknowns, every symmetric pattern, natural order and 3 permutations, fill codes -1..1, any symmetric matrix with pivots in [1,2] and factor entries in [-1,1], any right-hand side","reach":["ldlt"],"shard":[["code",-1,1],["ord",0,3]],"time":700}
//@run {"prop":"P14","entry":"h_block","bounds":"<=3 unknowns of 2 components, every symmetric pattern, 4 orders, any factor entries in [-1,1], generic pivot blocks; LU (both variants) and LDLT","reach":["block"],"shard":[["var",0,2],["ord",0,3]],"time":700}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include <unordered_set>
#include "Euler/EulerJacobian.hpp"
namespace DNDS::VH {
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
static MPIInfo one()
{
    MPIInfo m;
    m.comm = MPI_COMM_WORLD, m.rank = 0, m.size = 1;
    return m;
}
using Adj = std::vector<std::vector<index>>;
static const int PERM[6][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 3, 0}, {2, 0, 3, 1}, {1, 0, 3, 2}, {0, 3, 1, 2}}; // new -> old
struct Prob
{
    int n, code;
    Adj adj;
    bool pat[4][4]; // old numbering
    ssp<Direct::SerialSymLUStructure> s;
    std::vector<int> n2o, o2n;
    bool S[4][4]; // structure of the factors, new numbering
};
static Prob prob(int nLo, int nHi, int ord)
{
    Prob p;
    p.n = pick("n", nLo, nHi);
    p.adj.resize(p.n);
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) p.pat[i][j] = i == j;
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < i; j++)
            if (pick("edge", 0, 1)) p.pat[i][j] = p.pat[j][i] = true;
    for (int i = 0; i < p.n; i++)
        for (int j = p.n - 1; j >= 0; j--) // neighbour lists come in any order
            if (i != j && p.pat[i][j]) p.adj[i].push_back(j);
    p.s = std::make_shared<Direct::SerialSymLUStructure>(one(), p.n);
    p.o2n.resize(p.n);
    for (int k = 0; k < 4; k++)
        if (PERM[ord][k] < p.n) p.n2o.push_back(PERM[ord][k]);
    for (int k = 0; k < p.n; k++) p.o2n[p.n2o[k]] = k;
    if (ord)
    {
        p.s->localFillOrderingNew2Old.assign(p.n2o.begin(), p.n2o.end());
        p.s->localFillOrderingOld2New.assign(p.o2n.begin(), p.o2n.end());
    }
    return p;
}
static bool has(const std::vector<index> &v, index x)
{
    for (auto y : v)
        if (y == x) return true;
    return false;
}
static void factor(Prob &p, int code)
{
    p.code = code;
    p.s->ObtainSymmetricSymbolicFactorization(p.adj, code);
    auto &s = *p.s;
    vh_assert(s.lowerTriStructureNew.size() == p.n && s.upperTriStructureNew.size() == p.n && s.lowerTriStructure.size() == p.n && s.upperTriStructure.size() == p.n, "one row of structure per unknown");
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++)
            p.S[i][j] = i == j || has(j < i ? s.lowerTriStructureNew[i] : s.upperTriStructureNew[i], j);
}
VH_ENTRY h_struct()
{
    int code = pick("code", -1, 2), ord = pick("ord", 0, 5);
    Prob p = prob(1, 4, ord);
    factor(p, code);
    auto &s = *p.s;
    for (int i = 0; i < p.n; i++)
    {
        auto &lo = s.lowerTriStructureNew[i], &up = s.upperTriStructureNew[i];
        for (size_t k = 0; k < lo.size(); k++) vh_assert(lo[k] >= 0 && lo[k] < i && (k == 0 || lo[k - 1] < lo[k]), "lower rows are sorted and strictly lower");
        for (size_t k = 0; k < up.size(); k++) vh_assert(up[k] < p.n && up[k] > i && (k == 0 || up[k - 1] < up[k]), "upper rows are sorted and strictly upper");
        auto &lold = s.lowerTriStructure[p.n2o[i]], &uold = s.upperTriStructure[p.n2o[i]];
        vh_assert(lold.size() == lo.size() && uold.size() == up.size(), "both numberings hold the same rows");
        for (size_t k = 0; k < lo.size(); k++) vh_assert(lold[k] == p.n2o[lo[k]], "both numberings hold the same lower entries");
        for (size_t k = 0; k < up.size(); k++) vh_assert(uold[k] == p.n2o[up[k]], "both numberings hold the same upper entries");
        for (size_t k = 0; k < lo.size(); k++)
        {
            index q = s.lowerTriStructureNewInUpper[i][k];
            vh_assert(q >= 0 && q < s.upperTriStructureNew[lo[k]].size() && s.upperTriStructureNew[lo[k]][q] == i, "a lower entry knows its transpose");
        }
        for (size_t k = 0; k < up.size(); k++)
        {
            index q = s.upperTriStructureNewInLower[i][k];
            vh_assert(q >= 0 && q < s.lowerTriStructureNew[up[k]].size() && s.lowerTriStructureNew[up[k]][q] == i, "an upper entry knows its transpose");
        }
    }
    // distance in the adjacency graph (old numbering)
    int d[4][4];
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) d[i][j] = i == j ? 0 : p.pat[i][j] ? 1 : 99;
    for (int k = 0; k < p.n; k++)
        for (int i = 0; i < p.n; i++)
            for (int j = 0; j < p.n; j++)
                if (d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j];
    bool full[4][4]; // elimination fill
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) full[i][j] = p.pat[p.n2o[i]][p.n2o[j]];
    for (int k = 0; k < p.n; k++)
        for (int i = k + 1; i < p.n; i++)
            for (int j = k + 1; j < p.n; j++)
                if (full[i][k] && full[k][j] && (code < 0 || d[p.n2o[i]][p.n2o[j]] <= code + 1)) full[i][j] = true;
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++)
        {
            bool inPat = p.pat[p.n2o[i]][p.n2o[j]];
            vh_assert(p.S[i][j] == p.S[j][i], "the factor structure is symmetric");
            vh_assert(!inPat || p.S[i][j], "the factors hold every entry of the matrix");
            if (code <= 0) vh_assert(p.S[i][j] == (code ? full[i][j] : inPat), code ? "complete factors hold exactly the fill of elimination" : "ILU(0) keeps the pattern of the matrix");
            else vh_assert(!p.S[i][j] || full[i][j], "incomplete factors only hold fill within their stencil");
            if (code > 0) vh_assert(p.S[i][j] || !full[i][j], "incomplete factors hold all fill within their stencil");
        }
    for (int i = 0; i < p.n; i++)
        for (size_t k = 0; k < p.adj[i].size(); k++)
        {
            index q = s.cell2cellFaceVLocal2FullRowPos[i][k];
            size_t nl = s.lowerTriStructure[i].size();
            vh_assert(q >= 1 && q <= nl + s.upperTriStructure[i].size(), "the position of a neighbour lies in the row");
            vh_assert((q <= nl ? s.lowerTriStructure[i][q - 1] : s.upperTriStructure[i][q - 1 - nl]) == p.adj[i][k], "the position of a neighbour finds that neighbour");
        }
    vh_reach(code < 0 ? "full" : "ilu");
}
template <int B> static void initV(Euler::ArrayDOFV<B> &v, int n)
{
    v.father = std::make_shared<typename decltype(v.father)::element_type>(one());
    v.son = std::make_shared<typename decltype(v.son)::element_type>(one());
    v.father->Resize(n, B, 1);
    v.son->Resize(0, B, 1);
}
template <int B> using M = Eigen::Matrix<real, B, B>;
template <int B> static M<B> anyM()
{
    M<B> m;
    for (int i = 0; i < B; i++)
        for (int j = 0; j < B; j++) m(i, j) = vh_real("m", -1, 1);
    return m;
}
template <int B> static M<B> pivot(int k, bool sym)
{
    M<B> m;
    if (B == 1) m(0, 0) = vh_real("piv", 1, 2);
    else
    { // generic blocks with exact inverses, so that rounding leaves the identities exact
        static const double N[3][4] = {{2, 1, 2, 2}, {1, 1, -1, 1}, {4, 2, -2, 1}}, Y[3][4] = {{2, 1, 1, 1}, {1, 1, 1, 2}, {4, 2, 2, 2}};
        for (int i = 0; i < 4; i++) m(i / 2, i % 2) = (sym ? Y : N)[k][i];
    }
    return m;
}
// A := (L (D + U)) restricted to the structure, with any L, U; the decomposition must then recover the same factors, so Solve inverts L (D + U)
template <int B> static void runLU(Prob &p, int var)
{
    M<B> L[4][4], U[4][4], P[4][4];
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++)
        {
            L[i][j].setZero(), U[i][j].setZero();
            if (i == j) L[i][j].setIdentity(), U[i][j] = pivot<B>(i, false);
            else if (p.S[i][j]) (j < i ? L : U)[i][j] = anyM<B>();
        }
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++)
        {
            P[i][j].setZero();
            for (int k = 0; k <= std::min(i, j); k++)
                if (p.S[i][k] && p.S[k][j]) P[i][j] += L[i][k] * U[k][j];
        }
    Euler::JacobianLocalLU<B> J(p.s, B);
    J.setZero();
    for (int i = 0; i < p.n; i++)
    {
        int io = p.n2o[i];
        J.GetDiag(io) = P[i][i];
        for (size_t k = 0; k < p.s->lowerTriStructureNew[i].size(); k++) J.GetLower(io, k) = P[i][p.s->lowerTriStructureNew[i][k]];
        for (size_t k = 0; k < p.s->upperTriStructureNew[i].size(); k++) J.GetUpper(io, k) = P[i][p.s->upperTriStructureNew[i][k]];
    }
    Euler::ArrayDOFV<B> x, b, y;
    initV<B>(x, p.n), initV<B>(b, p.n), initV<B>(y, p.n);
    for (int i = 0; i < p.n; i++)
        for (int c = 0; c < B; c++) x[i](c) = vh_real("x", -1, 1), y[i](c) = vh_real("garbage", -1, 1), b[i](c) = 0;
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) b[p.n2o[i]] += P[i][j] * x[p.n2o[j]];
    if (p.code < 0)
    {
        J.MatMul(x, y);
        for (int i = 0; i < p.n; i++)
            for (int c = 0; c < B; c++) vh_close(y[i](c), b[i](c), 1e-9, "the matrix-vector product is that of the stored matrix");
    }
    if (var == 0) J.InPlaceDecompose();
    else J.InPlaceDecomposeV2();
    vh_assert(J.isDecomposed, "a decomposed matrix says so");
    J.Solve(b, y);
    for (int i = 0; i < p.n; i++)
        for (int c = 0; c < B; c++) vh_close(y[i](c), x[i](c), 1e-8, p.code < 0 ? "the complete factorization solves the system" : "the incomplete factors reproduce the matrix on the structure");
}
template <int B> static void runLDLT(Prob &p)
{
    M<B> L[4][4], D[4], P[4][4];
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j <= i; j++)
        {
            L[i][j].setZero();
            if (i == j) L[i][j].setIdentity(), D[i] = pivot<B>(i, true);
            else if (p.S[i][j]) L[i][j] = anyM<B>();
        }
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++)
        {
            P[i][j].setZero();
            for (int k = 0; k <= std::min(i, j); k++)
                if (p.S[i][k] && p.S[k][j]) P[i][j] += L[i][k] * D[k] * L[j][k].transpose();
        }
    Euler::JacobianLocalLDLT<B> J(p.s, B);
    J.setZero();
    for (int i = 0; i < p.n; i++)
    {
        int io = p.n2o[i];
        J.GetDiag(io) = P[i][i];
        for (size_t k = 0; k < p.s->lowerTriStructureNew[i].size(); k++) J.GetLower(io, k) = P[i][p.s->lowerTriStructureNew[i][k]];
    }
    Euler::ArrayDOFV<B> x, b, y;
    initV<B>(x, p.n), initV<B>(b, p.n), initV<B>(y, p.n);
    for (int i = 0; i < p.n; i++)
        for (int c = 0; c < B; c++) x[i](c) = vh_real("x", -1, 1), y[i](c) = vh_real("garbage", -1, 1), b[i](c) = 0;
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) b[p.n2o[i]] += P[i][j] * x[p.n2o[j]];
    if (p.code < 0)
    {
        J.MatMul(x, y);
        for (int i = 0; i < p.n; i++)
            for (int c = 0; c < B; c++) vh_close(y[i](c), b[i](c), 1e-9, "the symmetric matrix-vector product is that of the stored matrix");
    }
    J.InPlaceDecompose();
    vh_assert(J.isDecomposed, "a decomposed matrix says so");
    J.Solve(b, y);
    for (int i = 0; i < p.n; i++)
        for (int c = 0; c < B; c++) vh_close(y[i](c), x[i](c), 1e-8, p.code < 0 ? "the symmetric factorization solves the system" : "the incomplete symmetric factors reproduce the matrix on the structure");
}
VH_ENTRY h_lu()
{
    int var = pick("var", 0, 1), code = pick("code", -1, 1), ord = pick("ord", 0, 3);
    Prob p = prob(1, 4, ord);
    factor(p, code);
    runLU<1>(p, var);
    vh_reach("lu");
}
VH_ENTRY h_ldlt()
{
    int code = pick("code", -1, 1), ord = pick("ord", 0, 3);
    Prob p = prob(1, 4, ord);
    factor(p, code);
    runLDLT<1>(p);
    vh_reach("ldlt");
}
VH_ENTRY h_block()
{
    int var = pick("var", 0, 2), ord = pick("ord", 0, 3);
    Prob p = prob(1, 3, ord);
    factor(p, -1);
    if (var == 2) runLDLT<2>(p);
    else runLU<2>(p, var);
    vh_reach("block");
}
} // namespace DNDS::VH
