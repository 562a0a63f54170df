//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P23","entry":"h_dof","bounds":"solution vectors of 0..2 own and 0..1 ghost cells of 2 variables (fixed and run-time count), any values, every element-wise operation","reach":["dof"],"shard":[["dyn",0,1],["op",0,15]]}
//@run {"prop":"P23","entry":"h_rec","bounds":"reconstruction vectors of 0..2 own and 0..1 ghost cells of 2x2 coefficients, any values, every element-wise operation","reach":["rec"],"shard":[["dyn",0,1],["op",0,9]]}
//@run {"prop":"P23","entry":"h_grad","bounds":"gradient vectors of 0..2 own and 0..1 ghost cells of 2x2 entries, any values, every element-wise operation","reach":["grad"],"shard":[["op",0,8]]}
//@run {"prop":"P23","entry":"h_reduce","bounds":"1..3 ranks of 0..2 own cells and 1 ghost cell, any values, sums, norms, minima and dot products (minima and 1-norms: one variable any, 3 ranks of <=1 cell)","reach":["reduce"],"shard":[["n",1,3],["dyn",0,1],["part",0,1]]}
//@run {"prop":"P23","entry":"h_reduce_rec","bounds":"1..3 ranks of 0..2 own cells and 1 ghost cell of 2x2 coefficients, any values","reach":["reduce"],"shard":[["n",1,3],["dyn",0,1]]}
//@run {"prop":"P23","entry":"h_jdiag","bounds":"block-diagonal Jacobians of 1..2 cells, 2 variables, diagonal (any entries in [1/8,2]) or full blocks (any off-diagonal in [-2,2], determinant >= 1/8, other entries from lists); refilled after use","reach":["diag","block"],"shard":[["block",0,1]]}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include <cmath>
#include "Euler/Euler.hpp"
#include "Euler/EulerJacobian.hpp"
namespace DNDS::VH {
using namespace Euler;
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
static MPIInfo world()
{
    MPIInfo m;
    m.setWorld();
    return m;
}
static MPIInfo one()
{
    MPIInfo m;
    m.comm = MPI_COMM_WORLD, m.rank = 0, m.size = 1;
    return m;
}
using Rows = std::vector<std::vector<double>>;
template <class A> static void make(A &a, const MPIInfo &m, int nf, int ns, int r, int c)
{
    a.father = std::make_shared<typename decltype(a.father)::element_type>(m);
    a.son = std::make_shared<typename decltype(a.son)::element_type>(m);
    a.father->Resize(nf, r, c), a.son->Resize(ns, r, c);
}
template <class A> static Rows fill(A &a, const char *name, double lo, double hi)
{
    Rows v(a.Size());
    for (index i = 0; i < a.Size(); i++)
        for (int q = 0; q < a[i].size(); q++) v[i].push_back(vh_real(name, lo, hi)), a[i](q % a[i].rows(), q / a[i].rows()) = v[i].back();
    return v;
}
template <class A> static void same(A &a, const Rows &v, const char *what)
{
    vh_assert(a.Size() == (index)v.size(), what);
    for (index i = 0; i < a.Size(); i++)
        for (int q = 0; q < a[i].size(); q++) vh_close(a[i](q % a[i].rows(), q / a[i].rows()), v[i][q], 1e-9, what);
}
template <class F> static Rows map2(const Rows &a, const Rows &b, F f)
{
    Rows r = a;
    for (size_t i = 0; i < a.size(); i++)
        for (size_t q = 0; q < a[i].size(); q++) r[i][q] = f(a[i][q], b[i][q]);
    return r;
}
template <class F> static Rows mapI(const Rows &a, F f)
{
    Rows r = a;
    for (size_t i = 0; i < a.size(); i++)
        for (size_t q = 0; q < a[i].size(); q++) r[i][q] = f(a[i][q], int(i), int(q));
    return r;
}
template <int N> static void dof()
{
    int nf = pick("own", 0, 2), ns = pick("ghost", 0, 1), op = pick("op", 0, 15);
    MPIInfo m = one();
    ArrayDOFV<N> a, b;
    make(a, m, nf, ns, 2, 1), make(b, m, nf, ns, 2, 1);
    Rows A = fill(a, "a", -1, 1), B = fill(b, "b", op == 7 ? 0.5 : -1, 1), W;
    double c = vh_real("c", -1, 1), d = vh_real("d", -1, 1);
    Eigen::Vector<real, N> v(2);
    v << c, d;
    const char *what = "";
    switch (op)
    {
    case 0: what = "set to a number", a.setConstant(c), W = mapI(A, [&](double, int, int) { return c; }); break;
    case 1: what = "set to a state", a.setConstant(v), W = mapI(A, [&](double, int, int q) { return q ? d : c; }); break;
    case 2: what = "add", a += b, W = map2(A, B, [](double x, double y) { return x + y; }); break;
    case 3: what = "subtract", a -= b, W = map2(A, B, [](double x, double y) { return x - y; }); break;
    case 4: what = "scale", a *= c, W = mapI(A, [&](double x, int, int) { return x * c; }); break;
    case 5: what = "assign", a = b, W = B; break;
    case 6: what = "add scaled", a.addTo(b, c), W = map2(A, B, [&](double x, double y) { return x + c * y; }); break;
    case 7: what = "divide by each entry", a /= b, W = map2(A, B, [](double x, double y) { return x / y; }); break;
    case 8: what = "multiply each entry", a *= b, W = map2(A, B, [](double x, double y) { return x * y; }); break;
    case 9: what = "add a state", a += v, W = mapI(A, [&](double x, int, int q) { return x + (q ? d : c); }); break;
    case 10: what = "add a number", a += c, W = mapI(A, [&](double x, int, int) { return x + c; }); break;
    case 11: what = "multiply by a state", a *= v, W = mapI(A, [&](double x, int, int q) { return x * (q ? d : c); }); break;
    case 12: what = "absolute value", a.setAbs(), W = mapI(A, [](double x, int, int) { return x < 0 ? -x : x; }); break;
    case 13: what = "bound below", a.setMaxWith(c), W = mapI(A, [&](double x, int, int) { return x < c ? c : x; }); break;
    case 14: what = "bound above", a.setMinWith(c), W = mapI(A, [&](double x, int, int) { return x > c ? c : x; }); break;
    case 15:
    {
        what = "scale by one number per cell";
        ArrayDOFV<1> s;
        make(s, m, nf, ns, 1, 1);
        Rows S = fill(s, "s", -1, 1);
        a *= s, W = mapI(A, [&](double x, int i, int) { return x * S[i][0]; });
        same(s, S, "the other operand is left as it was");
        break;
    }
    }
    same(a, W, what), same(b, B, "the other operand is left as it was");
    std::vector<real> f;
    for (int i = 0; i < nf; i++) f.push_back(vh_real("f", -1, 1));
    a *= f;
    same(a, mapI(W, [&](double x, int i, int) { return i < nf ? x * f[i] : x; }), "a list of factors scales the own cells");
    vh_reach("dof");
}
VH_ENTRY h_dof()
{
    if (pick("dyn", 0, 1)) dof<DynamicSize>();
    else dof<2>();
}
template <int N> static void rec()
{
    int nf = pick("own", 0, 2), ns = pick("ghost", 0, 1), op = pick("op", 0, 9);
    MPIInfo m = one();
    ArrayRECV<N> a, b;
    make(a, m, nf, ns, 2, 2), make(b, m, nf, ns, 2, 2);
    Rows A = fill(a, "a", -1, 1), B = fill(b, "b", -1, 1), W;
    double c = vh_real("c", -1, 1), d = vh_real("d", -1, 1);
    Eigen::Array<real, 1, N> v(2);
    v << c, d;
    Eigen::MatrixXd M(2, 2);
    M << c, d, 2, 3;
    const char *what = "";
    switch (op)
    {
    case 0: what = "set to a number", a.setConstant(c), W = mapI(A, [&](double, int, int) { return c; }); break;
    case 1: what = "set to a matrix", a.setConstant(M), W = mapI(A, [&](double, int, int q) { return M(q % 2, q / 2); }); break;
    case 2: what = "add", a += b, W = map2(A, B, [](double x, double y) { return x + y; }); break;
    case 3: what = "subtract", a -= b, W = map2(A, B, [](double x, double y) { return x - y; }); break;
    case 4: what = "scale", a *= c, W = mapI(A, [&](double x, int, int) { return x * c; }); break;
    case 5: what = "assign", a = b, W = B; break;
    case 6: what = "add scaled", a.addTo(b, c), W = map2(A, B, [&](double x, double y) { return x + c * y; }); break;
    case 7: what = "add scaled by variable", a.addTo(b, v), W = mapI(A, [&](double x, int i, int q) { return x + B[i][q] * (q / 2 ? d : c); }); break;
    case 8: what = "scale by variable", a *= v, W = mapI(A, [&](double x, int, int q) { return x * (q / 2 ? d : c); }); break;
    case 9:
    {
        what = "scale by one number per cell";
        ArrayDOFV<1> s;
        make(s, m, nf, ns, 1, 1);
        Rows S = fill(s, "s", -1, 1);
        a *= s, W = mapI(A, [&](double x, int i, int) { return x * S[i][0]; });
        break;
    }
    }
    same(a, W, what), same(b, B, "the other operand is left as it was");
    std::vector<real> f;
    for (int i = 0; i < nf; i++) f.push_back(vh_real("f", -1, 1));
    a *= f;
    same(a, mapI(W, [&](double x, int i, int) { return i < nf ? x * f[i] : x; }), "a list of factors scales the own cells");
    vh_reach("rec");
}
VH_ENTRY h_rec()
{
    if (pick("dyn", 0, 1)) rec<DynamicSize>();
    else rec<2>();
}
VH_ENTRY h_grad()
{
    int nf = pick("own", 0, 2), ns = pick("ghost", 0, 1), op = pick("op", 0, 8);
    MPIInfo m = one();
    ArrayGRADV<2, 2> a, b;
    make(a, m, nf, ns, 2, 2), make(b, m, nf, ns, 2, 2);
    Rows A = fill(a, "a", -1, 1), B = fill(b, "b", -1, 1), W;
    double c = vh_real("c", -1, 1), d = vh_real("d", -1, 1);
    Eigen::Array<real, 1, 2> v(c, d);
    Eigen::Matrix2d M;
    M << c, d, 2, 3;
    const char *what = "";
    std::vector<real> f;
    for (int i = 0; i < nf; i++) f.push_back(vh_real("f", -1, 1));
    switch (op)
    {
    case 0: what = "set to a number", a.setConstant(c), W = mapI(A, [&](double, int, int) { return c; }); break;
    case 1: what = "set to a matrix", a.setConstant(M), W = mapI(A, [&](double, int, int q) { return M(q % 2, q / 2); }); break;
    case 2: what = "add", a += b, W = map2(A, B, [](double x, double y) { return x + y; }); break;
    case 3: what = "subtract", a -= b, W = map2(A, B, [](double x, double y) { return x - y; }); break;
    case 4: what = "scale", a *= c, W = mapI(A, [&](double x, int, int) { return x * c; }); break;
    case 5: what = "assign", a = b, W = B; break;
    case 6: what = "scale by variable", a *= v, W = mapI(A, [&](double x, int, int q) { return x * (q / 2 ? d : c); }); break;
    case 7: what = "a list of factors scales the own cells", a *= f, W = mapI(A, [&](double x, int i, int) { return i < nf ? x * f[i] : x; }); break;
    case 8:
    {
        what = "scale by one number per cell";
        ArrayDOFV<1> s;
        make(s, m, nf, ns, 1, 1);
        Rows S = fill(s, "s", -1, 1);
        a *= s, W = mapI(A, [&](double x, int i, int) { return x * S[i][0]; });
        break;
    }
    }
    same(a, W, what), same(b, B, "the other operand is left as it was");
    vh_reach("grad");
}
struct Ctx
{
    int n, own[3], part = 0;
    double a[3][3][4], b[3][3][4], w[4];
};
static void values(Ctx &c, int comps, int part = 0, int var = 0)
{
    c.n = pick("n", 1, 3), c.part = part;
    for (int r = 0; r < c.n; r++)
    {
        c.own[r] = pick("own", 0, part && c.n == 3 ? 1 : 2);
        for (int i = 0; i <= c.own[r]; i++)
            for (int q = 0; q < comps; q++) c.a[r][i][q] = part && q != var ? 0.25 * r - 0.5 * i : vh_real("a", -1, 1), c.b[r][i][q] = vh_real("b", -1, 1);
    }
    for (auto &w : c.w) w = vh_real("w", -1, 1);
}
template <class A> static void load(A &x, const double (*v)[4])
{
    for (index i = 0; i < x.Size(); i++)
        for (int q = 0; q < x[i].size(); q++) x[i](q % x[i].rows(), q / x[i].rows()) = v[i][q];
}
template <int N> static void fReduce(int r, void *p)
{
    auto &c = *(Ctx *)p;
    ArrayDOFV<N> a, b;
    make(a, world(), c.own[r], 1, 2, 1), make(b, world(), c.own[r], 1, 2, 1);
    load(a, c.a[r]), load(b, c.b[r]);
    double sq = 0, dt = 0, dw = 0, n1[2] = {0, 0}, mn[2] = {veryLargeReal, veryLargeReal};
    for (int s = 0; s < c.n; s++)
        for (int i = 0; i < c.own[s]; i++)
            for (int q = 0; q < 2; q++)
            {
                double x = c.a[s][i][q], y = c.b[s][i][q];
                sq += x * x, dt += x * y, dw += x * c.w[q] * y * c.w[2 + q];
                if (!c.part) continue;
                n1[q] += x < 0 ? -x : x;
                if (x < mn[q]) mn[q] = x;
            }
    if (c.part)
    {
        auto v = a.componentWiseNorm1();
        auto m = a.min();
        vh_assert(v.size() == 2 && m.size() == 2, "one entry per variable");
        for (int q = 0; q < 2; q++)
        {
            vh_close(v(q), n1[q], 1e-9, "the 1-norm counts every own cell of every rank once");
            vh_close(m(q), mn[q], 1e-9, "the minimum is over every own cell of every rank");
        }
        return;
    }
    double nn = a.norm2();
    vh_close(nn * nn, sq, 1e-9, "the norm counts every own cell of every rank once");
    vh_le(0, nn, 0, "the norm is not negative");
    vh_close(a.dot(b), dt, 1e-9, "the dot product counts every own cell of every rank once");
    Eigen::Array<real, N, 1> wl(2), wr(2);
    wl << c.w[0], c.w[1];
    wr << c.w[2], c.w[3];
    vh_close(a.dot(b, wl, wr), dw, 1e-9, "the weighted dot product weighs each variable");
}
VH_ENTRY h_reduce()
{
    Ctx c;
    int part = pick("part", 0, 1);
    values(c, 2, part, part ? pick("var", 0, 1) : 0);
    mm_run(c.n, pick("dyn", 0, 1) ? fReduce<DynamicSize> : fReduce<2>, &c);
    vh_reach("reduce");
}
template <int N> static void fReduceRec(int r, void *p)
{
    auto &c = *(Ctx *)p;
    ArrayRECV<N> a, b;
    make(a, world(), c.own[r], 1, 2, 2), make(b, world(), c.own[r], 1, 2, 2);
    load(a, c.a[r]), load(b, c.b[r]);
    double sq = 0, dt = 0, dv[2] = {0, 0};
    for (int s = 0; s < c.n; s++)
        for (int i = 0; i < c.own[s]; i++)
            for (int q = 0; q < 4; q++) sq += c.a[s][i][q] * c.a[s][i][q], dt += c.a[s][i][q] * c.b[s][i][q], dv[q / 2] += c.a[s][i][q] * c.b[s][i][q];
    double nn = a.norm2();
    vh_close(nn * nn, sq, 1e-9, "the norm counts every own cell of every rank once");
    vh_close(a.dot(b), dt, 1e-9, "the dot product counts every own cell of every rank once");
    auto v = a.dotV(b);
    vh_assert(v.size() == 2, "one entry per variable");
    for (int q = 0; q < 2; q++) vh_close(v(q), dv[q], 1e-9, "the dot product per variable counts every own cell of every rank once");
}
VH_ENTRY h_reduce_rec()
{
    Ctx c;
    values(c, 4);
    mm_run(c.n, pick("dyn", 0, 1) ? fReduceRec<DynamicSize> : fReduceRec<2>, &c);
    vh_reach("reduce");
}
VH_ENTRY h_jdiag()
{
    int n = pick("cells", 1, 2), block = pick("block", 0, 1), rounds = pick("rounds", 1, 2), last = pick("cell", 0, n - 1);
    MPIInfo m = one();
    ArrayDOFV<2> mock;
    make(mock, m, n, 1, 2, 1);
    JacobianDiagBlock<2> J;
    J.SetModeAndInit(block, 2, mock);
    vh_assert(J.isBlock() == (block != 0) && J.Size() == n, "one block per own cell");
    for (int k = 0; k < rounds; k++)
    {
        J.clearValues();
        std::vector<Eigen::Matrix2d> M(n);
        for (int i = 0; i < n; i++)
        {
            M[i].setZero();
            M[i](0, 0) = block ? (k ? 2 : 1) : vh_real("j", 0.125, 2), M[i](1, 1) = block ? 0.5 + i : vh_real("j", 0.125, 2);
            if (block) M[i](1, 0) = 0.25 * pick("p", -1, 2), M[i](0, 1) = i == last && k == rounds - 1 ? vh_real("o", -2, 2) : -0.25;
            if (block) vh_assume(M[i](0, 0) * M[i](1, 1) - M[i](0, 1) * M[i](1, 0) >= 0.125);
            if (block) J.getBlock(i) += M[i];
            else J.getDiag(i) += M[i].diagonal();
        }
        J.GetInvert();
        for (int i = 0; i < n; i++)
        {
            Eigen::Vector2d u(vh_real("u", -1, 1), vh_real("u", -1, 1)), Mu = M[i] * u, w = J.MatVecLeft(i, u), z = J.MatVecLeftInvert(i, Mu);
            Eigen::Matrix2d V = J.getValue(i);
            for (int q = 0; q < 4; q++) vh_close(V(q % 2, q / 2), M[i](q % 2, q / 2), 1e-9, "a cleared block holds what is added to it");
            for (int q = 0; q < 2; q++)
            {
                vh_close(w(q), Mu(q), 1e-9, "the product is that of the block");
                vh_close(z(q), u(q), 1e-7, "the inverse undoes the block, also after it was filled again");
            }
        }
    }
    vh_reach(block ? "block" : "diag");
}
}
