//@unit {"repo":[],"lib":["dndsstub.cpp"]}
//@run {"prop":"P15","entry":"h_gmres1","bounds":"2 unknowns, subspace 1, any matrix, preconditioner diagonal, start in [-2,2] and right-hand side with residual norm in [1/8,2], one cycle","reach":["min"],"shard":[["quad",0,3]]}
//@run {"prop":"P15","entry":"h_gmres2","bounds":"2 unknowns, subspace 2, any nonsingular matrix (det >= 1/8), zero start, any right-hand side with residual norm in [1/8,2], one cycle","reach":["exact"],"shard":[["quad",0,3]]}
//@run {"prop":"P15","entry":"h_invariant","bounds":"1..2 unknowns, subspace 1..3, A = c I (any c in [1/8,2]) or 1 unknown; any right-hand side, zero included; any start","reach":["inv","zero"],"shard":[["n",1,2],["k",1,3]]}
//@run {"prop":"P15","entry":"h_restart","bounds":"1..2 unknowns, <=3 restarts, any stopping pattern","reach":["stop","limit"]}
//@run {"prop":"P15","entry":"h_pcg","bounds":"2 unknowns, any symmetric positive definite matrix (diagonal in [1/2,2], off-diagonal in [-1/4,1/4]), any diagonal preconditioner in [1/2,2], any direction of the right-hand side (the iteration is linear in its size), zero and nonzero start, in one call or one call per iteration","reach":["pcg"],"opts":["--flush=1e-150"],"shard":[["split",0,1],["quad",0,1],["start",0,1]]}
//@run {"prop":"P15","entry":"h_pcg_reset","bounds":"a second system after a reset","opts":["--flush=1e-150"],"reach":["reset"]}
#include "vh.h"
#include <vector>
#include <cmath>
#include "Solver/Linear.hpp"
using namespace DNDS;
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
struct V
{ // as the solution vectors: no size until it is given one, and no operation between different sizes
    int n = 0;
    double v[2] = {0, 0};
    V(int m = 0) : n(m) {}
    V(const V &) = default;
    void like(const V &o) const { vh_assert(n > 0 && n == o.n, "work vectors are given the size of the system"); }
    V &operator=(const V &o)
    {
        like(o), v[0] = o.v[0], v[1] = o.v[1];
        return *this;
    }
    void addTo(const V &o, double c)
    {
        like(o);
        for (int i = 0; i < n; i++) v[i] += o.v[i] * c;
    }
    void operator*=(double c)
    {
        like(*this);
        for (int i = 0; i < n; i++) v[i] *= c;
    }
    void operator+=(const V &o) { addTo(o, 1); }
};
static double dot(const V &a, const V &b)
{
    double r = 0;
    a.like(b);
    for (int i = 0; i < a.n; i++) r += a.v[i] * b.v[i];
    return r;
}
// exact stand-in for the least-squares kernel (Eigen's SVD): normal equations of full column rank, else a rank below the column count
static int lsCalls = 0;
namespace DNDS::HardEigen
{
    Eigen::Index EigenLeastSquareSolve(const Eigen::MatrixXd &A, const Eigen::MatrixXd &B, Eigen::MatrixXd &X)
    {
        lsCalls++;
        int m = A.rows(), n = A.cols();
        vh_assert(B.rows() == m && B.cols() == 1 && n >= 1 && n <= 2, "the projected problem has one equation more than unknowns, and a matching right-hand side");
        double g[2][2] = {{0, 0}, {0, 0}}, c[2] = {0, 0};
        for (int i = 0; i < n; i++)
            for (int r = 0; r < m; r++)
            {
                c[i] += A(r, i) * B(r, 0);
                for (int j = 0; j < n; j++) g[i][j] += A(r, i) * A(r, j);
            }
        X.resize(n, 1);
        if (n == 1)
        {
            if (g[0][0] == 0) return X(0, 0) = 0, 0;
            return X(0, 0) = c[0] / g[0][0], 1;
        }
        double det = g[0][0] * g[1][1] - g[0][1] * g[1][0];
        if (det == 0) return X(0, 0) = X(1, 0) = 0, 1;
        X(0, 0) = (c[0] * g[1][1] - c[1] * g[0][1]) / det;
        X(1, 0) = (c[1] * g[0][0] - c[0] * g[1][0]) / det;
        return 2;
    }
}
struct Sys
{
    int n = 2;
    double a[2][2], m[2] = {1, 1};
    V b{2}, x{2};
    void A(const V &u, V &r) const
    {
        r.like(u);
        for (int i = 0; i < n; i++)
        {
            r.v[i] = 0;
            for (int j = 0; j < n; j++) r.v[i] += a[i][j] * u.v[j];
        }
    }
    void M(const V &u, V &r) const
    {
        r.like(u);
        for (int i = 0; i < n; i++) r.v[i] = m[i] * u.v[i];
    }
    V res() const
    {
        V r(n), q(n);
        A(x, r);
        for (int i = 0; i < n; i++) r.v[i] = b.v[i] - r.v[i];
        M(r, q);
        return q;
    }
    template <class F> bool gmres(int k, int nr, F &&stop)
    {
        Linear::GMRES_LeftPreconditioned<V> s(k, [&](V &u) { u.n = n; });
        return s.solve([&](V &u, V &r) { A(u, r); }, [&](V &u, V &r) { M(u, r); }, [](V &p, V &q) { return dot(p, q); }, b, x, nr, stop);
    }
};
// the right-hand side is chosen through the residual of the start, in polar form
static void rhs(Sys &s, bool start)
{
    double t = vh_real("t", -1, 1), be = vh_real("beta", 0.125, 2), co = be * (1 - t * t) / (1 + t * t), si = be * 2 * t / (1 + t * t);
    int q = pick("quad", 0, 3);
    V r(2);
    r.v[0] = q == 0 ? co : q == 1 ? -co : q == 2 ? si : -si;
    r.v[1] = q == 0 ? si : q == 1 ? -si : q == 2 ? -co : co;
    if (start) s.x.v[0] = vh_real("x", -2, 2), s.x.v[1] = vh_real("x", -2, 2);
    s.A(s.x, s.b);
    for (int i = 0; i < 2; i++) s.b.v[i] += r.v[i] / s.m[i];
}
VH_ENTRY h_gmres1()
{
    Sys s;
    for (auto &r : s.a)
        for (auto &e : r) e = vh_real("a", -2, 2);
    s.m[0] = vh_real("m", 0.125, 2), s.m[1] = vh_real("m", 0.125, 2);
    rhs(s, true);
    V r0 = s.res(), q(2), w(2), x0 = s.x;
    s.A(r0, q), s.M(q, w);
    vh_assume(dot(w, w) >= 0.015625);
    double cr = w.v[0] * r0.v[1] - w.v[1] * r0.v[0];
    vh_assume(cr >= 0.015625);
    s.gmres(1, 1, [](int, double, double) { return false; });
    V r1 = s.res();
    vh_close(dot(r1, w), 0, 1e-6, "one cycle of subspace 1 leaves a residual orthogonal to the search image");
    vh_close((s.x.v[0] - x0.v[0]) * r0.v[1], (s.x.v[1] - x0.v[1]) * r0.v[0], 1e-6, "the update lies along the preconditioned residual");
    vh_reach("min");
}
VH_ENTRY h_gmres2()
{
    Sys s;
    for (auto &r : s.a)
        for (auto &e : r) e = vh_real("a", -2, 2);
    rhs(s, false);
    V r0 = s.res(), w(2);
    s.A(r0, w);
    vh_assume(s.a[0][0] * s.a[1][1] - s.a[0][1] * s.a[1][0] >= 0.125);
    vh_assume(w.v[0] * r0.v[1] - w.v[1] * r0.v[0] >= 0.015625);
    s.gmres(2, 1, [](int, double, double) { return false; });
    V r1 = s.res();
    vh_close(r1.v[0], 0, 1e-6, "one cycle of full subspace solves the system");
    vh_close(r1.v[1], 0, 1e-6, "one cycle of full subspace solves the system");
    vh_reach("exact");
}
VH_ENTRY h_invariant()
{
    Sys s;
    int n = pick("n", 1, 2), k = pick("k", 1, 3), zero = pick("zero", 0, 1);
    double c = vh_real("c", 0.125, 2);
    s.n = s.b.n = s.x.n = n;
    for (int i = 0; i < n; i++)
    {
        for (int j = 0; j < n; j++) s.a[i][j] = i == j ? c : 0;
        s.b.v[i] = zero ? 0 : vh_real("b", -2, 2), s.x.v[i] = vh_real("x", -2, 2);
    }
    V r0 = s.res();
    vh_assume(dot(r0, r0) >= 0.015625);
    int bad = 0;
    s.gmres(k, 2, [&](int it, double res, double) { return it > 0 && res > 1e-9 ? (bad++, false) : false; });
    V r1 = s.res();
    for (int i = 0; i < n; i++) vh_close(r1.v[i], 0, 1e-6, "an invariant subspace gives the solution");
    vh_reach(zero ? "zero" : "inv");
}
VH_ENTRY h_restart()
{
    Sys s;
    int n = pick("n", 1, 2), nr = pick("restarts", 1, 3), stopAt = pick("stop", 0, 4);
    s.n = s.b.n = s.x.n = n;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) s.a[i][j] = n == 2 ? (i == j ? 2 : i < j ? 1 : -1) : 2;
    for (int i = 0; i < n; i++) s.b.v[i] = vh_real("b", 1, 2), s.x.v[i] = 0.25 * i;
    std::vector<int> seen;
    double scale = dot(s.b, s.b);
    bool ok = s.gmres(1, nr, [&](int it, double res, double ref) {
        V r = s.res();
        vh_close(res * res, dot(r, r), 1e-8, "the stop criterion sees the current residual norm");
        vh_close(ref * ref, scale, 1e-8, "the stop criterion sees the norm of the right-hand side");
        seen.push_back(it);
        return it == stopAt;
    });
    for (size_t i = 0; i < seen.size(); i++) vh_assert(seen[i] == (int)i, "restarts are counted from zero");
    if (n == 2)
    {
        vh_assert((int)seen.size() == std::min(nr, stopAt) + 1, "iterations end at the stop criterion or the restart limit");
        vh_assert(ok == (stopAt < nr), "success is reported exactly when the criterion stopped before the limit");
        vh_reach(ok ? "stop" : "limit");
    }
}
static void spd(Sys &s)
{
    s.a[0][0] = vh_real("a", 0.5, 2), s.a[1][1] = vh_real("a", 0.5, 2), s.a[0][1] = s.a[1][0] = vh_real("a", -0.25, 0.25);
    s.m[0] = vh_real("m", 0.5, 2), s.m[1] = vh_real("m", 0.5, 2);
    double t = vh_real("t", -1, 1);
    int q = pick("quad", 0, 1), x0 = pick("start", 0, 1);
    if (x0) s.x.v[0] = 0.5, s.x.v[1] = -1;
    s.A(s.x, s.b);
    s.b.v[0] += q ? t : 1, s.b.v[1] += q ? 1 : t;
}
static bool pcg(Linear::PCG_PreconditionedRes<V, double> &cg, Sys &s, int it)
{
    return cg.solve([&](V &u, V &r) { s.A(u, r); }, [&](V &u, V &r) { for (int i = 0; i < 2; i++) r.v[i] = u.v[i] / s.m[i]; },
                    [&](V &u, V &z) { Sys q = s; q.x = u; z = q.res(); }, [](V &p, V &q) { return dot(p, q); }, s.x, it,
                    [&](int, double zr, double zz) {
                        V z = s.res();
                        vh_close(zz, dot(z, z), 1e-6, "the stop criterion sees the current preconditioned residual");
                        return false;
                    });
}
VH_ENTRY h_pcg()
{
    Sys s;
    int split = pick("split", 0, 1);
    spd(s);
    V z0 = s.res();
    vh_assume(dot(z0, z0) >= 0.015625);
    Linear::PCG_PreconditionedRes<V, double> cg([](V &u) { u.n = 2; });
    double e0 = 0;
    pcg(cg, s, split ? 1 : 2);
    if (split) pcg(cg, s, 1);
    V r = s.res();
    for (int i = 0; i < 2; i++) vh_close(r.v[i], 0, 1e-6, "conjugate gradients end after as many iterations as unknowns");
    vh_assert(cg.getPHistorySize() == 2, "search directions are counted");
    vh_reach("pcg");
}
VH_ENTRY h_pcg_reset()
{
    Sys s;
    spd(s);
    Linear::PCG_PreconditionedRes<V, double> cg([](V &u) { u.n = 2; });
    V z0 = s.res();
    vh_assume(dot(z0, z0) >= 0.015625);
    pcg(cg, s, 1);
    cg.reset();
    vh_assert(cg.getPHistorySize() == 0, "a reset forgets the directions");
    Sys t = s;
    t.b.v[0] = vh_real("b2", -2, 2), t.b.v[1] = vh_real("b2", -2, 2);
    V z = t.res();
    vh_assume(dot(z, z) >= 0.015625);
    V x0 = t.x;
    pcg(cg, t, 1);
    vh_close((t.x.v[0] - x0.v[0]) * z.v[1], (t.x.v[1] - x0.v[1]) * z.v[0], 1e-6, "after a reset the first direction is the preconditioned residual");
    vh_reach("reset");
}
