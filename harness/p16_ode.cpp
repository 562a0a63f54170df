//@unit {"repo":[],"lib":["dndsstub.cpp"]}
//@run {"prop":"P16","entry":"h_euler","bounds":"any linear problem x' = lam x + g with lam in [-2,-1/4], dt in [1/8,2], any start","reach":["euler"]}
//@run {"prop":"P16","entry":"h_bdf","bounds":"BDF1..4, any polynomial of the current order in time, dt in [1/8,2], any stiffness lam in [-2,2], <=6 consecutive steps, plain and positivity-preserving stepping","reach":["bdf","full"],"shard":[["k",1,4],["pp",0,1]]}
//@run {"prop":"P16","entry":"h_vbdf","bounds":"VBDF1..2, any polynomial of the current order in time, any three time steps in [1/8,2], any stiffness lam in [-2,2], plain and positivity-preserving stepping","reach":["vbdf","full"],"shard":[["k",1,2],["pp",0,1]]}
//@run {"prop":"P16","entry":"h_pp","bounds":"BDF1..4 and VBDF1..2, second step, any states, right-hand sides and limiting factors in [-1,1], dt in [1/8,2]","reach":["pp"],"shard":[["var",0,1],["k",1,4]]}
//@run {"prop":"P16","entry":"h_rk","bounds":"SDIRK4, ESDIRK4 and SSPRK3: any cubic (quadratic) forcing in time; linear problems with lam dt in [-1/2,-1/16] forced by t^k; <=2 consecutive steps; dt in {1/2,1,2}","reach":["quad","linear"],"shard":[["kind",0,2],["k",-1,3]],"time":600}
//@run {"prop":"P16","entry":"h_local","bounds":"SSPRK3 with local time steps in [1/8,2], any lam in [-2,2]","reach":["local"]}
//@run {"prop":"P16","entry":"h_hm3","bounds":"Hermite-3 with masks 0..2, any interior point in [1/8,7/8], any polynomial of the scheme's degree in time, two steps of any size in [1/4,2], any stiffness lam in [-2,2], <=1 starter iterations","reach":["hm3","second"],"shard":[["mask",0,2],["start",0,1]]}
#include "vh.h"
#include <functional>
#include <vector>
#include <cmath>
#include "Solver/ODE.hpp"
using namespace DNDS;
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
struct V
{ // as the solution vectors: usable only once the integrator has had it set up
    double v = 0;
    bool ok = false;
    V() {}
    V(const V &) = default;
    void use(const V &o) const { vh_assert(ok && o.ok, "every vector is set up before it is used"); }
    V &operator=(const V &o)
    {
        use(o), v = o.v;
        return *this;
    }
    void setConstant(double c) { use(*this), v = c; }
    void addTo(const V &o, double c) { use(o), v += o.v * c; }
    void operator*=(double c) { use(*this), v *= c; }
    void operator*=(const V &o) { use(o), v *= o.v; }
    void operator+=(const V &o) { use(o), v += o.v; }
};
static V mk()
{
    V u;
    u.ok = true;
    return u;
}
using TS = ODE::ImplicitDualTimeStep<V, V>;
static double poly(const std::vector<double> &c, double t)
{
    double r = 0;
    for (int i = int(c.size()) - 1; i >= 0; i--) r = r * t + c[i];
    return r;
}
static double dpoly(const std::vector<double> &c, double t)
{
    double r = 0;
    for (int i = int(c.size()) - 1; i > 0; i--) r = r * t + c[i] * i;
    return r;
}
static std::vector<double> coefs(int deg)
{
    std::vector<double> c;
    for (int i = 0; i <= deg; i++) c.push_back(vh_real("c", -1, 1));
    return c;
}
static std::function<void(V &)> init() { return [](V &u) { u.ok = true; }; }
// every solved increment is applied once, to the unknown it was solved for, before anything else is evaluated
struct Monitor
{
    V *x = nullptr, *inc = nullptr;
    void solved(V &a, V &b)
    {
        vh_assert(!x, "an increment is applied before the next solve");
        x = &a, inc = &b;
    }
    void applied(V &a, V &b, double f)
    {
        vh_assert(x == &a && inc == &b && f == 1.0, "the solved increment is applied once to its unknown");
        a.v += b.v, x = nullptr;
    }
    void idle() { vh_assert(!x, "the solved increment is applied"); }
};
VH_ENTRY h_euler()
{
    double lam = vh_real("lam", -2, -0.25), g = vh_real("g", -1, 1), dt = vh_real("dt", 0.125, 2), x0 = vh_real("x0", -1, 1);
    ODE::ImplicitEulerDualTimeStep<V, V> ts(1, init(), init());
    Monitor m;
    V x = mk(), xinc = mk();
    x.v = x0;
    int rhsN = 0;
    ts.Step(
        x, xinc, [&](V &r, V &u, V &, int, double ct, int) { m.idle(), vh_assert(ct == 1.0, "the right-hand side is taken at the end of the step"), r.v = lam * u.v + g, rhsN++; }, [&](V &, V &d, double, int) { d.v = 1; },
        [&](V &u, V &res, V &oth, V &, double h, double al, V &inc, int, double ct, int) {
            vh_close(res.v, oth.v - u.v / h + al * (lam * u.v + g), 1e-9, "the residual is that of the implicit equation");
            inc.v = res.v / (1 / h - al * lam), m.solved(u, inc);
        },
        3, [&](int it, V &, int) { return it == 2; }, [&](V &u, V &i, double f, int) { m.applied(u, i, f); }, dt);
    vh_assert(rhsN == 2, "iterations end when the stop criterion says so");
    vh_close(x.v * (1 - lam * dt), x0 + dt * g, 1e-9, "one step solves the backward Euler equation");
    vh_close(ts.getLatestRHS().v, lam * x.v + g, 1e-9, "the latest right-hand side is that of the result");
    vh_reach("euler");
}
// BDF: given exact history, the exact polynomial solves the step equation
template <class T> static void bdfStep(T &ts, bool pp, V &x, double t0, double dt, double lam, const std::vector<double> &c)
{
    Monitor m;
    V xinc = mk();
    double t1 = t0 + dt;
    int n = 0;
    auto frhs = [&](V &r, V &u, V &, int, double ct, int) { m.idle(), r.v = dpoly(c, t0 + ct * dt) + lam * (u.v - poly(c, t0 + ct * dt)); };
    auto fsolve = [&](V &u, V &res, V &oth, V &, double h, double al, V &inc, int, double ct, int) {
        vh_close(res.v, oth.v - u.v / h + al * (dpoly(c, t1) + lam * (u.v - poly(c, t1))), 1e-7, "the residual is that of the implicit equation");
        if (n++ > 0) vh_close(res.v, 0, 1e-7, "the exact polynomial of the scheme's order solves the step");
        inc.v = poly(c, t1) - u.v, m.solved(u, inc);
    };
    auto fdt = [&](V &, V &d, double, int) { d.v = 1; };
    auto fstop = [&](int it, V &, int) { return it == 2; };
    auto finc = [&](V &u, V &i, double f, int) { m.applied(u, i, f); };
    if (pp)
        ts.StepPP(x, xinc, frhs, fdt, fsolve, 3, fstop, finc, dt, [&](V &, int) {},
                  [&](V &cx, V &base, V &crhs, V &part, const std::function<void()> &renew, double ct, int) {
                      vh_close(crhs.v, dpoly(c, t1) + lam * (cx.v - poly(c, t1)), 1e-7, "the limiter gets the right-hand side of the current state");
                      renew();
                      if (n > 0) vh_close(base.v + part.v, poly(c, t1), 1e-7, "base state plus increment is the solution of the step");
                  });
    else ts.Step(x, xinc, frhs, fdt, fsolve, 3, fstop, finc, dt);
    m.idle();
    vh_assert(n == 2, "iterations end when the stop criterion says so");
    vh_close(ts.getLatestRHS().v, dpoly(c, t1), 1e-7, "the latest right-hand side is that of the result");
}
VH_ENTRY h_bdf()
{
    int k = pick("k", 1, 4), pp = pick("pp", 0, 1), steps = pick("steps", 1, 6);
    double dt = vh_real("dt", 0.125, 2), lam = vh_real("lam", -2, 2);
    ODE::ImplicitBDFDualTimeStep<V, V> ts(1, init(), init(), k);
    auto c = coefs(std::min(k, steps));
    for (int s = 0; s < steps; s++)
    {
        bool last = s == steps - 1;
        V x = mk();
        x.v = poly(c, s * dt);
        if (last || k == 1 || s >= k - 1) bdfStep(ts, pp, x, s * dt, dt, lam, c);
        else
        { // an early step: only its history matters
            V xinc = mk();
            ts.Step(x, xinc, [](V &r, V &, V &, int, double, int) { r.v = 0; }, [](V &, V &, double, int) {}, [](V &, V &, V &, V &, double, double, V &i, int, double, int) { i.v = 0; }, 1, [](int, V &, int) { return true; }, [](V &, V &, double, int) {}, dt);
        }
        if (last) vh_close(x.v, poly(c, (s + 1) * dt), 1e-7, "the step ends on the exact polynomial");
    }
    if (steps >= k) vh_reach("full");
    vh_reach("bdf");
}
VH_ENTRY h_vbdf()
{
    int k = pick("k", 1, 2), pp = pick("pp", 0, 1);
    double lam = vh_real("lam", -2, 2), t = 0;
    ODE::ImplicitVBDFDualTimeStep<V, V> ts(1, init(), init(), k);
    int n = pick("steps", 1, 3);
    auto c = coefs(std::min(k, n));
    for (int s = 0; s < n; s++)
    {
        double dt = vh_real("dt", 0.125, 2);
        V x = mk();
        x.v = poly(c, t);
        if (s == n - 1) bdfStep(ts, pp, x, t, dt, lam, c);
        else
        {
            V xinc = mk();
            ts.Step(x, xinc, [](V &r, V &, V &, int, double, int) { r.v = 0; }, [](V &, V &, double, int) {}, [](V &, V &, V &, V &, double, double, V &i, int, double, int) { i.v = 0; }, 1, [](int, V &, int) { return true; }, [](V &, V &, double, int) {}, dt);
        }
        t += dt;
    }
    if (n >= k) vh_reach("full");
    vh_reach("vbdf");
}
// positivity-preserving stepping: whatever the limited right-hand side, the increment the limiter sees is the one the residual uses
template <class T> static void ppStep(T &ts, int k, bool vbdf)
{
    double dt = vh_real("dt", 0.125, 2), al = vh_real("alpha", 0, 1);
    for (int s = 0; s < k; s++)
    {
        V x = mk(), xinc = mk();
        x.v = vh_real("x", -1, 1);
        double f0 = vh_real("f", -1, 1), f1 = vh_real("flim", -1, 1), want = 0;
        bool last = s == k - 1;
        int rn = 0;
        auto frhs = [&](V &r, V &, V &, int, double, int) { r.v = f0; };
        auto fsolve = [&](V &u, V &res, V &oth, V &, double h, double a, V &inc, int, double, int) {
            if (last)
            {
                vh_close(res.v * dt, want - u.v, 1e-8, "the residual uses the limited right-hand side");
                vh_close(oth.v * dt, want - dt * a * f1, 1e-8, "the rest of the residual leaves out the right-hand side and the unknown");
            }
            inc.v = 0.25;
        };
        ts.StepPP(x, xinc, frhs, [](V &, V &, double, int) {}, fsolve, 1, [](int, V &, int) { return true; }, [](V &u, V &i, double f, int) { u.v += i.v * f; }, dt,
                  [&](V &src, int) { src.v *= al; },
                  [&](V &cx, V &base, V &crhs, V &part, const std::function<void()> &renew, double, int) {
                      renew();
                      double p0 = part.v;
                      crhs.v = f1;
                      renew();
                      want = base.v + part.v, rn++;
                  });
        vh_assert(rn == 1, "each iteration is limited once");
    }
    vh_reach("pp");
}
VH_ENTRY h_pp()
{
    int var = pick("var", 0, 1), k = pick("k", 1, 4);
    vh_assume(!var || k <= 2);
    if (var)
    {
        ODE::ImplicitVBDFDualTimeStep<V, V> ts(1, init(), init(), k);
        ppStep(ts, k, true);
    }
    else
    {
        ODE::ImplicitBDFDualTimeStep<V, V> ts(1, init(), init(), k);
        ppStep(ts, k, false);
    }
}
static void rkStep(TS &ts, V &x, double t0, double dt, double lam, const std::function<double(double)> &g)
{
    Monitor m;
    V xinc = mk();
    ts.Step(
        x, xinc, [&](V &r, V &u, V &, int, double ct, int) { m.idle(), r.v = g(t0 + ct * dt) + lam * u.v; }, [](V &, V &d, double, int) { d.v = 1; },
        [&](V &u, V &res, V &oth, V &, double h, double al, V &inc, int, double ct, int) { inc.v = res.v / (1 / h - al * lam), m.solved(u, inc); },
        2, [](int it, V &, int) { return it == 2; }, [&](V &u, V &i, double f, int) { if (m.x) m.applied(u, i, f); else u.v += i.v * f; }, dt);
    m.idle();
}
VH_ENTRY h_rk()
{
    int kind = pick("kind", 0, 2), k = pick("k", -1, 3);
    vh_assume(kind < 2 || k < 3);
    int steps = pick("steps", 1, 2), order = kind == 2 ? 3 : 4;
    double dt = kind == 2 ? vh_real("dt", 0.125, 2) : pick("dt2", 0, 2) == 0 ? 0.5 : pick("dt2b", 1, 2);
    std::unique_ptr<TS> ts;
    if (kind == 2) ts.reset(new ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<V, V>(1, init(), init()));
    else ts.reset(new ODE::ImplicitSDIRK4DualTimeStep<V, V>(1, init(), init(), kind));
    V x = mk();
    if (k == -1)
    { // forcing in time alone: exact quadrature
        auto c = coefs(order);
        x.v = poly(c, 0);
        for (int s = 0; s < steps; s++) rkStep(*ts, x, s * dt, dt, 0, [&](double t) { return dpoly(c, t); });
        double T4 = kind == 2 ? 1 : 1 + steps * dt * steps * dt * steps * dt * steps * dt;
        vh_close(x.v, poly(c, steps * dt), 1e-6 * T4, "polynomial forcing up to the scheme's order is integrated exactly");
        vh_reach("quad");
        return;
    }
    vh_assume(k < order && steps == 1);
    // x' = lam x + t^k (or x' = lam x with x(0) = 1 for k = 0): agreement up to the scheme's order in lam dt
    double z = vh_real("z", -0.5, -0.0625), lam = z / dt, fac = 1;
    for (int i = 2; i <= k; i++) fac *= i;
    x.v = k == 0 ? 1 : 0;
    rkStep(*ts, x, 0, dt, lam, [&](double t) { return k == 0 ? 0 : std::pow(t / dt, k); });
    double want = k == 0 ? 1 : 0, term = k == 0 ? 1 : dt * fac, zz = 1, q = k == 0 ? 1 : 0;
    for (int i = 2; i <= k + 1; i++) term /= i;
    if (k == 0) // exp series
        for (int i = 1; i <= order; i++) term = term * z / i, want += term;
    else
        for (int i = k + 1; i <= order; i++) want += term, term = term * z / (i + 1);
    for (int i = 0; i < order + 1 - (k ? k + 1 : 0); i++) zz *= -z;
    vh_le(x.v - want, (k ? dt : 1) * (kind == 2 ? 0.4 : 0.15) * zz, 1e-7, "the step agrees with the exact solution up to the order of the scheme");
    vh_le(want - x.v, (k ? dt : 1) * (kind == 2 ? 0.4 : 0.15) * zz, 1e-7, "the step agrees with the exact solution up to the order of the scheme");
    vh_reach("linear");
}
VH_ENTRY h_local()
{
    double lam = vh_real("lam", -2, 2), d = vh_real("dtau", 0.125, 2);
    ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<V, V> ts(1, init(), init(), true);
    V x = mk(), xinc = mk();
    x.v = 1;
    ts.Step(x, xinc, [&](V &r, V &u, V &, int, double, int) { r.v = lam * u.v; }, [&](V &, V &q, double, int) { q.v = d; }, [](V &, V &, V &, V &, double, double, V &, int, double, int) {}, 1, [](int, V &, int) { return true; }, [](V &u, V &i, double f, int) { u.v += i.v * f; }, 1.0);
    double z = lam * d;
    vh_close(x.v, 1 + z + z * z / 2 + z * z * z / 6, 1e-8, "a local time step is taken with its own size");
    vh_reach("local");
}
VH_ENTRY h_hm3()
{
    int mask = pick("mask", 0, 2), start = pick("start", 0, 1), steps = pick("steps", 1, 2);
    double alpha = vh_real("alpha", 0.125, 0.875), lam = vh_real("lam", -2, 2), t = 0;
    ODE::ImplicitHermite3SimpleJacobianDualStep<V, V> ts(1, init(), init(), alpha, 0, start ? 2 : 0, 0.9146, mask);
    int deg = mask == 0 || (mask == 2 && steps == 2) ? 3 : 2;
    auto c = coefs(deg);
    for (int s = 0; s < steps; s++)
    {
        double dt = vh_real("dt", 0.25, 2);
        Monitor m;
        V x = mk(), xinc = mk();
        x.v = poly(c, t);
        int n = 0, nm = 0;
        double t0 = t;
        double tm = 0;
        bool judge = s == steps - 1;
        ts.Step(
            x, xinc, [&](V &r, V &u, V &, int, double ct, int) { m.idle(), r.v = dpoly(c, t0 + ct * dt) + lam * (u.v - poly(c, t0 + ct * dt)); }, [](V &, V &d, double, int) { d.v = 1; },
            [&](V &u, V &res, V &oth, V &, double h, double al, V &inc, int, double ct, int pos) {
                vh_assert((pos == 1) == (&u != &x), "the interior and the end point are solved for their own unknowns");
                int &cnt = pos ? nm : n;
                if (cnt++ > 0 && n > 1 && nm > 1 && judge) vh_close(res.v, 0, 1e-6, pos ? "the exact polynomial solves the interior equation" : "the exact polynomial solves the end equation");
                inc.v = poly(c, t0 + ct * dt) - u.v, m.solved(u, inc);
            },
            4, [](int it, V &, int) { return it == 4; }, [&](V &u, V &i, double f, int) { m.applied(u, i, f); }, dt);
        m.idle();
        vh_assert(n >= 3 && nm >= 3, "both points are solved in each iteration");
        vh_close(ts.getLatestRHS().v, dpoly(c, t0 + dt), 1e-6, "the latest right-hand side is that of the result");
        t += dt;
    }
    if (steps == 2) vh_reach("second");
    vh_reach("hm3");
}
