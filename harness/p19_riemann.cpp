//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P19","entry":"h_consist","bounds":"9 Riemann solvers, 2D and 3D, any state (density in [0.25,4], velocity in [-4,4], sound speed in [0.5,2]), any unit normal, any grid velocity in [-2,2]","reach":["consist"],"shard":[["type",0,8],["dim",2,3]],"time":600}
//@run {"prop":"P19","entry":"h_roe","bounds":"2D and 3D, any two states, any unit normal (2D) or any unit normal in a coordinate plane (3D)","reach":["roe"],"shard":[["dim",2,3]],"time":600}
//@run {"prop":"P19","entry":"h_mirror","bounds":"9 Riemann solvers, 2D, 3 pairs of states: side states arbitrary with fixed mean states and any normal grid speed, or one mean velocity arbitrary (HLLC: 3 side parameters at a time)","reach":["mirror"],"shard":[["type",0,8],["mode",0,1]],"time":600}
//@run {"prop":"P19","entry":"h_batch","bounds":"6 batched Roe variants, 2D, batches of 1..2 faces, any left states, one free parameter of each mean state, any grid velocity","reach":["batch"],"shard":[["type",0,5],["nB",1,2]],"time":600}
//@run {"prop":"P19","entry":"h_batch_m1","bounds":"Roe_M1, 2D, 3 pairs of states, mean normal speed below a fifth of the speed of sound on one side","reach":["batch_m1"]}
//@run {"prop":"P19","entry":"h_upwind","bounds":"Roe, HLLEP, HLLEP_V1, HLLC; 2D, both directions, speeds 3..4, sound speeds up to 1.5, any grid speed in [-0.5,0.5]; Roe/HLLC: 3 pairs with one free velocity","reach":["upwind"],"shard":[["type",0,3],["dir",0,1]],"time":600}
//@run {"prop":"P19","entry":"h_contact","bounds":"Roe, Roe_M3, HLLEP, HLLC; 2D, any densities, pressure, tangential speeds, unit normal and grid velocity","reach":["contact"],"shard":[["type",0,3]],"time":600}
#include "vhnum.h"
#include "DNDS/Defines.hpp"
// 1e-200 guards divisions by exact zeros only; it is taken as 0 so that identities are exact (denominators are bounded away from 0 here)
namespace DNDS { static const real verySmallReal_h = 0; }
#define verySmallReal verySmallReal_h
#include "Euler/Gas.hpp"
namespace DNDS::Euler::Gas {
template <int n> using V = Eigen::Vector<real, n>;
static const RiemannSolverType types[9] = {Roe, Roe_M1, Roe_M2, Roe_M3, Roe_M4, Roe_M5, HLLEP, HLLEP_V1, HLLC};
static const double gamma_ = 1.5;
template <int dim> struct St
{
    double r, v[dim], a; // sqrt(density), velocity, speed of sound
    static St any(const char *nm)
    {
        St s;
        s.r = vh_real(nm, 0.5, 2);
        for (int i = 0; i < dim; i++) s.v[i] = vh_real(nm, -4, 4);
        s.a = vh_real(nm, 0.5, 2);
        return s;
    }
    double p() const { return r * r * a * a / gamma_; }
    V<dim + 2> U() const
    {
        V<dim + 2> u;
        double k = 0;
        u(0) = r * r;
        for (int i = 0; i < dim; i++) u(i + 1) = r * r * v[i], k += 0.5 * r * r * v[i] * v[i];
        u(dim + 1) = p() / (gamma_ - 1) + k;
        return u;
    }
    V<dim + 2> F(const V<dim> &n, const V<dim> &vg) const
    {
        V<dim + 2> u = U(), f;
        double vn = 0, vr = 0;
        for (int i = 0; i < dim; i++) vn += v[i] * n(i), vr += (v[i] - vg(i)) * n(i);
        for (int i = 0; i < dim + 2; i++) f(i) = u(i) * vr;
        for (int i = 0; i < dim; i++) f(i + 1) += p() * n(i);
        f(dim + 1) += p() * vn;
        return f;
    }
};
template <int dim> static V<dim> unitN()
{
    double s = vh_real("t", -1, 1), d = 1 + s * s;
    V<dim> n = V<dim>::Zero();
    int ax = vh_concretize(vh_int("ax", 0, dim - 1));
    n(ax) = (1 - s * s) / d, n((ax + 1) % dim) = 2 * s / d;
    return n;
}
template <int dim> static V<dim> anyV(const char *nm, double b)
{
    V<dim> r;
    for (int i = 0; i < dim; i++) r(i) = vh_real(nm, -b, b);
    return r;
}
template <int dim> static V<dim + 2> solve(int type, const V<dim + 2> &L, const V<dim + 2> &R, const V<dim + 2> &Lm, const V<dim + 2> &Rm, const V<dim> &vg, const V<dim> &n, double dLam = 0)
{
    V<dim + 2> F;
    double l0, l1, l4;
    InviscidFlux_IdealGas_Dispatcher<dim>(types[type], L, R, Lm, Rm, vg, n, gamma_, F, dLam, [] {}, l0, l1, l4);
    return F;
}
template <int dim> static void consist(int type)
{
    auto s = St<dim>::any("s");
    V<dim> n = unitN<dim>(), vg = anyV<dim>("vg", 2);
    V<dim + 2> U = s.U(), F = solve<dim>(type, U, U, U, U, vg, n), W = s.F(n, vg);
    for (int i = 0; i < dim + 2; i++) vh_close(F(i), W(i), 1e-7, "equal states on both sides give the flux of that state");
}
VH_ENTRY h_consist()
{
    int type = vh_concretize(vh_int("type", 0, 8)), dim = vh_concretize(vh_int("dim", 2, 3));
    dim == 2 ? consist<2>(type) : consist<3>(type);
    vh_reach("consist");
}
template <int dim> static void roe()
{
    auto l = St<dim>::any("l"), r = St<dim>::any("r");
    V<dim> n = unitN<dim>(), z = V<dim>::Zero(), v;
    V<dim + 2> L = l.U(), R = r.U(), d = R - L, inc = V<dim + 2>::Zero(), fl = l.F(n, z), fr = r.F(n, z);
    double v2, a, a2, H;
    GetRoeAverage<dim>(L, R, gamma_, v, v2, a, a2, H);
    vh_close(a2, (gamma_ - 1) * (H - 0.5 * v2), 1e-7, "Roe speed of sound");
    vh_close(a * a, a2, 1e-7, "Roe speed of sound is the root of its square");
    double vn = v.dot(n);
    RoeFluxIncFDiff<dim>(d, n, v, v2, a, a2, H, vn - a, vn, vn + a, gamma_, inc);
    for (int i = 0; i < dim + 2; i++) vh_close(inc(i), fr(i) - fl(i), 1e-5, "Roe decomposition reproduces the flux difference of any two states");
    V<dim + 2> inc1 = V<dim + 2>::Zero();
    RoeFluxIncFDiff<dim>(d, n, v, v2, a, a2, H, 1, 1, 1, gamma_, inc1);
    for (int i = 0; i < dim + 2; i++) vh_close(inc1(i), d(i), 1e-5, "wave strengths add up to the jump");
}
VH_ENTRY h_roe()
{
    vh_concretize(vh_int("dim", 2, 3)) == 2 ? roe<2>() : roe<3>();
    vh_reach("roe");
}
static St<2> fixedSt(int k)
{
    St<2> s;
    static const double t[4][4] = {{1, 0.25, 0.5, 1.25}, {0.75, -0.5, 0.25, 1.5}, {1.5, 2.5, -1, 0.75}, {1.25, 1.5, 1, 1}};
    s.r = t[k][0], s.v[0] = t[k][1], s.v[1] = t[k][2], s.a = t[k][3];
    return s;
}
VH_ENTRY h_mirror()
{
    int type = vh_concretize(vh_int("type", 0, 8)), mode = vh_concretize(vh_int("mode", 0, 1));
    int k = vh_concretize(vh_int("k", 0, 2));
    St<2> l, r, lm, rm;
    if (mode == 0) l = St<2>::any("l"), r = St<2>::any("r"), lm = fixedSt(k), rm = fixedSt(k + 1);
    else l = fixedSt(k), r = fixedSt(k + 1), lm = fixedSt(k), rm = fixedSt(k + 1), lm.v[0] = vh_real("lmv", -4, 4);
    if (mode == 0 && type == 8) l = fixedSt(k), r = fixedSt(k + 1), l.a = vh_real("la", 0.5, 2), r.a = vh_real("ra", 0.5, 2), r.v[0] = vh_real("rv", -4, 4);
    if (mode == 1 && type == 8) lm = fixedSt(k), l.r = vh_real("lr", 0.5, 2), r.r = vh_real("rr", 0.5, 2), r.v[1] = vh_real("rv", -4, 4);
    V<2> n = V<2>(0.6, 0.8), vg = V<2>(mode ? 0.25 : vh_real("vg", -2, 2), 0.5), m = -n;
    V<4> A = solve<2>(type, l.U(), r.U(), lm.U(), rm.U(), vg, n);
    if (type == 8) vh_assume(A(0) > 0.015625 || A(0) < -0.015625); // with mean states of their own the HLLC flux jumps where its contact rests on the face
    V<4> B = solve<2>(type, r.U(), l.U(), rm.U(), lm.U(), vg, m);
    for (int i = 0; i < 4; i++) vh_close(A(i), -B(i), 1e-6, "what leaves one side enters the other");
    vh_reach("mirror");
}
static void batch(int type, int nB, bool wantSlow)
{
    int k = vh_concretize(vh_int("k", 0, 2));
    St<2> lm = fixedSt(k), rm = fixedSt(k + 1);
    lm.v[0] = vh_real("lmv", -4, 4);
    if (type != 1) rm.a = vh_real("rma", 0.5, 2);
    V<2> n = V<2>(0.6, 0.8), vg = type == 1 ? V<2>(0.25, -0.5) : anyV<2>("vg", 2);
    bool slow = false;
    if (type == 1)
    {
        double ul = (lm.v[0] - vg(0)) * 0.6 + (lm.v[1] - vg(1)) * 0.8, ur = (rm.v[0] - vg(0)) * 0.6 + (rm.v[1] - vg(1)) * 0.8;
        slow = (ul < 0.21 * lm.a && ul > -0.21 * lm.a) || (ur < 0.21 * rm.a && ur > -0.21 * rm.a);
    }
    vh_assume(slow == wantSlow);
    Eigen::Matrix<real, 4, -1, Eigen::ColMajor, 4, MaxBatch> L, R, F;
    Eigen::Matrix<real, 2, -1, Eigen::ColMajor, 2, MaxBatch> G, N;
    L.resize(4, nB), R.resize(4, nB), F.resize(4, nB), G.resize(2, nB), N.resize(2, nB);
    V<4> want[2];
    for (int b = 0; b < nB; b++)
    {
        St<2> l = wantSlow ? fixedSt(b) : St<2>::any("l"), r = fixedSt(b + 1);
        L.col(b) = l.U(), R.col(b) = r.U(), G.col(b) = vg, N.col(b) = n;
        want[b] = solve<2>(type, l.U(), r.U(), lm.U(), rm.U(), vg, n, 0.125);
    }
    double l0, l1, l4;
    auto dump = [] {};
    InviscidFlux_IdealGas_Batch_Dispatcher<2>(types[type], L, R, lm.U(), rm.U(), G, vg, N, n, gamma_, F, 0.125, dump, l0, l1, l4);
    for (int b = 0; b < nB; b++)
        for (int i = 0; i < 4; i++) vh_close(F(i, b), want[b](i), 1e-6, slow ? "a batch gives each face the Roe_M1 flux the single-face solver gives it at low normal speed" : "a batch gives each face the flux the single-face solver gives it");
}
VH_ENTRY h_batch()
{
    int type = vh_concretize(vh_int("type", 0, 5)), nB = vh_concretize(vh_int("nB", 1, 2));
    batch(type, nB, false);
    vh_reach("batch");
}
VH_ENTRY h_batch_m1()
{
    batch(1, 1, true);
    vh_reach("batch_m1");
}
VH_ENTRY h_upwind()
{
    static const int ty[4] = {0, 6, 7, 8};
    int type = ty[vh_concretize(vh_int("type", 0, 3))], dir = vh_concretize(vh_int("dir", 0, 1));
    St<2> l, r;
    // everything moves across the face faster than sound
    double sg = dir ? -1 : 1;
    if (type == 6 || type == 7)
    {
        l.r = vh_real("l", 0.5, 2), l.a = vh_real("l", 0.5, 1), r.r = vh_real("r", 0.5, 2), r.a = vh_real("r", 0.5, 1);
        l.v[0] = sg * vh_real("l", 3, 4), r.v[0] = sg * vh_real("r", 3, 4), l.v[1] = vh_real("l", -1, 1), r.v[1] = vh_real("r", -1, 1);
    }
    else
    {
        int k = vh_concretize(vh_int("k", 0, 2));
        l = fixedSt(k), r = fixedSt(k + 1), l.v[0] = sg * vh_real("l", 3, 4), r.v[0] = sg * 3.5;
    }
    V<2> n(1, 0), vg(vh_real("vg", -0.5, 0.5), 0);
    V<4> F = solve<2>(type, l.U(), r.U(), l.U(), r.U(), vg, n), W = (dir ? r : l).F(n, vg);
    for (int i = 0; i < 4; i++) vh_close(F(i), W(i), 1e-6, "supersonic flow takes the upstream flux");
    vh_reach("upwind");
}
VH_ENTRY h_contact()
{
    static const int ty[4] = {0, 3, 6, 8};
    int ti = vh_concretize(vh_int("type", 0, 3)), type = ty[ti];
    St<2> l, r;
    V<2> n = unitN<2>(), t(-n(1), n(0)), vg = anyV<2>("vg", 2);
    double p = vh_real("p", 0.5, 2), sl = vh_real("sl", -2, 2), sr = ti == 2 ? sl : vh_real("sr", -2, 2), vn = vg.dot(n);
    l.a = vh_real("la", 0.5, 2), r.a = vh_real("ra", 0.5, 2), l.r = p / l.a, r.r = p / r.a; // equal pressures p^2/gamma
    for (int i = 0; i < 2; i++) l.v[i] = vn * n(i) + sl * t(i), r.v[i] = vn * n(i) + sr * t(i);
    V<4> F = solve<2>(type, l.U(), r.U(), l.U(), r.U(), vg, n);
    vh_close(F(0), 0, 1e-6, "no mass crosses a contact discontinuity that rests on the face");
    for (int i = 0; i < 2; i++) vh_close(F(1 + i), p * p / gamma_ * n(i), 1e-6, "a contact at rest exerts its pressure");
    vh_close(F(3), p * p / gamma_ * vn, 1e-6, "a contact at rest exchanges only pressure work");
    vh_reach("contact");
}
}
