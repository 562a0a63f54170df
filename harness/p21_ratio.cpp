//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P21","entry":"h_ratio","bounds":"schemes 0 and 1, 2D, 3 base states, 3 fixed increments with two free components each (density+energy, momentum+energy, and density+momentum for the state at rest) in [-2,2] (density stays above 0.05), target internal energy 1/64 or 1/4","reach":["ratio"],"shard":[["scheme",0,1],["st",0,2],["inc",0,2]],"time":600}
//@run {"prop":"P22","entry":"h_bisect","bounds":"any function values in [-4,4] at every point queried, any bracket in [-8,8], 0..6 iterations","reach":["bisect"],"shard":[["it",0,6]]}
//@run {"prop":"P22","entry":"h_bisect_mono","bounds":"any increasing cubic, 0..6 iterations","reach":["mono"],"shard":[["it",0,6]]}
#include "vhnum.h"
#include "DNDS/Defines.hpp"
// 1e-200 guards divisions by exact zeros only; taken as 0 here (an exactly vanishing quadratic coefficient is outside the bounds)
namespace DNDS { static const real verySmallReal_h = 0; }
#define verySmallReal verySmallReal_h
#include "Euler/Gas.hpp"
#include "Solver/Scalar.hpp"
namespace DNDS::Euler::Gas {
using V4 = Eigen::Vector<real, 4>;
static double eint(const V4 &u) { return u(3) - 0.5 * (u(1) * u(1) + u(2) * u(2)) / u(0); }
VH_ENTRY h_ratio()
{
    static const double us[3][4] = {{1, 0, 0, 2.5}, {0.5, 1, -0.5, 2}, {2, -1, 3, 4}};
    static const double is[3][4] = {{0.25, 0.5, -0.75, 0.125}, {-0.25, 0.75, 0.5, -0.5}, {-0.125, -1, 1, 0.25}};
    static const int fr[3][2] = {{0, 3}, {1, 3}, {0, 2}};
    int scheme = vh_concretize(vh_int("scheme", 0, 1)), st = vh_concretize(vh_int("st", 0, 2)), inc = vh_concretize(vh_int("inc", 0, 2)), f = vh_concretize(vh_int("f", 0, st ? 1 : 2));
    double tgt = vh_concretize(vh_int("tgt", 0, 1)) ? 0.25 : 0.015625;
    V4 u, d;
    for (int i = 0; i < 4; i++) u(i) = us[st][i], d(i) = is[inc][i];
    for (int i = 0; i < 2; i++) d(fr[f][i]) = vh_real("d", -2, 2);
    vh_assume(u(0) + d(0) > 0.0625);
    double al = scheme ? IdealGasGetCompressionRatioPressure<2, 1, 4>(u, d, tgt) : IdealGasGetCompressionRatioPressure<2, 0, 4>(u, d, tgt);
    vh_le(0, al, 0, "the ratio is not negative");
    vh_le(al, 1, 0, "the ratio is at most 1");
    V4 w = u + al * d;
    vh_le(0.0625 * 0.5, w(0), 1e-9, "the limited state has positive density");
    vh_le(tgt, eint(w), 1e-7, "the limited state keeps the internal energy at or above the floor");
    vh_reach("ratio");
}
}
namespace DNDS {
VH_ENTRY h_bisect()
{
    int it = vh_concretize(vh_int("it", 0, 6));
    double v0 = vh_real("v0", -8, 7), v1 = v0 + vh_real("w", 0.125, 1), T = vh_real("T", -1, 1);
    double xs[16], fs[16];
    int n = 0;
    auto F = [&](double x) { xs[n] = x, fs[n] = vh_real("f", -4, 4); if (n == 0) vh_assume(fs[0] < T - 0.0009765625); if (n == 1) vh_assume(fs[1] >= T); return fs[n++]; };
    double r = Scalar::BisectSolveLower(F, v0, v1, T, it);
    int lo = -1, hi = -1;
    for (int i = 0; i < n; i++) if (r - xs[i] == 0) lo = i;
    vh_assert(lo >= 0, "the returned point was evaluated");
    vh_assert(fs[lo] <= T, "the function does not exceed the target at the returned point");
    double w = v1 - v0;
    for (int i = 0; i < it; i++) w = w * 0.5;
    for (int i = 0; i < n; i++) if (r + w - xs[i] == 0 && fs[i] >= T) hi = i;
    vh_assert(hi >= 0, "a point where the target is reached lies one halved interval above");
    vh_reach("bisect");
}
VH_ENTRY h_bisect_mono()
{
    int it = vh_concretize(vh_int("it", 0, 6));
    double a = vh_real("a", 0.125, 2), b = vh_real("b", 0, 2), x = vh_real("x", 0, 1); // F(v) - F(x) changes sign at x only
    double T = a * x + b * x * x * x;
    auto F = [&](double v) { return a * v + b * v * v * v; };
    vh_assume(x > 0.0009765625);
    double r = Scalar::BisectSolveLower(F, 0, 1, T, it), w = 1;
    for (int i = 0; i < it; i++) w *= 0.5;
    vh_le(r, x, 1e-9, "the result lies below the root");
    vh_le(x, r + w, 1e-9, "the root is bracketed to the halved interval");
    vh_reach("mono");
}
}
