//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P17","entry":"h_biway","bounds":"5 two-slope limiters; both slopes of any sign with magnitude in [2^-10,8], weight n in [0.125,16]","reach":["biway","same","opp"],"shard":[["lim",0,4]]}
//@run {"prop":"P17","entry":"h_multi","bounds":"1..4 slopes of any sign with magnitude in [2^-10,8], weight in [0.125,16]","reach":["multi"],"shard":[["N",1,4]],"time":600}
//@run {"prop":"P17","entry":"h_norm2","bounds":"2D, 1st/2nd/3rd order coefficient blocks, any coefficients in [-4,4] (one fixed), 2 variables","reach":["norm2"],"shard":[["o",1,3]],"time":600}
//@run {"prop":"P17","entry":"h_norm3","bounds":"3D, 1st/2nd/3rd order coefficient blocks, any coefficients in [-4,4] (one fixed)","reach":["norm3"],"shard":[["o",1,3]],"time":600}
//@run {"prop":"P17","entry":"h_poly2","bounds":"2D, 1st/2nd/3rd order blocks, 2 or 3 candidates, any coefficients in [-4,4] (one fixed)","reach":["poly2"],"shard":[["o",1,3],["N",1,3]],"time":600}
//@run {"prop":"P17","entry":"h_memm2","bounds":"2D order 1..3, one coefficient of each block in [-4,4], 1 variable; two blocks","reach":["memm2"],"shard":[["o",1,3]],"time":600}
//@run {"prop":"P17","entry":"h_memm3","bounds":"3D order 1..3, one coefficient of each block in [-4,4], 1 variable","reach":["memm3"],"shard":[["o",1,3]],"time":600}
#include "vhnum.h"
#include <vector>
#include "DNDS/Defines.hpp"
// the regularisation 1e-200 only matters for slopes of magnitude < 1e-49: taken as 0 here, where no slope is 0 (p17_limzero.cpp runs with it)
namespace DNDS { static const real verySmallReal_h = 0; }
#define verySmallReal verySmallReal_h
#include "CFV/Limiters.hpp"
namespace DNDS::CFV {
using A1 = Eigen::Array<real, 1, 1>;
using AX = Eigen::ArrayXXd;
VH_ENTRY h_biway()
{
    int lim = vh_concretize(vh_int("lim", 0, 4)), sa = vh_concretize(vh_int("sa", 0, 1)) * 2 - 1, sb = vh_concretize(vh_int("sb", 0, 1)) * 2 - 1;
    double ma = vh_real("a", 0.0009765625, 8), mb = vh_real("b", 0.0009765625, 8), n = vh_real("n", 0.125, 16);
    double a = sa * ma, b = sb * mb;
    AX u1(1, 1), u2(1, 1), o(1, 1), os(1, 1);
    u1(0, 0) = a, u2(0, 0) = b;
    bool opp = sa * sb < 0;
    double a4 = a * a * a * a, b4 = b * b * b * b;
    if (lim == 0)
    {
        FMINMOD_Biway(u1, u2, o, n);
        vh_close(o(0, 0), !opp ? (ma < mb ? a : b) : 0, 1e-12, "minmod is the smaller slope, or 0 at an extremum");
    }
    else if (lim == 1)
    {
        FVanLeer_Biway(u1, u2, o, n);
        if (!opp) vh_close(o(0, 0), 2 * a * b / (a + b), 1e-9, "van Leer is the harmonic mean of slopes of one sign");
        else { vh_assume(ma - mb > 1e-3 || mb - ma > 1e-3); vh_close(o(0, 0), 0, 1e-12, "van Leer is 0 at an extremum"); }
    }
    else if (lim == 2)
    {
        FWBAP_L2_Biway(u1, u2, o, n);
        vh_close(o(0, 0), (a4 * b + n * b4 * a) / (a4 + n * b4), 1e-6, "WBAP weighs the candidates by the inverse fourth power");
    }
    else if (lim == 3)
    {
        FWBAP_L2_Biway(u2, u1, os, 1.0);
        FWBAP_L2_Biway(u1, u2, o, 1.0);
        vh_close(os(0, 0), o(0, 0), 1e-8, "equally weighted WBAP is symmetric");
    }
    else
    {
        FWBAP_L2_Cut_Biway(u1, u2, o, n);
        vh_close(o(0, 0), opp ? 0 : (a4 * b + n * b4 * a) / (a4 + n * b4), 1e-9, "cut WBAP is WBAP for slopes of one sign and 0 at an extremum");
    }
    if (opp) vh_reach("opp");
    else vh_reach("same");
    vh_reach("biway");
}
VH_ENTRY h_multi()
{
    int N = vh_concretize(vh_int("N", 1, 4)), sg = vh_concretize(vh_int("sg", 0, (1 << N) - 1));
    double n = vh_real("n", 0.125, 16), v[4];
    std::vector<AX> u(N, AX(1, 1));
    for (int i = 0; i < N; i++)
    {
        v[i] = vh_real("v", 0.0009765625, 8) * (sg >> i & 1 ? -1 : 1);
        u[i](0, 0) = v[i];
    }
    AX o(1, 1);
    FWBAP_L2_Multiway(u, N, o, n);
    // a weighted average of all candidates with weights n / v_0^4, 1 / v_i^4
    double num = 0, den = 0;
    for (int i = 0; i < N; i++)
    {
        double w = (i ? 1 : n) / (v[i] * v[i] * v[i] * v[i]);
        num += w * v[i], den += w;
    }
    vh_close(o(0, 0), num / den, 1e-7, "multiway WBAP weighs all candidates by the inverse fourth power");
    vh_reach("multi");
}
// squared norm of a coefficient block of order o, invariant under rotation of the axes (monomial coefficients)
static double blockNorm(int dim, int o, const double *c)
{
    static const double w22[3] = {1, 2, 1}, w23[4] = {1, 3, 3, 1}, w33[10] = {1, 1, 1, 3, 3, 3, 3, 3, 3, 6}, w32[6] = {1, 1, 1, 2, 2, 2};
    int n = dim == 2 ? o + 1 : (o + 1) * (o + 2) / 2;
    double s = 0;
    for (int i = 0; i < n; i++)
    {
        double w = o == 1 ? 1 : dim == 2 ? (o == 2 ? w22[i] : w23[i]) : (o == 2 ? w32[i] : w33[i]);
        s += c[i] * c[i] * (1. / w);
    }
    return s;
}
template <int dim, int nv> static void normCheck(int o)
{
    int n = dim == 2 ? o + 1 : (o + 1) * (o + 2) / 2;
    AX u1(n, nv), u2(n, nv), r(n, nv);
    int sel = vh_concretize(vh_int("sel", 0, n - 1)), big = vh_concretize(vh_int("big", 0, 1));
    for (int j = 0; j < nv; j++)
        for (int i = 0; i < n; i++)
        {
            u1(i, j) = i == sel ? vh_real("p", -4, 4) : 0.5 * i - 1 + 0.75 * j, u2(i, j) = i == sel ? vh_real("q", -4, 4) : 1.25 - 0.25 * i;
        }
    for (int j = 0; j < nv; j++) (big ? u1 : u2)((sel + 1) % n, j) = 5 - 11 * j; // the largest entry
    double w = vh_real("n", 0.125, 16);
    FWBAP_L2_Biway_PolynomialNorm<dim, nv>(u1, u2, r, w);
    for (int j = 0; j < nv; j++)
    {
        double c1[10], c2[10];
        for (int i = 0; i < n; i++) c1[i] = u1(i, j), c2[i] = u2(i, j);
        double N1 = blockNorm(dim, o, c1), N2 = blockNorm(dim, o, c2);
        for (int i = 0; i < n; i++)
            vh_close(r(i, j), (c2[i] * N1 * N1 + w * c1[i] * N2 * N2) / (N1 * N1 + w * N2 * N2), 1e-6, "polynomial WBAP weighs whole blocks by their rotation-invariant norm");
    }
    FWBAP_L2_Biway_PolynomialOrth(u1, u2, r, w);
    for (int j = 0; j < nv; j++)
    {
        double N1 = 0, N2 = 0;
        for (int i = 0; i < n; i++) N1 += u1(i, j) * u1(i, j), N2 += u2(i, j) * u2(i, j);
        for (int i = 0; i < n; i++)
            vh_close(r(i, j), (u2(i, j) * N1 * N1 + w * u1(i, j) * N2 * N2) / (N1 * N1 + w * N2 * N2), 1e-6, "orthogonal-basis WBAP weighs whole blocks by their norm");
    }
}
VH_ENTRY h_norm2()
{
    int o = vh_concretize(vh_int("o", 1, 3));
    normCheck<2, 2>(o);
    vh_reach("norm2");
}
VH_ENTRY h_norm3()
{
    int o = vh_concretize(vh_int("o", 1, 3));
    normCheck<3, 1>(o);
    vh_reach("norm3");
}
VH_ENTRY h_poly2()
{
    int o = vh_concretize(vh_int("o", 1, 3)), N = vh_concretize(vh_int("N", 1, 3)), n = o + 1;
    int sel = vh_concretize(vh_int("sel", 0, n - 1)), big = vh_concretize(vh_int("big", 0, N - 1));
    int which = N < 3 ? -1 : vh_concretize(vh_int("which", 0, N - 1)); // of three candidates only one varies
    std::vector<AX> u(N, AX(n, 1));
    for (int k = 0; k < N; k++)
        for (int i = 0; i < n; i++) u[k](i, 0) = i == sel && (which < 0 || which == k) ? vh_real("p", -4, 4) : 0.75 + 0.5 * i - 0.375 * k * k;
    u[big]((sel + 1) % n, 0) = -5;
    double w = vh_real("n", 0.125, 16);
    AX r(n, 1);
    for (int orth = 0; orth < 2; orth++)
    {
        if (orth) FWBAP_L2_Multiway_PolynomialOrth(u, N, r, w); else FWBAP_L2_Multiway_Polynomial2D(u, N, r, w);
        double W[3], den = 0;
        for (int k = 0; k < N; k++)
        {
            double c[4], s = 0;
            for (int i = 0; i < n; i++) c[i] = u[k](i, 0), s += c[i] * c[i];
            double q = orth ? s : blockNorm(2, o, c);
            W[k] = (k ? 1 : w) / (q * q), den += W[k];
        }
        for (int i = 0; i < n; i++)
        {
            double num = 0;
            for (int k = 0; k < N; k++) num += W[k] * u[k](i, 0);
            vh_close(r(i, 0), num / den, 1e-6, orth ? "multiway orthogonal WBAP weighs blocks by their norm" : "multiway polynomial WBAP weighs blocks by their rotation-invariant norm");
        }
    }
    vh_reach("poly2");
}
template <int dim> static void memm(int o)
{
    int n = dim == 2 ? o + 1 : (o + 1) * (o + 2) / 2, sel = vh_concretize(vh_int("sel", 0, n - 1)), big = vh_concretize(vh_int("big", 0, 1));
    AX a(n, 1), b(n, 1), r(n, 1);
    for (int i = 0; i < n; i++) a(i, 0) = 1 - 0.125 * i, b(i, 0) = 0.75 + 0.0625 * i;
    a(sel, 0) = vh_real("p", -4, 4), b(sel, 0) = vh_real("q", -4, 4);
    (big ? a : b)((sel + 1) % n, 0) = -5; // the largest entry
    double N1 = blockNorm(dim, o, a.data()), N2 = blockNorm(dim, o, b.data());
    int c = vh_concretize(vh_int("c", 0, 1));
    if (c) vh_assume(N1 > N2 + 1e-3);
    else vh_assume(N1 < N2 - 1e-3);
    FMEMM_Biway_PolynomialNorm<dim, 1>(a, b, r, 1.0);
    for (int i = 0; i < n; i++) vh_close(r(i, 0), c ? b(i, 0) : a(i, 0), 1e-9, "the block of smaller rotation-invariant norm is taken");
}
VH_ENTRY h_memm2()
{
    int o = vh_concretize(vh_int("o", 1, 3));
    memm<2>(o);
    vh_reach("memm2");
}
VH_ENTRY h_memm3()
{
    int o = vh_concretize(vh_int("o", 1, 3));
    memm<3>(o);
    vh_reach("memm3");
}
}
