//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P18","entry":"h_therm","bounds":"2D and 3D, 2 extra variables, any density in [0.25,4], velocity in [-4,4], pressure in [0.125,8], gamma in [1.1,1.9]","reach":["therm"],"shard":[["dim",2,3]]}
//@run {"prop":"P18","entry":"h_total","bounds":"2D and 3D, gamma 1.25, 1.5 and 2, any state","reach":["total"],"shard":[["dim",2,3]]}
//@run {"prop":"P18","entry":"h_eig","bounds":"2D and 3D, any conservative state with positive density and pressure, gamma in [1.1,1.9]","reach":["eig"],"shard":[["dim",2,3]]}
//@run {"prop":"P18","entry":"h_flux","bounds":"2D and 3D, any state, normal (any vector) and grid velocity; batches of 2","reach":["flux"],"shard":[["dim",2,3]]}
//@run {"prop":"P18","entry":"h_inc","bounds":"2D and 3D, any state, increment, normal and grid velocity, gamma in [1.1,1.9]","reach":["inc"],"shard":[["dim",2,3]]}
//@run {"prop":"P18","entry":"h_grad","bounds":"2D and 3D, 2 extra variables, any state and gradients, gamma in [1.1,1.9]","reach":["grad"],"shard":[["dim",2,3]]}
//@run {"prop":"P20","entry":"h_visc","bounds":"2D and 3D, any state, primitive gradients in [-2,2], normal (any vector), viscosity, conductivity, heat capacity","reach":["visc"],"shard":[["dim",2,3]]}
//@run {"prop":"P20","entry":"h_adiabatic","bounds":"2D and 3D, as h_visc with any unit normal","reach":["adia"],"shard":[["dim",2,3]]}
//@run {"prop":"P20","entry":"h_qcr","bounds":"2D and 3D, any primitive gradients in [-2,2], any eddy-viscosity ratio","reach":["qcr"],"shard":[["dim",2,3]],"time":600}
#include "vhnum.h"
#include "DNDS/Defines.hpp"
// 1e-200 guards divisions by exact zeros only; it is taken as 0 so that identities are exact (denominators are bounded away from 0 here)
namespace DNDS { static const real verySmallReal_h = 0; }
#define verySmallReal verySmallReal_h
#include "Euler/Gas.hpp"
namespace DNDS::Euler::Gas {
template <int n> using V = Eigen::Vector<real, n>;
// a conservative state as symbolic input with positive density and pressure
template <int dim, int nv = dim + 2> static V<nv> cons(real gamma)
{
    V<nv> U;
    U(0) = vh_real("rho", 0.25, 4);
    for (int i = 1; i <= dim; i++) U(i) = vh_real("m", -4, 4);
    U(dim + 1) = vh_real("E", 0.125, 64);
    for (int i = dim + 2; i < nv; i++) U(i) = vh_real("s", -2, 2);
    real m2 = 0;
    for (int i = 1; i <= dim; i++) m2 += U(i) * U(i);
    vh_assume(U(dim + 1) * U(0) * 2 - m2 > 0.0625);
    return U;
}
template <int n> static V<n> any(const char *nm, double b)
{
    V<n> r;
    for (int i = 0; i < n; i++) r(i) = vh_real(nm, -b, b);
    return r;
}
template <int dim, int nv> static V<nv> prim(const double *U, double gamma) // own definition of primitive variables
{
    V<nv> q;
    double k = 0;
    q(0) = U[0];
    for (int i = 1; i <= dim; i++) q(i) = U[i] / U[0], k += U[i] * U[i] / (2 * U[0]);
    q(dim + 1) = (gamma - 1) * (U[dim + 1] - k);
    for (int i = dim + 2; i < nv; i++) q(i) = U[i] / U[0];
    return q;
}
template <int dim> static V<dim + 2> fluxN(const double *U, const V<dim> &n, const V<dim> &vg, double gamma) // own definition of the flux through n
{
    V<dim + 2> q = prim<dim, dim + 2>(U, gamma), F;
    double vn = 0, vr = 0, p = q(dim + 1);
    for (int i = 0; i < dim; i++) vn += q(1 + i) * n(i), vr += (q(1 + i) - vg(i)) * n(i);
    for (int i = 0; i < dim + 2; i++) F(i) = U[i] * vr;
    for (int i = 0; i < dim; i++) F(1 + i) += p * n(i);
    F(dim + 1) += p * vn;
    return F;
}
template <int dim> static void therm()
{
    constexpr int nv = dim + 4;
    double g = vh_real("gamma", 1.1, 1.9);
    V<nv> P, U, P2, U2;
    P(0) = vh_real("rho", 0.25, 4);
    for (int i = 1; i <= dim; i++) P(i) = vh_real("v", -4, 4);
    P(dim + 1) = vh_real("p", 0.125, 8);
    for (int i = dim + 2; i < nv; i++) P(i) = vh_real("s", -2, 2);
    IdealGasThermalPrimitive2Conservative<dim>(P, U, g);
    IdealGasThermalConservative2Primitive<dim>(U, P2, g);
    double v2 = 0;
    for (int i = 1; i <= dim; i++) v2 += P(i) * P(i);
    for (int i = 0; i < nv; i++)
    {
        vh_close(P2(i), P(i), 1e-9, "primitive to conservative and back is the identity");
        vh_close(U(i), i == 0 ? P(0) : i == dim + 1 ? P(i) / (g - 1) + 0.5 * P(0) * v2 : P(0) * P(i), 1e-9, "conservative variables");
    }
    IdealGasThermalPrimitive2Conservative<dim>(P2, U2, g);
    for (int i = 0; i < nv; i++) vh_close(U2(i), U(i), 1e-8, "conservative to primitive and back is the identity");
    double p, a2, H;
    IdealGasThermal(U(dim + 1), U(0), v2, g, p, a2, H);
    vh_close(p, P(dim + 1), 1e-9, "pressure of the state");
    vh_close(a2 * P(0), g * P(dim + 1), 1e-8, "speed of sound of the state");
    vh_close(H, a2 / (g - 1) + 0.5 * v2, 1e-8, "total enthalpy of the state");
}
VH_ENTRY h_therm() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? therm<2>() : therm<3>(); vh_reach("therm"); }
template <int dim> static void total()
{
    static const double gs[3] = {1.25, 1.5, 2};
    static const int es[3] = {5, 3, 2};
    int k = vh_concretize(vh_int("g", 0, 2));
    double g = gs[k], rg = vh_real("rg", 0.25, 4);
    V<dim + 2> P;
    P(0) = vh_real("rho", 0.25, 4);
    double v2 = 0;
    for (int i = 1; i <= dim; i++) P(i) = vh_real("v", -2, 2), v2 += P(i) * P(i);
    P(dim + 1) = vh_real("p", 0.5, 4);
    auto [p0, T0] = IdealGasThermalPrimitiveGetP0T0<dim>(P, g, rg);
    double T = P(dim + 1) / (P(0) * rg), cp = g * rg / (g - 1), r = 1;
    vh_close(cp * T0, cp * T + 0.5 * v2, 1e-7, "total temperature carries the kinetic energy");
    double q = (cp * T + 0.5 * v2) / (cp * T);
    for (int i = 0; i < es[k]; i++) r *= q;
    vh_close(p0 / P(dim + 1), r, 1e-6, "total pressure is reached isentropically");
}
VH_ENTRY h_total() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? total<2>() : total<3>(); vh_reach("total"); }
template <int dim> static void eig()
{
    double g = vh_real("gamma", 1.1, 1.9);
    V<dim + 2> U = cons<dim>(g);
    auto R = IdealGas_EulerGasRightEigenVector<dim>(U, g);
    auto L = IdealGas_EulerGasLeftEigenVector<dim>(U, g);
    V<dim> e1 = V<dim>::Zero(), z = V<dim>::Zero();
    e1(0) = 1;
    double a = R(1, dim + 1) - U(1) / U(0); // the engine checks a >= 0, a^2 = gamma p / rho
    V<dim + 2> q = prim<dim, dim + 2>(U.data(), g);
    vh_close(a * a * U(0), g * q(dim + 1), 1e-7, "acoustic columns are displaced by the speed of sound");
    for (int i = 0; i < dim + 2; i++)
        for (int j = 0; j < dim + 2; j++)
        {
            double s = 0;
            for (int k = 0; k < dim + 2; k++) s += L(i, k) * R(k, j);
            vh_close(s, i == j, 1e-6, "left and right eigenvectors are inverse");
        }
    double A[dim + 2][dim + 2];
    for (int j = 0; j < dim + 2; j++)
        for (int i = 0; i < dim + 2; i++)
            A[i][j] = vh_D([&](const double *x) { return fluxN<dim>(x, e1, z, g)(i); }, U.data(), dim + 2, j);
    for (int k = 0; k < dim + 2; k++)
    {
        double lam = U(1) / U(0) + (k == 0 ? -a : k == dim + 1 ? a : 0);
        for (int i = 0; i < dim + 2; i++)
        {
            double s = 0;
            for (int j = 0; j < dim + 2; j++) s += A[i][j] * R(j, k);
            vh_close(s, lam * R(i, k), 1e-5, "columns are eigenvectors of the flux Jacobian with speeds u-a, u, u+a");
        }
    }
}
VH_ENTRY h_eig() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? eig<2>() : eig<3>(); vh_reach("eig"); }
template <int dim> static void flux()
{
    constexpr int nv = dim + 2;
    double g = 1.5;
    Eigen::Matrix<real, nv, 2> U, F2, Fx2;
    Eigen::Matrix<real, dim, 2> vel, vg, n;
    Eigen::RowVector<real, 2> p;
    V<nv> F;
    V<dim> e1 = V<dim>::Zero();
    e1(0) = 1;
    for (int c = 0; c < 2; c++)
    {
        U.col(c) = cons<dim>(g);
        vg.col(c) = any<dim>("vg", 2), n.col(c) = any<dim>("n", 1);
        V<nv> q = prim<dim, nv>(U.col(c).data(), g);
        for (int i = 0; i < dim; i++) vel(i, c) = q(i + 1);
        p(c) = q(dim + 1);
    }
    GasInviscidFlux_XY_Batch<dim>(U, vel, vg, n, p, F2);
    GasInviscidFlux_Batch<dim>(U, vel, vg, p, Fx2);
    for (int c = 0; c < 2; c++)
    {
        V<nv> u = U.col(c);
        V<dim> v = vel.col(c), w = vg.col(c), nn = n.col(c);
        V<nv> want = fluxN<dim>(u.data(), nn, w, g), wantx = fluxN<dim>(u.data(), e1, w, g);
        GasInviscidFlux_XY<dim>(u, v, w, nn, p(c), F);
        for (int i = 0; i < nv; i++) vh_close(F(i), want(i), 1e-7, "Euler flux through a face"), vh_close(F2(i, c), want(i), 1e-7, "batched Euler flux through a face");
        GasInviscidFlux<dim>(u, v, w, p(c), F);
        for (int i = 0; i < nv; i++) vh_close(F(i), wantx(i), 1e-7, "Euler flux in x"), vh_close(Fx2(i, c), wantx(i), 1e-7, "batched Euler flux in x");
    }
}
VH_ENTRY h_flux() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? flux<2>() : flux<3>(); vh_reach("flux"); }
template <int dim> static void inc()
{
    constexpr int nv = dim + 2;
    double g = vh_real("gamma", 1.1, 1.9);
    V<nv> U = cons<dim>(g), dU = any<nv>("dU", 2), F;
    V<dim> n = any<dim>("n", 1), vg = any<dim>("vg", 2), velo, dV;
    for (int i = 0; i < dim; i++) velo(i) = U(i + 1) / U(0);
    double dp, p = prim<dim, nv>(U.data(), g)(dim + 1);
    IdealGasUIncrement<dim>(U, dU, velo, g, dV, dp);
    for (int k = 1; k <= dim + 1; k++)
    {
        double s = 0;
        for (int j = 0; j < nv; j++) s += vh_D([&](const double *x) { return prim<dim, nv>(x, g)(k); }, U.data(), nv, j) * dU(j);
        vh_close(k <= dim ? dV(k - 1) : dp, s, 1e-5, "increments of velocity and pressure are the derivative along dU");
    }
    GasInviscidFluxFacialIncrement<dim>(U, dU, n, velo, dV, vg, dp, p, F);
    for (int k = 0; k < nv; k++)
    {
        double s = 0;
        for (int j = 0; j < nv; j++) s += vh_D([&](const double *x) { return fluxN<dim>(x, n, vg, g)(k); }, U.data(), nv, j) * dU(j);
        vh_close(F(k), s, 1e-5, "the facial flux increment is the derivative of the flux along dU");
    }
}
VH_ENTRY h_inc() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? inc<2>() : inc<3>(); vh_reach("inc"); }
template <int dim> static void grad()
{
    constexpr int nv = dim + 4;
    double g = vh_real("gamma", 1.1, 1.9);
    V<nv> U = cons<dim, nv>(g);
    Eigen::Matrix<real, dim, nv> G, GP;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < nv; j++) G(i, j) = vh_real("g", -2, 2);
    GradientCons2Prim_IdealGas<dim>(U, G, GP, g);
    auto GV = GetGradVelo<dim>(U, G);
    for (int k = 0; k < nv; k++)
    {
        double d[nv];
        for (int j = 0; j < nv; j++) d[j] = vh_D([&](const double *x) { return prim<dim, nv>(x, g)(k); }, U.data(), nv, j);
        for (int i = 0; i < dim; i++)
        {
            double s = 0;
            for (int j = 0; j < nv; j++) s += d[j] * G(i, j);
            vh_close(GP(i, k), s, 1e-5, "primitive gradients follow from conservative ones by the chain rule");
            if (k >= 1 && k <= dim) vh_close(GV(i, k - 1), s, 1e-5, "velocity gradient");
        }
    }
}
VH_ENTRY h_grad() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? grad<2>() : grad<3>(); vh_reach("grad"); }
template <int dim> struct VIn
{
    double g = 1.5, mu = vh_real("mu", 0, 2), k = vh_real("k", 0, 2), Cp = vh_real("Cp", 0.25, 4);
    V<dim + 2> U = cons<dim>(g);
    Eigen::Matrix<real, dim, dim + 2> G;
    VIn()
    {
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim + 2; j++) G(i, j) = vh_real("g", -2, 2);
    }
    double u(int i, int j) const { return G(j, i + 1); } // du_i/dx_j
    double tau(int i, int j) const
    {
        double tr = 0;
        for (int q = 0; q < dim; q++) tr += u(q, q);
        return mu * (u(i, j) + u(j, i)) + (i == j ? mu * (-2. / 3.) * tr : 0);
    }
    double dT(int i) const // T = p gamma / ((gamma-1) Cp rho)
    {
        V<dim + 2> q = prim<dim, dim + 2>(U.data(), g);
        return g / ((g - 1) * Cp) * (G(i, dim + 1) / q(0) - q(dim + 1) * G(i, 0) / (q(0) * q(0)));
    }
};
template <int dim> static void visc()
{
    VIn<dim> in;
    V<dim> n = any<dim>("n", 1);
    V<dim + 2> F;
    ViscousFlux_IdealGas<dim>(in.U, in.G, n, false, in.g, in.mu, 0.5, false, in.k, in.Cp, F);
    vh_close(F(0), 0, 0, "no viscous mass flux");
    double e = 0;
    for (int i = 0; i < dim; i++)
    {
        double t = 0;
        for (int j = 0; j < dim; j++) t += in.tau(i, j) * n(j);
        vh_close(F(i + 1), t, 1e-7, "viscous momentum flux is the Newtonian stress on the face");
        e += t * in.U(i + 1) / in.U(0) + in.k * in.dT(i) * n(i);
    }
    vh_close(F(dim + 1), e, 1e-6, "viscous energy flux is the work of the stress plus Fourier heat conduction");
}
VH_ENTRY h_visc() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? visc<2>() : visc<3>(); vh_reach("visc"); }
template <int dim> static void adia()
{
    VIn<dim> in;
    double s = vh_real("t", -1, 1), d = 1 + s * s;
    V<dim> n = V<dim>::Zero();
    int ax = vh_concretize(vh_int("ax", 0, dim - 1));
    n(ax) = (1 - s * s) / d, n((ax + 1) % dim) = 2 * s / d; // unit
    V<dim + 2> F;
    ViscousFlux_IdealGas<dim>(in.U, in.G, n, true, in.g, in.mu, 0.5, false, in.k, in.Cp, F);
    double e = 0;
    for (int i = 0; i < dim; i++)
    {
        double t = 0;
        for (int j = 0; j < dim; j++) t += in.tau(i, j) * n(j);
        vh_close(F(i + 1), t, 1e-7, "an adiabatic wall keeps the stress");
        e += t * in.U(i + 1) / in.U(0);
    }
    vh_close(F(dim + 1), e, 1e-6, "no heat crosses an adiabatic face");
}
VH_ENTRY h_adiabatic() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? adia<2>() : adia<3>(); vh_reach("adia"); }
template <int dim> static void qcr()
{
    VIn<dim> in;
    double r = vh_real("r", 0, 1), b2 = 0;
    V<dim> n = any<dim>("n", 1);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++) b2 += in.u(i, j) * in.u(i, j);
    vh_assume(b2 > 0.0625);
    V<dim + 2> F, F0;
    ViscousFlux_IdealGas<dim>(in.U, in.G, n, false, in.g, in.mu, r, true, in.k, in.Cp, F);
    double b = std::sqrt(b2), e = 0;
    for (int i = 0; i < dim; i++)
    {
        double t = 0;
        for (int j = 0; j < dim; j++)
        {
            double q = 0;
            for (int l = 0; l < dim; l++) q += (in.u(i, l) - in.u(l, i)) * in.tau(j, l) + (in.u(j, l) - in.u(l, j)) * in.tau(i, l);
            t += (in.tau(i, j) - 0.3 * r * q / b) * n(j);
        }
        vh_close(F(i + 1), t, 1e-6, "the quadratic constitutive relation corrects the stress by the normalised rotation");
        e += t * in.U(i + 1) / in.U(0) + in.k * in.dT(i) * n(i);
    }
    vh_close(F(dim + 1), e, 1e-5, "energy flux with the corrected stress");
}
VH_ENTRY h_qcr() { vh_concretize(vh_int("dim", 2, 3)) == 2 ? qcr<2>() : qcr<3>(); vh_reach("qcr"); }
}
