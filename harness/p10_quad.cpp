//@unit {"repo":["src/Geom/Elements.cpp"],"lib":["dndsstub.cpp"]}
//@run {"prop":"P10","entry":"h_exact","bounds":"all 7 shapes x orders 0..6, any polynomial of that total degree (coefficients in [-1,1])","reach":["exact"],"shard":[["ps",1,7]]}
//@run {"prop":"P10","entry":"h_points","bounds":"all 7 shapes x orders 0..6, every point","reach":["points"]}
//@run {"prop":"P10","entry":"h_integrate","bounds":"all 14 element types x orders 0..6, any linear integrand","reach":["integ"],"shard":[["t",1,14]],"time":600}
#include "vhnum.h"
#include <vector>
#include "Geom/Quadrature.hpp"
namespace DNDS::Geom::Elem {
// exact integral of x^a y^b z^c over the reference shape
static double fac(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static double seg(int n) { return n % 2 ? 0 : 2. / (n + 1); } // over [-1,1]
static double exact(ParamSpace ps, int a, int b, int c)
{
    switch (ps)
    {
    case LineSpace: return seg(a);
    case TriSpace: return fac(a) * fac(b) / fac(a + b + 2);
    case QuadSpace: return seg(a) * seg(b);
    case TetSpace: return fac(a) * fac(b) * fac(c) / fac(a + b + c + 3);
    case HexSpace: return seg(a) * seg(b) * seg(c);
    case PrismSpace: return fac(a) * fac(b) / fac(a + b + 2) * seg(c);
    default: // pyramid: x = u (1-z), y = v (1-z): int z^c (1-z)^(a+b+2) dz
        return seg(a) * seg(b) * fac(c) * fac(a + b + 2) / fac(a + b + c + 3);
    }
}
static int dimOf(ParamSpace ps) { return ps == LineSpace ? 1 : ps == TriSpace || ps == QuadSpace ? 2 : 3; }
static double ip(double x, int n) { double r = 1; while (n--) r *= x; return r; }
VH_ENTRY h_exact()
{
    ParamSpace ps = ParamSpace(vh_concretize(vh_int("ps", 1, 7)));
    int order = vh_concretize(vh_int("order", 0, INT_ORDER_MAX));
    int dim = dimOf(ps);
    t_index sch = GetQuadratureScheme(ps, order);
    vh_assert(sch > 0, "every supported order has a scheme");
    double got = 0, want = 0;
    std::vector<double> W(sch);
    std::vector<tPoint> P(sch, tPoint{0, 0, 0});
    for (int g = 0; g < sch; g++) GetQuadraturePoint(ps, sch, g, P[g], W[g]);
    for (int a = 0; a <= order; a++)
        for (int b = 0; b <= (dim > 1 ? order - a : 0); b++)
            for (int c = 0; c <= (dim > 2 ? order - a - b : 0); c++)
            {
                double k = vh_real("k", -1, 1);
                double s = 0;
                for (int g = 0; g < sch; g++) s += W[g] * ip(P[g][0], a) * ip(P[g][1], b) * ip(P[g][2], c);
                got += k * s;
                want += k * exact(ps, a, b, c);
            }
    vh_close(got, want, 1e-10, "quadrature integrates every polynomial up to its order exactly");
    vh_reach("exact");
}
VH_ENTRY h_points()
{
    ParamSpace ps = ParamSpace(vh_concretize(vh_int("ps", 1, 7)));
    int order = vh_concretize(vh_int("order", 0, INT_ORDER_MAX));
    t_index sch = GetQuadratureScheme(ps, order);
    double s = 0;
    for (int g = 0; g < sch; g++)
    {
        tPoint p{0, 0, 0};
        double w;
        GetQuadraturePoint(ps, sch, g, p, w);
        vh_le(1e-12, w, 0, "quadrature weights are positive");
        s += w;
        double x = p[0], y = p[1], z = p[2], e = 1e-12;
        const char *m = "quadrature points lie in the reference shape";
        bool in = true;
        int dim = dimOf(ps);
        in = in && (dim > 1 || y == 0) && (dim > 2 || z == 0);
        if (ps == LineSpace || ps == QuadSpace || ps == HexSpace) in = in && std::abs(x) <= 1 && std::abs(y) <= 1 && std::abs(z) <= 1;
        if (ps == TriSpace || ps == PrismSpace) in = in && x >= -e && y >= -e && x + y <= 1 + e && std::abs(z) <= 1;
        if (ps == TetSpace) in = in && x >= -e && y >= -e && z >= -e && x + y + z <= 1 + e;
        if (ps == PyramidSpace) in = in && z >= 0 && z <= 1 && std::abs(x) <= 1 - z + e && std::abs(y) <= 1 - z + e;
        vh_assert(in, m);
    }
    vh_close(s, ParamSpaceVol(ps), 1e-12, "weights sum to the reference volume");
    vh_reach("points");
}
VH_ENTRY h_integrate()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int order = vh_concretize(vh_int("order", 0, INT_ORDER_MAX));
    Quadrature q(e, order);
    vh_assert(q.GetNumPoints() == GetQuadratureScheme(e.GetParamSpace(), order), "number of points is the scheme's");
    double k = vh_real("k", -1, 1), l = vh_real("l", -1, 1);
    // integrand: constant plus one shape function value taken from the precomputed tables
    int j = vh_concretize(vh_int("j", 0, e.GetNumNodes() - 1));
    double acc = 0, ref = 0, simple = 0, simplew = 0;
    int cnt = 0;
    auto X = GetStandardCoord(t);
    q.Integration(acc, [&](double &inc, int iG, const tPoint &p, const tD01Nj &D) {
        tD01Nj E;
        e.GetD01Nj(p, E);
        vh_assert(iG == cnt, "points are visited in order");
        cnt++;
        for (int r = 0; r < 4; r++) vh_close(D(r, j), E(r, j), 1e-12, "tabulated shape functions are those of the point");
        auto [pp, w] = q.GetQuadraturePointInfo(iG);
        for (int d = 0; d < 3; d++) vh_close(pp[d], p[d], 0, "point handed to the integrand is the scheme's");
        ref += w * (k + l * E(0, j));
        inc = k + l * D(0, j);
    });
    q.IntegrationSimple(simple, [&](double &inc, int iG) { auto [pp, w] = q.GetQuadraturePointInfo(iG); tNj N; e.GetNj(pp, N); inc = k + l * N(0, j); });
    q.IntegrationSimple(simplew, [&](double &inc, int iG, real w) { auto [pp, w2] = q.GetQuadraturePointInfo(iG); vh_close(w, w2, 0, "weight handed to the integrand is the scheme's"); tNj N; e.GetNj(pp, N); inc = k + l * N(0, j); });
    vh_assert(cnt == q.GetNumPoints(), "every point is visited once");
    vh_close(acc, ref, 1e-10, "integration is the weighted sum of the integrand");
    vh_close(simple, ref, 1e-10, "integration is the weighted sum of the integrand");
    vh_close(simplew, ref, 1e-10, "integration is the weighted sum of the integrand");
    vh_reach("integ");
}
}
