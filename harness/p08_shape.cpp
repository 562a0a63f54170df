//@unit {"repo":["src/Geom/Elements.cpp"],"lib":["dndsstub.cpp"]}
//@run {"prop":"P08","entry":"h_interp","bounds":"all 14 element types, any point of the reference box","reach":["interp"],"shard":[["t",1,14]]}
//@run {"prop":"P08","entry":"h_deriv","bounds":"all 14 element types, any point, derivative orders 1..3","reach":["deriv"],"shard":[["t",1,14]]}
//@run {"prop":"P08","entry":"h_trace","bounds":"all faces of all 2D/3D element types, any face point","reach":["trace"],"shard":[["t",1,14]]}
//@run {"prop":"P08","entry":"h_api","bounds":"all 14 element types, any point; any small node coordinates","reach":["api"],"shard":[["t",1,14]]}
#include "vhnum.h"
#include <vector>
#include "Geom/Elements.hpp"
namespace DNDS::Geom::Elem {
static bool pyr(ElemType t) { return t == Pyramid5 || t == Pyramid14; }
// a reference point of the element, with the unused coordinates at 0
static void refPoint(ElemType t, int dim, double *x)
{
    for (int i = 0; i < 3; i++) x[i] = 0;
    if (pyr(t)) { x[0] = vh_real("xi", -0.5, 0.5); x[1] = vh_real("et", -0.5, 0.5); x[2] = vh_real("zt", 0, 0.5); return; }
    x[0] = vh_real("xi", -1, 1);
    if (dim > 1) x[1] = vh_real("et", -1, 1);
    if (dim > 2) x[2] = vh_real("zt", -1, 1);
}
VH_ENTRY h_interp()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int dim = e.GetDim(), nn = e.GetNumNodes();
    auto X = GetStandardCoord(t);
    double x[3];
    refPoint(t, dim, x);
    tPoint p{x[0], x[1], x[2]};
    tNj N;
    e.GetNj(p, N);
    vh_assert(N.cols() == nn && X.cols() == nn, "one shape function per node");
    double s = 0;
    for (int j = 0; j < nn; j++) s += N(0, j);
    vh_close(s, 1, 1e-9, "shape functions sum to one");
    for (int d = 0; d < 3; d++)
    {
        double y = 0;
        for (int j = 0; j < nn; j++) y += N(0, j) * X(d, j);
        vh_close(y, x[d], 1e-9, "the reference element maps onto itself");
    }
    if (e.GetOrder() == 2 && t != Pyramid14) // the documented 14-node pyramid basis does not span all quadratics
        for (int d = 0; d < dim; d++)
            for (int c = d; c < dim; c++)
            {
                double y = 0;
                for (int j = 0; j < nn; j++) y += N(0, j) * X(d, j) * X(c, j);
                vh_close(y, x[d] * x[c], 1e-9, "second order elements reproduce quadratics");
            }
    // nodal basis; the pyramid apex is a removable singularity of the formulas, approached along the axis
    int k = vh_concretize(vh_int("k", 0, nn - 1));
    tPoint q = X.col(k);
    bool apex = pyr(t) && q[2] == 1;
    if (apex) q[2] -= 1e-9;
    e.GetNj(q, N);
    for (int j = 0; j < nn; j++) vh_close(N(0, j), j == k, apex ? 1e-6 : 1e-9, "shape function j is one at node j and zero at the others");
    vh_reach("interp");
}
VH_ENTRY h_deriv()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int dim = e.GetDim(), nn = e.GetNumNodes();
    double x[3];
    refPoint(t, dim, x);
    int nr = dim == 1 ? 4 : dim == 2 ? Base::ndiffSizC2D[3] : Base::ndiffSizC[3];
    auto ord = [&](int r, int c) { return dim == 1 ? (c == 0 ? r : 0) : dim == 2 ? Base::diffOperatorOrderList2D[r][c] : Base::diffOperatorOrderList[r][c]; };
    tDiNj M;
    tPoint p{x[0], x[1], x[2]};
    e.GetDiNj(p, M, 3);
    vh_assert(M.rows() == nr && M.cols() == nn, "one row per derivative, one column per node");
    for (int r = 1; r < nr; r++)
    {
        int c = 0;
        while (ord(r, c) == 0) c++;
        int low = -1;
        for (int q = 0; q < nr; q++)
        {
            bool same = true;
            for (int k = 0; k < dim; k++) same = same && ord(q, k) == ord(r, k) - (k == c);
            if (same) low = q;
        }
        vh_assert(low >= 0, "every derivative has a parent");
        for (int j = 0; j < nn; j++)
        {
            double want = vh_D([&](const double *y) { tDiNj L; if (vh_symbolic()) return M(low, j); e.GetDiNj(tPoint{y[0], y[1], y[2]}, L, 3); return L(low, j); }, x, 3, c);
            vh_close(M(r, j), want, 1e-6, "shape function derivatives are the derivatives of the shape functions");
        }
    }
    // lower orders give the leading rows
    int mo = vh_concretize(vh_int("mo", 0, 2));
    tDiNj L;
    e.GetDiNj(p, L, mo);
    int nl = dim == 1 ? mo + 1 : dim == 2 ? Base::ndiffSizC2D[mo] : Base::ndiffSizC[mo];
    vh_assert(L.rows() == nl, "rows up to the order asked for");
    for (int r = 0; r < nl; r++)
        for (int j = 0; j < nn; j++) vh_close(L(r, j), M(r, j), 1e-9, "a lower order request gives the leading rows");
    vh_reach("deriv");
}
VH_ENTRY h_trace()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int dim = e.GetDim(), nn = e.GetNumNodes(), nf = e.GetNumFaces();
    if (dim == 1 || nf == 0) { vh_reach("trace"); return; }
    auto X = GetStandardCoord(t);
    int f = vh_concretize(vh_int("f", 0, nf - 1));
    Element fe = e.ObtainFace(f);
    int fn = fe.GetNumNodes();
    vh_assert(fe.GetDim() == dim - 1 && fe.GetOrder() == e.GetOrder(), "a face has one dimension less and the same order");
    std::vector<int> ids(nn), fid(fn);
    for (int i = 0; i < nn; i++) ids[i] = i;
    e.ExtractFaceNodes(f, ids, fid);
    for (int i = 0; i < fn; i++)
    {
        vh_assert(fid[i] >= 0 && fid[i] < nn, "face nodes are cell nodes");
        for (int j = 0; j < i; j++) vh_assert(fid[i] != fid[j], "face nodes are distinct");
        vh_assert((i < fe.GetNumVertices()) == (fid[i] < e.GetNumVertices()), "face vertices are cell vertices, other face nodes are not");
    }
    bool tri = fe.GetParamSpace() == TriSpace;
    double u = tri ? vh_real("u", 0, 0.5) : vh_real("u", -1, 1), v = dim == 3 ? (tri ? vh_real("v", 0, 0.25) : vh_real("v", -1, 1)) : 0;
    tPoint pf{u, v, 0};
    tNj F, N;
    fe.GetNj(pf, F);
    tPoint p{0, 0, 0};
    for (int i = 0; i < fn; i++)
        for (int d = 0; d < 3; d++) p[d] += F(0, i) * X(d, fid[i]);
    e.GetNj(p, N);
    std::vector<double> w(nn, 0.0);
    for (int i = 0; i < fn; i++) w[fid[i]] += F(0, i);
    const char *msg = t == Pyramid14 && tri ? "on a triangular face of a 14-node pyramid the cell interpolation is the face interpolation" : "on a face the cell interpolation is the face interpolation";
    bool last = false;
    if (t == Pyramid14 && tri) last = vh_concretize(vh_int("tri14", 0, 1));
    if (!(t == Pyramid14 && tri) || last)
        for (int j = 0; j < nn; j++) vh_close(N(0, j), w[j], 1e-8, msg);
    if (dim == 3)
    {
        int g = vh_concretize(vh_int("g", 0, fe.GetNumFaces() - 1));
        Element ge = fe.ObtainFace(g);
        std::vector<int> gid(ge.GetNumNodes());
        fe.ExtractFaceNodes(g, fid, gid);
        tNj E;
        double z = vh_real("z", -1, 0.5);
        ge.GetNj(tPoint{z, 0, 0}, E);
        tPoint q{0, 0, 0};
        for (size_t i = 0; i < gid.size(); i++)
            for (int d = 0; d < 3; d++) q[d] += E(0, i) * X(d, gid[i]);
        e.GetNj(q, N);
        std::vector<double> we(nn, 0.0);
        for (size_t i = 0; i < gid.size(); i++) we[gid[i]] += E(0, i);
        for (int j = 0; j < nn; j++) vh_close(N(0, j), we[j], 1e-8, "on an edge the cell interpolation is the edge interpolation");
    }
    // orientation: the face normal (Jacobian columns) points out of the cell
    tD1Nj D;
    fe.GetD1Nj(pf, D);
    double a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, c[3] = {0, 0, 0};
    for (int i = 0; i < fn; i++)
        for (int d = 0; d < 3; d++) a[d] += D(0, i) * X(d, fid[i]), b[d] += D(1, i) * X(d, fid[i]);
    for (int j = 0; j < e.GetNumVertices(); j++)
        for (int d = 0; d < 3; d++) c[d] += X(d, j) / e.GetNumVertices();
    double n[3] = {a[1], -a[0], 0};
    if (dim == 3) n[0] = a[1] * b[2] - a[2] * b[1], n[1] = a[2] * b[0] - a[0] * b[2], n[2] = a[0] * b[1] - a[1] * b[0];
    double o = 0;
    for (int d = 0; d < 3; d++) o += n[d] * (p[d] - c[d]);
    vh_le(1e-3, o, 0, "face normals point outward");
    vh_reach("trace");
}
VH_ENTRY h_api()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int dim = e.GetDim(), nn = e.GetNumNodes();
    double x[3];
    refPoint(t, dim, x);
    tPoint p{x[0], x[1], x[2]};
    tNj N;
    tD1Nj D1;
    tD01Nj D01;
    e.GetNj(p, N);
    e.GetD1Nj(p, D1);
    e.GetD01Nj(p, D01);
    for (int j = 0; j < nn; j++)
    {
        vh_close(D01(0, j), N(0, j), 1e-12, "value row of the combined evaluation");
        for (int d = 0; d < 3; d++) vh_close(D01(1 + d, j), D1(d, j), 1e-12, "derivative rows of the combined evaluation");
    }
    // geometry map of arbitrary nodes: position and Jacobian are sums over nodes
    tSmallCoords cs;
    cs.resize(3, nn);
    int k = vh_concretize(vh_int("k", 0, nn - 1));
    for (int j = 0; j < nn; j++)
        for (int d = 0; d < 3; d++) cs(d, j) = j == k ? vh_real("c", -1, 1) : 0.25 * d - 0.5 * j;
    tPoint P = PPhysicsCoordD01Nj(cs, D01);
    tJacobi J = ShapeJacobianCoordD01Nj(cs, D01);
    for (int d = 0; d < 3; d++)
    {
        double y = 0, g[3] = {0, 0, 0};
        for (int j = 0; j < nn; j++)
        {
            y += cs(d, j) * N(0, j);
            for (int c = 0; c < 3; c++) g[c] += cs(d, j) * D1(c, j);
        }
        vh_close(P[d], y, 1e-8, "physical position interpolates the node coordinates");
        for (int c = 0; c < 3; c++) vh_close(J(d, c), g[c], 1e-8, "Jacobian column c is the derivative along parameter c");
    }
    vh_reach("api");
}
}
