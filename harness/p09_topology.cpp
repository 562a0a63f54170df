//@unit {"repo":["src/Geom/Elements.cpp"],"lib":["dndsstub.cpp"]}
//@run {"prop":"P09","entry":"h_elevate","bounds":"all 7 first order types, every elevated node, vertices at any position","reach":["elev"]}
//@run {"prop":"P09","entry":"h_bisect","bounds":"all second order types and variants, every sub-element, any of its points","reach":["bisect"],"shard":[["t",8,14]]}
//@run {"prop":"P09","entry":"h_variant","bounds":"Tet10/Pyramid14 with any node positions in [-1,1]^3","reach":["variant"]}
//@run {"prop":"P09","entry":"h_vtk","bounds":"all 14 types, any node numbers","reach":["vtk"]}
//@run {"prop":"P09","entry":"h_connected","bounds":"pairs of Tri3/Quad4/Tet4/Pyramid5 cells, any node numbers in 0..6","reach":["conn","conn1","conn0"],"shard":[["ta",2,9]]}
#include "vhnum.h"
#include <vector>
#include <algorithm>
#include "Geom/Elements.hpp"
namespace DNDS::Geom::Elem {
VH_ENTRY h_elevate()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 7)));
    Element e{t}, h = e.ObtainElevatedElem();
    vh_assert(h.GetDim() == e.GetDim() && h.GetParamSpace() == e.GetParamSpace() && h.GetOrder() == 2 && e.GetOrder() == 1, "elevation keeps the shape and raises the order");
    vh_assert(h.GetNumVertices() == e.GetNumVertices() && h.GetNumFaces() == e.GetNumFaces() && e.GetNumNodes() == e.GetNumVertices(), "elevation keeps vertices and faces");
    vh_assert(h.GetNumNodes() == e.GetNumNodes() + e.GetNumElev_O1O2(), "elevation adds the announced number of nodes");
    vh_assert(h.ObtainO1Elem().type == t && e.ObtainO1Elem().type == t, "first order element of the shape");
    auto X = GetStandardCoord(t), Y = GetStandardCoord(h.type);
    for (int j = 0; j < e.GetNumNodes(); j++)
        for (int d = 0; d < 3; d++) vh_close(X(d, j), Y(d, j), 0, "vertices come first in both orders");
    int k = vh_concretize(vh_int("k", 0, e.GetNumElev_O1O2() - 1));
    Element s = e.ObtainElevNodeSpan(k);
    std::vector<int> ids(e.GetNumNodes()), sp(s.GetNumNodes());
    for (size_t i = 0; i < ids.size(); i++) ids[i] = i;
    e.ExtractElevNodeSpanNodes(k, ids, sp);
    std::vector<double> w(ids.size(), 0.0);
    for (size_t i = 0; i < sp.size(); i++)
    {
        vh_assert(sp[i] >= 0 && sp[i] < e.GetNumNodes(), "span nodes are cell nodes");
        for (size_t j = 0; j < i; j++) vh_assert(sp[i] != sp[j], "span nodes are distinct");
        w[sp[i]] += 1. / sp.size();
    }
    // for any vertex positions, the mean of the span is the first order map of the elevated node's reference position
    tNj N;
    tPoint q = Y.col(e.GetNumNodes() + k);
    e.GetNj(q, N);
    for (int d = 0; d < 3; d++)
    {
        double a = 0, b = 0;
        for (size_t j = 0; j < ids.size(); j++)
        {
            double c = vh_real("c", -10, 10);
            a += w[j] * c;
            b += N(0, j) * c;
        }
        vh_close(a, b, 1e-9, "an elevated node sits at the mean of its span");
    }
    vh_reach("elev");
}
static void inside(ParamSpace ps, double *x, const char *m)
{
    double e = 1e-9;
    switch (ps)
    {
    case LineSpace: vh_le(-1, x[0], e, m); vh_le(x[0], 1, e, m); break;
    case TriSpace: vh_le(0, x[0], e, m); vh_le(0, x[1], e, m); vh_le(x[0] + x[1], 1, e, m); break;
    case TetSpace: vh_le(0, x[0], e, m); vh_le(0, x[1], e, m); vh_le(0, x[2], e, m); vh_le(x[0] + x[1] + x[2], 1, e, m); break;
    case QuadSpace: case HexSpace:
        for (int d = 0; d < (ps == QuadSpace ? 2 : 3); d++) vh_le(-1, x[d], e, m), vh_le(x[d], 1, e, m);
        break;
    case PrismSpace: vh_le(0, x[0], e, m); vh_le(0, x[1], e, m); vh_le(x[0] + x[1], 1, e, m); vh_le(-1, x[2], e, m); vh_le(x[2], 1, e, m); break;
    case PyramidSpace:
        vh_le(0, x[2], e, m);
        for (int d = 0; d < 2; d++) vh_le(x[d] + x[2], 1, e, m), vh_le(-x[d] + x[2], 1, e, m);
        break;
    default: vh_assert(false, m);
    }
}
VH_ENTRY h_bisect()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 8, 14)));
    Element e{t};
    int dim = e.GetDim(), nn = e.GetNumNodes(), nb = e.GetO2NumBisect();
    int nv = t == Tet10 ? 3 : t == Pyramid14 ? 2 : 1;
    int var = vh_concretize(vh_int("var", 0, nv - 1));
    auto X = GetStandardCoord(t);
    std::vector<int> ids(nn);
    for (int i = 0; i < nn; i++) ids[i] = i;
    int pick = vh_concretize(vh_int("pick", 0, nb - 1));
    double vol = 0;
    std::vector<int> used(nn, 0);
    for (int b = 0; b < nb; b++)
    {
        Element s = e.ObtainO2BisectElem(b);
        std::vector<int> sn(s.GetNumNodes());
        e.ExtractO2BisectElemNodes(b, var, ids, sn);
        for (auto &x : sn) { vh_assert(x >= 0 && x < nn, "sub-element nodes are cell nodes"); used[x] = 1; }
        vh_assert(s.GetDim() == dim && s.GetOrder() == 1, "sub-elements are first order elements of the same dimension");
        // any point of the sub-element
        double x[3] = {0, 0, 0};
        bool sym = b == pick;
        ParamSpace ps = s.GetParamSpace();
        for (int d = 0; d < dim; d++)
        {
            bool pos = ps == TriSpace || ps == TetSpace || ((ps == PrismSpace) && d < 2) || (ps == PyramidSpace && d == 2);
            x[d] = sym ? vh_real("p", pos ? 0 : -1, ps == PyramidSpace && d == 2 ? 0.875 : 1) : (pos ? 0.25 : 0);
        }
        if (ps == TriSpace || ps == PrismSpace) vh_assume(x[0] + x[1] <= 1);
        if (ps == TetSpace) vh_assume(x[0] + x[1] + x[2] <= 1);
        if (ps == PyramidSpace) { double a = x[0], c = x[1]; x[0] = a * (1 - x[2]); x[1] = c * (1 - x[2]); }
        tD01Nj D;
        s.GetD01Nj(tPoint{x[0], x[1], x[2]}, D);
        tSmallCoords cs;
        cs.resize(3, sn.size());
        for (size_t i = 0; i < sn.size(); i++) cs.col(i) = X.col(sn[i]);
        tJacobi J = ShapeJacobianCoordD01Nj(cs, D);
        tPoint q = PPhysicsCoordD01Nj(cs, D);
        double det = dim == 1 ? J(0, 0) : dim == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                                                   : J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(2, 1)) - J(0, 1) * (J(1, 0) * J(2, 2) - J(1, 2) * J(2, 0)) + J(0, 2) * (J(1, 0) * J(2, 1) - J(1, 1) * J(2, 0));
        vh_le(1e-6, det, 0, "sub-elements are positively oriented everywhere");
        if (sym)
        {
            inside(e.GetParamSpace(), q.data(), "sub-elements lie inside the cell");
            D = tD01Nj();
            double y[3] = {0, 0, 0};
            for (int d = 0; d < dim; d++)
                if (ps == TriSpace || ps == TetSpace || (ps == PrismSpace && d < 2) || (ps == PyramidSpace && d == 2)) y[d] = 0.25;
            s.GetD01Nj(tPoint{y[0], y[1], y[2]}, D);
            J = ShapeJacobianCoordD01Nj(cs, D);
            double det0 = dim == 1 ? J(0, 0) : dim == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                                                        : J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(2, 1)) - J(0, 1) * (J(1, 0) * J(2, 2) - J(1, 2) * J(2, 0)) + J(0, 2) * (J(1, 0) * J(2, 1) - J(1, 1) * J(2, 0));
            vh_close(det, det0, 1e-9, "sub-elements of the reference cell are affine");
            det = det0;
        }
        vol += det * ParamSpaceVol(ps);
    }
    for (int i = 0; i < nn; i++) vh_assert(used[i], "every node of the cell is a node of some sub-element");
    vh_close(vol, ParamSpaceVol(e.GetParamSpace()), 1e-9, "sub-elements fill the cell");
    vh_reach("bisect");
}
VH_ENTRY h_variant()
{
    bool tet = vh_concretize(vh_int("tet", 0, 1));
    Element e{tet ? Tet10 : Pyramid14};
    tSmallCoords cs;
    cs.resize(3, e.GetNumNodes());
    cs.setZero();
    int nv = tet ? 3 : 2;
    for (int j = tet ? 4 : 9; j < (tet ? 10 : 13); j++)
        for (int d = 0; d < 3; d++) cs(d, j) = (j + d) % 2 ? vh_real("c", -1, 1) : 0.125 * (j - 3 * d);
    int v = vh_concretize(GetO2ElemBisectVariant(e, cs));
    vh_assert(v >= 0 && v < nv, "a valid variant");
    auto len = [&](int k) {
        int a = tet ? (const int[]){4, 5, 6}[k] : (const int[]){9, 10}[k], b = tet ? (const int[]){9, 7, 8}[k] : (const int[]){11, 12}[k];
        double s = 0;
        for (int d = 0; d < 3; d++) s += (cs(d, a) - cs(d, b)) * (cs(d, a) - cs(d, b));
        return s;
    };
    for (int k = 0; k < nv; k++) vh_le(len(v), len(k), 1e-9, "the shortest inner diagonal is chosen");
    // and the chosen variant really uses that diagonal: some sub-element has both of its end nodes
    std::vector<int> ids(e.GetNumNodes());
    for (size_t i = 0; i < ids.size(); i++) ids[i] = i;
    int cnt = 0;
    for (int b = 0; b < e.GetO2NumBisect(); b++)
    {
        std::vector<int> sn(e.ObtainO2BisectElem(b).GetNumNodes());
        e.ExtractO2BisectElemNodes(b, v, ids, sn);
        int a = tet ? (const int[]){4, 5, 6}[v] : (const int[]){9, 10}[v], c = tet ? (const int[]){9, 7, 8}[v] : (const int[]){11, 12}[v];
        cnt += std::count(sn.begin(), sn.end(), a) && std::count(sn.begin(), sn.end(), c);
    }
    vh_assert(cnt == 4, "four sub-elements meet at the chosen diagonal");
    vh_reach("variant");
}
VH_ENTRY h_vtk()
{
    ElemType t = ElemType(vh_concretize(vh_int("t", 1, 14)));
    Element e{t};
    int nn = e.GetNumNodes();
    std::vector<DNDS::index> in(nn);
    for (auto &x : in) x = vh_int("id", 0, 1000000);
    for (int i = 0; i < nn; i++)
        for (int j = 0; j < i; j++) vh_assume(in[i] != in[j]);
    auto r = ToVTKVertsAndData(e, in);
    // VTK's definition: cell type and, per node, the vertices it averages
    struct D { int vt, nn; int mid[12][2]; };
    static const D defs[15] = {
        {0, 0, {}}, {3, 2, {}}, {5, 3, {}}, {9, 4, {}}, {10, 4, {}}, {12, 8, {}}, {13, 6, {}}, {14, 5, {}},
        {4, 3, {}},
        {22, 6, {{0, 1}, {1, 2}, {2, 0}}},
        {23, 8, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}},
        {24, 10, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}},
        {25, 20, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}},
        {26, 15, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}},
        {27, 13, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}}};
    const D &df = defs[t];
    vh_assert(r.first == df.vt && (int)r.second.size() == df.nn, "VTK cell type and node count");
    auto X = GetStandardCoord(t);
    std::vector<int> loc(df.nn, -1);
    for (int i = 0; i < df.nn; i++)
        for (int j = 0; j < nn; j++)
            if (vh_concretize(r.second[i] == in[j])) loc[i] = j;
    int nv = t == Line3 ? 0 : e.GetNumVertices();
    for (int i = 0; i < df.nn; i++)
    {
        vh_assert(loc[i] >= 0, "VTK nodes are the cell's nodes");
        if (i < nv) vh_assert(loc[i] == i, "VTK vertices are the cell's vertices in order");
        else if (t != Line3)
            for (int d = 0; d < 3; d++) vh_close(X(d, loc[i]), 0.5 * (X(d, df.mid[i - nv][0]) + X(d, df.mid[i - nv][1])), 1e-12, "VTK mid-edge nodes are in VTK's order");
    }
    if (t == Line3) vh_assert(loc[0] == 0 && loc[1] == 2 && loc[2] == 1, "poly-line runs through the mid node");
    vh_reach("vtk");
}
VH_ENTRY h_connected()
{
    static const ElemType tp[4] = {Tri3, Quad4, Tet4, Pyramid5};
    // pairs of equal dimension
    long ab = vh_concretize(vh_int("ta", 2, 9)) - 2;
    ElemType ta = tp[(ab / 4) * 2 + (ab / 2) % 2], tb = tp[(ab / 4) * 2 + ab % 2];
    Element a{ta}, b{tb};
    std::vector<DNDS::index> na(a.GetNumNodes()), nb(b.GetNumNodes());
    for (size_t i = 0; i < na.size(); i++) na[i] = 10 + i; // a's own numbering is arbitrary up to renaming
    for (auto &x : nb)
    {
        // b's node is one of a's or a fresh one
        x = vh_int("m", 9, 10 + (long)na.size());
        x = vh_concretize(x);
    }
    for (size_t i = 0; i < nb.size(); i++)
        for (size_t j = 0; j < i; j++) vh_assume(nb[i] != nb[j]);
    bool want = false;
    for (int f = 0; f < a.GetNumFaces(); f++)
    {
        int fv = a.ObtainFace(f).GetNumVertices();
        bool all = true;
        for (int k = 0; k < fv; k++) all = all && std::count(nb.begin(), nb.end(), na[FaceNodeList[ta][f][k]]);
        want = want || all;
    }
    bool got = cellsAreFaceConnected(na, nb, a, b);
    vh_assert(got == want, "cells are face-connected exactly if they share all vertices of a face");
    vh_reach("conn");
    vh_reach(got ? "conn1" : "conn0");
}
}
