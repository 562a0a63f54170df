// Meshes, the oracle for what a distributed mesh must have, and stand-ins for METIS and Boost.
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include "Geom/Mesh.hpp"
#include "Geom/Metis.hpp"
#include "DNDS/SerializerH5.hpp"
namespace DNDS::VH {
using namespace Geom;
struct Cell { Elem::ElemType t; std::vector<int> n; };
struct Bnd { Elem::ElemType t; std::vector<int> n; int zone; };
struct In // the mesh as the file has it
{
    int dim, per[3] = {0, 0, 0}; // period (0: none)
    int s = 1;                   // a node lies at x / s
    std::vector<std::array<int, 3>> x;
    std::vector<Cell> c;
    std::vector<Bnd> b;
    std::vector<real> h; // height of a node (third coordinate of 2-D meshes)
};
static std::vector<std::vector<int>> facesOf(Elem::ElemType t)
{
    using namespace Elem;
    switch (t)
    {
    case Tri3: case Tri6: return {{0, 1}, {1, 2}, {2, 0}};
    case Quad4: case Quad9: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    case Tet4: case Tet10: return {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
    case Hex8: case Hex27: return {{0, 3, 2, 1}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {4, 5, 6, 7}};
    case Prism6: case Prism18: return {{0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {0, 2, 1}, {3, 4, 5}};
    case Pyramid5: case Pyramid14: return {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}};
    default: return {};
    }
}
static int faceVerts(int dim, int nodes) { return dim == 2 ? 2 : nodes == 3 || nodes == 6 ? 3 : 4; }
using Key = std::array<int, 4>; // number of vertices and their sum, up to periods: tells the faces of these meshes apart
static Key keyOf(const In &m, const std::vector<std::array<int, 3>> &v)
{
    Key k{(int)v.size(), 0, 0, 0};
    for (auto &x : v)
        for (int d = 0; d < 3; d++) k[1 + d] += x[d];
    for (int d = 0; d < 3; d++)
        if (m.per[d]) { int p = m.per[d] * k[0]; k[1 + d] = ((k[1 + d] % p) + p) % p; }
    return k;
}
static std::array<int, 3> cls(const In &m, std::array<int, 3> x)
{
    for (int d = 0; d < 3; d++)
        if (m.per[d]) x[d] = ((x[d] % m.per[d]) + m.per[d]) % m.per[d];
    return x;
}
static void boundaries(In &m, bool per)
{ // every face with one cell, and the faces on periodic sides
    std::map<std::vector<int>, std::vector<std::pair<int, int>>> f;
    for (size_t i = 0; i < m.c.size(); i++)
    {
        auto fs = facesOf(m.c[i].t);
        for (size_t j = 0; j < fs.size(); j++)
        {
            std::vector<int> v;
            for (int k : fs[j]) v.push_back(m.c[i].n[k]);
            std::sort(v.begin(), v.end());
            f[v].push_back({(int)i, (int)j});
        }
    }
    int lo[3], hi[3];
    for (int d = 0; d < 3; d++)
    {
        lo[d] = hi[d] = m.x[0][d];
        for (auto &x : m.x) lo[d] = std::min(lo[d], x[d]), hi[d] = std::max(hi[d], x[d]);
    }
    for (auto &[v, l] : f)
        if (l.size() == 1)
        {
            auto [i, j] = l[0];
            auto fs = facesOf(m.c[i].t)[j];
            Bnd b;
            for (int k : fs) b.n.push_back(m.c[i].n[k]);
            if (m.c[i].t == Elem::Quad9) b.n.push_back(m.c[i].n[4 + j]);
            if (m.c[i].t == Elem::Tri6) b.n.push_back(m.c[i].n[3 + j]);
            b.t = m.dim == 2 ? (b.n.size() == 3 ? Elem::Line3 : Elem::Line2) : b.n.size() == 3 ? Elem::Tri3 : Elem::Quad4;
            b.zone = 21 + (int)m.b.size();
            int np = 0;
            for (int d = 0; d < 3; d++)
                if (m.per[d])
                {
                    bool l0 = true, h0 = true;
                    for (int k : v) l0 = l0 && m.x[k][d] == lo[d], h0 = h0 && m.x[k][d] == hi[d];
                    np++;
                    if (l0) b.zone = np == 1 ? BC_ID_PERIODIC_1 : np == 2 ? BC_ID_PERIODIC_2 : BC_ID_PERIODIC_3;
                    if (h0) b.zone = np == 1 ? BC_ID_PERIODIC_1_DONOR : np == 2 ? BC_ID_PERIODIC_2_DONOR : BC_ID_PERIODIC_3_DONOR;
                }
            m.b.push_back(b);
        }
}
static void grid(In &m, int nx, int ny, int px, int py)
{
    m.dim = 2;
    for (int j = 0; j <= ny; j++)
        for (int i = 0; i <= nx; i++) m.x.push_back({2 * i, 2 * j, 0});
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++)
        {
            int a = j * (nx + 1) + i, b = a + 1, c = b + nx + 1, d = a + nx + 1;
            m.c.push_back({Elem::Quad4, {a, b, c, d}});
        }
    m.per[0] = px ? 2 * nx : 0, m.per[1] = py ? 2 * ny : 0;
}
static In make(int which)
{
    using namespace Elem;
    In m;
    if (which == 0) // mixed plane mesh
    {
        m.dim = 2;
        m.x = {{0, 0, 0}, {2, 0, 0}, {4, 0, 0}, {0, 2, 0}, {2, 2, 0}, {4, 2, 0}, {2, 4, 0}};
        m.c = {{Quad4, {0, 1, 4, 3}}, {Quad4, {1, 2, 5, 4}}, {Tri3, {3, 4, 6}}, {Tri3, {4, 5, 6}}};
    }
    if (which == 1) // mixed solid mesh
    {
        m.dim = 3;
        m.x = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}, {1, 1, 4}, {1, -3, 4}, {4, 1, 0}, {4, 1, 2}};
        m.c = {{Hex8, {0, 1, 2, 3, 4, 5, 6, 7}}, {Pyramid5, {4, 5, 6, 7, 8}}, {Tet4, {4, 5, 8, 9}}, {Prism6, {1, 10, 2, 5, 11, 6}}};
    }
    if (which == 2) // second order
    {
        m.dim = 2;
        m.x = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {2, 0, 0}, {4, 2, 0}, {2, 4, 0}, {0, 2, 0}, {2, 2, 0}, {8, 2, 0}, {6, 1, 0}, {6, 3, 0}};
        m.c = {{Quad9, {0, 1, 2, 3, 4, 5, 6, 7, 8}}, {Tri6, {1, 9, 2, 10, 11, 5}}};
    }
    if (which == 3) grid(m, 2, 1, 1, 0); // the two cells meet twice
    if (which == 4) grid(m, 3, 3, 1, 1);
    if (which == 5) grid(m, 3, 1, 1, 0);
    if (which == 6) // a single cell
    {
        m.dim = 3;
        m.x = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
        m.c = {{Tet4, {0, 1, 2, 3}}};
    }
    if (which == 8) // a hexahedron beside two prisms
    {
        m.dim = 3;
        m.x = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}, {4, 0, 0}, {4, 2, 0}, {4, 0, 2}, {4, 2, 2}};
        m.c = {{Hex8, {0, 1, 2, 3, 4, 5, 6, 7}}, {Prism6, {1, 8, 2, 5, 10, 6}}, {Prism6, {8, 9, 2, 10, 11, 6}}};
    }
    if (which == 9) // tetrahedra around an edge
    {
        m.dim = 3;
        m.x = {{0, 0, 0}, {0, 0, 4}, {4, 0, 0}, {0, 4, 0}, {-4, 2, 0}};
        m.c = {{Tet4, {2, 3, 0, 1}}, {Tet4, {3, 4, 0, 1}}};
    }
    if (which == 7) // of either order, touching at a corner
    {
        m.dim = 2;
        m.x = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {6, 2, 0}, {6, 6, 0}, {4, 2, 0}, {6, 4, 0}, {4, 4, 0}};
        m.c = {{Quad4, {0, 1, 2, 3}}, {Tri6, {2, 4, 5, 6, 7, 8}}};
    }
    boundaries(m, true);
    return m;
}
struct FaceSeen { int cells[2]; int zone, type; std::vector<std::array<real, 3>> x; };
struct Ctx
{
    int n, reorder, rec, part[80], anyOrder = 0 /* of the nodes of boundaries */;
    In m;
    std::map<Key, std::vector<std::pair<int, int>>> f; // face -> (cell, face of the cell)
    std::vector<std::set<int>> nb;                     // cells sharing a node
    std::map<std::array<int, 3>, std::set<int>> n2c, n2b;
    std::map<index, int> cellId, bndId; // global index -> as in the file
    std::map<Key, FaceSeen> seen;
    int ownCells = 0, ownNodes = 0, ownBnds = 0;
    std::set<Key> ownFaces;
    std::map<index, tPoint> vx; // node of the VTK output
    int vsize[2] = {0, 0};
    std::set<std::array<int, 3>> bn;
};
// faces and neighbours of the mesh c.m
static void derive(Ctx &c)
{
    auto &m = c.m;
    c.f.clear(), c.n2c.clear(), c.n2b.clear(), c.nb.clear();
    for (size_t i = 0; i < m.c.size(); i++)
    {
        auto fs = facesOf(m.c[i].t);
        for (size_t k = 0; k < fs.size(); k++)
        {
            std::vector<std::array<int, 3>> v;
            for (int j : fs[k]) v.push_back(m.x[m.c[i].n[j]]);
            c.f[keyOf(m, v)].push_back({(int)i, (int)k});
        }
        for (int v : m.c[i].n) c.n2c[cls(m, m.x[v])].insert(i);
    }
    for (size_t b = 0; b < m.b.size(); b++)
        for (int v : m.b[b].n) c.n2b[cls(m, m.x[v])].insert(b);
    c.nb.resize(m.c.size());
    for (auto &[k, s] : c.n2c)
        for (int a : s)
            for (int b : s)
                if (a != b) c.nb[a].insert(b);
}
static int toInt(real v) { return (int)(v < 0 ? v - 0.5 : v + 0.5); }
static std::array<int, 3> lattice(const Ctx &c, const tPoint &p) { return {toInt(p[0] * c.m.s), toInt(p[1] * c.m.s), c.m.dim == 3 ? toInt(p[2] * c.m.s) : 0}; }
struct Rank
{
    Ctx &c;
    int r;
    ssp<UnstructuredMesh> mesh;
    MPIInfo mpi;
    real tol = 0;
    // ---- helpers
    int idOf(index i) { return mesh->cellElemInfo(i, 0).zone; }
    int idOfEntry(index v) { return v >= 0 ? idOf(v) : c.cellId.at(-1 - v); }
    std::array<int, 3> nodeOf(index i) { return cls(c.m, lattice(c, mesh->coords[i])); }
    int bndOf(index iB)
    {
        std::vector<std::array<int, 3>> v;
        int z = mesh->bndElemInfo(iB, 0).zone;
        if (z > 0)
        {
            for (size_t b = 0; b < c.m.b.size(); b++)
                if (c.m.b[b].zone == z) return (int)b;
            return -1;
        }
        // a periodic one: its cell and its side tell
        int cell = idOf(mesh->bnd2cell(iB, 0));
        for (size_t b = 0; b < c.m.b.size(); b++)
            if (c.m.b[b].zone == z && cellOfBnd(b) == cell) return (int)b;
        return -1;
    }
    int cellOfBnd(int b)
    {
        for (size_t i = 0; i < c.m.c.size(); i++)
        {
            int k = 0;
            for (int v : c.m.b[b].n)
                for (int w : c.m.c[i].n) k += v == w;
            if (k == (int)c.m.b[b].n.size()) return (int)i;
        }
        return -1;
    }
    tPoint want(int node)
    {
        auto x = c.m.x[node];
        tPoint p{real(x[0]) / c.m.s, real(x[1]) / c.m.s, real(x[2]) / c.m.s};
        if (c.m.dim == 2) p[2] = c.m.h[node];
        return p;
    }
    void register_() // what global index is what cell
    {
        for (index i = 0; i < mesh->NumCell(); i++) c.cellId[mesh->cell2node.father->pLGlobalMapping->operator()(r, i)] = idOf(i);
        for (index i = 0; i < mesh->NumBnd(); i++) c.bndId[mesh->bnd2node.father->pLGlobalMapping->operator()(r, i)] = bndOf(i);
        MPI::Barrier(mpi.comm);
    }
    void primary()
    {
        std::set<int> have;
        for (index i = 0; i < mesh->NumCellProc(); i++)
        {
            int id = idOf(i);
            vh_assert(id >= 0 && id < (int)c.m.c.size() && have.insert(id).second, "a rank holds a cell once");
            vh_assert((c.part[id] == r) == (i < mesh->NumCell()), "a cell belongs to the rank it was assigned to");
            auto &C = c.m.c[id];
            vh_assert(mesh->cellElemInfo(i, 0).getElemType() == C.t, "cells keep their type");
            tSmallCoords cs;
            mesh->GetCoordsOnCell(i, cs);
            vh_assert(cs.cols() == (index)C.n.size(), "cells keep their number of nodes");
            for (int k = 0; k < cs.cols(); k++)
            {
                auto w = want(C.n[k]);
                vh_assert(cs(0, k) == w[0] && cs(1, k) == w[1], "cells keep their nodes' coordinates, in order");
                vh_close(cs(2, k), w[2], tol, "cells keep their nodes' coordinates, in order");
                auto g = mesh->GetCoordNodeOnCell(i, k);
                vh_assert(g[0] == cs(0, k) && g[1] == cs(1, k) && g[2] == cs(2, k), "single node coordinates agree");
            }
            std::set<int> s;
            for (auto j : mesh->cell2cell[i])
            {
                if (i < mesh->NumCell()) vh_assert(j >= 0 && j < mesh->NumCellProc(), "all neighbours of an own cell are at hand");
                vh_assert(s.insert(idOfEntry(j)).second, "neighbours are listed once");
            }
            vh_assert(s == c.nb[id], "the neighbours of a cell are the cells it shares nodes with");
        }
        for (size_t id = 0; id < c.m.c.size(); id++)
            if (c.part[id] == r) vh_assert(have.count(id), "every cell is on the rank it was assigned to");
        std::set<std::array<int, 3>> nd;
        for (index i = 0; i < mesh->NumNodeProc(); i++) vh_assert(nd.insert(nodeOf(i)).second, "a rank holds a node once");
        std::set<int> hb;
        vh_assert(mesh->bnd2node.Size() == mesh->NumBnd(), "boundaries are not ghosted");
        for (index i = 0; i < mesh->NumBnd(); i++)
        {
            int b = bndOf(i);
            vh_assert(b >= 0 && hb.insert(b).second, "a boundary is there once");
            auto &B = c.m.b[b];
            vh_assert(idOf(mesh->bnd2cell(i, 0)) == cellOfBnd(b) && mesh->bnd2cell(i, 0) < mesh->NumCell(), "a boundary is with its own cell");
            if (B.zone > 0 || !c.rec) vh_assert(mesh->bnd2cell(i, 1) == UnInitIndex, "outside there is no cell");
            else
            {
                int other = -1;
                for (auto [ic, k] : c.f[keyOf(c.m, at(B.n))]) if (ic != cellOfBnd(b)) other = ic;
                vh_assert(idOfEntry(mesh->bnd2cell(i, 1)) == other, "across a periodic boundary lies the matching cell");
            }
            vh_assert(mesh->bndElemInfo(i, 0).zone == B.zone && mesh->bndElemInfo(i, 0).getElemType() == B.t && mesh->bnd2node.RowSize(i) == (index)B.n.size(), "boundaries keep their kind");
            std::set<std::array<int, 3>> bn, bw;
            for (size_t k = 0; k < B.n.size(); k++)
            {
                auto w = cls(c.m, c.m.x[B.n[k]]);
                bn.insert(nodeOf(mesh->bnd2node(i, k))), bw.insert(w);
                if (!c.anyOrder) vh_assert(nodeOf(mesh->bnd2node(i, k)) == w, "boundaries keep their nodes, in order");
            }
            vh_assert(bn == bw, "boundaries keep their nodes");
        }
        for (size_t b = 0; b < c.m.b.size(); b++)
            if (c.part[cellOfBnd(b)] == r) vh_assert(hb.count(b), "a boundary is on its cell's rank");
    }
    std::vector<std::array<int, 3>> at(const std::vector<int> &n)
    {
        std::vector<std::array<int, 3>> v;
        int nv = faceVerts(c.m.dim, n.size());
        for (int k = 0; k < nv; k++) v.push_back(c.m.x[n[k]]);
        return v;
    }
    void faces()
    {
        auto &m = *mesh;
        std::set<Key> mine;
        std::vector<Key> keys;
        for (index f = 0; f < m.NumFaceProc(); f++)
        {
            tSmallCoords cs;
            m.GetCoordsOnFace(f, cs);
            std::vector<std::array<int, 3>> v;
            int nv = faceVerts(c.m.dim, cs.cols());
            for (int k = 0; k < nv; k++) v.push_back(lattice(c, cs.col(k)));
            Key key = keyOf(c.m, v);
            keys.push_back(key);
            vh_assert(mine.insert(key).second, "a rank holds a face once");
            vh_assert(c.f.count(key), "every face is a face of the input");
            auto &l = c.f[key];
            index a = m.face2cell(f, 0), b = m.face2cell(f, 1);
            vh_assert(a >= 0 && a < m.NumCellProc(), "a face has a first cell");
            int ia = idOf(a), ib = b == UnInitIndex ? -1 : idOf(b);
            std::set<int> e, g;
            for (auto [ic, k] : l) e.insert(ic);
            g.insert(ia);
            if (ib >= 0) g.insert(ib);
            vh_assert(e == g && (l.size() == 2) == (ib >= 0), "the cells of a face are the cells that have it");
            // seen from its first cell
            int kf = -1;
            for (auto [ic, k] : l) if (ic == ia) kf = k;
            auto fs = facesOf(c.m.c[ia].t)[kf];
            std::set<std::array<int, 3>> s1, s2(v.begin(), v.end());
            for (int k : fs) s1.insert(c.m.x[c.m.c[ia].n[k]]);
            vh_assert(s1 == s2, "a face lies where its first cell has it");
            int zone = 0;
            for (auto &B : c.m.b)
                if (keyOf(c.m, at(B.n)) == key)
                {
                    bool onIt = true;
                    for (auto &x : at(B.n)) onIt = onIt && s1.count(x);
                    if (B.zone > 0 || onIt) zone = B.zone;
                }
            vh_assert(m.faceElemInfo(f, 0).zone == zone, "a face has its boundary's id, periodic ones that of their first cell's side");
            FaceSeen fc{{ia, ib}, m.faceElemInfo(f, 0).zone, m.faceElemInfo(f, 0).type, {}};
            for (int k = 0; k < cs.cols(); k++) fc.x.push_back({cs(0, k), cs(1, k), cs(2, k)});
            if (c.seen.count(key))
            {
                auto &o = c.seen[key];
                vh_assert(o.cells[0] == ia && o.cells[1] == ib && o.zone == fc.zone && o.type == fc.type && o.x.size() == fc.x.size(), "all ranks see the same face");
                for (size_t k = 0; k < fc.x.size(); k++)
                    for (int d = 0; d < 3; d++) vh_assert(o.x[k][d] == fc.x[k][d], "with the same nodes in the same order");
            }
            else c.seen[key] = fc;
            if (f < m.NumFace())
            {
                vh_assert(c.ownFaces.insert(key).second, "a face is owned by one rank");
                vh_assert(a < m.NumCell(), "the owner of a face owns its first cell");
            }
            else vh_assert(b >= 0 && b < m.NumCell(), "a ghost face belongs to an own cell");
            if (ib >= 0) // the periodic side as handed to the reconstruction
                for (int s = 0; s < 2; s++)
                {
                    int got = 0;
                    m.CellOtherCellPeriodicHandle(f, s, [&] { got = 1; }, [&] { got = 2; }, [&] { got = 0; });
                    int side = s == 0 ? ia : ib; // the cell looked at
                    int wantIt = zone == 0 ? 0 : (FaceIDIsPeriodicMain(zone) == (s == 0)) ? 2 : 1;
                    (void)side;
                    vh_assert(got == wantIt, "the periodic side of a face's cells");
                }
        }
        for (index i = 0; i < m.NumCell(); i++)
        {
            auto &C = c.m.c[idOf(i)];
            auto fs = facesOf(C.t);
            vh_assert(m.cell2face.RowSize(i) == (int)fs.size(), "a cell has all its faces");
            std::set<Key> got;
            auto e = m.GetCellElement(i);
            for (size_t k = 0; k < fs.size(); k++)
            {
                index f = m.cell2face(i, k);
                vh_assert(f >= 0 && f < m.NumFaceProc(), "every face of an own cell is at hand");
                vh_assert(got.insert(keys[f]).second, "once");
                bool has = false;
                for (auto [ic, kk] : c.f[keys[f]]) has = has || ic == idOf(i);
                vh_assert(has, "a cell's faces are its own");
                vh_assert(m.face2cell(f, 0) == i || m.face2cell(f, 1) == i, "a cell's face knows the cell");
                vh_assert(m.CellIsFaceBack(i, f) == (m.face2cell(f, 0) == i) && m.CellFaceOther(i, f) == (m.face2cell(f, 0) == i ? m.face2cell(f, 1) : m.face2cell(f, 0)), "the other side of a face");
                std::vector<index> en(e.ObtainFace(k).GetNumNodes());
                std::vector<index> cn(m.cell2node[i].begin(), m.cell2node[i].end());
                e.ExtractFaceNodes(k, cn, en);
                std::set<std::array<int, 3>> p, q;
                for (auto v : en) p.insert(nodeOf(v));
                for (auto v : m.face2node[f]) q.insert(nodeOf(v));
                vh_assert(p == q, "a cell's faces are in the element's order");
            }
        }
        for (index b = 0; b < m.NumBnd(); b++)
        {
            index f = m.bnd2face.at(b);
            if (m.bndElemInfo(b, 0).zone > 0) vh_assert(f >= 0, "an outer boundary has a face");
            if (f >= 0) vh_assert(f < m.NumFace() && keys[f] == keyOf(c.m, at(c.m.b[bndOf(b)].n)), "a boundary's face is its own");
            if (f >= 0 && m.bndElemInfo(b, 0).zone > 0) vh_assert(m.face2bnd.at(f) == b, "and the face knows the boundary");
        }
        for (auto [f, b] : m.face2bnd) vh_assert(m.bnd2face.at(b) == f, "a face's boundary has the face");
    }
    void n2cb(bool ghosts = true)
    {
        auto &m = *mesh;
        for (index i = 0; i < (ghosts ? m.NumNodeProc() : m.NumNode()); i++)
        {
            std::set<int> s, t;
            for (auto v : m.node2cell[i])
            {
                if (i < m.NumNode()) vh_assert(v >= 0, "the cells around an own node are at hand");
                vh_assert(s.insert(idOfEntry(v)).second, "a node's cells are listed once");
            }
            vh_assert(s == c.n2c[nodeOf(i)], "a node's cells are those that have it");
            for (auto v : m.node2bnd[i]) vh_assert(t.insert(v >= 0 ? bndOf(v) : c.bndId.at(-1 - v)).second, "a node's boundaries are listed once");
            vh_assert(t == c.n2b[nodeOf(i)], "a node's boundaries are those that have it");
        }
    }
    void local()
    {
        auto v = mesh->GetCell2CellFaceVLocal();
        vh_assert((index)v.size() == mesh->NumCell(), "local adjacency has a row per own cell");
        for (index i = 0; i < mesh->NumCell(); i++)
        {
            std::set<int> e, g;
            for (auto &[k, l] : c.f)
                if (l.size() == 2)
                    for (int s = 0; s < 2; s++)
                        if (l[s].first == idOf(i) && c.part[l[1 - s].first] == r) e.insert(l[1 - s].first);
            for (auto j : v[i])
            {
                vh_assert(j >= 0 && j < mesh->NumCell() && j != i, "local adjacency is between own cells");
                vh_assert(g.insert(idOf(j)).second, "and lists a cell once");
            }
            vh_assert(e == g, "local adjacency is that of the faces");
        }
    }
};
static Ctx *CTX;
static UnstructuredMeshSerialRW &distribute(Ctx &c, Rank &R)
{
    int r = R.r;
    R.mpi.setWorld();
    auto &mpi = R.mpi;
    auto mesh = R.mesh = std::make_shared<UnstructuredMesh>(mpi, c.m.dim);
    int np = 0;
    for (int d = 0; d < 3; d++)
        if (c.m.per[d])
        {
            tPoint t = tPoint::Zero();
            t[d] = c.m.per[d];
            mesh->periodicInfo.translation[++np] = t;
        }
    auto &rd = *new UnstructuredMeshSerialRW(mesh, 0);
    DNDS_MAKE_SSP(rd.coordSerial, mpi);
    DNDS_MAKE_SSP(rd.cell2nodeSerial, mpi);
    DNDS_MAKE_SSP(rd.bnd2nodeSerial, mpi);
    DNDS_MAKE_SSP(rd.bnd2cellSerial, mpi);
    DNDS_MAKE_SSP(rd.cellElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
    DNDS_MAKE_SSP(rd.bndElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
    if (r == 0)
    {
        rd.coordSerial->Resize(c.m.x.size());
        for (size_t i = 0; i < c.m.x.size(); i++) (*rd.coordSerial)[i] = R.want(i);
        rd.cell2nodeSerial->Resize(c.m.c.size()), rd.cellElemInfoSerial->Resize(c.m.c.size());
        for (size_t i = 0; i < c.m.c.size(); i++)
        {
            rd.cell2nodeSerial->ResizeRow(i, c.m.c[i].n.size());
            for (size_t k = 0; k < c.m.c[i].n.size(); k++) (*rd.cell2nodeSerial)(i, k) = c.m.c[i].n[k];
            (*rd.cellElemInfoSerial)(i, 0).setElemType(c.m.c[i].t), (*rd.cellElemInfoSerial)(i, 0).zone = i;
        }
        rd.bnd2nodeSerial->Resize(c.m.b.size()), rd.bnd2cellSerial->Resize(c.m.b.size()), rd.bndElemInfoSerial->Resize(c.m.b.size());
        for (size_t i = 0; i < c.m.b.size(); i++)
        {
            rd.bnd2nodeSerial->ResizeRow(i, c.m.b[i].n.size());
            for (size_t k = 0; k < c.m.b[i].n.size(); k++) (*rd.bnd2nodeSerial)(i, k) = c.m.b[i].n[k];
            (*rd.bnd2cellSerial)(i, 0) = R.cellOfBnd(i), (*rd.bnd2cellSerial)(i, 1) = UnInitIndex;
            (*rd.bndElemInfoSerial)(i, 0).setElemType(c.m.b[i].t), (*rd.bndElemInfoSerial)(i, 0).zone = c.m.b[i].zone;
        }
        rd.cell2nodeSerial->Compress(), rd.bnd2nodeSerial->Compress();
    }
    rd.dataIsSerialIn = true, rd.mode = SerialReadAndDistribute;
    rd.Deduplicate1to1Periodic(1e-8);
    vh_assert(mesh->isPeriodic == (np > 0), "a mesh with donor sides is periodic");
    rd.BuildCell2Cell();
    rd.MeshPartitionCell2Cell(UnstructuredMeshSerialRW::PartitionOptions{});
    rd.PartitionReorderToMeshCell2Cell();
    return rd;
}
}
using namespace DNDS::VH;
// METIS stands for any partition it may return; it must be handed the graph of cells that share faces.
static int partition(_METIS::idx_t *nv, _METIS::idx_t *nc, _METIS::idx_t *xa, _METIS::idx_t *ad, _METIS::idx_t *np, _METIS::idx_t *part)
{
    auto &c = *CTX;
    int n = *nv;
    vh_assert(n == (int)c.m.c.size() && *nc == 1 && *np == c.n, "METIS gets every cell and the number of ranks");
    for (int i = 0; i < n; i++)
    {
        std::set<int> e, g;
        for (auto &[k, l] : c.f)
            if (l.size() == 2)
                for (int s = 0; s < 2; s++)
                    if (l[s].first == i) e.insert(l[1 - s].first);
        for (int j = xa[i]; j < xa[i + 1]; j++) vh_assert(g.insert(ad[j]).second, "METIS gets an edge once");
        vh_assert(e == g, "METIS gets the graph of cells that share faces");
        part[i] = c.part[i];
    }
    return _METIS::METIS_OK;
}
namespace _METIS {
extern "C" {
int METIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
int METIS_PartGraphKway(idx_t *nv, idx_t *nc, idx_t *xa, idx_t *ad, idx_t *, idx_t *, idx_t *, idx_t *np, real_t *, real_t *, idx_t *, idx_t *, idx_t *part) { return partition(nv, nc, xa, ad, np, part); }
int METIS_PartGraphRecursive(idx_t *nv, idx_t *nc, idx_t *xa, idx_t *ad, idx_t *, idx_t *, idx_t *, idx_t *np, real_t *, real_t *, idx_t *, idx_t *, idx_t *part) { return partition(nv, nc, xa, ad, np, part); }
int METIS_NodeND(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *) { return METIS_ERROR; }
int ParMETIS_V3_PartKway(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t *, MPI_Comm *) { return METIS_ERROR; }
}
}
void vh_boost_mmd(const std::vector<std::vector<long>> &g, std::vector<long> &perm) { for (size_t i = 0; i < g.size(); i++) perm.push_back(i); }
static void setup(Ctx &c, bool io, bool o1 = false) // o1: first order only, no two cells meeting twice
{
    CTX = &c;
    static const int all[] = {0, 1, 2, 3, 4, 5, 6, 7}, first[] = {0, 1, 8, 9, 4, 5, 6};
    int which = o1 ? first[vh_concretize(vh_int("mesh", 0, 6))] : all[vh_concretize(vh_int("mesh", 0, 7))];
    c.n = vh_concretize(vh_int("n", 1, 2)), c.reorder = io ? 0 : vh_concretize(vh_int("reorder", 0, 2)), c.rec = io || which == 3 ? 0 : vh_concretize(vh_int("recover", 0, 1)); // recovery refuses meshes two cells wide in a periodic direction
    c.m = make(which);
    auto &m = c.m;
    if (vh_concretize(vh_int("back", 0, 1))) // the same mesh, read in the other order
    {
        int n = m.x.size();
        std::reverse(m.x.begin(), m.x.end()), std::reverse(m.c.begin(), m.c.end());
        for (auto &q : m.c) for (auto &v : q.n) v = n - 1 - v;
        m.b.clear();
        boundaries(m, true);
        std::reverse(m.b.begin(), m.b.end());
    }
    std::map<std::array<int, 3>, DNDS::real> hs;
    for (auto &x : m.x)
    {
        auto k = cls(m, x);
        bool p = m.per[0] || m.per[1];
        if (!hs.count(k)) hs[k] = m.dim == 2 && !p ? vh_real("h", -10, 10) : 0;
        m.h.push_back(hs[k]);
    }
    int by = 0, col[3] = {0, 0, 0};
    for (size_t i = 0; i < m.c.size(); i++)
    {
        if (which != 4) c.part[i] = vh_concretize(vh_int("rank", 0, c.n - 1));
        else // a rank per column or per row
        {
            if (i == 0) by = vh_concretize(vh_int("by", 0, 1));
            if (i < 3) col[i] = vh_concretize(vh_int("rank", 0, c.n - 1));
        }
    }
    derive(c);
    if (which == 4)
        for (int i = 0; i < 9; i++) c.part[i] = col[by ? i / 3 : i % 3];
}
