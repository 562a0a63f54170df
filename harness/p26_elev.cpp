//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/Geom/Mesh.cpp","src/Geom/Mesh_Serial_Partition.cpp","src/Geom/Mesh_Serial_BuildCell2Cell.cpp","src/Geom/Mesh_Elevation.cpp","src/Geom/Elements.cpp","src/DNDS/SerializerH5.cpp","src/DNDS/SerializerJSON.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockh5.cpp","mockz.cpp"],"flags":["-fno-access-control"]}
//@run {"prop":"P26","entry":"h_elev","bounds":"first order meshes of 1..9 cells (mixed 2-D, mixed 3-D, singly and doubly periodic three cells wide) on 1..2 ranks, every assignment of cells to ranks, read in either order, any node heights","reach":["elev"],"shard":[["mesh",0,6],["n",1,2],["back",0,1]],"time":600}
//@run {"prop":"P26","entry":"h_bisected","bounds":"the same meshes, split once","reach":["bisected"],"shard":[["mesh",0,6],["n",1,2],["back",0,1]],"time":600}
#include "mesh_common.h"
namespace DNDS::VH {
// the nodes of the second order type, each the middle of these of the first order one
static std::vector<std::vector<int>> spans(Elem::ElemType t)
{
    using namespace Elem;
    switch (t)
    {
    case Line2: return {{0, 1}};
    case Tri3: return {{0, 1}, {1, 2}, {2, 0}};
    case Quad4: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 1, 2, 3}};
    case Tet4: return {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    case Hex8: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 1, 2, 3}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7}};
    case Prism6: return {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 4}, {2, 5}, {3, 4}, {4, 5}, {5, 3}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}};
    case Pyramid5: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}, {0, 1, 2, 3}};
    default: return {};
    }
}
static Elem::ElemType up(Elem::ElemType t)
{
    using namespace Elem;
    return t == Line2 ? Line3 : t == Tri3 ? Tri6 : t == Quad4 ? Quad9 : t == Tet4 ? Tet10 : t == Hex8 ? Hex27 : t == Prism6 ? Prism18 : Pyramid14;
}
static In elevated(const In &m)
{
    In e = m;
    e.s = m.s * 8;
    std::map<std::array<int, 3>, int> at;
    for (size_t i = 0; i < e.x.size(); i++)
    {
        for (int d = 0; d < 3; d++) e.x[i][d] *= 8;
        at[e.x[i]] = i;
    }
    for (int d = 0; d < 3; d++) e.per[d] *= 8;
    auto add = [&](Elem::ElemType &t, std::vector<int> &n)
    {
        auto sp = spans(t);
        auto o = n;
        for (auto &s : sp)
        {
            std::array<int, 3> x{0, 0, 0};
            real h = 0;
            for (int k : s)
            {
                for (int d = 0; d < 3; d++) x[d] += m.x[o[k]][d] * 8;
                h += m.h[o[k]];
            }
            for (int d = 0; d < 3; d++) x[d] /= (int)s.size();
            if (!at.count(x)) at[x] = e.x.size(), e.x.push_back(x), e.h.push_back(h / s.size());
            n.push_back(at[x]);
        }
        t = up(t);
    };
    for (auto &q : e.c) add(q.t, q.n);
    for (auto &q : e.b) add(q.t, q.n);
    return e;
}
static void elevate(Ctx &c, Rank &R)
{
    distribute(c, R);
    R.mesh->BuildGhostPrimary();
    R.mesh->AdjGlobal2LocalPrimary();
    auto o2 = std::make_shared<UnstructuredMesh>(R.mpi, c.m.dim);
    o2->BuildO2FromO1Elevation(*R.mesh);
    R.mesh = o2;
    R.tol = 1e-12;
    MPI::Barrier(R.mpi.comm);
    if (R.r == 0) c.m = elevated(c.m), derive(c), c.anyOrder = 1;
    MPI::Barrier(R.mpi.comm);
}
static void all(Ctx &c, Rank &R)
{
    c.ownNodes += R.mesh->NumNode(), c.ownCells += R.mesh->NumCell(), c.ownBnds += R.mesh->NumBnd();
    R.register_();
    vh_assert(c.ownCells == (int)c.m.c.size() && c.ownBnds == (int)c.m.b.size() && c.ownNodes == (int)c.n2c.size(), "each cell, boundary and node is on one rank");
    R.primary();
    R.mesh->InterpolateFace();
    R.mesh->AssertOnFaces();
    R.faces();
    MPI::Barrier(R.mpi.comm);
    vh_assert(c.ownFaces.size() == c.f.size(), "every face has an owner");
}
static void bodyElev(int r, void *p)
{
    auto &c = *(Ctx *)p;
    Rank R{c, r};
    elevate(c, R);
    vh_assert(R.mesh->IsO2() && !R.mesh->IsO1(), "the elevated mesh is of second order");
    R.mesh->BuildGhostPrimary();
    R.mesh->AdjGlobal2LocalPrimary();
    all(c, R);
    MPI::Barrier(R.mpi.comm);
}
static std::vector<Cell> GOT[2];
static std::vector<Bnd> GOTB[2];
static std::vector<int> PARENT[2];
static void bodyBisect(int r, void *p)
{
    auto &c = *(Ctx *)p;
    Rank R{c, r};
    elevate(c, R);
    R.mesh->BuildGhostPrimary();
    auto o1 = std::make_shared<UnstructuredMesh>(R.mpi, c.m.dim);
    o1->BuildBisectO1FormO2(*R.mesh);
    R.mesh = o1;
    vh_assert(o1->IsO1(), "the parts are of first order");
    // what the parts are, by place; each in its parent
    auto &m = c.m;
    auto coord = [&](index g) // a node, from its owner
    {
        return c.vx.at(g);
    };
    for (index i = 0; i < o1->coords.father->Size(); i++) c.vx[o1->coords.father->pLGlobalMapping->operator()(r, i)] = (*o1->coords.father)[i];
    MPI::Barrier(R.mpi.comm);
    GOT[r].clear(), GOTB[r].clear(), PARENT[r].clear();
    std::map<int, int> parts;
    for (index i = 0; i < o1->cell2node.father->Size(); i++)
    {
        int id = o1->cellElemInfo(i, 0).zone;
        vh_assert(id >= 0 && id < (int)m.c.size() && c.part[id] == r, "parts stay with their parent");
        parts[id]++;
        Cell q{o1->cellElemInfo(i, 0).getElemType(), {}};
        std::set<int> once;
        for (rowsize k = 0; k < o1->cell2node.father->RowSize(i); k++)
        {
            tPoint x = coord((*o1->cell2node.father)(i, k));
            if (o1->isPeriodic) x = o1->periodicInfo.GetCoordByBits(x, (*o1->cell2nodePbi.father)(i, k));
            auto l = lattice(c, x);
            int n = -1;
            for (int v : m.c[id].n) if (m.x[v] == l) n = v;
            vh_assert(n >= 0 && once.insert(n).second, "a part has nodes of its parent, each once");
            vh_close(x[2], R.want(n)[2], 1e-12, "at their place");
            q.n.push_back(n);
        }
        GOT[r].push_back(q);
        PARENT[r].push_back(id);
    }
    for (auto &[id, k] : parts)
    {
        auto t = m.c[id].t;
        vh_assert(t == Elem::Pyramid14 ? k > 1 : k == (c.m.dim == 3 ? 8 : 4), "a cell has all its parts");
    }
    for (index i = 0; i < o1->bnd2node.father->Size(); i++)
    {
        Bnd q{o1->bndElemInfo(i, 0).getElemType(), {}, o1->bndElemInfo(i, 0).zone};
        int found = 0;
        for (auto &B : m.b)
        {
            if (B.zone != q.zone) continue;
            std::vector<int> w;
            for (rowsize k = 0; k < o1->bnd2node.father->RowSize(i); k++)
            {
                auto l = cls(m, lattice(c, coord((*o1->bnd2node.father)(i, k))));
                for (int v : B.n) if (cls(m, m.x[v]) == l) w.push_back(v);
            }
            if ((int)w.size() == o1->bnd2node.father->RowSize(i)) found++, q.n = w;
        }
        vh_assert(found == 1, "a boundary part lies on a boundary of its id");
        if (q.zone > 0) // a new id, to tell the parts apart; which boundary it is has been seen
            q.zone = o1->bndElemInfo.father->operator()(i, 0).zone = 1000 * (r + 1) + i;
        GOTB[r].push_back(q);
    }
    MPI::Barrier(R.mpi.comm);
    if (r == 0)
    {
        In e = m;
        e.c.clear(), e.b.clear();
        for (int q = 0; q < c.n; q++)
            for (auto &x : GOT[q]) c.part[e.c.size()] = q, e.c.push_back(x);
        for (int q = 0; q < c.n; q++)
            for (auto &x : GOTB[q]) e.b.push_back(x);
        size_t oldBnd = m.b.size();
        c.m = e, derive(c), c.rec = 1;
        // the parts fit: every face of a part is shared by two, or is a boundary part
        std::map<Key, int> bs;
        for (auto &B : e.b)
        {
            std::vector<std::array<int, 3>> v;
            for (int n : B.n) v.push_back(e.x[n]);
            bs[keyOf(e, v)]++;
        }
        for (auto &[k, l] : c.f)
        {
            vh_assert(l.size() <= 2, "two cells at a face, at most");
            int want = bs.count(k) ? bs[k] : 0;
            vh_assert(l.size() == 2 ? want == 0 || want == 2 : want == 1, "a face of the parts is inside or on a boundary");
            bs.erase(k);
        }
        vh_assert(bs.empty(), "a boundary part is a face of a part");
        vh_assert(e.b.size() == oldBnd * (e.dim == 3 ? 4 : 2), "every boundary has its parts");
        c.ownNodes = c.ownCells = c.ownBnds = 0;
    }
    MPI::Barrier(R.mpi.comm);
    int base = r == 0 ? 0 : (int)GOT[0].size();
    for (index i = 0; i < o1->cell2node.father->Size(); i++) o1->cellElemInfo.father->operator()(i, 0).zone = base + i;
    o1->RecoverNode2CellAndNode2Bnd();
    o1->RecoverCell2CellAndBnd2Cell();
    o1->BuildGhostPrimary();
    o1->AdjGlobal2LocalPrimary();
    o1->AdjGlobal2LocalN2CB();
    all(c, R);
    R.n2cb(false);
    MPI::Barrier(R.mpi.comm);
}
}
VH_ENTRY h_elev()
{
    Ctx c;
    setup(c, true, true);
    c.ownCells = c.ownNodes = c.ownBnds = 0;
    mm_run(c.n, bodyElev, &c);
    vh_reach("elev");
}
VH_ENTRY h_bisected()
{
    Ctx c;
    setup(c, true, true);
    c.ownCells = c.ownNodes = c.ownBnds = 0;
    mm_run(c.n, bodyBisect, &c);
    vh_reach("bisected");
}
