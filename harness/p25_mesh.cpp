//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/Geom/Mesh.cpp","src/Geom/Mesh_Serial_Partition.cpp","src/Geom/Mesh_Serial_BuildCell2Cell.cpp","src/Geom/Elements.cpp","src/DNDS/SerializerH5.cpp","src/DNDS/SerializerJSON.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockh5.cpp","mockz.cpp"],"flags":["-fno-access-control"]}
//@run {"prop":"P25","entry":"h_mesh","bounds":"meshes of 1..4 cells (mixed 2-D, mixed 3-D, second order, singly and doubly periodic) on 1..2 ranks, every assignment of cells to ranks (also leaving ranks empty), cells, nodes and boundaries read in either order, any node heights; cells reordered before, after or not at all","reach":["mesh"],"shard":[["mesh",0,7],["n",1,2],["reorder",0,2]],"time":600}
//@run {"prop":"P25","entry":"h_meshio","bounds":"the same meshes, ranks and assignments; written to a file and read back, faces built, VTK connectivity built twice, boundary mesh built","reach":["meshio"],"shard":[["mesh",0,7],["n",1,2]],"time":600}
#include "mesh_common.h"
namespace DNDS::VH {
static void body(int r, void *p)
{
    auto &c = *(Ctx *)p;
    Rank R{c, r};
    auto &rd = distribute(c, R);
    auto &mpi = R.mpi;
    auto &mesh = R.mesh;
    c.ownCells += mesh->cell2node.father->Size(), c.ownNodes += mesh->coords.father->Size(), c.ownBnds += mesh->bnd2node.father->Size();
    MPI::Barrier(mpi.comm);
    {
        std::set<std::array<int, 3>> all;
        for (auto &[k, v] : c.n2c) all.insert(k);
        vh_assert(c.ownCells == (int)c.m.c.size() && c.ownBnds == (int)c.m.b.size() && c.ownNodes == (int)all.size(), "each cell, boundary and node is on one rank");
    }
    if (c.rec) mesh->RecoverNode2CellAndNode2Bnd(), mesh->RecoverCell2CellAndBnd2Cell();
    mesh->BuildGhostPrimary();
    mesh->AdjGlobal2LocalPrimary();
    if (c.rec) mesh->AdjGlobal2LocalN2CB();
    R.register_();
    R.primary();
    R.local();
    if (c.reorder == 1) mesh->ReorderLocalCells(), c.cellId.clear(), c.bndId.clear(), MPI::Barrier(mpi.comm), R.register_(), R.primary();
    mesh->InterpolateFace();
    mesh->AssertOnFaces();
    R.faces();
    MPI::Barrier(mpi.comm);
    vh_assert(c.ownFaces.size() == c.f.size(), "every face has an owner");
    R.local();
    mesh->AdjLocal2GlobalPrimary();
    mesh->RecoverNode2CellAndNode2Bnd();
    mesh->AdjGlobal2LocalPrimary();
    mesh->BuildGhostN2CB();
    mesh->AdjGlobal2LocalN2CB();
    R.primary();
    R.n2cb();
    mesh->AssertOnN2CB();
    if (c.reorder == 2)
    {
        mesh->ReorderLocalCells();
        c.cellId.clear(), c.bndId.clear(), c.ownFaces.clear(), c.seen.clear(), MPI::Barrier(mpi.comm);
        R.register_(), R.primary(), R.faces(), R.n2cb(), R.local();
        mesh->AssertOnFaces(), mesh->AssertOnN2CB();
    }
    // to global numbers and back
    mesh->AdjLocal2GlobalFacial(), mesh->AdjLocal2GlobalC2F(), mesh->AdjLocal2GlobalPrimary();
    rd.BuildSerialOut();
    if (r == 0)
    {
        vh_assert(rd.cell2nodeSerial->Size() == (index)c.m.c.size() && rd.coordSerial->Size() == c.ownNodes, "serial output has every cell and node");
        std::set<int> ids;
        for (index i = 0; i < rd.cell2nodeSerial->Size(); i++)
        {
            int id = (*rd.cellElemInfoSerial)(i, 0).zone;
            vh_assert(ids.insert(id).second && c.cellId.at(i) == id, "serial output numbers cells globally");
            tSmallCoords cs;
            rd.GetCoordsOnCellSerial(i, cs, rd.coordSerial);
            vh_assert(cs.cols() == (index)c.m.c[id].n.size(), "serial output keeps cells");
            for (int k = 0; k < cs.cols(); k++)
            {
                auto w = R.want(c.m.c[id].n[k]);
                vh_assert(cs(0, k) == w[0] && cs(1, k) == w[1] && cs(2, k) == w[2], "serial output keeps coordinates");
            }
        }
    }
    mesh->AdjGlobal2LocalPrimary(), mesh->AdjGlobal2LocalC2F(), mesh->AdjGlobal2LocalFacial();
    c.ownFaces.clear(), MPI::Barrier(mpi.comm);
    R.primary(), R.faces();
    MPI::Barrier(mpi.comm);
}
// what is written of a mesh: the file for restarts, the connectivity for VTK, the mesh of its boundary
static void bodyIO(int r, void *p)
{
    auto &c = *(Ctx *)p;
    Rank R{c, r};
    distribute(c, R);
    auto &mpi = R.mpi;
    auto &mesh = R.mesh;
    mesh->BuildGhostPrimary();
    mesh->AdjGlobal2LocalPrimary();
    R.register_();
    R.primary();
    {
        auto h = std::make_shared<Serializer::SerializerH5>(mpi);
        Serializer::SerializerBaseSSP f = h;
        f->OpenFile("mesh.h5", false);
        mesh->WriteSerialize(f, "meshPart");
        f->CloseFile();
    }
    MPI::Barrier(mpi.comm);
    {
        auto again = std::make_shared<UnstructuredMesh>(mpi, c.m.dim);
        auto h = std::make_shared<Serializer::SerializerH5>(mpi);
        Serializer::SerializerBaseSSP f = h;
        f->OpenFile("mesh.h5", true);
        again->ReadSerialize(f, "meshPart");
        f->CloseFile();
        mesh = again; // from here on with the mesh read back
    }
    R.primary();
    mesh->InterpolateFace();
    mesh->AssertOnFaces();
    R.faces();
    bool o1 = true, o2 = true;
    for (auto &C : c.m.c) (C.t == Elem::Tri6 || C.t == Elem::Quad9 ? o1 : o2) = false;
    vh_assert(mesh->IsO1() == o1 && mesh->IsO2() == o2, "every rank knows the order of the whole mesh");
    mesh->RecreatePeriodicNodes();
    for (int again = 0; again < 2; again++)
    {
        mesh->BuildVTKConnectivity();
        auto &X = mesh->isPeriodic ? mesh->coordsPeriodicRecreated : mesh->coords;
        index nn = X.father->Size(), nc = mesh->NumCell();
        vh_assert(nc == 0 || mesh->vtkCellOffset == mesh->cell2node.trans.pLGlobalMapping->operator()(r, 0), "VTK cells are numbered as the mesh's");
        for (index i = 0; i < nn; i++)
        {
            c.vx[mesh->vtkNodeOffset + i] = X[i];
            if (mesh->isPeriodic) vh_assert(R.nodeOf(mesh->nodeRecreated2nodeLocal.at(i)) == cls(c.m, lattice(c, X[i])), "a recreated node knows its node");
        }
        c.vsize[r] = (int)mesh->vtkCell2node.size();
        MPI::Barrier(mpi.comm);
        int total = 0, before = 0;
        for (int q = 0; q < c.n; q++) total += c.vsize[q], before += q < r ? c.vsize[q] : 0;
        vh_assert(mesh->vtkCell2NodeGlobalSiz == total && mesh->vtkNCellGlobal == (index)c.m.c.size() && mesh->vtkNNodeGlobal == (index)c.vx.size(), "VTK totals");
        vh_assert((index)mesh->vtkCell2nodeOffsets.size() == nc + 1 && (index)mesh->vtkCellType.size() == nc, "VTK has each own cell");
        vh_assert(mesh->vtkCell2nodeOffsets[0] == before && mesh->vtkCell2nodeOffsets[nc] == before + c.vsize[r], "VTK offsets of a rank start where those of the one before end");
        for (index i = 0; i < nc; i++)
        {
            auto &C = c.m.c[R.idOf(i)];
            std::vector<index> id;
            for (size_t k = 0; k < C.n.size(); k++) id.push_back(k);
            auto w = Elem::ToVTKVertsAndData(Elem::Element{C.t}, id);
            vh_assert(mesh->vtkCellType[i] == w.first, "VTK cell type");
            index o = mesh->vtkCell2nodeOffsets[i] - before;
            vh_assert(mesh->vtkCell2nodeOffsets[i + 1] - before == o + (index)w.second.size(), "VTK cell has its number of nodes");
            for (size_t k = 0; k < w.second.size(); k++)
            {
                auto x = c.vx.at(mesh->vtkCell2node.at(o + k)), e = R.want(C.n[w.second[k]]);
                vh_assert(x[0] == e[0] && x[1] == e[1] && x[2] == e[2], "a VTK cell lies where the cell does");
            }
        }
        MPI::Barrier(mpi.comm);
    }
    // the mesh of the boundary
    UnstructuredMesh B(mpi, c.m.dim - 1);
    mesh->ConstructBndMesh(B);
    index k = 0;
    for (index b = 0; b < mesh->NumBnd(); b++)
    {
        auto &Q = c.m.b[R.bndOf(b)];
        if (Q.zone <= 0) continue;
        vh_assert(k < B.NumCell() && B.cell2parentCell.at(k) == b, "the boundary mesh has the outer boundaries, in order");
        vh_assert(B.cellElemInfo(k, 0).zone == Q.zone && B.cellElemInfo(k, 0).getElemType() == Q.t && B.cell2node.RowSize(k) == (int)Q.n.size(), "of their kind");
        tSmallCoords cs;
        B.GetCoordsOnCell(k, cs);
        auto has = [&](int j, int n) { auto w = R.want(n); bool z = cs(2, j) == w[2]; return cs(0, j) == w[0] && cs(1, j) == w[1] && z; };
        for (size_t j = 0; j < Q.n.size(); j++)
        {
            auto l = lattice(c, cs.col(j));
            bool f = false;
            for (int n : Q.n)
                if (c.m.x[n] == l) f = true, vh_assert(has(j, n), "at their nodes' place");
            vh_assert(f, "and they lie where the boundary does");
            index bn = B.cell2node(k, j);
            vh_assert(mesh->node2bndNode.at(B.node2parentNode.at(bn)) == bn, "a boundary node knows its node");
            vh_assert(R.nodeOf(B.node2parentNode.at(bn)) == cls(c.m, l), "and it is that one");
        }
        k++;
    }
    vh_assert(B.NumCell() == k, "and nothing else");
    for (index i = 0; i < B.coords.father->Size(); i++) vh_assert(c.bn.insert(cls(c.m, lattice(c, B.coords[i]))).second, "a boundary node is owned by one rank");
    MPI::Barrier(mpi.comm);
    std::set<std::array<int, 3>> all;
    for (auto &q : c.n2b) all.insert(q.first);
    vh_assert(c.bn == all && B.NumNodeGlobal() == (index)all.size(), "the boundary mesh has every node on a boundary");
    if (c.n == 1 && c.m.dim == 2) // boundaries of the boundary mesh are numbered as a whole
        vh_assert(B.NumCellGlobal() == k, "the size of the boundary mesh");
    MPI::Barrier(mpi.comm);
}
}
VH_ENTRY h_mesh()
{
    Ctx c;
    setup(c, false);
    mm_run(c.n, body, &c);
    vh_reach("mesh");
}
VH_ENTRY h_meshio()
{
    Ctx c;
    setup(c, true);
    mm_run(c.n, bodyIO, &c);
    vh_reach("meshio");
}
