//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp","src/DNDS/HardEigen.cpp","src/Geom/Mesh.cpp","src/Geom/Mesh_Serial_Partition.cpp","src/Geom/Mesh_Serial_BuildCell2Cell.cpp","src/Geom/Elements.cpp","src/DNDS/SerializerH5.cpp","src/DNDS/SerializerJSON.cpp","src/CFV/VariationalReconstruction.cpp","src/CFV/_explicit_instantiation/VariationalReconstruction_Reconstruction_2_D.cpp","src/CFV/_explicit_instantiation/VariationalReconstruction_Reconstruction_3_D.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp","mockh5.cpp","mockz.cpp"],"flags":["-fno-access-control"]}
//@run {"prop":"P27","entry":"h_exact","bounds":"plane and solid meshes of 1..4 cells, 1..2 ranks, every assignment of cells to ranks, polynomials of degree 1..3 with any coefficients in [-1,1]","reach":["exact"],"shard":[["mesh",0,3],["order",1,3],["variant",0,3],["n",1,2]],"time":600}
//@run {"prop":"P27","entry":"h_iter","bounds":"plane, solid, singly and doubly periodic meshes of 2..9 cells, 1..2 ranks, every assignment of cells to ranks, coefficients of degree 1..2 and means any in [-1,1]","reach":["iter"],"shard":[["mesh",0,5],["order",1,2],["variant",0,3],["n",1,2]],"time":600}
#include "mesh_common.h"
#include "CFV/VariationalReconstruction.hpp"
namespace DNDS::VH {
using namespace CFV;
static const int Dyn = Eigen::Dynamic;
struct Mono { int a, b, c; };
static std::vector<Mono> monos(int dim, int p)
{
    std::vector<Mono> r;
    for (int d = 0; d <= p; d++)
        for (int a = d; a >= 0; a--)
            for (int b = d - a; b >= 0; b--)
                if (dim == 3 || a + b == d) r.push_back({a, b, d - a - b});
    return r;
}
static real ipow(real x, int n) { real r = 1; while (n-- > 0) r *= x; return r; }
static real mono(const Mono &m, const tPoint &x) { return ipow(x[0], m.a) * ipow(x[1], m.b) * ipow(x[2], m.c); }
// integral of a monomial over a cell with plane sides, from its boundary
static const real G4x[4] = {-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526}, G4w[4] = {0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538};
static real integral(const Ctx &c, int id, const Mono &m)
{
    auto at = [&](int k) { auto &x = c.m.x[c.m.c[id].n[k]]; return tPoint{real(x[0]) / c.m.s, real(x[1]) / c.m.s, c.m.dim == 3 ? real(x[2]) / c.m.s : 0.}; };
    real s = 0;
    Mono up{m.a + 1, m.b, m.c};
    for (auto &f : facesOf(c.m.c[id].t))
        if (c.m.dim == 2)
        {
            tPoint p = at(f[0]), q = at(f[1]);
            for (int g = 0; g < 4; g++) s += G4w[g] * 0.5 * mono(up, p + (q - p) * (0.5 + 0.5 * G4x[g])) * (q[1] - p[1]);
        }
        else
            for (size_t k = 2; k < f.size(); k++)
            {
                tPoint p = at(f[0]), u = at(f[k - 1]) - p, v = at(f[k]) - p;
                real nx = u[1] * v[2] - u[2] * v[1];
                for (int g = 0; g < 4; g++)
                    for (int h = 0; h < 4; h++)
                    {
                        real a = 0.5 + 0.5 * G4x[g], b = (0.5 + 0.5 * G4x[h]) * (1 - a);
                        s += G4w[g] * G4w[h] * 0.25 * (1 - a) * mono(up, p + u * a + v * b) * nx;
                    }
            }
    return s / (m.a + 1);
}
static In vrMesh(int which)
{
    using namespace Elem;
    In m;
    if (which == 0)
    {
        m.dim = 2, m.s = 2;
        m.x = {{0, 0, 0}, {3, -1, 0}, {6, 0, 0}, {0, 3, 0}, {2, 2, 0}, {5, 3, 0}, {3, 5, 0}};
        m.c = {{Quad4, {0, 1, 4, 3}}, {Quad4, {1, 2, 5, 4}}, {Tri3, {3, 4, 6}}, {Tri3, {4, 5, 6}}};
        boundaries(m, true);
        return m;
    }
    if (which == 1) return make(2);
    if (which == 2) return make(1);
    grid(m, 2, 2, 0, 0);
    boundaries(m, true);
    return m;
}
struct Data { std::vector<std::vector<real>> rec, d; std::vector<real> u; std::map<int, std::vector<real>> inc; std::map<int, Eigen::MatrixXd> A; };
struct V : Ctx
{
    Data *data = nullptr;
    bool ref = false;           // this run is the one to compare with
    std::vector<int> of, watch; // cell -> cell of the data, and whether it counts

    int order, variant, which;
    std::vector<Mono> mo;
    std::vector<real> a;   // coefficients of the polynomial
};
static real poly(const V &c, const tPoint &x)
{
    real s = 0;
    for (size_t k = 0; k < c.mo.size(); k++) s += c.a[k] * mono(c.mo[k], x);
    return s;
}
template <int dim>
static void settings(VariationalReconstruction<dim> &vr, const V &c, bool sor)
{
    auto &s = vr.settings;
    s.maxOrder = c.order;
    s.intOrder = 5, s.SORInstead = sor;
    s.functionalSettings.manualDirWeights = Eigen::VectorXd::Ones(4);
    if (c.variant == 1) s.cacheDiffBase = true, s.functionalSettings.dirWeightScheme = VRSettings::FunctionalSettings::HQM_OPT, s.functionalSettings.geomWeightScheme = VRSettings::FunctionalSettings::HQM_SD;
    if (c.variant == 2) s.intOrderVR = 3, s.baseSettings.localOrientation = true, s.baseSettings.anisotropicLengths = true, s.functionalSettings.scaleType = VRSettings::FunctionalSettings::MeanAACBB, s.jacobiRelax = 0.5;
    if (c.variant == 3) s.functionalSettings.useAnisotropicFunctional = true, s.functionalSettings.greenGauss1Weight = 1, s.functionalSettings.greenGaussSpacial = 1, s.cacheDiffBase = true, s.cacheDiffBaseSize = dim + 1;
}
template <int dim>
static void construct(VariationalReconstruction<dim> &vr, const V &c, bool sor)
{
    settings(vr, c, sor);
    vr.ConstructMetrics();
    vr.ConstructBaseAndWeight([](t_index id, int o) -> real { return FaceIDIsPeriodic(id) || o == 0 ? 1. : 0.; }); // as the Euler solver does
    vr.ConstructRecCoeff();
    vr.SetPeriodicTransformations([](auto, t_index) {}, [](auto, t_index) {});
}
// volumes, centres, face areas and normals are those of the cells and faces
template <int dim>
static void metrics(V &c, Rank &R, VariationalReconstruction<dim> &vr)
{
    auto &mesh = R.mesh;
    real all = 0;
    for (size_t id = 0; id < c.m.c.size(); id++) all += integral(c, id, {0, 0, 0});
    vh_close(vr.GetGlobalVol(), all, 1e-9, "the volume of the mesh");
    for (index i = 0; i < mesh->NumCellProc(); i++)
    {
        int id = R.idOf(i);
        real vol = integral(c, id, {0, 0, 0});
        vh_close(vr.GetCellVol(i), vol, 1e-9, "the volume of a cell");
        auto b = vr.GetCellBary(i);
        vh_close(b[0], integral(c, id, {1, 0, 0}) / vol, 1e-9, "the barycentre of a cell");
        vh_close(b[1], integral(c, id, {0, 1, 0}) / vol, 1e-9, "the barycentre of a cell");
        vh_close(b[2], dim == 3 ? integral(c, id, {0, 0, 1}) / vol : 0, 1e-9, "the barycentre of a cell");
        auto q = vr.GetCellQuad(i);
        Eigen::RowVectorXd mean = Eigen::RowVectorXd::Zero(Geom::Base::GetNDof<dim>(c.order) - 1);
        q.IntegrationSimple(mean, [&](auto &v, int g) { v = vr.GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1) * vr.GetCellJacobiDet(i, g); });
        for (int k = 0; k < mean.cols(); k++) vh_close(mean[k], 0, 1e-8, "base functions have no mean");
        if (i >= mesh->NumCell()) continue;
        tPoint out = tPoint::Zero();
        real len = 0;
        for (auto f : mesh->cell2face[i])
        {
            tPoint n = vr.GetFaceNormFromCell(f, i, -1, -1) * (mesh->CellIsFaceBack(i, f) ? 1 : -1);
            out += n * vr.GetFaceArea(f), len += vr.GetFaceArea(f);
            tPoint fc = vr.GetFaceQuadraturePPhysFromCell(f, i, -1, -1);
            vh_assert((fc - b).dot(n) > 0, "normals point from the first to the second cell");
            vh_close(n.norm(), 1, 1e-9, "normals of plane faces have length one");
            auto qf = vr.GetFaceQuad(f);
            for (int g = 0; g < qf.GetNumPoints(); g++)
            {
                tPoint x = vr.GetFaceQuadraturePPhysFromCell(f, i, -1, g) - fc, m = vr.GetFaceNormFromCell(f, i, -1, g);
                vh_close(x.dot(n), 0, 1e-9, "a face's points lie on it");
                vh_close((m * (mesh->CellIsFaceBack(i, f) ? 1 : -1) - n).norm(), 0, 1e-9, "normals at points of plane faces are all the same");
            }
        }
        vh_close(out.norm(), 0, 1e-9 * len, "a cell is closed");
        real area = 0; // total area of the cell
        for (auto &f : facesOf(c.m.c[id].t))
        {
            auto at = [&](int k) { return R.want(c.m.c[id].n[f[k]]); };
            tPoint s = tPoint::Zero();
            if (dim == 2) area += (at(1) - at(0)).norm();
            else
            {
                for (size_t k = 2; k < f.size(); k++) s += (at(k - 1) - at(0)).cross(at(k) - at(0)) / 2;
                area += s.norm();
            }
        }
        vh_close(area, len, 1e-9, "the area of a cell's faces");
    }
}
template <int dim>
static void exact(V &c, Rank &R)
{
    auto &mesh = R.mesh;
    static const auto S012 = Eigen::seq(Eigen::fix<0>, Eigen::fix<dim - 1>);
    for (int sor = 0; sor < 2; sor++)
    {
        VariationalReconstruction<dim> vr(R.mpi, mesh);
        construct(vr, c, sor);
        if (sor == 0) metrics(c, R, vr);
        tUDof<Dyn> u;
        tURec<Dyn> rec, recNew;
        vr.BuildUDof(u, 1), vr.BuildURec(rec, 1), vr.BuildURec(recNew, 1);
        int nd = Geom::Base::GetNDof<dim>(c.order);
        for (index i = 0; i < mesh->NumCell(); i++)
        {
            int id = R.idOf(i);
            real vol = integral(c, id, {0, 0, 0}), mean = 0;
            for (size_t k = 0; k < c.mo.size(); k++) mean += c.a[k] * (integral(c, id, c.mo[k]) / vol);
            u[i](0) = mean;
            // the coefficients of the polynomial, from its values
            std::vector<tPoint> at;
            for (int k = 0; k < (dim == 2 ? 16 : 64); k++) at.push_back(vr.GetCellBary(i) + tPoint{(k % 4) * 0.5 - 0.75, (k / 4 % 4) * 0.5 - 0.75, dim == 2 ? 0 : (k / 16) * 0.5 - 0.75});
            Eigen::MatrixXd B(at.size(), nd - 1);
            for (size_t g = 0; g < at.size(); g++)
            {
                MatrixXR d(1, nd);
                vr.FDiffBaseValue(d, at[g], i, -1, -2, 0);
                B.row(g) = d.rightCols(nd - 1);
            }
            Eigen::MatrixXd P = B.colPivHouseholderQr().solve(Eigen::MatrixXd::Identity(B.rows(), B.rows()));
            for (int k = 0; k < nd - 1; k++)
            {
                real s = 0;
                for (size_t g = 0; g < at.size(); g++) s += P(k, g) * (poly(c, at[g]) - mean);
                rec[i](k, 0) = s;
            }
            auto q = vr.GetCellQuad(i);
            for (int g = -1; g < q.GetNumPoints(); g++)
            {
                real s = mean;
                auto d = vr.GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1);
                for (int k = 0; k < nd - 1; k++) s += d(0, k) * rec[i](k, 0);
                vh_close(s, poly(c, vr.GetCellQuadraturePPhys(i, g)), 1e-7, "a cell's polynomials take any value of that degree with the cell's mean");
            }
        }
        u.trans.startPersistentPull(), u.trans.waitPersistentPull();
        rec.trans.startPersistentPull(), rec.trans.waitPersistentPull();
        for (index f = 0; f < mesh->NumFaceProc(); f++) // both sides of a face see the polynomial
            for (int s = 0; s < 2; s++)
            {
                index i = mesh->face2cell(f, s), o = mesh->face2cell(f, 1 - s);
                if (i == UnInitIndex) continue;
                auto q = vr.GetFaceQuad(f);
                for (int g = -1; g < q.GetNumPoints(); g++)
                {
                    Eigen::MatrixXd v = vr.GetIntPointDiffBaseValue(i, f, s, g, Eigen::all) * rec[i];
                    vh_close(v(0, 0) + u[i](0), poly(c, vr.GetFaceQuadraturePPhysFromCell(f, i, s, g)), 1e-7, "values on a face");
                    if (o == UnInitIndex || s == 1) continue;
                    Eigen::MatrixXd w = vr.GetIntPointDiffBaseValue(o, f, 1, g, Eigen::all) * rec[o];
                    for (int k = 1; k < v.rows(); k++) vh_close(v(k, 0), w(k, 0), 1e-6, "both sides of a face see the same derivatives");
                }
            }
        auto bc = [&](const Eigen::VectorXd &uL, const Eigen::VectorXd &uM, index, index, int, const tPoint &, const tPoint &x, t_index) -> Eigen::VectorXd
        { Eigen::VectorXd v(1); v[0] = poly(c, x); return v; };
        vr.template DoReconstructionIter<Dyn>(rec, recNew, u, bc, true, true);
        for (index i = 0; i < mesh->NumCell(); i++)
            for (int k = 0; k < nd - 1; k++) vh_close(recNew[i](k, 0), 0, 1e-7, "a polynomial of the degree is reproduced: no increment");
        tURec<Dyn> was;
        vr.BuildURec(was, 1);
        for (int into = 0; into < 2; into++)
        {
            for (index i = 0; i < was.Size(); i++) was[i] = rec[i];
            vr.template DoReconstructionIter<Dyn>(rec, recNew, u, bc, into, false);
            auto &out = into ? recNew : rec;
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int k = 0; k < nd - 1; k++) vh_close(out[i](k, 0), was[i](k, 0), 1e-7, "a polynomial of the degree is reproduced by iterations");
            for (index i = 0; i < was.Size(); i++) rec[i] = was[i];
        }
        if (c.order > 1) continue;
        // gradients of linear fields by the second-order schemes
        for (int method : {11, 2, 1})
        {
            if (method == 1 && c.which != 3) continue; // exact where the line between barycentres meets the face at its centre
            tUGrad<Dyn, dim> g;
            vr.BuildUGrad(g, 1);
            auto bc2 = [&](const Eigen::VectorXd &uL, const Eigen::VectorXd &uM, index iCell, index, int, const tPoint &n, const tPoint &x, t_index) -> Eigen::VectorXd
            { // the value at the ghost point
                Eigen::VectorXd v(1);
                tPoint b = vr.GetCellBary(iCell);
                v[0] = method == 2 ? poly(c, b + n * (2 * (x - b).dot(n))) : 2 * poly(c, x) - uM[0];
                vh_close(uL[0], uM[0], 0, "the inner value is the mean");
                return v;
            };
            vr.template DoReconstruction2ndGrad<Dyn>(g, u, bc2, method);
            vr.template DoReconstruction2nd<Dyn>(recNew, u, bc2, method, {});
            for (index i = 0; i < mesh->NumCell(); i++)
                for (int k = 0; k < dim; k++)
                {
                    vh_close(g[i](k, 0), c.a[1 + k], 1e-7, "the gradient of a linear field");
                    vh_close(recNew[i](k, 0), rec[i](k, 0), 1e-7, "the reconstruction of a linear field");
                }
        }
    }
}
// any coefficients and means: one iteration, its linearisation and its preconditioner
template <int dim>
static void iterate(V &c, Rank &R)
{
    auto &mesh = R.mesh;
    auto &D = *c.data;
    VariationalReconstruction<dim> vr(R.mpi, mesh);
    construct(vr, c, false);
    int nd = Geom::Base::GetNDof<dim>(c.order) - 1;
    tUDof<Dyn> u;
    tURec<Dyn> rec, rec1, d, out, out1, inc;
    vr.BuildUDof(u, 1);
    for (auto p : {&rec, &rec1, &d, &out, &out1, &inc}) vr.BuildURec(*p, 1);
    for (index i = 0; i < mesh->NumCell(); i++)
    {
        int id = c.of[R.idOf(i)];
        u[i](0) = D.u[id];
        for (int k = 0; k < nd; k++) rec[i](k, 0) = D.rec[id][k], d[i](k, 0) = D.d[id][k], rec1[i](k, 0) = D.rec[id][k] + D.d[id][k];
    }
    u.trans.startPersistentPull(), u.trans.waitPersistentPull();
    for (auto p : {&rec, &rec1, &d}) p->trans.startPersistentPull(), p->trans.waitPersistentPull();
    auto bc = [&](const Eigen::VectorXd &uL, const Eigen::VectorXd &uM, index, index, int, const tPoint &n, const tPoint &x, t_index id) -> Eigen::VectorXd
    { return uL * 0.5 + uM * 0.25 + Eigen::VectorXd::Constant(1, x[0] - n[1] * 2); };
    auto bcDiff = [&](const Eigen::VectorXd &uL, const Eigen::VectorXd &duL, const Eigen::VectorXd &uM, index, index, int, const tPoint &, const tPoint &, t_index) -> Eigen::VectorXd
    { return duL * 0.5; };
    vr.template DoReconstructionIter<Dyn>(rec, out, u, bc, true, true);
    for (index i = 0; i < mesh->NumCell(); i++)
        if (c.watch[R.idOf(i)])
            for (int k = 0; k < nd; k++)
            {
                auto &v = D.inc[c.of[R.idOf(i)]];
                if (c.ref) v.push_back(out[i](k, 0));
                else vh_close(out[i](k, 0), v.at(k), c.variant == 2 ? 1e-4 : 1e-7 /* the axes of a square are ill-conditioned */, "an iteration's result does not depend on the distribution, nor on where a periodic mesh is cut");
            }
    vr.template DoReconstructionIter<Dyn>(rec1, out1, u, bc, true, true);
    vr.template DoReconstructionIterDiff<Dyn>(rec, d, inc, u, bcDiff);
    for (index i = 0; i < mesh->NumCell(); i++)
        for (int k = 0; k < nd; k++)
        {
            vh_close(out1[i](k, 0) - out[i](k, 0), inc[i](k, 0), 1e-7, "the linearised iteration gives the change of the increment");
            vh_close(d[i](k, 0), D.d[c.of[R.idOf(i)]][k], 0, "and leaves its argument alone");
        }
    real relax = vr.settings.jacobiRelax;
    for (int into = 1; into >= 0; into--)
    {
        vr.template DoReconstructionIter<Dyn>(rec, rec1, u, bc, into, false);
        auto &res = into ? rec1 : rec;
        for (index i = 0; i < mesh->NumCell(); i++)
            for (int k = 0; k < nd; k++) vh_close(res[i](k, 0), D.rec[c.of[R.idOf(i)]][k] - relax * out[i](k, 0), 1e-7, "an iteration moves by its increment");
    }
    // the other way to iterate uses what the cells before have become
    if (c.m.c.size() <= 4)
    {
        VariationalReconstruction<dim> vs(R.mpi, mesh);
        construct(vs, c, true);
        for (int into = 0; into < 2; into++)
        {
            for (index i = 0; i < rec.Size(); i++)
                for (int k = 0; k < nd; k++) rec[i](k, 0) = out1[i](k, 0) = D.rec[c.of[R.idOf(i)]][k];
            vs.template DoReconstructionIter<Dyn>(rec, rec1, u, bc, into, false);
            auto &res = into ? rec1 : rec;
            for (index i = 0; i < mesh->NumCell(); i++)
            {
                vr.template DoReconstructionIter<Dyn>(out1, out, u, bc, true, true);
                for (int k = 0; k < nd; k++)
                {
                    out1[i](k, 0) -= relax * out[i](k, 0);
                    vh_close(res[i](k, 0), out1[i](k, 0), 1e-7, "a sweep moves a cell by its increment, the cells before it having moved");
                }
            }
        }
    }
    // the increment of d, handed to the preconditioner as right-hand side: d is its solution
    for (index i = 0; i < inc.Size(); i++) inc[i] *= relax;
    for (int back = 0; back < 2; back++)
    {
        vr.template DoReconstructionIterSOR<Dyn>(rec, inc, d, u, bcDiff, back);
        for (index i = 0; i < mesh->NumCell(); i++)
            for (int k = 0; k < nd; k++) vh_close(d[i](k, 0), D.d[c.of[R.idOf(i)]][k], 1e-7, "the sweeps keep the solution of the linearised system");
    }
    for (index i = 0; i < mesh->NumCellProc(); i++) // own and ghost cells
    {
        Eigen::MatrixXd A = vr.matrixA[i];
        int id = c.of[R.idOf(i)];
        if (!c.watch[R.idOf(i)]) continue;
        if (c.ref) D.A[id] = A;
        else vh_assert((A - D.A.at(id)).norm() <= (c.variant == 2 ? 1e-4 : 1e-8) * A.norm(), "the matrix of a cell is the same on all ranks");
        vh_assert((A - A.transpose()).norm() <= 1e-8 * A.norm(), "the matrix of a cell is symmetric");
    }
}
static void body(int r, void *p)
{
    auto &c = *(V *)p;
    Rank R{c, r};
    distribute(c, R);
    auto &mesh = R.mesh;
    mesh->BuildGhostPrimary();
    mesh->AdjGlobal2LocalPrimary();
    R.register_();
    mesh->InterpolateFace();
    if (!c.data) c.m.dim == 2 ? exact<2>(c, R) : exact<3>(c, R);
    else c.m.dim == 2 ? iterate<2>(c, R) : iterate<3>(c, R);
    MPI::Barrier(R.mpi.comm);
}
static void setupVR(V &c)
{
    CTX = &c;
    c.m = vrMesh(c.which = vh_concretize(vh_int("mesh", 0, 3)));
    c.order = vh_concretize(vh_int("order", 1, 3)), c.variant = vh_concretize(vh_int("variant", 0, 3));
    vh_assume(c.m.dim == 2 || c.order < 3);
    c.n = vh_concretize(vh_int("n", 1, 2)), c.reorder = c.rec = 0;
    for (size_t i = 0; i < c.m.x.size(); i++) c.m.h.push_back(0);
    for (size_t i = 0; i < c.m.c.size(); i++) c.part[i] = i == 0 ? 0 : vh_concretize(vh_int("rank", 0, c.n - 1));
    derive(c);
    c.mo = monos(c.m.dim, c.order);
    for (size_t k = 0; k < c.mo.size(); k++) c.a.push_back(vh_real("a", -1, 1));
}
}
VH_ENTRY h_exact()
{
    V c;
    setupVR(c);
    mm_run(c.n, body, &c);
    vh_reach("exact");
}
VH_ENTRY h_iter()
{
    V c, w; // and the run to compare with
    Data D;
    int which = vh_concretize(vh_int("mesh", 0, 5));
    int nx = 0, ny = 0;
    c.data = w.data = &D, w.ref = true;
    c.variant = w.variant = vh_concretize(vh_int("variant", 0, 3)), c.order = w.order = vh_concretize(vh_int("order", 1, 2));
    c.n = vh_concretize(vh_int("n", 1, 2)), w.n = 1, w.part[0] = 0;
    c.reorder = c.rec = w.reorder = w.rec = 0;
    if (which < 3) c.m = w.m = vrMesh(which);
    else
    {
        nx = which == 3 ? 2 : 3, ny = which == 5 ? 3 : 1;
        grid(c.m, nx, ny, 1, ny > 1), boundaries(c.m, true);
        grid(w.m, nx + 2, ny > 1 ? ny + 2 : 1, 0, 0);
        for (auto &x : w.m.x) x[0] -= 2, x[1] -= ny > 1 ? 2 : 0; // the same place
        boundaries(w.m, true);
    }
    int nc = c.m.c.size(), nd = c.m.dim == 2 ? (c.order == 1 ? 2 : 5) : c.order == 1 ? 3 : 9;
    for (int i = 0; i < nc; i++) c.of.push_back(i), c.watch.push_back(1);
    for (int i = 0; i < (int)w.m.c.size(); i++)
    {
        if (which < 3) w.of.push_back(i), w.watch.push_back(1);
        else
        {
            int X = i % (nx + 2), Y = ny > 1 ? i / (nx + 2) : 1;
            w.of.push_back((X + nx - 1) % nx + nx * ((Y + ny - 1) % ny)), w.watch.push_back(X > 0 && X <= nx && Y > 0 && Y <= ny);
        }
        w.part[i] = 0;
    }
    for (int i = 0; i < nc; i++)
    {
        D.u.push_back(vh_real("u", -1, 1)), D.rec.emplace_back(), D.d.emplace_back();
        for (int k = 0; k < nd; k++) D.rec[i].push_back(vh_real("rec", -1, 1)), D.d[i].push_back(nc <= 4 || i == 4 || k == 1 ? vh_real("d", -1, 1) : 0.125 * (i % 3));
    }
    for (auto p : {&c, &w}) p->m.h.assign(p->m.x.size(), 0), derive(*p);
    int col[3] = {0, 0, 0};
    for (int i = 0; i < nc; i++)
        if (nc <= 4) c.part[i] = i == 0 ? 0 : vh_concretize(vh_int("rank", 0, c.n - 1));
        else { if (i < 3 && i) col[i] = vh_concretize(vh_int("rank", 0, c.n - 1)); }
    if (nc > 4)
        for (int i = 0; i < nc; i++) c.part[i] = col[i % 3];
    CTX = &w;
    mm_run(1, body, &w);
    CTX = &c;
    mm_run(c.n, body, &c);
    vh_reach("iter");
}
