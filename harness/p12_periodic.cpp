//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P12","entry":"h_coord","bounds":"any rotation (unit quaternion direction), centre, translation for each of 3 periodic pairs; any point; all 6 face ids","reach":["coord"],"shard":[["id",1,6]]}
//@run {"prop":"P12","entry":"h_vec","bounds":"any rotation per pair (2D: about z), any vectors/matrices; all 6 face ids","reach":["vec"],"shard":[["id",1,6]]}
//@run {"prop":"P12","entry":"h_bits","bounds":"all 8 bit patterns, any translations/centres, rotation about z per pair","reach":["bits"],"shard":[["b",0,7]]}
//@run {"prop":"P12","entry":"h_collab","bounds":"any two rows of <=4 period-bit entries","reach":["collab","collab1"]}
//@run {"prop":"P12","entry":"h_rowops","bounds":"any rows of <=4 entries","reach":["rowops"]}
//@run {"prop":"P12","entry":"h_divalue","bounds":"dim 2,3; derivative orders 0..3; any derivatives; any rotation","reach":["div"],"shard":[["o",0,3]],"time":600}
//@run {"prop":"P12","entry":"h_ids","bounds":"every 32-bit face id","reach":["ids"]}
//@run {"prop":"P12","entry":"h_rot","bounds":"any angle / axis-angle vector in [-4,4]^3, any vector","reach":["rot"]}
//@run {"prop":"P12","entry":"h_base","bounds":"any unit normal (2D, 3D), any face tangents","reach":["base"]}
#include "vhnum.h"
#include <vector>
#define ndiffSizS ndiffSizS_repo
#include "Geom/BaseFunction.hpp"
#undef ndiffSizS
namespace DNDS::Geom::Base {
template <int dim> constexpr int ndiffSizS(int i) { return dim == 2 ? (i == 0 ? 1 : i == 1 ? 3 : i == 2 ? 6 : 10) : (i == 0 ? 1 : i == 1 ? 4 : i == 2 ? 10 : 20); }
}
#include "Geom/DiffTensors.hpp"
namespace DNDS::Geom {
static tGPoint quat(bool zOnly)
{
    double a = zOnly ? 0 : vh_real("qa", -2, 2), b = zOnly ? 0 : vh_real("qb", -2, 2), c = vh_real("qc", -2, 2);
    double n = 1 + a * a + b * b + c * c;
    tGPoint R;
    R << 1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b),
        2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a),
        2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c;
    return R / n;
}
static tPoint pt(const char *nm) { tPoint p; for (int d = 0; d < 3; d++) p[d] = vh_real(nm, -4, 4); return p; }
static int pairOf(int id) { return id <= 3 ? id : id - 3; } // ids 1..3 = main of pair, 4..6 = donors
static void fillOther(Periodicity &P, int k) // distinct concrete data elsewhere
{
    for (int i = 0; i < 4; i++)
        if (i != k)
        {
            P.rotation[i] << 0, 1, 0, 0, 0, 1, 1, 0, 0;
            P.translation[i] = tPoint{100. + i, 7, 3};
            P.rotationCenter[i] = tPoint{-50. - i, 2, 1};
        }
}
VH_ENTRY h_coord()
{
    int id = vh_concretize(vh_int("id", 1, 6)), k = pairOf(id);
    Periodicity P;
    fillOther(P, k);
    P.rotation[k] = quat(false), P.translation[k] = pt("t"), P.rotationCenter[k] = pt("o");
    tPoint c = pt("c");
    tPoint f = P.TransCoord(c, -id), b = P.TransCoordBack(c, -id);
    tPoint fb = P.TransCoordBack(f, -id), bf = P.TransCoord(b, -id);
    tPoint want = P.rotation[k] * (c - P.rotationCenter[k]) + P.rotationCenter[k] + P.translation[k];
    for (int d = 0; d < 3; d++)
    {
        vh_close(f[d], want[d], 1e-9, "forward transform rotates about the centre and translates, for the pair's data");
        vh_close(fb[d], c[d], 1e-9, "backward undoes forward");
        vh_close(bf[d], c[d], 1e-9, "forward undoes backward");
    }
    vh_reach("coord");
}
VH_ENTRY h_vec()
{
    int id = vh_concretize(vh_int("id", 1, 6)), k = pairOf(id);
    {
        Periodicity P;
        fillOther(P, k);
        P.rotation[k] = quat(false), P.translation[k] = pt("t"), P.rotationCenter[k] = pt("o");
        Eigen::Matrix<real, 3, 2> v;
        v.col(0) = pt("v"), v.col(1) = pt("v");
        Eigen::Matrix<real, 3, 2> f = P.TransVector<3, 2>(v, -id), g = P.TransVectorBack<3, 2>(f, -id), w = P.rotation[k] * v;
        Eigen::Matrix3d m;
        for (int i = 0; i < 9; i++) m(i) = vh_real("m", -4, 4);
        Eigen::Matrix3d mf = P.TransMat<3>(m, -id), mb = P.TransMatBack<3>(mf, -id), mw = P.rotation[k] * m * P.rotation[k].transpose();
        for (int i = 0; i < 6; i++) vh_close(f(i), w(i), 1e-9, "vectors rotate with the pair's rotation"), vh_close(g(i), v(i), 1e-9, "vector backward undoes forward");
        for (int i = 0; i < 9; i++) vh_close(mf(i), mw(i), 1e-8, "matrices rotate on both sides"), vh_close(mb(i), m(i), 1e-8, "matrix backward undoes forward");
    }
    {
        Periodicity P;
        fillOther(P, k);
        P.rotation[k] = quat(true), P.translation[k] = pt("t"), P.rotationCenter[k] = pt("o");
        Eigen::Matrix<real, 2, 1> v{vh_real("v", -4, 4), vh_real("v", -4, 4)};
        Eigen::Matrix<real, 2, 1> f = P.TransVector<2, 1>(v, -id), g = P.TransVectorBack<2, 1>(f, -id);
        Eigen::Matrix2d m, R;
        for (int i = 0; i < 4; i++) m(i) = vh_real("m", -4, 4), R(i) = P.rotation[k](i % 2, i / 2);
        Eigen::Matrix2d mf = P.TransMat<2>(m, -id), mb = P.TransMatBack<2>(mf, -id), mw = R * m * R.transpose();
        Eigen::Matrix<real, 2, 1> w = R * v;
        for (int i = 0; i < 2; i++) vh_close(f(i), w(i), 1e-9, "2D vectors rotate with the pair's rotation"), vh_close(g(i), v(i), 1e-9, "2D vector backward undoes forward");
        for (int i = 0; i < 4; i++) vh_close(mf(i), mw(i), 1e-8, "2D matrices rotate on both sides"), vh_close(mb(i), m(i), 1e-8, "2D matrix backward undoes forward");
    }
    vh_reach("vec");
}
VH_ENTRY h_bits()
{
    int b = vh_concretize(vh_int("b", 0, 7));
    Periodicity P;
    for (int k = 1; k <= 3; k++) P.rotation[k] = quat(true), P.translation[k] = pt("t"), P.rotationCenter[k] = pt("o");
    tPoint c = pt("c"), v = pt("v");
    NodePeriodicBits bits;
    if (b & 1) bits.setP1True();
    if (b & 2) bits.setP2True();
    if (b & 4) bits.setP3True();
    vh_assert(bits.getP1() == bool(b & 1) && bits.getP2() == bool(b & 2) && bits.getP3() == bool(b & 4) && bool(bits) == (b != 0), "period bits read back as set");
    tPoint f = P.GetCoordByBits(c, bits), g = P.GetCoordBackByBits(f, bits), h = P.GetCoordByBits(P.GetCoordBackByBits(c, bits), bits);
    tPoint w = c, wv = v;
    for (int k = 3; k >= 1; k--)
        if (b >> (k - 1) & 1) w = P.rotation[k] * (w - P.rotationCenter[k]) + P.rotationCenter[k] + P.translation[k], wv = P.rotation[k] * wv;
    tPoint fv = P.GetVectorByBits<3, 1>(v, bits), gv = P.GetVectorBackByBits<3, 1>(fv, bits);
    for (int d = 0; d < 3; d++)
    {
        vh_close(f[d], w[d], 1e-8, "coordinates move across every flagged pair");
        vh_close(g[d], c[d], 1e-8, "back-by-bits undoes by-bits");
        vh_close(h[d], c[d], 1e-8, "by-bits undoes back-by-bits");
        vh_close(fv[d], wv[d], 1e-8, "vectors rotate across every flagged pair");
        vh_close(gv[d], v[d], 1e-8, "vector back-by-bits undoes by-bits");
    }
    vh_reach("bits");
}
VH_ENTRY h_collab()
{
    int n = vh_concretize(vh_int("n", 0, 4));
    std::vector<NodePeriodicBits> a(n), b(n);
    bool same = true;
    for (int i = 0; i < n; i++)
    {
        a[i].__v = vh_int("a", 0, 7), b[i].__v = vh_int("b", 0, 7);
        same = same && (a[i].__v ^ b[i].__v) == (a[0].__v ^ b[0].__v);
    }
    bool r = isCollaborativeNodePeriodicBits(a, b);
    vh_assert(r == same, "two node rows are collaborative exactly when they differ by one constant period shift");
    if (n > 1 && r) vh_reach("collab1");
    vh_reach("collab");
}
VH_ENTRY h_rowops()
{
    int n = vh_concretize(vh_int("n", 0, 4));
    NodePeriodicBits buf[6], buf2[6];
    uint8_t orig[4];
    for (int i = 0; i < n; i++) orig[i] = buf[1 + i].__v = vh_int("a", 0, 7);
    buf[0].__v = buf[n + 1].__v = 0xEE;
    buf2[0].__v = buf2[n + 1].__v = 0xEE;
    NodePeriodicBitsRow r(buf + 1, n), q(buf2 + 1, n);
    uint8_t all = 7;
    for (int i = 0; i < n; i++) all &= orig[i];
    vh_assert(r.bitandReduce().__v == all, "bit-and reduction over a row");
    q = r;
    std::vector<NodePeriodicBits> vec = r;
    vh_assert((int)vec.size() == n && r.size() == n, "row size");
    for (int i = 0; i < n; i++) vh_assert(buf2[1 + i].__v == orig[i] && vec[i].__v == orig[i] && uint8_t(q[i]) == orig[i], "rows copy");
    for (int i = 0; i < n; i++) vec[i].__v ^= 5;
    q = vec;
    for (int i = 0; i < n; i++) vh_assert(buf2[1 + i].__v == (orig[i] ^ 5) && buf[1 + i].__v == orig[i], "rows assign");
    vh_assert(buf2[0].__v == 0xEE && buf2[n + 1].__v == 0xEE, "rows stay in their bounds");
    vh_reach("rowops");
}
template <int dim> static void diValue(int o, int id)
{
    int k = pairOf(id), n = dim == 2 ? (o + 1) * (o + 2) / 2 : (o + 1) * (o + 2) * (o + 3) / 6;
    Periodicity P;
    fillOther(P, k);
    P.rotation[k] = quat(o == 3 || dim == 2);
    Base::CFVPeriodicity C(P);
    MatrixXR u(n, 1), u0;
    for (int i = 0; i < n; i++) u(i, 0) = vh_real("u", -2, 2);
    u0 = u;
    MatrixXR ref = u0;
    Base::ConvertDiffsLinMap<dim>(ref, P.rotation[k]);
    C.TransDiValueInplace<dim>(u, -id);
    for (int i = 0; i < n; i++) vh_close(u(i, 0), ref(i, 0), 1e-7, "derivatives rotate with the pair's rotation");
    C.TransDiValueBackInplace<dim>(u, -id);
    for (int i = 0; i < n; i++) vh_close(u(i, 0), u0(i, 0), 1e-7, "derivative backward undoes forward");
}
VH_ENTRY h_divalue()
{
    int o = vh_concretize(vh_int("o", 0, 3));
    int id = vh_concretize(vh_int("id", 1, 6));
    if (vh_concretize(vh_int("three", 0, 1))) diValue<3>(o, id); else diValue<2>(o, id);
    vh_reach("div");
}
VH_ENTRY h_ids()
{
    t_index id = vh_int("id", -2147483647 - 1, 2147483647);
    bool p[4];
    p[1] = FaceIDIsPeriodic1(id), p[2] = FaceIDIsPeriodic2(id), p[3] = FaceIDIsPeriodic3(id);
    vh_assert(int(p[1]) + p[2] + p[3] <= 1 && FaceIDIsPeriodic(id) == (p[1] || p[2] || p[3]), "a periodic face belongs to exactly one pair");
    vh_assert(FaceIDIsPeriodic(id) == (FaceIDIsPeriodicMain(id) || FaceIDIsPeriodicDonor(id)) && !(FaceIDIsPeriodicMain(id) && FaceIDIsPeriodicDonor(id)), "a periodic face is either main or donor");
    vh_assert(FaceIDIsExternalBC(id) != FaceIDIsInternal(id), "external or internal");
    vh_assert(!FaceIDIsPeriodic(id) || FaceIDIsInternal(id) && !FaceIDIsTrueInternal(id), "periodic faces count as internal but not truly internal");
    vh_assert(FaceIDIsTrueInternal(id) == (id == BC_ID_INTERNAL), "the internal id");
    if (FaceIDIsPeriodicMain(id))
    {
        t_index don = id - 3;
        vh_assert(FaceIDIsPeriodicDonor(don) && (p[1] ? FaceIDIsPeriodic1(don) : p[2] ? FaceIDIsPeriodic2(don) : FaceIDIsPeriodic3(don)), "every main side has its donor side");
    }
    vh_reach("ids");
}
VH_ENTRY h_rot()
{
    double th = vh_real("th", -180, 180);
    auto orth = [](const tGPoint &R)
    {
        tGPoint E = R * R.transpose();
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) vh_close(E(i, j), i == j, 1e-9, "rotations are orthogonal");
        vh_close(R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)), 1, 1e-9, "rotations keep orientation");
    };
    tGPoint X = RotX(th), Y = RotY(th), Z = RotZ(th);
    orth(X), orth(Y), orth(Z);
    double c = X(1, 1), s = X(2, 1);
    // right-handed about the named axis: x->y for Z, y->z for X, z->x for Y, and the axis is fixed
    vh_close(Z(0, 0), c, 1e-12, "same angle"), vh_close(Z(1, 0), s, 1e-12, "z rotation turns x towards y"), vh_close(Y(0, 2), s, 1e-12, "y rotation turns z towards x");
    vh_close(Y(2, 2), c, 1e-12, "same angle");
    vh_close(X(0, 0), 1, 0, "axis fixed"), vh_close(Y(1, 1), 1, 0, "axis fixed"), vh_close(Z(2, 2), 1, 0, "axis fixed");
    tPoint ax = pt("ax");
    vh_assume(ax.squaredNorm() >= 0.01);
    tGPoint R = RotateAxis(ax);
    tPoint q = R * ax;
    for (int d = 0; d < 3; d++) vh_close(q[d], ax[d], 1e-9, "the axis of an axis-angle rotation is fixed");
    orth(R);
    double n = ax.norm();
    vh_close(R(0, 0) + R(1, 1) + R(2, 2), 1 + 2 * std::cos(n), 1e-9, "axis-angle rotation turns by the length of the vector");
    vh_close(R(2, 1) - R(1, 2), 2 * std::sin(n) * ax[0] / n, 1e-9, "axis-angle rotation is right handed");
    tPoint v = pt("v"), w = CrossVecToMat(ax) * v, wr = ax.cross(v), back = CrossMatToVec(CrossVecToMat(ax));
    for (int d = 0; d < 3; d++) vh_close(w[d], wr[d], 1e-9, "cross-product matrix"), vh_close(back[d], ax[d], 0, "cross matrix to vector");
    std::vector<real> sv = JacobiToSTDVector(R);
    tGPoint Rb = STDVectorToJacobi(sv);
    tPoint vb = STDVectorToVector(VectorToSTDVector(v));
    for (int i = 0; i < 9; i++) vh_close(Rb(i), R(i), 0, "matrix to vector and back");
    for (int d = 0; d < 3; d++) vh_close(vb[d], v[d], 0, "vector to vector and back");
    vh_reach("rot");
}
VH_ENTRY h_base()
{
    double a = vh_real("a", -3, 3), b = vh_real("b", -3, 3);
    tPoint n{2 * a, 2 * b, 1 - a * a - b * b};
    n = n / (1 + a * a + b * b); // any unit vector except the south pole
    if (vh_concretize(vh_int("flip", 0, 1))) n = -n;
    Eigen::Vector3d n3 = n;
    tGPoint B = NormBuildLocalBaseV<3>(n3);
    for (int d = 0; d < 3; d++) vh_close(B(d, 0), n[d], 0, "first base vector is the normal");
    for (int i = 0; i < 3; i++)
        for (int j = 0; j <= i; j++) vh_close(B(0, i) * B(0, j) + B(1, i) * B(1, j) + B(2, i) * B(2, j), i == j, 1e-9, "local base is orthonormal");
    tPoint c = B.col(0).cross(B.col(1));
    for (int d = 0; d < 3; d++) vh_close(c[d], B(d, 2), 1e-9, "local base is right handed");
    double t = vh_real("t", -3, 3);
    Eigen::Vector2d n2{(1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)};
    Eigen::Matrix2d C = NormBuildLocalBaseV<2>(n2);
    vh_close(C(0, 0), n2[0], 0, "2D base"), vh_close(C(1, 0), n2[1], 0, "2D base");
    vh_close(C(0, 0) * C(0, 1) + C(1, 0) * C(1, 1), 0, 1e-9, "2D base is orthogonal");
    vh_close(C(0, 0) * C(1, 1) - C(1, 0) * C(0, 1), 1, 1e-9, "2D base is right handed");
    tJacobi J; J.setZero();
    tPoint u = pt("u"), v = pt("v");
    J.col(0) = u, J.col(1) = v;
    tPoint f = FacialJacobianToNormVec<3>(J), fc = u.cross(v);
    for (int d = 0; d < 3; d++) vh_close(f[d], fc[d], 1e-12, "face normal is the cross product of the tangents");
    J.setZero(); J(0, 0) = u[0], J(1, 0) = u[1];
    tPoint g = FacialJacobianToNormVec<2>(J);
    vh_close(g[0], u[1], 0, "edge normal points to the right of the tangent"), vh_close(g[1], -u[0], 0, "edge normal points to the right of the tangent"), vh_close(g[2], 0, 0, "edge normal is planar");
    vh_reach("base");
}
}
