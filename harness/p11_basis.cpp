//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P11","entry":"h_fill2","bounds":"2D, every derivative set {1,3,6,10} x basis size {3,6,10}, any point and any cell lengths in [0.25,4]","reach":["fill2"],"shard":[["rc",0,11]]}
//@run {"prop":"P11","entry":"h_fill3","bounds":"3D, every derivative set {1,4,10,20} x basis size {4,10,20}, any point and any cell lengths in [0.25,4]","reach":["fill3"],"shard":[["rc",0,11]]}
//@run {"prop":"P11","entry":"h_tables","bounds":"all orders 0..3, dim 2 and 3","reach":["tables"]}
//@run {"prop":"P11","entry":"h_norm","bounds":"dim 2,3; ranks 0..3; any two symmetric tensors","reach":["norm"]}
//@run {"prop":"P11","entry":"h_trans","bounds":"dim 2,3; all derivative orders 0..3; any derivatives, any 3x3 transform","reach":["trans"],"shard":[["k",0,7]]}
//@run {"prop":"P11","entry":"h_full","bounds":"dim 2,3; orders 1..3; any derivatives of f and any derivatives of the coordinate map (values in [-2,2])","reach":["full"],"shard":[["k",0,5]],"time":600}
//@run {"prop":"P11","entry":"h_inverse2","bounds":"2D, orders 1..3, any map derivatives in [-1,1] with a Jacobian around 3 fixed shapes (2 free entries)","reach":["inv2"],"shard":[["j",0,2]],"time":600}
//@run {"prop":"P11","entry":"h_inverse3","bounds":"3D, orders 1..3, any second and third map derivatives in [-1,1], 3 fixed Jacobians","reach":["inv3"],"shard":[["j",0,2]],"time":600}
#include "vhnum.h"
#include <vector>
// clang does not accept the repository's ndiffSizS in constant expressions (it reads a non-constexpr array, gcc lets it pass):
// the functions below use an equal constexpr copy, and h_tables compares the two
#define ndiffSizS ndiffSizS_repo
#include "Geom/BaseFunction.hpp"
#undef ndiffSizS
namespace DNDS::Geom::Base {
template <int dim> constexpr int ndiffSizS(int i) { return dim == 2 ? (i == 0 ? 1 : i == 1 ? 3 : i == 2 ? 6 : 10) : (i == 0 ? 1 : i == 1 ? 4 : i == 2 ? 10 : 20); }
}
#include "Geom/DiffTensors.hpp"
namespace DNDS::Geom::Base {
// own copy of the documented order of derivatives / monomials
static const int O2[10][3] = {{0,0,0},{1,0,0},{0,1,0},{2,0,0},{1,1,0},{0,2,0},{3,0,0},{2,1,0},{1,2,0},{0,3,0}};
static const int O3[20][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0},{0,2,0},{0,0,2},{1,1,0},{0,1,1},{1,0,1},{3,0,0},{0,3,0},{0,0,3},{2,1,0},{1,2,0},{0,2,1},{0,1,2},{1,0,2},{2,0,1},{1,1,1}};
static const int *ord(int dim, int i) { return dim == 2 ? O2[i] : O3[i]; }
static int nOrd(int dim, int o) { static const int a[4] = {1, 3, 6, 10}, b[4] = {1, 4, 10, 20}; return dim == 2 ? a[o] : b[o]; }
static int find(int dim, int a, int b = -1, int c = -1)
{
    int e[3] = {0, 0, 0};
    e[a]++; if (b >= 0) e[b]++; if (c >= 0) e[c]++;
    for (int i = 0; i < (dim == 2 ? 10 : 20); i++)
        if (ord(dim, i)[0] == e[0] && ord(dim, i)[1] == e[1] && ord(dim, i)[2] == e[2]) return i;
    return -1;
}
static void axes(int dim, int i, int *ax) { int n = 0; for (int d = 0; d < 3; d++) for (int k = 0; k < ord(dim, i)[d]; k++) ax[n++] = d; }
static double mono(int p, int d, double x) // d-th derivative of x^p
{
    if (d > p) return 0;
    double c = 1;
    for (int k = 0; k < d; k++) c *= p - k;
    for (int k = 0; k < p - d; k++) c *= x;
    return c;
}
template <class F>
static void fill(int dim, F &&f)
{
    int rc = vh_concretize(vh_int("rc", 0, 11));
    int rows = nOrd(dim, rc % 4), cols = nOrd(dim, 1 + rc / 4);
    double x[3], l[3];
    for (int d = 0; d < 3; d++) x[d] = vh_real("x", -2, 2);
    for (int d = 0; d < 3; d++) l[d] = vh_real("l", 0.25, 4);
    MatrixXR T; T.resize(rows, cols);
    f(T, x, l, rows, cols);
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++)
        {
            double v = 1;
            for (int d = 0; d < dim; d++)
            {
                v *= mono(ord(dim, j)[d], ord(dim, i)[d], x[d]);
                for (int k = 0; k < ord(dim, i)[d]; k++) v = v / l[d];
            }
            vh_close(T(i, j), v, 1e-9, "basis row is the derivative of the monomial basis");
        }
}
VH_ENTRY h_fill2()
{
    fill(2, [](auto &T, double *x, double *l, int r, int c) { FPolynomialFill2D(T, x[0], x[1], x[2], l[0], l[1], l[2], r, c); });
    vh_reach("fill2");
}
VH_ENTRY h_fill3()
{
    fill(3, [](auto &T, double *x, double *l, int r, int c) { FPolynomialFill3D(T, x[0], x[1], x[2], l[0], l[1], l[2], r, c); });
    vh_reach("fill3");
}
template <int dim> static void tables()
{
    for (int o = 0; o <= 3; o++)
    {
        vh_assert(GetNDof<dim>(o) == nOrd(dim, o), "number of basis functions of an order");
        vh_assert(ndiffSizS_repo<dim>(o) == nOrd(dim, o) && ndiff2order<dim>(nOrd(dim, o)) == o, "number of derivatives of an order");
    }
    auto &I = getDiffOperatorIJK2I<dim>();
    for (int a = 0; a < dim; a++)
    {
        vh_assert(std::get<1>(I)[a] == find(dim, a), "first derivative lookup");
        for (int b = 0; b < dim; b++)
        {
            vh_assert(std::get<2>(I)[a][b] == find(dim, a, b), "second derivative lookup");
            for (int c = 0; c < dim; c++) vh_assert(std::get<3>(I)[a][b][c] == find(dim, a, b, c), "third derivative lookup");
        }
    }
}
VH_ENTRY h_tables()
{
    vh_int("dummy", 0, 1);
    tables<2>();
    tables<3>();
    vh_reach("tables");
}
template <int dim, int rank> static void normRank(const double *L, const double *R)
{
    int b = rank ? nOrd(dim, rank - 1) : 0, n = nOrd(dim, rank) - b;
    if (!rank) b = 0, n = 1;
    Eigen::Matrix<double, Eigen::Dynamic, 1> l(n), r(n);
    for (int i = 0; i < n; i++) l[i] = L[b + i], r[i] = R[b + i];
    double w = 0, w2 = 0;
    // full contraction over all index tuples
    int tot = 1;
    for (int k = 0; k < rank; k++) tot *= dim;
    for (int t = 0; t < tot; t++)
    {
        int q[3] = {-1, -1, -1}, tt = t;
        for (int k = 0; k < rank; k++) q[k] = tt % dim, tt /= dim;
        int id = rank ? find(dim, q[0], q[1], q[2]) : 0;
        w += L[id] * R[id];
    }
    static const int fac[4] = {1, 1, 2, 6};
    for (int i = 0; i < n; i++)
    {
        int m = fac[rank];
        for (int d = 0; d < 3; d++) m /= fac[ord(dim, b + i)[d]];
        w2 += L[b + i] * R[b + i] * m * m;
    }
    double w0 = 0;
    for (int i = 0; i < n; i++) w0 += L[b + i] * R[b + i];
    vh_close((NormSymDiffOrderTensorV<dim, rank, 1>(l, r)), w, 1e-9, "compact inner product is the full tensor contraction");
    vh_close((NormSymDiffOrderTensorV<dim, rank, 2>(l, r)), w2, 1e-9, "multiplicity-squared inner product");
    vh_close((NormSymDiffOrderTensorV<dim, rank, 0>(l, r)), w0, 1e-9, "plain inner product");
}
VH_ENTRY h_norm()
{
    double L[20], R[20];
    for (int i = 0; i < 20; i++) L[i] = vh_real("L", -2, 2), R[i] = vh_real("R", -2, 2);
    normRank<2, 0>(L, R); normRank<2, 1>(L, R); normRank<2, 2>(L, R); normRank<2, 3>(L, R);
    normRank<3, 0>(L, R); normRank<3, 1>(L, R); normRank<3, 2>(L, R); normRank<3, 3>(L, R);
    vh_reach("norm");
}
template <int dim> static void trans(int o)
{
    int n = nOrd(dim, o);
    MatrixXR M(n, 1);
    double D[20];
    for (int i = 0; i < n; i++) D[i] = M(i, 0) = vh_real("D", -2, 2);
    tGPoint A;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i, j) = vh_real("A", -2, 2);
    ConvertDiffsLinMap<dim>(M, A);
    vh_close(M(0, 0), D[0], 1e-9, "values are not changed by a linear change of coordinates");
    for (int i = 1; i < n; i++)
    {
        int ax[3] = {-1, -1, -1}; axes(dim, i, ax);
        int r = ax[1] < 0 ? 1 : ax[2] < 0 ? 2 : 3;
        double v = 0;
        for (int a = 0; a < dim; a++)
            for (int b = 0; b < (r > 1 ? dim : 1); b++)
                for (int c = 0; c < (r > 2 ? dim : 1); c++)
                    v += A(ax[0], a) * (r > 1 ? A(ax[1], b) : 1.) * (r > 2 ? A(ax[2], c) : 1.) * D[find(dim, a, r > 1 ? b : -1, r > 2 ? c : -1)];
        vh_close(M(i, 0), v, 1e-7, "derivatives transform as tensors under a linear change of coordinates");
    }
}
VH_ENTRY h_trans()
{
    int k = vh_concretize(vh_int("k", 0, 7));
    if (k < 4) trans<2>(k); else trans<3>(k - 4);
    vh_reach("trans");
}
// chain rule: derivatives of g(x) = f(xi(x)) from derivatives of f wrt xi and of xi wrt x (compact, column m = xi_m)
template <int dim> static double chain(const MatrixXR &X, const double *D, int i)
{
    int ax[3] = {-1, -1, -1}; axes(dim, i, ax);
    int p = ax[0], q = ax[1], s = ax[2];
    double v = 0;
    for (int m = 0; m < dim; m++) v += X(i, m) * D[find(dim, m)];
    if (q >= 0)
        for (int m = 0; m < dim; m++)
            for (int n = 0; n < dim; n++)
            {
                double d2 = D[find(dim, m, n)];
                if (s < 0) v += X(find(dim, p), m) * X(find(dim, q), n) * d2;
                else
                {
                    v += d2 * (X(find(dim, p, q), m) * X(find(dim, s), n) + X(find(dim, p, s), m) * X(find(dim, q), n) + X(find(dim, q, s), m) * X(find(dim, p), n));
                    for (int t = 0; t < dim; t++) v += X(find(dim, p), m) * X(find(dim, q), n) * X(find(dim, s), t) * D[find(dim, m, n, t)];
                }
            }
    return v;
}
template <int dim> static void full(int o)
{
    int n = nOrd(dim, o);
    MatrixXR M(n, 2), X(n, 3);
    double D[2][20];
    for (int j = 0; j < 2; j++)
        for (int i = 0; i < n; i++) D[j][i] = M(i, j) = j ? double(i) - 3 : vh_real("D", -2, 2);
    for (int i = 0; i < n; i++) for (int m = 0; m < 3; m++) X(i, m) = vh_real("X", -2, 2);
    ConvertDiffsFullMap<dim>(M, X);
    for (int j = 0; j < 2; j++)
    {
        vh_close(M(0, j), D[j][0], 1e-9, "values are not changed by a change of coordinates");
        for (int i = 1; i < n; i++) vh_close(M(i, j), chain<dim>(X, D[j], i), 1e-6, "derivatives follow the chain rule under a change of coordinates");
    }
}
VH_ENTRY h_full()
{
    int k = vh_concretize(vh_int("k", 0, 5));
    if (k < 3) full<2>(k + 1); else full<3>(k - 2);
    vh_reach("full");
}
// the inverse map's derivatives: pushing x's own derivatives through it gives x_i,j = delta_ij and zero higher derivatives
template <int dim> static void inverse(const double (*J)[3], int nsym)
{
    const int n = dim == 2 ? 10 : 20;
    MatrixXR X(n, 3), I1(n, 3), I2(n, 3), I3(n, 3);
    X.setZero(); I1.setZero(); I2.setZero(); I3.setZero();
    for (int i = 1; i < n; i++)
        for (int m = 0; m < dim; m++) X(i, m) = i <= dim ? J[i - 1][m] : vh_real("X", -1, 1);
    for (int q = 0; q < nsym; q++) X(1 + q, (q + 1) % 2) += vh_real("dj", -0.125, 0.125);
    DxDxi2DxiDx<dim, 3>(X, I3);
    { MatrixXR A = X.topRows(nOrd(dim, 1)), B = I1.topRows(nOrd(dim, 1)); DxDxi2DxiDx<dim, 1>(A, B); I1.topRows(nOrd(dim, 1)) = B; }
    { MatrixXR A = X.topRows(nOrd(dim, 2)), B = I2.topRows(nOrd(dim, 2)); DxDxi2DxiDx<dim, 2>(A, B); I2.topRows(nOrd(dim, 2)) = B; }
    for (int m = 0; m < dim; m++)
    {
        double D[20];
        for (int i = 0; i < n; i++) D[i] = X(i, m);
        for (int i = 1; i < n; i++)
        {
            double e = i <= dim ? (i - 1 == m) : 0;
            vh_close(chain<dim>(I3, D, i), e, 1e-7, "inverse-map derivatives compose to the identity");
            if (i < nOrd(dim, 2)) vh_close(chain<dim>(I2, D, i), e, 1e-7, "inverse-map derivatives compose to the identity (order 2)");
            if (i < nOrd(dim, 1)) vh_close(chain<dim>(I1, D, i), e, 1e-7, "inverse-map derivatives compose to the identity (order 1)");
        }
    }
}
VH_ENTRY h_inverse2()
{
    static const double J[3][2][3] = {{{1, 0, 0}, {0, 1, 0}}, {{0.25, 1.5, 0}, {-2, 0.5, 0}}, {{2, -1, 0}, {1, 0.75, 0}}};
    int j = vh_concretize(vh_int("j", 0, 2));
    inverse<2>(J[j], 2);
    vh_reach("inv2");
}
VH_ENTRY h_inverse3()
{
    static const double J[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 2, 0}, {0, 0, -1}, {0.5, 0, 0}}, {{1, 0.5, -0.25}, {-0.5, 1.5, 0.25}, {0.125, -1, 2}}};
    int j = vh_concretize(vh_int("j", 0, 2));
    inverse<3>(J[j], 0);
    vh_reach("inv3");
}
}
