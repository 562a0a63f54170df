//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P24","entry":"h_coll","bounds":"1..3 ranks, any data, 0..2 elements, any root; blocking and polling waits","reach":["coll"],"shard":[["n",1,3],["lazy",0,1]]}
//@run {"prop":"P24","entry":"h_a2av","bounds":"1..3 ranks, 0..1 elements between every pair, any data, any gaps between blocks; blocking and polling waits","reach":["a2av"],"shard":[["n",1,3],["lazy",0,1]]}
//@run {"prop":"P24","entry":"h_serial","bounds":"1..4 ranks, blocking and polling waits","reach":["serial"],"shard":[["n",1,4]]}
//@run {"prop":"P24","entry":"h_wait","bounds":"2..3 ranks, 1..3 requests waited for together (some already complete or null), completing in any order, any data; messages moving early and late, blocking and polling waits","reach":["wait"],"shard":[["n",2,3],["lazy",0,1],["late",0,1]]}
//@run {"prop":"P24","entry":"h_types","bounds":"every element type the code maps","reach":["types"]}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include "DNDS/MPI.hpp"
namespace DNDS::VH {
struct Ctx
{
    int n, k, root;
    index a[3][8];
    real x[3][2];
    MPI_int cnt[3][3];
};
static void body(int r, void *p)
{
    auto &c = *(Ctx *)p;
    MPIInfo mpi;
    mpi.setWorld();
    vh_assert(mpi.rank == r && mpi.size == c.n && MPIWorldRank() == r && MPIWorldSize() == c.n, "rank and size");
    int k = c.k;
    {
        index b[3] = {-1, -1, 77};
        for (int i = 0; i < k; i++) b[i] = r == c.root ? c.a[r][i] : -1;
        MPI::Bcast(b, k, DNDS_MPI_INDEX, c.root, mpi.comm);
        for (int i = 0; i < k; i++) vh_assert(b[i] == c.a[c.root][i], "broadcast gives every rank the root's data");
        vh_assert(b[2] == 77, "nothing beyond is written");
    }
    {
        index g[9];
        for (auto &v : g) v = 77;
        MPI::Allgather(c.a[r], k, DNDS_MPI_INDEX, g, k, DNDS_MPI_INDEX, mpi.comm);
        for (int s = 0; s < c.n; s++)
            for (int i = 0; i < k; i++) vh_assert(g[s * k + i] == c.a[s][i], "allgather concatenates in rank order");
        vh_assert(g[c.n * k] == 77, "nothing beyond is written");
    }
    {
        index g[9];
        for (auto &v : g) v = 77;
        MPI::Alltoall(c.a[r], k, DNDS_MPI_INDEX, g, k, DNDS_MPI_INDEX, mpi.comm);
        for (int s = 0; s < c.n; s++)
            for (int i = 0; i < k; i++) vh_assert(g[s * k + i] == c.a[s][r * k + i], "alltoall transposes blocks");
        vh_assert(g[c.n * k] == 77, "nothing beyond is written");
    }
    {
        index g[2] = {77, 77}, h[2] = {77, 77}, mx = c.a[r][0], mn = c.a[r][1], sum = c.a[r][0];
        real s[2] = {0, 0}, one = c.x[r][0], mr = c.x[r][1];
        MPI::Allreduce(c.a[r], g, k, DNDS_MPI_INDEX, MPI_SUM, mpi.comm);
        MPI::Scan(c.a[r], h, k, DNDS_MPI_INDEX, MPI_SUM, mpi.comm);
        MPI::Allreduce(c.x[r], s, 2, DNDS_MPI_REAL, MPI_SUM, mpi.comm);
        MPI::AllreduceOneIndex(mx, MPI_MAX, mpi), MPI::AllreduceOneIndex(mn, MPI_MIN, mpi), MPI::AllreduceOneIndex(sum, MPI_SUM, mpi);
        MPI::AllreduceOneReal(one, MPI_SUM, mpi), MPI::AllreduceOneReal(mr, MPI_MAX, mpi);
        for (int i = 0; i < k; i++)
        {
            index w = 0, u = 0;
            for (int q = 0; q < c.n; q++) w += c.a[q][i], u += q <= r ? c.a[q][i] : 0;
            vh_assert(g[i] == w, "allreduce sums over all ranks"), vh_assert(h[i] == u, "scan sums up to the own rank");
        }
        real w[2] = {0, 0};
        index wmx = c.a[0][0], wmn = c.a[0][1], wsum = 0;
        real wmr = c.x[0][1];
        for (int q = 0; q < c.n; q++)
        {
            w[0] += c.x[q][0], w[1] += c.x[q][1], wsum += c.a[q][0];
            wmx = c.a[q][0] > wmx ? c.a[q][0] : wmx, wmn = c.a[q][1] < wmn ? c.a[q][1] : wmn;
            wmr = c.x[q][1] > wmr ? c.x[q][1] : wmr;
        }
        vh_close(s[0], w[0], 1e-12, "real sums"), vh_close(s[1], w[1], 1e-12, "real sums"), vh_close(one, w[0], 1e-12, "sum of one real"), vh_close(mr, wmr, 0, "maximum of one real");
        vh_assert(mx == wmx && mn == wmn && sum == wsum, "maximum, minimum and sum of one index");
    }
    vh_assert(MPI::Barrier(mpi.comm) == MPI_SUCCESS, "barrier");
}
static void inputs(Ctx &c, int lo, int hi)
{
    c.n = vh_concretize(vh_int("n", lo, hi));
    bool lazy = vh_concretize(vh_int("lazy", 0, 1));
    if (lazy) mm_env("DNDS_USE_LAZY_WAIT", "1");
    vh_assert(MPI::CommStrategy::Instance().GetUseLazyWait() == (lazy ? 1. : 0.), "the environment selects lazy waits");
}
VH_ENTRY h_coll()
{
    Ctx c;
    inputs(c, 1, 3);
    c.k = vh_concretize(vh_int("k", 0, 2)), c.root = vh_concretize(vh_int("root", 0, c.n - 1));
    for (int r = 0; r < c.n; r++)
    {
        for (auto &v : c.a[r]) v = vh_int("a", -(1L << 40), 1L << 40);
        for (auto &v : c.x[r]) v = vh_real("x", -4, 4);
    }
    mm_run(c.n, body, &c);
    vh_reach("coll");
}
static void bodyV(int r, void *p)
{
    auto &c = *(Ctx *)p;
    MPIInfo mpi;
    mpi.setWorld();
    index s[8], g[8];
    for (int i = 0; i < 8; i++) s[i] = c.a[r][i], g[i] = 77;
    MPI_int sn[3], sd[3], rn[3], rd[3], at = c.k, bt = c.k;
    for (int q = 0; q < c.n; q++)
    {
        sn[q] = c.cnt[r][q], sd[q] = at, at += sn[q] + c.k;
        rn[q] = c.cnt[q][r], rd[q] = bt, bt += rn[q] + c.k;
    }
    MPI::Alltoallv(s, sn, sd, DNDS_MPI_INDEX, g, rn, rd, DNDS_MPI_INDEX, mpi.comm);
    bool hit[8] = {};
    for (int q = 0; q < c.n; q++)
    {
        int o = c.k;
        for (int t = 0; t < r; t++) o += c.cnt[q][t] + c.k; // where rank q keeps what it sends here
        for (int i = 0; i < rn[q]; i++) vh_assert(g[rd[q] + i] == c.a[q][o + i], "every block arrives from its sender"), hit[rd[q] + i] = true;
    }
    for (int i = 0; i < 8; i++) vh_assert(hit[i] || g[i] == 77, "nothing else is written");
}
VH_ENTRY h_a2av()
{
    Ctx c;
    inputs(c, 1, 3);
    c.k = vh_concretize(vh_int("gap", 0, 1));
    for (int r = 0; r < c.n; r++)
    {
        for (auto &v : c.a[r]) v = vh_int("a", -(1L << 40), 1L << 40);
        for (int q = 0; q < c.n; q++) c.cnt[r][q] = vh_concretize(vh_int("c", 0, 1));
    }
    mm_run(c.n, bodyV, &c);
    vh_reach("a2av");
}
// Rank 0 waits for k messages together; the others send them in the order given, each only after rank 0 could have looked.
static void bodyW(int r, void *p)
{
    auto &c = *(Ctx *)p;
    MPIInfo mpi;
    mpi.setWorld();
    int k = c.k;
    MPI_Request q[4] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL, MPI_REQUEST_NULL, MPI_REQUEST_NULL};
    MPI_Status st[4];
    index got[4] = {77, 77, 77, 77};
    if (r == 0)
    {
        for (int i = 0; i < k; i++)
            if (c.cnt[1][i]) MPI_Irecv(got + i, 1, DNDS_MPI_INDEX, c.cnt[1][i], 10 + i, mpi.comm, q + i);
        if (c.root) MPI::Barrier(mpi.comm);
        MPI::WaitallAuto(k, q, c.cnt[2][0] ? MPI_STATUSES_IGNORE : st);
        for (int i = 0; i < k; i++)
        {
            vh_assert(got[i] == (c.cnt[1][i] ? c.a[c.cnt[1][i]][i] : 77), "after the wait every message is there");
            vh_assert(q[i] == MPI_REQUEST_NULL, "after the wait no request is pending");
        }
        if (!c.root) MPI::Barrier(mpi.comm);
    }
    else
    {
        if (c.root) MPI::Barrier(mpi.comm);
        for (int j = 0; j < k; j++)
        {
            int i = c.cnt[0][j];
            for (int t = 0; t < 3 * j; t++) vh_progress(), vh_wait();
            if (c.cnt[1][i] == r) MPI_Isend(c.a[r] + i, 1, DNDS_MPI_INDEX, 0, 10 + i, mpi.comm, q + i);
        }
        MPI::WaitallAuto(k, q, MPI_STATUSES_IGNORE);
        for (int i = 0; i < k; i++) vh_assert(q[i] == MPI_REQUEST_NULL, "after the wait no request is pending");
        if (!c.root) MPI::Barrier(mpi.comm);
    }
}
VH_ENTRY h_wait()
{
    Ctx c;
    inputs(c, 2, 3);
    mm_late = vh_concretize(vh_int("late", 0, 1));
    c.k = vh_concretize(vh_int("k", 1, 3));
    c.root = vh_concretize(vh_int("first", 0, 1)); // the receives are posted before the sends
    c.cnt[2][0] = vh_concretize(vh_int("ignore", 0, 1)); // without statuses
    int perm = vh_concretize(vh_int("perm", 0, 5));
    static const int P[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    vh_assume(c.k == 3 || perm < c.k);
    for (int i = 0; i < 3; i++) c.cnt[0][i] = P[perm][i];
    for (int i = 0; i < c.k; i++) c.cnt[1][i] = vh_concretize(vh_int("from", 0, c.n - 1)); // 0: nothing to wait for
    for (int r = 0; r < c.n; r++)
        for (auto &v : c.a[r]) v = vh_int("a", -(1L << 40), 1L << 40);
    mm_run(c.n, bodyW, &c);
    vh_reach("wait");
}
static std::vector<int> *ORDER;
static int inside;
static void bodyS(int r, void *p)
{
    MPIInfo mpi;
    mpi.setWorld();
    MPISerialDo(mpi, [&]
                {
                    vh_assert(inside == 0, "one rank at a time");
                    inside++;
                    ORDER->push_back(r);
                    vh_progress(), vh_wait();
                    inside--; });
    MPI::Barrier(mpi.comm);
}
VH_ENTRY h_serial()
{
    Ctx c;
    inputs(c, 1, 4);
    std::vector<int> o;
    ORDER = &o, inside = 0;
    mm_run(c.n, bodyS, &c);
    vh_assert((int)o.size() == c.n, "every rank runs once");
    for (int i = 0; i < c.n; i++) vh_assert(o[i] == i, "in rank order");
    vh_reach("serial");
}
template <class T> static void type(const char *m)
{
    auto [t, k] = BasicType_To_MPIIntType<T>();
    MPI_Aint lb, ext;
    MPI_Type_get_extent(t, &lb, &ext);
    vh_assert(k > 0 && size_t(ext) * k == sizeof(T), "an element's MPI type covers exactly its bytes");
    int v = k;
    vh_show_int(m, v);
}
struct Odd { char c[3]; };
VH_ENTRY h_types()
{
    type<real>("real"), type<float>("float"), type<index>("index"), type<rowsize>("rowsize"), type<int8_t>("i8"), type<int16_t>("i16"), type<uint8_t>("u8"), type<uint16_t>("u16"), type<uint32_t>("u32"), type<uint64_t>("u64"), type<bool>("bool");
    type<real[3]>("real[3]"), type<index[2][2]>("index[2][2]"), type<std::array<real, 5>>("array"), type<std::array<std::array<index, 2>, 3>>("array2"), type<std::array<int16_t, 3>>("i16[3]");
    type<Eigen::Matrix<real, 3, 3>>("mat"), type<Eigen::Vector2d>("vec"), type<Eigen::Matrix<real, -1, -1, Eigen::DontAlign, 2, 2>>("matmax");
    auto bad = BasicType_To_MPIIntType<Odd>();
    vh_assert(bad.first == MPI_DATATYPE_NULL && bad.second == -1, "a type without an MPI counterpart is not mapped");
    vh_reach("types");
}
}
