//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P02","entry":"h_global","bounds":"1..3 ranks, any rank lengths in [0,2^40], any query","reach":["found","notfound"],"shard":[["n",1,3]]}
//@run {"prop":"P02","entry":"h_refuse","bounds":"1..3 ranks, any rank lengths in [0,2^40], any rank and local index out of range","reach":["refused"],"shard":[["n",1,3]]}
//@run {"prop":"P02","entry":"h_pull","bounds":"1..3 ranks of 0..2 rows, each pulling 0..2 any rows (any order, duplicates, own rows), any query; messages early or late, blocking or polling waits","reach":["pull","main","ghost"],"shard":[["n",1,3],["k",0,2]],"time":600}
//@run {"prop":"P02","entry":"h_push","bounds":"2..3 ranks of 0..2 rows, each pushing any ascending subset of its rows to each rank, any query","reach":["push"],"shard":[["n",2,3],["l",0,2]],"time":600}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include "DNDS/MPI.hpp"
#include "DNDS/IndexMapping.hpp"
namespace DNDS::VH {
struct Ctx
{
    int n;
    index len[3];
    GlobalOffsetsMapping G[3];
    std::vector<index> pull[3];
    std::vector<index> pushL[3];
    std::vector<MPI_int> pushS[3];
    std::unique_ptr<OffsetAscendIndexMapping> M[3];
};
static void setup(bool lazy)
{
    if (lazy) mm_env("DNDS_USE_LAZY_WAIT", "1");
    vh_assert(MPI::CommStrategy::Instance().GetUseLazyWait() == (lazy ? 1. : 0.), "the environment selects lazy waits");
}
static void fGlobal(int r, void *a)
{
    auto &c = *(Ctx *)a;
    MPIInfo mpi;
    mpi.setWorld();
    vh_assert(mpi.rank == r && mpi.size == c.n, "rank and size");
    c.G[r].setMPIAlignBcast(mpi, c.len[r]);
}
static void lengths(Ctx &c, long hi, bool conc)
{
    for (int r = 0; r < c.n; r++)
    {
        c.len[r] = vh_int("len", 0, hi);
        if (conc) c.len[r] = vh_concretize(c.len[r]);
    }
}
VH_ENTRY h_global()
{
    Ctx c;
    c.n = vh_concretize(vh_int("n", 1, 3));
    setup(vh_concretize(vh_int("lazy", 0, 1)));
    lengths(c, 1L << 40, false);
    mm_run(c.n, fGlobal, &c);
    index q = vh_int("q", -(1L << 50), 1L << 50), total = 0;
    for (int r = 0; r < c.n; r++) total += c.len[r];
    for (int r = 0; r < c.n; r++)
    {
        auto &G = c.G[r];
        vh_assert(G.globalSize() == total && (int)G.RLengths().size() == c.n && (int)G.ROffsets().size() == c.n + 1, "global size is the sum of all rank lengths, on every rank");
        index off = 0;
        for (int s = 0; s < c.n; s++) vh_assert(G.RLengths()[s] == c.len[s] && G.ROffsets()[s] == off, "every rank knows every length and offset"), off += c.len[s];
    }
    auto &G = c.G[vh_concretize(vh_int("at", 0, c.n - 1))];
    auto [ok, rank, val] = G.search(q);
    vh_assert(ok == (q >= 0 && q < total), "a global index is found exactly when it exists");
    if (ok)
    {
        vh_assert(rank >= 0 && rank < c.n && val >= 0 && val < c.len[rank], "the owner has such a row");
        vh_assert(G(rank, val) == q, "local to global undoes the search");
        vh_reach("found");
    }
    else vh_reach("notfound");
    // any existing local row maps to a global index that is found at that row
    int s = vh_concretize(vh_int("s", 0, c.n - 1));
    index v = vh_int("v", 0, 1L << 40);
    if (v < c.len[s])
    {
        auto [ok2, r2, v2] = G.search(G(s, v));
        vh_assert(ok2 && r2 == s && v2 == v, "search undoes local to global");
    }
}
VH_ENTRY h_refuse()
{
    Ctx c;
    c.n = vh_concretize(vh_int("n", 1, 3));
    setup(false);
    lengths(c, 1L << 40, false);
    mm_run(c.n, fGlobal, &c);
    int r = vh_concretize(vh_int("r", -1, c.n));
    index v = vh_int("v", -(1L << 40), 1L << 41);
    vh_assume(r < 0 || r >= c.n || v < 0 || v > c.len[r]);
    vh_expect_refuse();
    index g = c.G[0](r, v);
    vh_assert(g != g, "a row that does not exist is refused");
}
static void fPull(int r, void *a)
{
    auto &c = *(Ctx *)a;
    MPIInfo mpi;
    mpi.setWorld();
    c.G[r].setMPIAlignBcast(mpi, c.len[r]);
    std::vector<index> in = c.pull[r];
    c.M[r] = std::make_unique<OffsetAscendIndexMapping>(c.G[r](r, 0), c.len[r], in, c.G[r], mpi);
}
static void checkMap(Ctx &c, const std::vector<std::vector<index>> &want) // want[r]: what rank r holds as ghosts
{
    index off[4] = {0};
    for (int r = 0; r < c.n; r++) off[r + 1] = off[r] + c.len[r];
    for (int r = 0; r < c.n; r++)
    {
        auto &M = *c.M[r];
        vh_assert((int)M.ghostSizes.size() == c.n && (int)M.ghostStart.size() == c.n + 1 && (int)M.pushIndexSizes.size() == c.n && (int)M.pushIndexStarts.size() == c.n + 1, "one block per rank");
        vh_assert(M.ghostStart[0] == 0 && M.ghostStart[c.n] == (int)M.ghostIndex.size() && M.pushIndexStarts[0] == 0 && M.pushIndexStarts[c.n] == (int)M.pushingIndexGlobal.size(), "blocks cover the lists");
        for (int s = 0; s < c.n; s++)
        {
            auto &N = *c.M[s];
            vh_assert(M.ghostStart[s + 1] - M.ghostStart[s] == M.ghostSizes[s] && M.pushIndexStarts[s + 1] - M.pushIndexStarts[s] == M.pushIndexSizes[s], "starts are the sums of the sizes");
            vh_assert(M.ghostSizes[s] == N.pushIndexSizes[r], "what one rank pulls the other pushes");
            for (int k = 0; k < M.ghostSizes[s]; k++)
            {
                index g = M.ghostIndex[M.ghostStart[s] + k];
                vh_assert(g >= off[s] && g < off[s + 1], "a ghost is listed under the rank that owns it");
                vh_assert(g == N.pushingIndexGlobal[N.pushIndexStarts[r] + k], "pull and push lists name the same rows in the same order");
                vh_assert(M.ghostAt(s, k) == g && M(s, k) == g && M(-1, c.len[r] + M.ghostStart[s] + k) == g, "ghost places map to their global index");
            }
        }
        for (size_t k = 1; k < M.ghostIndex.size(); k++) vh_assert(M.ghostIndex[k - 1] < M.ghostIndex[k], "ghosts ascend without duplicates");
        for (index g : want[r])
        {
            bool in = false;
            for (index x : M.ghostIndex) in = in | (x == g);
            vh_assert(in, "every requested row is a ghost");
        }
        for (index x : M.ghostIndex)
        {
            bool in = false;
            for (index g : want[r]) in = in | (x == g);
            vh_assert(in, "no row is a ghost that was not requested");
        }
        for (index i = 0; i < c.len[r]; i++) vh_assert(M(-1, i) == off[r] + i, "main rows map to their global index");
    }
    int r = vh_concretize(vh_int("at", 0, c.n - 1));
    auto &M = *c.M[r];
    index q = vh_int("q", -1, off[c.n]);
    bool main = q >= off[r] && q < off[r + 1], ghost = false;
    for (index x : M.ghostIndex) ghost = ghost | (x == q);
    auto [ok, rank, val] = M.search(q);
    auto [ok2, rank2, val2] = M.search_indexAppend(q);
    auto [ok3, rank3, val3] = M.search_indexRank(q);
    vh_assert(ok == (main || ghost) && ok2 == ok && ok3 == ok, "a row is found exactly when it is held");
    if (ok)
    {
        vh_assert((rank == -1) == main && rank2 == rank && rank3 == rank, "main rows are found in the main part");
        if (main) vh_assert(val == q - off[r] && val2 == val && val3 == val, "main place"), vh_reach("main");
        else
        {
            vh_assert(rank >= 0 && rank < c.n && q >= off[rank] && q < off[rank + 1], "the owning rank is found");
            vh_assert(val >= 0 && val < (index)M.ghostIndex.size() && M.ghostIndex[val] == q, "ghost place");
            vh_reach("ghost");
        }
        vh_assert(M(-1, val2) == q, "the appended place maps back");
        vh_assert(M(rank3, val3) == q, "the place within the rank maps back");
    }
}
VH_ENTRY h_pull()
{
    Ctx c;
    c.n = vh_concretize(vh_int("n", 1, 3));
    setup(vh_concretize(vh_int("lazy", 0, 1)));
    lengths(c, 2, true);
    index total = 0;
    for (int r = 0; r < c.n; r++) total += c.len[r];
    for (int r = 0; r < c.n; r++)
    {
        int k = r == 0 ? vh_concretize(vh_int("k", 0, 2)) : r == 1 ? vh_concretize(vh_int("k1", 0, 2)) : vh_concretize(vh_int("k2", 0, 1));
        if (total == 0) k = 0;
        for (int i = 0; i < k; i++) c.pull[r].push_back(vh_int("g", 0, total - 1));
    }
    mm_run(c.n, fPull, &c);
    std::vector<std::vector<index>> want(c.pull, c.pull + c.n);
    checkMap(c, want);
    vh_reach("pull");
}
static void fPush(int r, void *a)
{
    auto &c = *(Ctx *)a;
    MPIInfo mpi;
    mpi.setWorld();
    c.G[r].setMPIAlignBcast(mpi, c.len[r]);
    c.M[r] = std::make_unique<OffsetAscendIndexMapping>(c.G[r](r, 0), c.len[r], c.pushL[r], c.pushS[r], c.G[r], mpi);
}
VH_ENTRY h_push()
{
    Ctx c;
    c.n = vh_concretize(vh_int("n", 2, 3));
    setup(false);
    for (int r = 0; r < c.n; r++) c.len[r] = vh_concretize(vh_int(r ? "l2" : "l", 0, r == 2 ? 1 : 2));
    index off[4] = {0};
    for (int r = 0; r < c.n; r++) off[r + 1] = off[r] + c.len[r];
    std::vector<std::vector<index>> want(c.n);
    for (int r = 0; r < c.n; r++)
    {
        c.pushS[r].push_back(0);
        for (int s = 0; s < c.n; s++)
        {
            int m = vh_concretize(vh_int("m", 0, (1 << c.len[r]) - 1));
            for (int i = 0; i < c.len[r]; i++)
                if (m >> i & 1) c.pushL[r].push_back(i), want[s].push_back(off[r] + i);
            c.pushS[r].push_back(c.pushL[r].size());
        }
    }
    mm_run(c.n, fPush, &c);
    checkMap(c, want);
    vh_reach("push");
}
}
