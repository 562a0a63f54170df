//@unit {"repo":[],"lib":["dndsstub.cpp"]}
//@run {"prop":"P13","entry":"h_rcm","bounds":"every undirected graph of <=5 vertices (connected or not), neighbour lists ascending or descending","reach":["rcm"],"shard":[["n",0,5],["desc",0,1]]}
//@run {"prop":"P13","entry":"h_bad","bounds":"every directed graph of <=3 vertices with <=3 parallel edges that is not symmetric or has repeated edges","reach":["refused"],"shard":[["n",2,3]]}
//@run {"prop":"P13","entry":"h_boostrcm","bounds":"every undirected graph of 1..4 vertices (connected or not)","reach":["brcm"],"shard":[["n",1,4]]}
//@run {"prop":"P13","entry":"h_mmd","bounds":"every undirected graph of 1..4 vertices; boost::minimum_degree_ordering stands for any permutation it may return","reach":["mmd"],"shard":[["n",1,4]]}
//@run {"prop":"P13","entry":"h_metis","bounds":"every undirected graph of <=4 vertices; METIS_NodeND stands for any permutation it may return","reach":["metis"],"shard":[["n",1,4]]}
//@run {"prop":"P13","entry":"h_bfs","bounds":"every undirected graph of <=4 vertices, any root","reach":["bfs","badroot"],"shard":[["n",1,4]]}
#include "vh.h"
#include <vector>
#include "DNDS/MPI.hpp"
#include "Geom/SerialAdjReordering.hpp"
using index_t = DNDS::index;
static long pick(const char *n, long lo, long hi) { return vh_concretize(vh_int(n, lo, hi)); }
typedef std::vector<std::vector<index_t>> Adj;
static int N;
static bool E[5][5];
static Adj graph(int lo, int hi, bool desc)
{
    N = pick("n", lo, hi);
    for (int i = 0; i < N; i++)
        for (int j = 0; j <= i; j++) E[i][j] = E[j][i] = i != j && pick("edge", 0, 1);
    Adj a(N);
    for (int i = 0; i < N; i++)
        for (int k = 0; k < N; k++)
            if (int j = desc ? N - 1 - k : k; E[i][j]) a[i].push_back(j);
    return a;
}
static void inverse(const std::vector<index_t> &n2o, const std::vector<index_t> &o2n)
{
    vh_assert(n2o.size() == N && o2n.size() == N, "the ordering covers every vertex");
    for (int i = 0; i < N; i++)
    {
        vh_assert(n2o[i] >= 0 && n2o[i] < N && o2n[i] >= 0 && o2n[i] < N, "new numbers are vertex numbers");
        vh_assert(o2n[n2o[i]] == i && n2o[o2n[i]] == i, "the two orderings are inverse permutations");
    }
}
static void band(const std::vector<index_t> &o2n, index_t bo, index_t bn)
{
    index_t a = 0, b = 0;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            if (E[i][j]) a = std::max<index_t>(a, std::abs(i - j)), b = std::max<index_t>(b, std::abs(o2n[i] - o2n[j]));
    vh_assert(bo == a, "the old bandwidth is that of the graph");
    vh_assert(bn == b, "the new bandwidth is that of the reordered graph");
}
static int D[5][5];
static void dist()
{
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) D[i][j] = i == j ? 0 : E[i][j] ? 1 : 99;
    for (int k = 0; k < N; k++)
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++)
                if (D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j];
}
VH_ENTRY h_rcm()
{
    bool desc = pick("desc", 0, 1);
    Adj a = graph(0, 5, desc);
    index_t bo = -1, bn = -1;
    auto [n2o, o2n] = DNDS::Geom::ReorderSerialAdj_CorrectRCM(a, bo, bn);
    inverse(n2o, o2n), band(o2n, bo, bn), dist();
    // a reversed Cuthill-McKee order: connected parts are contiguous and, from the far end, sorted by distance from their first vertex
    for (int k = N - 1, r = 0; k >= 0; k--)
    {
        int v = n2o[k];
        if (k == N - 1 || D[n2o[k + 1]][v] >= 99)
        {
            for (int q = k + 1; q < N; q++) vh_assert(D[n2o[q]][v] >= 99, "connected parts are numbered contiguously");
            r = v;
        }
        else vh_assert(D[r][v] >= D[r][n2o[k + 1]], "vertices are numbered by distance from the root");
    }
    vh_reach("rcm");
}
VH_ENTRY h_bad()
{
    int n = pick("n", 2, 3);
    int c[3][3];
    bool ok = true;
    Adj a(n);
    int tot = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i != j)
            {
                c[i][j] = pick("mult", 0, n == 2 ? 3 : 2), tot += c[i][j];
                for (int k = 0; k < c[i][j]; k++) a[i].push_back(j);
            }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i != j && (c[i][j] > 1 || c[i][j] != c[j][i])) ok = false;
    vh_assume(!ok);
    auto f = [&](index_t i) -> const std::vector<index_t> & { return a.at(i); };
    auto g = CorrectRCM::UndirectedGraphProxy(f, int64_t(n));
    bool refused = false;
    try { g.CheckAdj(); }
    catch (std::runtime_error &) { refused = true; }
    vh_assert(refused, "graphs that are not symmetric or have repeated edges are refused");
    vh_reach("refused");
}
VH_ENTRY h_boostrcm()
{
    Adj a = graph(1, 4, false);
    index_t bo = -1, bn = -1;
    auto [n2o, o2n] = DNDS::Geom::ReorderSerialAdj_BoostRCM(a, bo, bn);
    inverse(n2o, o2n), band(o2n, bo, bn);
    vh_reach("brcm");
}
static bool mmdCalled;
void vh_boost_mmd(const std::vector<std::vector<long>> &g, std::vector<long> &perm)
{
    mmdCalled = true;
    vh_assert(g.size() == N, "the ordering gets every vertex");
    for (int i = 0; i < N; i++)
    {
        bool seen[5] = {};
        for (auto j : g[i])
        {
            vh_assert(j >= 0 && j < N && !seen[j], "the ordering gets each neighbour once");
            seen[j] = true;
        }
        for (int j = 0; j < N; j++) vh_assert(seen[j] == E[i][j], "the ordering gets the graph");
    }
    bool used[5] = {};
    perm.resize(N);
    for (int i = 0; i < N; i++)
    {
        perm[i] = pick("perm", 0, N - 1);
        vh_assume(!used[perm[i]]);
        used[perm[i]] = true;
    }
}
VH_ENTRY h_mmd()
{
    Adj a = graph(1, 4, false);
    auto [n2o, o2n] = DNDS::Geom::ReorderSerialAdj_BoostMMD(a);
    vh_assert(mmdCalled, "the vertices are ordered");
    inverse(n2o, o2n);
    vh_reach("mmd");
}
static bool metisCalled;
extern "C" int METIS_SetDefaultOptions(_METIS::idx_t *o)
{
    for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1;
    return _METIS::METIS_OK;
}
extern "C" int METIS_NodeND(_METIS::idx_t *nv, _METIS::idx_t *xadj, _METIS::idx_t *adj, _METIS::idx_t *vwgt, _METIS::idx_t *opt, _METIS::idx_t *perm, _METIS::idx_t *iperm)
{
    metisCalled = true;
    vh_assert(*nv == N && xadj[0] == 0 && !vwgt && opt[_METIS::METIS_OPTION_NUMBERING] == 0, "METIS gets every vertex, counted from zero");
    bool seen[5][5] = {};
    for (int i = 0; i < N; i++)
        for (int k = xadj[i]; k < xadj[i + 1]; k++)
        {
            vh_assert(adj[k] >= 0 && adj[k] < N && !seen[i][adj[k]], "METIS gets each neighbour once");
            seen[i][adj[k]] = true;
        }
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) vh_assert(seen[i][j] == E[i][j], "METIS gets the graph");
    bool used[5] = {};
    for (int i = 0; i < N; i++)
    {
        perm[i] = pick("perm", 0, N - 1);
        vh_assume(!used[perm[i]]);
        used[perm[i]] = true, iperm[perm[i]] = i;
    }
    return _METIS::METIS_OK;
}
VH_ENTRY h_metis()
{
    Adj a = graph(1, 4, false);
    auto [n2o, o2n] = DNDS::Geom::ReorderSerialAdj_Metis(a);
    vh_assert(metisCalled, "METIS orders the graph");
    inverse(n2o, o2n);
    vh_reach("metis");
}
VH_ENTRY h_bfs()
{
    Adj a = graph(1, 4, pick("desc", 0, 1));
    dist();
    auto f = [&](index_t i) -> const std::vector<index_t> & { return a.at(i); };
    auto g = CorrectRCM::UndirectedGraphProxy(f, int64_t(N));
    int root = pick("root", -1, N), cnt = 0, last = 0;
    int seen[5] = {};
    bool bad = false;
    std::vector<index_t> lay;
    try
    {
        lay = g.BreadthFirstSearch([&](index_t i, index_t l) { vh_assert(i >= 0 && i < N && l == D[root][i] && l >= last, "vertices come by distance from the root"); seen[i]++, last = l; }, root);
    }
    catch (std::range_error &) { bad = true; }
    vh_assert(bad == (root < 0 || root >= N), "a root outside the graph is refused");
    if (bad) { vh_reach("badroot"); return; }
    for (int i = 0; i < N; i++)
    {
        vh_assert(seen[i] == (D[root][i] < 99 ? 1 : 0), "each vertex of the part is visited once");
        vh_assert(lay[i] == (D[root][i] < 99 ? D[root][i] : -1), "the layers are the distances");
    }
    vh_reach("bfs");
}
