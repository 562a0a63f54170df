//@unit {"repo":["src/DNDS/MPI.cpp","src/DNDS/Profiling.cpp"],"lib":["dndsstub.cpp","mockmpi.cpp"]}
//@run {"prop":"P03","entry":"h_table","bounds":"fixed layouts (static and run-time row size, single and paired elements); 2 ranks of 0..2 rows, any sets of pulled rows (own rows included), any contents; derived-type, one-by-one and packing transfers, messages early or late, blocking, polling and synchronised waits; pull twice then push, once-only or persistent","reach":["pulled","pushed"],"shard":[["lay",0,2],["strat",0,3]],"time":800}
//@run {"prop":"P03","entry":"h_max","bounds":"padded layouts (static and run-time maximum); as h_table with any row sizes 0..2","reach":["pulled","pushed"],"shard":[["lay",3,4],["strat",0,3]],"time":800}
//@run {"prop":"P03","entry":"h_csr","bounds":"compressed rows (plain and paired elements); as h_table with any row sizes 0..2","reach":["pulled","pushed"],"shard":[["lay",5,6],["strat",0,3]],"time":800}
//@run {"prop":"P03","entry":"h_three","bounds":"3 ranks of 0..1 rows, any sets of pulled rows, row sizes 0..1, padded and compressed layouts","reach":["pulled","pushed"],"shard":[["lay",4,5],["strat",0,2]],"time":800}
//@run {"prop":"P03","entry":"h_three","bounds":"3 ranks of 0..1 rows, any sets of pulled rows, row sizes 0..1, every layout","reach":["pulled","pushed"],"shard":[["lay",0,6],["strat",0,2]],"time":1500,"tier":"thorough"}
//@run {"prop":"P03","entry":"h_pushmap","bounds":"2 ranks of 0..2 rows, ghosts given as push lists","reach":["pulled","pushed"],"shard":[["lay",0,6],["strat",0,2]],"time":800}
#include "vh.h"
#include "mockmpi.h"
#include <vector>
#include "DNDS/ArrayTransformer.hpp"
namespace DNDS::VH {
using PairT = std::array<index, 2>;
static int64_t get(real v) { return 0; }
template <class T> struct Elem;
template <> struct Elem<real> { static real mk(const char *n) { return vh_real(n, -4, 4); } static bool eq(real a, real b) { return a == b; } };
template <> struct Elem<index> { static index mk(const char *n) { return vh_int(n, -1000000, 1000000); } static bool eq(index a, index b) { return a == b; } };
template <> struct Elem<PairT> { static PairT mk(const char *n) { PairT p; p[0] = vh_int(n, -1000000, 1000000), p[1] = vh_int(n, -1000000, 1000000); return p; } static bool eq(const PairT &a, const PairT &b) { return (a[0] == b[0]) & (a[1] == b[1]); } };
enum { HIDX, ONEBYONE, INSITU, LAZY };
struct Conf { int n, late, strat, once, pushmap, three; index len[3]; int mask[3]; };
template <class T> using Rows = std::vector<std::vector<T>>;
template <class TR, class T, DataLayout L> struct Ctx : Conf
{
    ssp<typename TR::TArray> fa[3], so[3];
    Rows<T> want, now; // contents of all father rows
    std::vector<int> own, hold; // owner of a row, how many hold it as a ghost
    std::vector<Rows<T>> ghost; // per rank, what it writes into its ghosts
    index off[4];
};
template <class A, DataLayout L> static void shape(A &a, const std::vector<int> &sz, int width)
{
    index n = sz.size();
    if constexpr (L == TABLE_StaticFixed) a.Resize(n);
    if constexpr (L == TABLE_Fixed) a.Resize(n, width);
    if constexpr (L == TABLE_StaticMax) { a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
    if constexpr (L == TABLE_Max) { a.Resize(n, width); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
    if constexpr (L == CSR) { a.Resize(n); for (index i = 0; i < n; i++) a.ResizeRow(i, sz[i]); }
}
template <class TR, class T, DataLayout L> struct Run
{
    using C = Ctx<TR, T, L>;
    static void ghostsAre(C &c, int r, TR &t, const char *m)
    {
        auto &so = *c.so[r];
        int k = 0;
        for (size_t g = 0; g < c.want.size(); g++)
        {
            if (!(c.mask[r] >> g & 1)) continue;
            vh_assert(k < so.Size() && so.RowSize(k) == (rowsize)c.want[g].size(), "a ghost row has the size of its source row");
            for (size_t j = 0; j < c.want[g].size(); j++) vh_assert(Elem<T>::eq(so(k, j), c.want[g][j]), m);
            k++;
        }
        vh_assert(so.Size() == k, "one ghost row per requested row");
    }
    static void body(int r, void *a)
    {
        auto &c = *(C *)a;
        MPIInfo mpi;
        mpi.setWorld();
        auto &fa = *c.fa[r], &so = *c.so[r];
        for (index i = 0; i < c.len[r]; i++)
            for (size_t j = 0; j < c.want[c.off[r] + i].size(); j++) fa(i, j) = c.want[c.off[r] + i][j];
        TR t;
        t.setFatherSon(c.fa[r], c.so[r]);
        t.createFatherGlobalMapping();
        if (c.pushmap)
        {
            std::vector<index> loc;
            std::vector<MPI_int> st{0};
            for (int s = 0; s < c.n; s++)
            {
                for (index i = 0; i < c.len[r]; i++)
                    if (c.mask[s] >> (c.off[r] + i) & 1) loc.push_back(i);
                st.push_back(loc.size());
            }
            t.createGhostMapping(loc, st);
        }
        else
        {
            std::vector<index> pull;
            for (int g = int(c.want.size()) - 1; g >= 0; g--)
                if (c.mask[r] >> g & 1) pull.push_back(g);
            t.createGhostMapping(pull);
        }
        t.createMPITypes();
        if (c.once) t.pullOnce();
        else { t.initPersistentPull(); t.startPersistentPull(); t.waitPersistentPull(); }
        ghostsAre(c, r, t, "a pull brings every ghost row what its owner holds");
        MPI_Barrier(mpi.comm);
        // the owners change their rows
        for (index i = 0; i < c.len[r]; i++)
            for (size_t j = 0; j < c.now[c.off[r] + i].size(); j++) fa(i, j) = c.now[c.off[r] + i][j];
        for (index i = 0; i < c.len[r]; i++) c.want[c.off[r] + i] = c.now[c.off[r] + i];
        MPI_Barrier(mpi.comm);
        if (c.once) t.pullOnce();
        else { t.startPersistentPull(); t.waitPersistentPull(); t.clearPersistentPull(); }
        ghostsAre(c, r, t, "a second pull brings the new contents");
        for (index i = 0; i < c.len[r]; i++)
            for (size_t j = 0; j < c.want[c.off[r] + i].size(); j++) vh_assert(Elem<T>::eq(fa(i, j), c.want[c.off[r] + i][j]), "a pull leaves the owner's rows alone");
        vh_reach("pulled");
        MPI_Barrier(mpi.comm);
        int k = 0;
        for (size_t g = 0; g < c.want.size(); g++)
            if (c.mask[r] >> g & 1)
            {
                for (size_t j = 0; j < c.want[g].size(); j++) so(k, j) = c.ghost[r][g][j];
                k++;
            }
        if (c.once) t.pushOnce();
        else { t.initPersistentPush(); t.startPersistentPush(); t.waitPersistentPush(); t.clearPersistentPush(); }
        for (index i = 0; i < c.len[r]; i++)
        {
            int g = c.off[r] + i;
            vh_assert(fa.RowSize(i) == (rowsize)c.want[g].size(), "a push keeps row sizes");
            if (c.hold[g] <= 1)
                for (size_t j = 0; j < c.want[g].size(); j++)
                {
                    T w = c.want[g][j];
                    for (int s = 0; s < c.n; s++) if (c.mask[s] >> g & 1) w = c.ghost[s][g][j];
                    vh_assert(Elem<T>::eq(fa(i, j), w), "a push writes the ghost's contents to its owner and leaves other rows alone");
                }
            else
            {
                // written by several ranks: the row is one of theirs
                bool any = c.want[g].empty();
                for (int s = 0; s < c.n; s++)
                    if (c.mask[s] >> g & 1)
                    {
                        bool all = true;
                        for (size_t j = 0; j < c.want[g].size(); j++) all = all & Elem<T>::eq(fa(i, j), c.ghost[s][g][j]);
                        any = any | all;
                    }
                vh_assert(any, "a row pushed from several ranks holds one of their versions");
            }
        }
        k = 0;
        for (size_t g = 0; g < c.want.size(); g++)
            if (c.mask[r] >> g & 1)
            {
                for (size_t j = 0; j < c.want[g].size(); j++) vh_assert(Elem<T>::eq(so(k, j), c.ghost[r][g][j]), "a push leaves the ghosts alone");
                k++;
            }
        t.clearMPITypes();
        vh_reach("pushed");
    }
    static void go(const Conf &cf, int maxRow)
    {
        C c;
        (Conf &)c = cf;
        c.off[0] = 0;
        for (int r = 0; r < c.n; r++) c.off[r + 1] = c.off[r] + c.len[r];
        int total = c.off[c.n];
        for (int r = 0; r < c.n; r++) c.mask[r] = vh_concretize(vh_int("mask", 0, (1 << total) - 1));
        int width = L == TABLE_Fixed ? vh_concretize(vh_int("width", 0, 2)) : 2;
        c.want.resize(total), c.now.resize(total), c.hold.resize(total), c.ghost.resize(c.n);
        for (auto &g : c.ghost) g.resize(total);
        MPIInfo mpi;
        mpi.comm = MPI_COMM_WORLD;
        mpi.size = c.n;
        if (c.strat == ONEBYONE) mm_env("DNDS_USE_ASYNC_ONE_BY_ONE", "1");
        if (c.strat == LAZY) mm_env("DNDS_USE_LAZY_WAIT", "1"), mm_env("DNDS_USE_STRONG_SYNC_WAIT", "1");
        for (int r = 0; r < c.n; r++)
        {
            std::vector<int> sz;
            for (index i = 0; i < c.len[r]; i++)
            {
                int w = width;
                if (L == TABLE_Max || L == TABLE_StaticMax || L == CSR) w = vh_concretize(vh_int("w", 0, maxRow));
                sz.push_back(w);
                int g = c.off[r] + i;
                for (int s = 0; s < c.n; s++)
                    if (c.mask[s] >> g & 1) c.hold[g]++;
                for (int j = 0; j < w; j++)
                {
                    c.want[g].push_back(Elem<T>::mk("a")), c.now[g].push_back(Elem<T>::mk("b"));
                    for (int s = 0; s < c.n; s++) c.ghost[s][g].push_back(Elem<T>::mk("c"));
                }
            }
            mpi.rank = r;
            c.fa[r] = std::make_shared<typename TR::TArray>(mpi), c.so[r] = std::make_shared<typename TR::TArray>(mpi);
            shape<typename TR::TArray, L>(*c.fa[r], sz, width);
        }
        mm_late = c.late;
        MPI::CommStrategy::Instance().SetArrayStrategy(c.strat == INSITU ? MPI::CommStrategy::InSituPack : MPI::CommStrategy::HIndexed);
        mm_run(c.n, body, &c);
    }
};
static void pick(int lay, const Conf &c, int maxRow)
{
    switch (lay)
    {
    case 0: return Run<ArrayTransformer<real, 2>, real, TABLE_StaticFixed>::go(c, 2);
    case 1: return Run<ArrayTransformer<index, DynamicSize>, index, TABLE_Fixed>::go(c, 2);
    case 2: return Run<ArrayTransformer<PairT, 2>, PairT, TABLE_StaticFixed>::go(c, 2);
    case 3: return Run<ArrayTransformer<index, NonUniformSize, 2>, index, TABLE_StaticMax>::go(c, maxRow);
    case 4: return Run<ArrayTransformer<real, NonUniformSize, DynamicSize>, real, TABLE_Max>::go(c, maxRow);
    case 5: return Run<ArrayTransformer<real, NonUniformSize>, real, CSR>::go(c, maxRow);
    case 6: return Run<ArrayTransformer<PairT, NonUniformSize>, PairT, CSR>::go(c, maxRow);
    }
}
static Conf conf(int n, int hi, int slo, int shi)
{
    Conf c{};
    c.n = n, c.strat = vh_concretize(vh_int("strat", slo, shi)), c.late = vh_concretize(vh_int("late", 0, 1)), c.once = c.strat == LAZY ? 1 : vh_concretize(vh_int("once", 0, 1));
    for (int r = 0; r < n; r++) c.len[r] = vh_concretize(vh_int("len", 0, hi));
    return c;
}
static void two(int lo, int hi)
{
    int lay = vh_concretize(vh_int("lay", lo, hi));
    Conf c = conf(2, 2, 0, 3);
    if (lo > 2 && c.len[0] + c.len[1] > 3) vh_assume(false); // row sizes vary: at most 3 rows
    pick(lay, c, 2);
}
VH_ENTRY h_table() { two(0, 2); }
VH_ENTRY h_max() { two(3, 4); }
VH_ENTRY h_csr() { two(5, 6); }
VH_ENTRY h_three()
{
    int lay = vh_concretize(vh_int("lay", 0, 6));
    Conf c = conf(3, 1, 0, 2);
    pick(lay, c, 1);
}
VH_ENTRY h_pushmap()
{
    int lay = vh_concretize(vh_int("lay", 0, 6));
    Conf c = conf(2, 2, 0, 2);
    c.pushmap = 1;
    if (c.len[0] + c.len[1] > 2) vh_assume(false);
    pick(lay, c, 2);
}
}
