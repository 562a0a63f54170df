//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P05","entry":"h_history","bounds":"pool of 0..2 objects, 3 handles, any history of 4 operations (get, getAlloc, getAllocInit, drop, move, move-assign, shrink/grow the pool, drop the pool)","reach":["hist","empty","orphan"],"shard":[["op",0,7]]}
//@run {"prop":"P05","entry":"h_resize","bounds":"0..3 objects made from any arguments passed by value or reference, with and without initialiser","reach":["resize"]}
#include "vh.h"
#include <memory>
#include <vector>
#include "DNDS/ObjectPool.hpp"
namespace DNDS::VH {
static int live = 0;
struct Obj
{
    long v;
    std::vector<long> w;
    Obj(long x = -1) : v(x) { live++; }
    Obj(std::vector<long> y) : v(-2), w(std::move(y)) { live++; }
    Obj(const Obj &) = delete;
    ~Obj() { live--; v = -99; }
};
using Pool = ObjectPool<Obj>;
using H = Pool::ObjectPoolAllocated;
VH_ENTRY h_history()
{
    live = 0;
    {
        auto pool = std::make_unique<Pool>();
        std::unique_ptr<H> h[3];
        long val[3] = {0, 0, 0}; // what each held object holds
        int n0 = vh_concretize(vh_int("n0", 0, 2)), inPool = n0;
        if (n0) pool->resize(n0, 5L);
        vh_assert((int)pool->size() == n0 && live == n0, "the pool holds what it was sized to");
        auto held = [&](int i) { return h[i] && bool(*h[i]); };
        for (int step = 0; step < 4; step++)
        {
            int op = vh_concretize(vh_int(step ? "op2" : "op", 0, 7)), i = vh_concretize(vh_int("i", 0, 1)), j = (i + 1) % 3;
            if (op <= 2 && pool)
            {
                bool had = held(i);
                if (op == 0)
                {
                    H t = pool->get();
                    vh_assert(bool(t) == (inPool > 0), "a handle is empty exactly when the pool was empty");
                    if (!t) vh_reach("empty");
                    if (inPool > 0) inPool--;
                    if (h[i]) *h[i] = std::move(t); else h[i] = std::make_unique<H>(std::move(t));
                }
                else
                {
                    int before = live;
                    H t = op == 1 ? pool->getAlloc(7L) : pool->getAllocInit([](Obj &o) { o.v = 8; }, 7L);
                    vh_assert(bool(t), "an allocating get always gives an object");
                    if (inPool > 0) vh_assert(live == before, "a pooled object is reused"), inPool--;
                    else vh_assert(live == before + 1 && (*t).v == (op == 1 ? 7 : 8), "a new object is made and initialised");
                    if (h[i]) *h[i] = std::move(t); else h[i] = std::make_unique<H>(std::move(t));
                }
                if (had) inPool++; // the object held before goes back
            }
            if (op == 3 && h[i])
            {
                if (held(i) && pool) inPool++;
                h[i].reset();
            }
            if (op == 4 && h[i] && !h[j]) h[j] = std::make_unique<H>(std::move(*h[i])), val[j] = val[i];
            if (op == 5 && h[i] && h[j])
            {
                if (held(j) && pool) inPool++;
                *h[j] = std::move(*h[i]), val[j] = val[i];
                vh_assert(!held(i), "a moved-from handle holds nothing");
            }
            if (op == 6 && pool)
            {
                inPool = vh_concretize(vh_int("n", 0, 2));
                pool->resizeInit(inPool, [](Obj &o) { o.v = 3; });
            }
            if (op == 7) pool.reset(), inPool = 0;
            int nh = 0;
            for (int q = 0; q < 3; q++)
            {
                if (!held(q)) continue;
                nh++;
                if (op <= 2 && q == i && pool) val[q] = 100 + step, (**h[q]).v = val[q];
                vh_assert((**h[q]).v == val[q] && (*h[q])->v == val[q], "a held object keeps its contents and is no one else's");
                for (int p = 0; p < q; p++) vh_assert(!held(p) || &**h[p] != &**h[q], "no object is handed out twice");
            }
            if (pool) vh_assert((int)pool->size() == inPool, "objects let go return to the pool");
            else vh_reach("orphan");
            vh_assert(live == nh + inPool, "no object is lost or leaked");
        }
    }
    vh_assert(live == 0, "every object is destroyed once");
    vh_reach("hist");
}
VH_ENTRY h_resize()
{
    live = 0;
    {
        Pool p;
        int n = vh_concretize(vh_int("n", 0, 3)), how = vh_concretize(vh_int("how", 0, 3));
        long a = vh_int("a", -100, 100), b = vh_int("b", -100, 100);
        std::vector<long> arg{a, b};
        if (how == 0) p.resize(n, arg);
        if (how == 1) p.resize(n, std::vector<long>{a, b});
        if (how == 2) p.resizeInit(n, [](Obj &o) { o.v = 3; }, arg);
        if (how == 3) p.resizeInit(n, [](Obj &o) { o.v = 3; }, std::vector<long>{a, b});
        vh_assert((int)p.size() == n && live == n, "as many objects as asked for");
        for (int i = 0; i < n; i++)
        {
            auto &o = *p.pPool->_pool[i];
            vh_assert(o.v == (how < 2 ? -2 : 3), "every object is initialised");
            vh_assert(o.w.size() == 2 && o.w[0] == a && o.w[1] == b, "every object is made from the arguments");
        }
    }
    vh_assert(live == 0, "every object is destroyed once");
    vh_reach("resize");
}
}
