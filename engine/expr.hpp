// Hash-consed bit-vector / boolean expression DAG with translation to Z3.
#pragma once
#include "poly.hpp"
#include <z3++.h>
#include <cstring>
#include <optional>
#include <unordered_set>

using NodeId = uint32_t;
enum class Op : uint8_t
{
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, RCMP
};
enum Rel : uint8_t { RLT, RLE, REQ };

struct Node
{
    Op op;
    uint16_t w;
    uint32_t a = 0, b = 0, c = 0;
    uint64_t val = 0; // const value / var idx / extract lo / rcmp: poly idx
    int supp = -1;    // index in supports
    int64_t lo = 0, hi = 0; // signed value range
};
struct BVVar { std::string name; uint16_t w; int64_t lo, hi; };

struct Hint
{
    std::vector<uint64_t> bv;
    std::vector<double> rv;
};
using HintP = std::shared_ptr<const Hint>;

constexpr uint32_t RBASE = 1u << 30;

struct ExprMgr
{
    std::vector<Node> n;
    std::unordered_map<std::string, NodeId> idx;
    std::vector<BVVar> bvars;
    std::vector<Poly> rpolys;
    std::unordered_map<std::string, uint32_t> rpolyIdx;
    std::vector<std::vector<uint32_t>> supports;
    std::vector<z3::expr *> z;
    z3::context ctx;
    NodeId T, F;
    ExprMgr()
    {
        supports.push_back({});
        F = cst(0, 1);
        T = cst(1, 1);
    }
    static uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
    static int64_t sx(uint64_t v, unsigned w)
    {
        if (w >= 64) return (int64_t)v;
        uint64_t m = 1ull << (w - 1);
        v = mask(v, w);
        return (int64_t)((v ^ m) - m);
    }
    bool isC(NodeId i) const { return n[i].op == Op::CONST; }
    uint64_t cv(NodeId i) const { return n[i].val; }
    static int64_t smin(unsigned w) { return w >= 64 ? INT64_MIN : -(int64_t(1) << (w - 1)); }
    static int64_t smax(unsigned w) { return w >= 64 ? INT64_MAX : (int64_t(1) << (w - 1)) - 1; }
    void computeRange(Node &nd)
    {
        unsigned w = nd.w;
        if (w == 1) { nd.lo = 0; nd.hi = 1; if (nd.op == Op::CONST) nd.lo = nd.hi = nd.val; return; }
        nd.lo = smin(w);
        nd.hi = smax(w);
        auto set = [&](__int128 l, __int128 h) { if (l >= smin(w) && h <= smax(w)) { nd.lo = (int64_t)l; nd.hi = (int64_t)h; } };
        switch (nd.op)
        {
        case Op::CONST: nd.lo = nd.hi = sx(nd.val, w); break;
        case Op::VAR: set(bvars[nd.val].lo, bvars[nd.val].hi); break;
        case Op::ADD: set((__int128)n[nd.a].lo + n[nd.b].lo, (__int128)n[nd.a].hi + n[nd.b].hi); break;
        case Op::SUB: set((__int128)n[nd.a].lo - n[nd.b].hi, (__int128)n[nd.a].hi - n[nd.b].lo); break;
        case Op::MUL:
        {
            __int128 c[4] = {(__int128)n[nd.a].lo * n[nd.b].lo, (__int128)n[nd.a].lo * n[nd.b].hi, (__int128)n[nd.a].hi * n[nd.b].lo, (__int128)n[nd.a].hi * n[nd.b].hi};
            __int128 l = c[0], h = c[0];
            for (auto x : c) { if (x < l) l = x; if (x > h) h = x; }
            set(l, h);
            break;
        }
        case Op::UDIV: case Op::SDIV:
            if (n[nd.a].lo >= 0 && n[nd.b].lo > 0) set(n[nd.a].lo / n[nd.b].hi, n[nd.a].hi / n[nd.b].lo);
            break;
        case Op::UREM: case Op::SREM:
            if (n[nd.a].lo >= 0 && n[nd.b].lo > 0) set(0, std::min(n[nd.a].hi, n[nd.b].hi - 1));
            break;
        case Op::LSHR:
            if (n[nd.a].lo >= 0 && n[nd.b].op == Op::CONST && n[nd.b].val < w) set(n[nd.a].lo >> n[nd.b].val, n[nd.a].hi >> n[nd.b].val);
            break;
        case Op::ASHR:
            if (n[nd.b].op == Op::CONST && n[nd.b].val < w) set(n[nd.a].lo >> n[nd.b].val, n[nd.a].hi >> n[nd.b].val);
            break;
        case Op::AND:
            if (n[nd.a].lo >= 0 && n[nd.b].lo >= 0) set(0, std::min(n[nd.a].hi, n[nd.b].hi));
            else if (n[nd.a].lo >= 0) set(0, n[nd.a].hi);
            else if (n[nd.b].lo >= 0) set(0, n[nd.b].hi);
            break;
        case Op::ITE: set(std::min(n[nd.b].lo, n[nd.c].lo), std::max(n[nd.b].hi, n[nd.c].hi)); break;
        case Op::ZEXT:
            if (n[nd.a].lo >= 0) set(n[nd.a].lo, n[nd.a].hi);
            else if (n[nd.a].w < 63) set(0, (int64_t(1) << n[nd.a].w) - 1);
            break;
        case Op::SEXT: set(n[nd.a].lo, n[nd.a].hi); break;
        case Op::EXTRACT:
            if (nd.val == 0 && n[nd.a].lo >= smin(w) && n[nd.a].hi <= smax(w)) set(n[nd.a].lo, n[nd.a].hi);
            break;
        default: break;
        }
    }
    static unsigned fitW(__int128 l, __int128 h)
    {
        for (unsigned m : {8u, 16u, 32u})
            if (l >= smin(m) && h <= smax(m)) return m;
        return 64;
    }
    NodeId intern(Node nd)
    {
        std::string k(reinterpret_cast<const char *>(&nd.op), 1);
        k.append((const char *)&nd.w, 2).append((const char *)&nd.a, 4).append((const char *)&nd.b, 4).append((const char *)&nd.c, 4).append((const char *)&nd.val, 8);
        auto it = idx.find(k);
        if (it != idx.end()) return it->second;
        // support
        std::vector<uint32_t> s;
        auto addS = [&](NodeId c) {
            auto &o = supports[n[c].supp];
            std::vector<uint32_t> r;
            std::set_union(s.begin(), s.end(), o.begin(), o.end(), std::back_inserter(r));
            s.swap(r);
        };
        if (nd.op == Op::VAR) s.push_back(nd.val);
        else if (nd.op == Op::RCMP)
        {
            for (auto &t : rpolys[nd.val].t)
                for (auto &f : G.monos[t.first].f) s.push_back(RBASE + f.first);
            std::sort(s.begin(), s.end());
            s.erase(std::unique(s.begin(), s.end()), s.end());
        }
        else if (nd.op != Op::CONST)
        {
            addS(nd.a);
            if (nd.op != Op::ZEXT && nd.op != Op::SEXT && nd.op != Op::EXTRACT) addS(nd.b);
            if (nd.op == Op::ITE) addS(nd.c);
        }
        computeRange(nd);
        if (s.empty()) nd.supp = 0;
        else { nd.supp = supports.size(); supports.push_back(std::move(s)); }
        NodeId id = n.size();
        n.push_back(nd);
        z.push_back(nullptr);
        idx.emplace(std::move(k), id);
        return id;
    }
    NodeId cst(uint64_t v, unsigned w)
    {
        Node x{Op::CONST, (uint16_t)w};
        x.val = mask(v, w);
        return intern(x);
    }
    NodeId var(uint32_t i)
    {
        Node x{Op::VAR, bvars[i].w};
        x.val = i;
        return intern(x);
    }
    NodeId rcmp(const Poly &p, Rel rel)
    {
        if (p.isConst())
        {
            int s = sgn(p.constVal());
            return (rel == RLT ? s < 0 : rel == RLE ? s <= 0 : s == 0) ? T : F;
        }
        Interval iv = polyIv(p);
        if (iv.lo > 0) return F;
        if (iv.hi < 0) return rel == REQ ? F : T;
        // scale to leading coefficient magnitude 1 for sharing
        mpq_class c = abs(p.t[0].second);
        Poly q = pscale(p, 1 / c);
        if (rel == REQ && q.t[0].second < 0) q = pscale(q, -1);
        std::string k = polyKey(q);
        uint32_t pi;
        auto it = rpolyIdx.find(k);
        if (it == rpolyIdx.end())
        {
            pi = rpolys.size();
            rpolys.push_back(q);
            rpolyIdx.emplace(k, pi);
        }
        else pi = it->second;
        Node x{Op::RCMP, 1};
        x.val = pi;
        x.a = rel;
        return intern(x);
    }
    NodeId mk(Op op, NodeId a, NodeId b, unsigned w) // binary
    {
        uint64_t x = cv(a), y = cv(b);
        unsigned wa = n[a].w;
        bool ca = isC(a), cb = isC(b);
        if (ca && cb)
        {
            switch (op)
            {
            case Op::ADD: return cst(x + y, w);
            case Op::SUB: return cst(x - y, w);
            case Op::MUL: return cst(x * y, w);
            case Op::UDIV: if (y) return cst(x / y, w); break;
            case Op::UREM: if (y) return cst(x % y, w); break;
            case Op::SDIV: if (y && !(sx(y, wa) == -1)) return cst(sx(x, wa) / sx(y, wa), w); break;
            case Op::SREM: if (y && !(sx(y, wa) == -1)) return cst(sx(x, wa) % sx(y, wa), w); break;
            case Op::SHL: return cst(y >= w ? 0 : x << y, w);
            case Op::LSHR: return cst(y >= w ? 0 : x >> y, w);
            case Op::ASHR: return cst(sx(x, w) >> (y >= w ? w - 1 : y), w);
            case Op::AND: return cst(x & y, w);
            case Op::OR: return cst(x | y, w);
            case Op::XOR: return cst(x ^ y, w);
            case Op::EQ: return x == y ? T : F;
            case Op::ULT: return x < y ? T : F;
            case Op::ULE: return x <= y ? T : F;
            case Op::SLT: return sx(x, wa) < sx(y, wa) ? T : F;
            case Op::SLE: return sx(x, wa) <= sx(y, wa) ? T : F;
            case Op::CONCAT: return cst((x << n[b].w) | y, w);
            default: break;
            }
        }
        uint64_t ones = mask(~0ull, w);
        switch (op)
        {
        case Op::ADD:
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (cb && y == 0) return a;
            if (cb && n[a].op == Op::ADD && isC(n[a].b)) return mk(Op::ADD, n[a].a, cst(cv(n[a].b) + y, w), w);
            break;
        case Op::SUB:
            if (cb) return mk(Op::ADD, a, cst(0 - y, w), w);
            if (a == b) return cst(0, w);
            break;
        case Op::MUL:
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (cb && y == 0) return b;
            if (cb && y == 1) return a;
            break;
        case Op::UDIV: case Op::SDIV:
            if (cb && y == 1) return a;
            break;
        case Op::SHL: case Op::LSHR: case Op::ASHR:
            if (cb && y == 0) return a;
            break;
        case Op::AND:
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (cb && y == 0) return b;
            if (cb && y == ones) return a;
            if (a == b) return a;
            break;
        case Op::OR:
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (cb && y == 0) return a;
            if (cb && y == ones) return b;
            if (a == b) return a;
            break;
        case Op::XOR:
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (cb && y == 0) return a;
            if (a == b) return cst(0, w);
            if (w == 1 && cb && y == 1 && n[a].op == Op::XOR && isC(n[a].b)) return n[a].a;
            break;
        case Op::EQ:
            if (a == b) return T;
            if (ca) std::swap(a, b), std::swap(ca, cb), std::swap(x, y);
            if (wa == 1 && cb) return y ? a : bnot(a);
            if (cb && n[a].op == Op::ZEXT)
            {
                unsigned wi = n[n[a].a].w;
                if (mask(y, wi) != y) return F;
                return mk(Op::EQ, n[a].a, cst(y, wi), 1);
            }
            if (cb && n[a].op == Op::SEXT)
            {
                unsigned wi = n[n[a].a].w;
                if (mask(sx(y, wi), wa) != y) return F;
                return mk(Op::EQ, n[a].a, cst(y, wi), 1);
            }
            if (cb && n[a].op == Op::ADD && isC(n[a].b)) return mk(Op::EQ, n[a].a, cst(y - cv(n[a].b), wa), 1);
            if (cb && n[a].op == Op::ITE && isC(n[a].b) && isC(n[a].c))
            {
                bool t = cv(n[a].b) == y, f = cv(n[a].c) == y;
                if (t && f) return T;
                if (!t && !f) return F;
                return t ? n[a].a : bnot(n[a].a);
            }
            break;
        case Op::ULT: case Op::SLT:
            if (a == b) return F;
            if (op == Op::ULT && cb && y == 0) return F;
            break;
        case Op::ULE: case Op::SLE:
            if (a == b) return T;
            break;
        default: break;
        }
        {
            __int128 al = n[a].lo, ah = n[a].hi, bl = n[b].lo, bh = n[b].hi;
            if (wa > 1)
            {
                // decide comparisons on ranges
                if (op == Op::SLT) { if (ah < bl) return T; if (al >= bh) return F; }
                if (op == Op::SLE) { if (ah <= bl) return T; if (al > bh) return F; }
                if ((op == Op::ULT || op == Op::ULE) && al >= 0 && bl >= 0) return mk(op == Op::ULT ? Op::SLT : Op::SLE, a, b, 1);
                if ((op == Op::ULT || op == Op::ULE) && al >= 0 && bh < 0) return T;
                if ((op == Op::ULT || op == Op::ULE) && ah < 0 && bl >= 0) return F;
                if (op == Op::EQ && (ah < bl || al > bh)) return F;
            }
            __int128 l = std::min(al, bl), h = std::max(ah, bh);
            if (op == Op::SLT || op == Op::SLE || op == Op::EQ)
            {
                unsigned m = fitW(l, h);
                if (wa > m && wa > 1) return mk(op, extract(a, 0, m), extract(b, 0, m), 1);
            }
            else if (w > 8 && (op == Op::ADD || op == Op::SUB || op == Op::MUL))
            {
                __int128 rl, rh;
                if (op == Op::ADD) rl = al + bl, rh = ah + bh;
                else if (op == Op::SUB) rl = al - bh, rh = ah - bl;
                else
                {
                    __int128 c[4] = {al * bl, al * bh, ah * bl, ah * bh};
                    rl = rh = c[0];
                    for (auto q : c) { if (q < rl) rl = q; if (q > rh) rh = q; }
                }
                unsigned m = fitW(std::min(l, rl), std::max(h, rh));
                if (m < w) return sext(mk(op, extract(a, 0, m), extract(b, 0, m), m), w);
            }
            else if (w > 8 && (op == Op::UDIV || op == Op::SDIV || op == Op::UREM || op == Op::SREM) && al >= 0 && bl > 0)
            {
                unsigned m = fitW(l, h);
                Op uo = op == Op::SDIV ? Op::UDIV : op == Op::SREM ? Op::UREM : op;
                if ((uo == Op::UREM) && ah < bl) return a;
                if (m < w) return sext(mk(uo, extract(a, 0, m), extract(b, 0, m), m), w);
            }
            else if (w > 8 && (op == Op::LSHR || op == Op::ASHR) && al >= 0 && cb && y < 8)
            {
                unsigned m = fitW(l, h);
                if (m < w) return sext(mk(Op::LSHR, extract(a, 0, m), cst(y, m), m), w);
            }
            else if (w > 8 && op == Op::SHL && cb && y < 31)
            {
                __int128 f = (__int128)1 << y;
                unsigned m = fitW(std::min(al, al * f), std::max(ah, ah * f));
                if (m < w) return mk(Op::MUL, a, cst(1ull << y, w), w);
            }
            else if (w > 8 && (op == Op::AND || op == Op::OR || op == Op::XOR))
            {
                unsigned m = fitW(l, h);
                if (m < w) return sext(mk(op, extract(a, 0, m), extract(b, 0, m), m), w);
            }
        }
        Node nd{op, (uint16_t)w};
        nd.a = a;
        nd.b = b;
        return intern(nd);
    }
    NodeId bnot(NodeId a) { return mk(Op::XOR, a, T, 1); }
    NodeId band(NodeId a, NodeId b) { return mk(Op::AND, a, b, 1); }
    NodeId bor(NodeId a, NodeId b) { return mk(Op::OR, a, b, 1); }
    NodeId ite(NodeId c, NodeId a, NodeId b)
    {
        if (isC(c)) return cv(c) ? a : b;
        if (a == b) return a;
        unsigned w = n[a].w;
        if (w == 1)
        {
            if (isC(a) && isC(b)) return cv(a) ? c : bnot(c);
            return bor(band(c, a), band(bnot(c), b));
        }
        Node nd{Op::ITE, (uint16_t)w};
        nd.a = c; nd.b = a; nd.c = b;
        return intern(nd);
    }
    NodeId zext(NodeId a, unsigned w)
    {
        if (n[a].w == w) return a;
        if (isC(a)) return cst(cv(a), w);
        if (n[a].w == 1) return ite(a, cst(1, w), cst(0, w));
        if (n[a].lo >= 0) return sext(a, w);
        if (n[a].op == Op::ZEXT) a = n[a].a;
        if (n[a].op == Op::ITE && isC(n[a].b) && isC(n[a].c)) return ite(n[a].a, cst(cv(n[a].b), w), cst(cv(n[a].c), w));
        Node nd{Op::ZEXT, (uint16_t)w};
        nd.a = a;
        return intern(nd);
    }
    NodeId sext(NodeId a, unsigned w)
    {
        if (n[a].w == w) return a;
        if (isC(a)) return cst(sx(cv(a), n[a].w), w);
        if (n[a].w == 1) return ite(a, cst(~0ull, w), cst(0, w));
        if (n[a].op == Op::ZEXT) return zext(n[a].a, w);
        if (n[a].op == Op::SEXT) a = n[a].a;
        if (n[a].op == Op::ITE && isC(n[a].b) && isC(n[a].c)) return ite(n[a].a, cst(sx(cv(n[a].b), n[a].w), w), cst(sx(cv(n[a].c), n[a].w), w));
        Node nd{Op::SEXT, (uint16_t)w};
        nd.a = a;
        return intern(nd);
    }
    NodeId extract(NodeId a, unsigned lo, unsigned w)
    {
        if (lo == 0 && n[a].w == w) return a;
        if (isC(a)) return cst(cv(a) >> lo, w);
        if (n[a].op == Op::EXTRACT) return extract(n[a].a, lo + n[a].val, w);
        if (n[a].op == Op::CONCAT)
        {
            unsigned wl = n[n[a].b].w;
            if (lo + w <= wl) return extract(n[a].b, lo, w);
            if (lo >= wl) return extract(n[a].a, lo - wl, w);
        }
        if (n[a].op == Op::ZEXT || n[a].op == Op::SEXT)
        {
            unsigned wi = n[n[a].a].w;
            if (lo + w <= wi) return extract(n[a].a, lo, w);
            if (n[a].op == Op::ZEXT && lo >= wi) return cst(0, w);
            if (lo == 0 && w > wi) return n[a].op == Op::ZEXT ? zext(n[a].a, w) : sext(n[a].a, w);
        }
        if (n[a].op == Op::ITE && isC(n[a].b) && isC(n[a].c)) return ite(n[a].a, extract(n[a].b, lo, w), extract(n[a].c, lo, w));
        if (n[a].op == Op::ITE && lo == 0 && w > 1) return ite(n[a].a, extract(n[a].b, 0, w), extract(n[a].c, 0, w));
        if (lo == 0 && w > 1 && (n[a].op == Op::ADD || n[a].op == Op::SUB || n[a].op == Op::MUL || n[a].op == Op::AND || n[a].op == Op::OR || n[a].op == Op::XOR))
            return mk(n[a].op, extract(n[a].a, 0, w), extract(n[a].b, 0, w), w);
        if (w == 1)
        {
            Node nd{Op::EXTRACT, 8};
            // extract single bit: represent as bool via (a>>lo)&1 == 1
            NodeId s = mk(Op::AND, mk(Op::LSHR, a, cst(lo, n[a].w), n[a].w), cst(1, n[a].w), n[a].w);
            return mk(Op::EQ, s, cst(1, n[a].w), 1);
        }
        Node nd{Op::EXTRACT, (uint16_t)w};
        nd.a = a;
        nd.val = lo;
        return intern(nd);
    }
    NodeId concat(NodeId hi, NodeId lo)
    {
        unsigned w = n[hi].w + n[lo].w;
        if (isC(hi) && cv(hi) == 0) return zext(lo, w);
        if (n[hi].op == Op::EXTRACT && n[lo].op == Op::EXTRACT && n[hi].a == n[lo].a && n[hi].val == n[lo].val + n[lo].w)
            return extract(n[hi].a, n[lo].val, w);
        return mk(Op::CONCAT, hi, lo, w);
    }
    // ---- evaluation under a hint; nullopt = numerically uncertain
    std::optional<uint64_t> eval(NodeId r, const Hint &h, std::unordered_map<NodeId, std::optional<uint64_t>> &memo)
    {
        const Node nd = n[r];
        if (nd.op == Op::CONST) return nd.val;
        if (nd.op == Op::VAR) return nd.val < h.bv.size() ? std::optional<uint64_t>(h.bv[nd.val]) : std::nullopt;
        auto it = memo.find(r);
        if (it != memo.end()) return it->second;
        std::optional<uint64_t> res;
        if (nd.op == Op::RCMP)
        {
            const Poly &p = rpolys[nd.val];
            bool ok = true;
            for (auto s : supports[nd.supp])
                if (s - RBASE >= h.rv.size() || std::isnan(h.rv[s - RBASE])) ok = false;
            if (ok)
            {
                double v = polyEval(p, h.rv), m = polyMag(p, h.rv);
                if (std::abs(v) > 1e-9 * m)
                    res = nd.a == REQ ? 0 : (v < 0 ? 1 : 0);
            }
        }
        else
        {
            auto A = eval(nd.a, h, memo);
            if (nd.op == Op::ITE)
            {
                if (A) res = *A ? eval(nd.b, h, memo) : eval(nd.c, h, memo);
            }
            else if (nd.op == Op::ZEXT) { if (A) res = *A; }
            else if (nd.op == Op::SEXT) { if (A) res = mask(sx(*A, n[nd.a].w), nd.w); }
            else if (nd.op == Op::EXTRACT) { if (A) res = mask(*A >> nd.val, nd.w); }
            else
            {
                auto B = eval(nd.b, h, memo);
                unsigned wa = n[nd.a].w;
                if (nd.op == Op::AND && nd.w == 1 && ((A && !*A) || (B && !*B))) res = 0;
                else if (nd.op == Op::OR && nd.w == 1 && ((A && *A) || (B && *B))) res = 1;
                else if (A && B)
                {
                    uint64_t x = *A, y = *B;
                    switch (nd.op)
                    {
                    case Op::ADD: res = x + y; break;
                    case Op::SUB: res = x - y; break;
                    case Op::MUL: res = x * y; break;
                    case Op::UDIV: res = y ? x / y : ~0ull; break;
                    case Op::UREM: res = y ? x % y : x; break;
                    case Op::SDIV: { int64_t p = sx(x, wa), q = sx(y, wa); res = q == 0 ? (p < 0 ? 1 : ~0ull) : q == -1 ? 0 - x : (uint64_t)(p / q); break; }
                    case Op::SREM: { int64_t p = sx(x, wa), q = sx(y, wa); res = q == 0 ? x : q == -1 ? 0 : (uint64_t)(p % q); break; }
                    case Op::SHL: res = y >= nd.w ? 0 : x << y; break;
                    case Op::LSHR: res = y >= nd.w ? 0 : x >> y; break;
                    case Op::ASHR: res = sx(x, nd.w) >> (y >= nd.w ? nd.w - 1 : y); break;
                    case Op::AND: res = x & y; break;
                    case Op::OR: res = x | y; break;
                    case Op::XOR: res = x ^ y; break;
                    case Op::EQ: res = x == y; break;
                    case Op::ULT: res = x < y; break;
                    case Op::ULE: res = x <= y; break;
                    case Op::SLT: res = sx(x, wa) < sx(y, wa); break;
                    case Op::SLE: res = sx(x, wa) <= sx(y, wa); break;
                    case Op::CONCAT: res = (x << n[nd.b].w) | y; break;
                    default: break;
                    }
                    if (res) res = mask(*res, nd.w);
                }
            }
        }
        memo[r] = res;
        return res;
    }
    // ---- z3
    std::vector<z3::expr *> zrv;
    z3::expr zreal(uint32_t v)
    {
        if (zrv.size() <= v) zrv.resize(v + 64, nullptr);
        if (!zrv[v]) zrv[v] = new z3::expr(ctx.real_const(("r" + std::to_string(v)).c_str()));
        return *zrv[v];
    }
    z3::expr zq(const mpq_class &q) { return ctx.real_val(q.get_str().c_str()); }
    z3::expr zpoly(const Poly &p)
    {
        if (p.isZero()) return ctx.real_val(0);
        // scale by common denominator to have integer coefficients
        z3::expr_vector sum(ctx);
        for (auto &t : p.t)
        {
            z3::expr_vector pr(ctx);
            if (t.second != 1 || t.first == 0) pr.push_back(zq(t.second));
            for (auto &f : G.monos[t.first].f)
                for (uint32_t k = 0; k < f.second; k++) pr.push_back(zreal(f.first));
            if (pr.size() == 1) sum.push_back(pr[0]);
            else
            {
                std::vector<Z3_ast> as;
                for (unsigned i = 0; i < pr.size(); i++) as.push_back(pr[i]);
                sum.push_back(z3::expr(ctx, Z3_mk_mul(ctx, as.size(), as.data())));
            }
        }
        if (sum.size() == 1) return sum[0];
        return z3::sum(sum);
    }
    Poly intScale(const Poly &p)
    {
        mpz_class l = 1;
        for (auto &t : p.t) l = lcm(l, t.second.get_den());
        return pscale(p, mpq_class(l));
    }
    z3::expr ze(NodeId i)
    {
        if (z[i]) return *z[i];
        const Node nd = n[i];
        z3::expr r(ctx);
        if (nd.op == Op::CONST) r = nd.w == 1 ? ctx.bool_val(nd.val != 0) : ctx.bv_val((uint64_t)nd.val, nd.w);
        else if (nd.op == Op::VAR) r = nd.w == 1 ? ctx.bool_const(("b" + std::to_string(nd.val)).c_str()) : ctx.bv_const(("x" + std::to_string(nd.val)).c_str(), nd.w);
        else if (nd.op == Op::RCMP)
        {
            z3::expr p = zpoly(intScale(rpolys[nd.val]));
            r = nd.a == RLT ? p < 0 : nd.a == RLE ? p <= 0 : p == 0;
        }
        else
        {
            z3::expr a = ze(nd.a);
            switch (nd.op)
            {
            case Op::ZEXT: r = z3::zext(a, nd.w - n[nd.a].w); break;
            case Op::SEXT: r = z3::sext(a, nd.w - n[nd.a].w); break;
            case Op::EXTRACT: r = a.extract(nd.val + nd.w - 1, nd.val); break;
            case Op::ITE: r = z3::ite(a, ze(nd.b), ze(nd.c)); break;
            default:
            {
                z3::expr b = ze(nd.b);
                bool B = nd.w == 1 && n[nd.a].w == 1;
                switch (nd.op)
                {
                case Op::ADD: r = a + b; break;
                case Op::SUB: r = a - b; break;
                case Op::MUL: r = a * b; break;
                case Op::UDIV: r = z3::udiv(a, b); break;
                case Op::SDIV: r = a / b; break;
                case Op::UREM: r = z3::urem(a, b); break;
                case Op::SREM: r = z3::srem(a, b); break;
                case Op::SHL: r = z3::shl(a, b); break;
                case Op::LSHR: r = z3::lshr(a, b); break;
                case Op::ASHR: r = z3::ashr(a, b); break;
                case Op::AND: r = B ? (a && b) : (a & b); break;
                case Op::OR: r = B ? (a || b) : (a | b); break;
                case Op::XOR: if (B) r = z3::expr(ctx, Z3_mk_xor(ctx, a, b)); else r = a ^ b; break;
                case Op::EQ: r = a == b; break;
                case Op::ULT: r = z3::ult(a, b); break;
                case Op::ULE: r = z3::ule(a, b); break;
                case Op::SLT: r = B ? (a && !b) : z3::slt(a, b); break;
                case Op::SLE: r = B ? (a || !b) : z3::sle(a, b); break;
                case Op::CONCAT: r = z3::concat(a, b); break;
                default: throw std::runtime_error("ze: op");
                }
            }
            }
        }
        z[i] = new z3::expr(r);
        return r;
    }
};
