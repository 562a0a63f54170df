// Exact multivariate polynomials / rational functions over Q, used as the
// normal form of symbolic `double` values (real semantics).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };
extern size_t g_polyTermLimit;

using MonoId = uint32_t;
struct Mono { std::vector<std::pair<uint32_t, uint32_t>> f; uint32_t deg = 0; }; // sorted by var

struct Interval { double lo, hi; };

struct Poly;
struct RVar
{
    std::string name;
    int kind = 0;            // 0 = input, 1 = sqrt (v^2 = sq, v >= 0), 2 = uninterpreted fn, 3 = sin, 4 = cos(pair)
    double lo = -INFINITY, hi = INFINITY;
    std::shared_ptr<Poly> sq; // for kind 1 / kind 3 : v^2 replacement polynomial
    std::function<double(const std::vector<double> &)> evalf; // numeric evaluation from other vars
    int inputIdx = -1;       // index of symbolic input
};

struct Globals
{
    std::vector<Mono> monos;
    std::unordered_map<std::string, MonoId> monoIdx;
    std::unordered_map<uint64_t, MonoId> prodCache;
    std::vector<RVar> vars;
    bool anySq = false;
};
extern Globals G;

inline MonoId internMono(Mono &&m)
{
    std::string key;
    key.resize(m.f.size() * 8);
    for (size_t i = 0; i < m.f.size(); i++)
    {
        memcpy(&key[i * 8], &m.f[i].first, 4);
        memcpy(&key[i * 8 + 4], &m.f[i].second, 4);
    }
    auto it = G.monoIdx.find(key);
    if (it != G.monoIdx.end())
        return it->second;
    m.deg = 0;
    for (auto &p : m.f) m.deg += p.second;
    MonoId id = G.monos.size();
    G.monos.push_back(std::move(m));
    G.monoIdx.emplace(std::move(key), id);
    return id;
}
inline void polyInit()
{
    if (G.monos.empty()) internMono(Mono{});
}
inline MonoId monoOne() { return 0; }
inline MonoId monoVar(uint32_t v, uint32_t e = 1)
{
    Mono m;
    m.f.push_back({v, e});
    return internMono(std::move(m));
}
inline MonoId monoMul(MonoId a, MonoId b)
{
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    uint64_t k = (uint64_t(a) << 32) | b;
    auto it = G.prodCache.find(k);
    if (it != G.prodCache.end()) return it->second;
    Mono m;
    {
        const auto &x = G.monos[a].f;
        const auto &y = G.monos[b].f;
        size_t i = 0, j = 0;
        while (i < x.size() || j < y.size())
        {
            if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) m.f.push_back(x[i++]);
            else if (i >= x.size() || y[j].first < x[i].first) m.f.push_back(y[j++]);
            else { m.f.push_back({x[i].first, x[i].second + y[j].second}); i++, j++; }
        }
    }
    MonoId r = internMono(std::move(m));
    G.prodCache.emplace(k, r);
    return r;
}
// lex compare: var 0 most significant; returns -1,0,1
inline int monoCmp(MonoId a, MonoId b)
{
    if (a == b) return 0;
    const auto &x = G.monos[a].f;
    const auto &y = G.monos[b].f;
    size_t i = 0;
    for (;; i++)
    {
        if (i >= x.size() && i >= y.size()) return 0;
        if (i >= x.size()) return -1;
        if (i >= y.size()) return 1;
        if (x[i].first != y[i].first) return x[i].first < y[i].first ? 1 : -1;
        if (x[i].second != y[i].second) return x[i].second < y[i].second ? -1 : 1;
    }
}
// a / b if divisible
inline bool monoDiv(MonoId a, MonoId b, MonoId &out)
{
    if (b == 0) { out = a; return true; }
    const auto &x = G.monos[a].f;
    const auto &y = G.monos[b].f;
    Mono m;
    size_t i = 0;
    for (size_t j = 0; j < y.size(); j++)
    {
        while (i < x.size() && x[i].first < y[j].first) m.f.push_back(x[i++]);
        if (i >= x.size() || x[i].first != y[j].first || x[i].second < y[j].second) return false;
        if (x[i].second > y[j].second) m.f.push_back({x[i].first, x[i].second - y[j].second});
        i++;
    }
    while (i < x.size()) m.f.push_back(x[i++]);
    out = internMono(std::move(m));
    return true;
}

struct Poly
{
    std::vector<std::pair<MonoId, mpq_class>> t; // sorted by id, nonzero
    bool isZero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].second; }
    static Poly c(const mpq_class &q)
    {
        Poly p;
        if (q != 0) p.t.push_back({0, q});
        return p;
    }
    static Poly var(uint32_t v)
    {
        Poly p;
        p.t.push_back({monoVar(v), mpq_class(1)});
        return p;
    }
    bool operator==(const Poly &o) const { return t == o.t; }
};

using Acc = std::unordered_map<MonoId, mpq_class>;
inline Poly fromAcc(Acc &a)
{
    Poly p;
    p.t.reserve(a.size());
    for (auto &kv : a)
        if (kv.second != 0) p.t.push_back({kv.first, std::move(kv.second)});
    std::sort(p.t.begin(), p.t.end(), [](auto &x, auto &y) { return x.first < y.first; });
    return p;
}
inline Poly padd(const Poly &a, const Poly &b, int sgn = 1)
{
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size())
    {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i >= a.t.size() || b.t[j].first < a.t[i].first)
        {
            r.t.push_back(b.t[j++]);
            if (sgn < 0) r.t.back().second = -r.t.back().second;
        }
        else
        {
            mpq_class q = sgn > 0 ? mpq_class(a.t[i].second + b.t[j].second) : mpq_class(a.t[i].second - b.t[j].second);
            if (q != 0) r.t.push_back({a.t[i].first, std::move(q)});
            i++, j++;
        }
    }
    return r;
}
inline Poly pscale(const Poly &a, const mpq_class &q)
{
    Poly r;
    if (q == 0) return r;
    r.t.reserve(a.t.size());
    for (auto &x : a.t) r.t.push_back({x.first, x.second * q});
    return r;
}
Poly pmul(const Poly &a, const Poly &b);
inline Poly reduceSq(Poly p)
{
    if (!G.anySq) return p;
    for (int round = 0; round < 64; round++)
    {
        bool any = false;
        for (auto &x : p.t)
        {
            for (auto &f : G.monos[x.first].f)
                if (f.second >= 2 && G.vars[f.first].sq) { any = true; break; }
            if (any) break;
        }
        if (!any) return p;
        Poly keep, acc;
        for (auto &x : p.t)
        {
            int sv = -1;
            uint32_t e = 0;
            // replace the latest-created root first (its radicand may mention earlier ones)
            const auto &fs = G.monos[x.first].f;
            for (auto &f : fs)
                if (f.second >= 2 && G.vars[f.first].sq) { sv = f.first; e = f.second; }
            if (sv < 0) { keep.t.push_back(x); continue; }
            Mono m;
            for (auto &f : fs)
            {
                if ((int)f.first != sv) m.f.push_back(f);
                else if (e & 1) m.f.push_back({f.first, 1u});
            }
            Poly q;
            q.t.push_back({internMono(std::move(m)), x.second});
            std::shared_ptr<Poly> sq = G.vars[sv].sq;
            for (uint32_t k = 0; k < e / 2; k++) q = pmul(q, *sq);
            acc = padd(acc, q);
        }
        p = padd(keep, acc);
    }
    throw TooBig("sqrt reduction does not terminate");
}
inline Poly pmul(const Poly &a, const Poly &b)
{
    if (a.isZero() || b.isZero()) return Poly();
    if (b.isConst()) return pscale(a, b.constVal());
    if (a.isConst()) return pscale(b, a.constVal());
    if (a.t.size() * b.t.size() > g_polyTermLimit * 8) throw TooBig("polynomial product too large");
    Acc acc;
    acc.reserve(std::min<size_t>(a.t.size() * b.t.size(), 1 << 16));
    mpq_class q;
    for (auto &x : a.t)
        for (auto &y : b.t)
        {
            q = x.second * y.second;
            acc[monoMul(x.first, y.first)] += q;
        }
    Poly r = reduceSq(fromAcc(acc));
    if (r.t.size() > g_polyTermLimit) throw TooBig("polynomial too large");
    return r;
}
inline Poly ppow(const Poly &a, int n)
{
    Poly r = Poly::c(1);
    for (int i = 0; i < n; i++) r = pmul(r, a);
    return r;
}
// exact division; only attempted for polys without sqrt variables shared problematically
inline bool pdivExact(const Poly &a, const Poly &b, Poly &out)
{
    if (b.isZero()) return false;
    if (a.isZero()) { out = Poly(); return true; }
    if (b.isConst()) { out = pscale(a, 1 / b.constVal()); return true; }
    struct Cmp { bool operator()(MonoId x, MonoId y) const { return monoCmp(x, y) > 0; } };
    if (b.t.size() == 1)
    {
        Poly r;
        mpq_class iv = 1 / b.t[0].second;
        for (auto &x : a.t)
        {
            MonoId m;
            if (!monoDiv(x.first, b.t[0].first, m)) return false;
            r.t.push_back({m, x.second * iv});
        }
        std::sort(r.t.begin(), r.t.end(), [](auto &x, auto &y) { return x.first < y.first; });
        out = r;
        return true;
    }
    if (a.t.size() < 2) return false;
    if (a.t.size() * b.t.size() > 60000) return false;
    std::map<MonoId, mpq_class, Cmp> rem;
    for (auto &x : a.t) rem.emplace(x.first, x.second);
    MonoId lb = b.t[0].first;
    mpq_class lc;
    for (auto &y : b.t)
        if (monoCmp(y.first, lb) >= 0) { lb = y.first; lc = y.second; }
    // quick check: trailing monomials divide too
    Acc q;
    size_t steps = 0;
    while (!rem.empty())
    {
        MonoId m;
        auto it = rem.begin();
        if (!monoDiv(it->first, lb, m)) return false;
        mpq_class c = it->second / lc;
        q[m] += c;
        if (++steps > a.t.size() + 16) return false;
        for (auto &y : b.t)
        {
            MonoId mm = monoMul(m, y.first);
            auto jt = rem.find(mm);
            if (jt == rem.end()) rem.emplace(mm, -c * y.second);
            else
            {
                jt->second -= c * y.second;
                if (jt->second == 0) rem.erase(jt);
            }
        }
        if (rem.size() > 4 * a.t.size() + 64) return false;
    }
    out = fromAcc(q);
    return true;
}
inline bool qsqrt(const mpq_class &q, mpq_class &r)
{
    if (q < 0) return false;
    mpz_class n = q.get_num(), d = q.get_den(), sn, sd;
    sn = sqrt(n);
    sd = sqrt(d);
    if (sn * sn != n || sd * sd != d) return false;
    r = mpq_class(sn, sd);
    return true;
}
// exact square root of a polynomial, if it is a perfect square (lex leading-term algorithm)
inline bool psqrtExact(const Poly &a, Poly &out)
{
    if (a.isZero()) { out = a; return true; }
    auto lead = [](const Poly &p) {
        size_t k = 0;
        for (size_t i = 1; i < p.t.size(); i++)
            if (monoCmp(p.t[i].first, p.t[k].first) > 0) k = i;
        return k;
    };
    size_t k = lead(a);
    mpq_class c;
    if (!qsqrt(a.t[k].second, c)) return false;
    Mono m;
    for (auto &f : G.monos[a.t[k].first].f)
    {
        if (f.second & 1) return false;
        m.f.push_back({f.first, f.second / 2});
    }
    MonoId lm = internMono(std::move(m));
    Poly q;
    q.t.push_back({lm, c});
    Poly rem = padd(a, pmul(q, q), -1);
    for (int it = 0; it < 200 && !rem.isZero(); it++)
    {
        size_t r = lead(rem);
        MonoId d;
        if (!monoDiv(rem.t[r].first, lm, d)) return false;
        if (monoCmp(d, lm) >= 0) return false;
        Poly add;
        add.t.push_back({d, mpq_class(rem.t[r].second / (2 * c))});
        Poly q2 = padd(q, add);
        // rem -= 2 q add + add^2
        rem = padd(rem, padd(pscale(pmul(q, add), 2), pmul(add, add)), -1);
        q = q2;
    }
    if (!rem.isZero()) return false;
    out = q;
    return true;
}

// ---- numeric helpers ---------------------------------------------------
inline double qd(const mpq_class &q) { return q.get_d(); }
inline Interval imul(Interval a, Interval b)
{
    auto m = [](double x, double y) { if (x == 0 || y == 0) return 0.0; return x * y; };
    double p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)};
    return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
}
inline Interval ipow(Interval a, uint32_t e)
{
    Interval r{1, 1};
    if (e % 2 == 0)
    {
        double l = std::abs(a.lo), h = std::abs(a.hi);
        double mx = std::max(l, h), mn = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(l, h);
        r.lo = std::pow(mn, e);
        r.hi = std::pow(mx, e);
        return r;
    }
    r.lo = std::pow(a.lo, e);
    r.hi = std::pow(a.hi, e);
    return r;
}
inline Interval varIv(uint32_t v) { return {G.vars[v].lo, G.vars[v].hi}; }
inline Interval monoIv(MonoId m)
{
    Interval r{1, 1};
    for (auto &f : G.monos[m].f) r = imul(r, ipow(varIv(f.first), f.second));
    return r;
}
inline Interval polyIv(const Poly &p)
{
    double lo = 0, hi = 0, mag = 0;
    for (auto &x : p.t)
    {
        Interval m = monoIv(x.first);
        double c = qd(x.second);
        Interval s = imul(m, {c, c});
        lo += s.lo;
        hi += s.hi;
        mag += std::max(std::abs(s.lo), std::abs(s.hi));
    }
    double eps = mag * 1e-12;
    return {lo - eps, hi + eps};
}
inline double polyEval(const Poly &p, const std::vector<double> &x)
{
    long double s = 0;
    for (auto &t : p.t)
    {
        long double v = qd(t.second);
        for (auto &f : G.monos[t.first].f)
            for (uint32_t k = 0; k < f.second; k++) v *= x[f.first];
        s += v;
    }
    return (double)s;
}
inline double polyMag(const Poly &p, const std::vector<double> &x)
{
    double s = 0;
    for (auto &t : p.t)
    {
        double v = std::abs(qd(t.second));
        for (auto &f : G.monos[t.first].f)
            for (uint32_t k = 0; k < f.second; k++) v *= std::abs(x[f.first]);
        s += v;
    }
    return s;
}

// ---- rational functions --------------------------------------------------
using FactorId = uint32_t;
struct FactorTab
{
    std::vector<Poly> f;
    std::unordered_map<std::string, FactorId> idx;
};
extern FactorTab FT;
inline std::string polyKey(const Poly &p)
{
    std::string s;
    for (auto &x : p.t)
    {
        s += std::to_string(x.first);
        s += ':';
        s += x.second.get_str(62);
        s += ';';
    }
    return s;
}
struct RF
{
    Poly n;
    std::map<FactorId, int> d; // denominators (positive powers)
    bool isConst() const { return d.empty() && n.isConst(); }
};
using RFP = std::shared_ptr<const RF>;
inline FactorId factorOf(const Poly &p) // p already normalised
{
    std::string k = polyKey(p);
    auto it = FT.idx.find(k);
    if (it != FT.idx.end()) return it->second;
    FactorId id = FT.f.size();
    FT.f.push_back(p);
    FT.idx.emplace(k, id);
    return id;
}
inline void rfCancel(RF &r)
{
    if (r.n.isZero()) { r.d.clear(); return; }
    for (auto it = r.d.begin(); it != r.d.end();)
    {
        Poly q;
        while (it->second > 0 && pdivExact(r.n, FT.f[it->first], q)) { r.n = q; it->second--; }
        if (it->second == 0) it = r.d.erase(it);
        else ++it;
    }
}
inline RFP rfConst(const mpq_class &q)
{
    auto r = std::make_shared<RF>();
    r->n = Poly::c(q);
    return r;
}
inline RFP rfPoly(const Poly &p)
{
    auto r = std::make_shared<RF>();
    r->n = p;
    return r;
}
inline RFP rfDouble(double x) { return rfConst(mpq_class(x)); }
inline RFP rfAdd(const RFP &a, const RFP &b, int sgn = 1)
{
    auto r = std::make_shared<RF>();
    if (a->d.empty() && b->d.empty())
    {
        r->n = padd(a->n, b->n, sgn);
        return r;
    }
    if (a->n.isZero() && sgn > 0) return b;
    if (b->n.isZero()) return a;
    Poly na = a->n, nb = b->n;
    r->d = a->d;
    for (auto &kv : b->d) { int &x = r->d[kv.first]; x = std::max(x, kv.second); }
    for (auto &kv : r->d)
    {
        auto ia = a->d.find(kv.first);
        int pa = ia == a->d.end() ? 0 : ia->second;
        auto ib = b->d.find(kv.first);
        int pb = ib == b->d.end() ? 0 : ib->second;
        for (int k = pa; k < kv.second; k++) na = pmul(na, FT.f[kv.first]);
        for (int k = pb; k < kv.second; k++) nb = pmul(nb, FT.f[kv.first]);
    }
    r->n = padd(na, nb, sgn);
    rfCancel(*r);
    return r;
}
inline RFP rfNeg(const RFP &a)
{
    auto r = std::make_shared<RF>(*a);
    for (auto &x : r->n.t) x.second = -x.second;
    return r;
}
inline RFP rfMul(const RFP &a, const RFP &b)
{
    auto r = std::make_shared<RF>();
    Poly na = a->n, nb = b->n;
    std::map<FactorId, int> da = a->d, db = b->d;
    auto cross = [](Poly &n, std::map<FactorId, int> &d) {
        if (n.isZero()) { d.clear(); return; }
        for (auto it = d.begin(); it != d.end();)
        {
            Poly q;
            while (it->second > 0 && pdivExact(n, FT.f[it->first], q)) { n = q; it->second--; }
            if (it->second == 0) it = d.erase(it);
            else ++it;
        }
    };
    cross(na, db);
    cross(nb, da);
    r->n = pmul(na, nb);
    r->d = da;
    for (auto &kv : db) r->d[kv.first] += kv.second;
    if (G.anySq) rfCancel(*r);
    if (r->n.isZero()) r->d.clear();
    return r;
}
// 1/a. Numerator is split against known factors, monomials become variable factors.
inline RFP rfInv(const RFP &a)
{
    auto r = std::make_shared<RF>();
    Poly n = a->n;
    if (n.isZero()) throw std::runtime_error("division by symbolic zero");
    Poly num = Poly::c(1);
    for (auto &kv : a->d)
        for (int k = 0; k < kv.second; k++) num = pmul(num, FT.f[kv.first]);
    // common monomial
    if (!n.isConst())
    {
        std::map<uint32_t, uint32_t> common;
        bool first = true;
        for (auto &x : n.t)
        {
            std::map<uint32_t, uint32_t> cur;
            for (auto &f : G.monos[x.first].f) cur[f.first] = f.second;
            if (first) common = cur, first = false;
            else
                for (auto it = common.begin(); it != common.end();)
                {
                    auto jt = cur.find(it->first);
                    if (jt == cur.end()) it = common.erase(it);
                    else { it->second = std::min(it->second, jt->second); ++it; }
                }
        }
        for (auto &kv : common)
        {
            Poly v = Poly::var(kv.first), q;
            for (uint32_t k = 0; k < kv.second; k++)
            {
                pdivExact(n, v, q);
                n = q;
            }
            if (G.vars[kv.first].kind == 1 && G.vars[kv.first].sq)
            {
                // 1/s = s / s^2 : rationalise so that roots stay in numerators
                for (uint32_t k = 0; k < kv.second; k++)
                {
                    num = pmul(num, v);
                    auto inv = rfInv(rfPoly(*G.vars[kv.first].sq));
                    num = pmul(num, inv->n);
                    for (auto &e : inv->d) r->d[e.first] += e.second;
                }
            }
            else
                r->d[factorOf(v)] += kv.second;
        }
    }
    if (!n.isConst() && FT.f.size() < 4000)
        for (FactorId i = 0; i < FT.f.size() && !n.isConst(); i++)
        {
            if (FT.f[i].t.size() < 2) continue;
            Poly q;
            while (!n.isConst() && pdivExact(n, FT.f[i], q)) { n = q; r->d[i]++; }
        }
    if (!n.isConst())
    {
        // monic normalisation by first stored coefficient
        mpq_class c = n.t.back().second;
        Poly m = pscale(n, 1 / c);
        r->d[factorOf(m)]++;
        n = Poly::c(c);
    }
    r->n = pscale(num, 1 / n.constVal());
    rfCancel(*r);
    return r;
}
inline RFP rfDiv(const RFP &a, const RFP &b) { return rfMul(a, rfInv(b)); }
// formal derivative with respect to an input variable
inline RFP rfDeriv(const RFP &a, uint32_t v);
inline RFP polyDeriv(const Poly &p, uint32_t v)
{
    RFP acc = rfConst(0);
    std::map<uint32_t, RFP> dv;
    std::map<uint32_t, Poly> part; // sum of d p / d var
    for (auto &x : p.t)
        for (auto &f : G.monos[x.first].f)
        {
            MonoId q;
            if (!monoDiv(x.first, monoVar(f.first), q)) continue;
            Poly t;
            t.t.push_back({q, x.second * (int)f.second});
            part[f.first] = padd(part[f.first], t);
        }
    for (auto &kv : part)
    {
        auto &rv = G.vars[kv.first];
        if (kv.first == v) { acc = rfAdd(acc, rfPoly(kv.second)); continue; }
        if (rv.kind == 0) continue;
        if (rv.kind != 1 || !rv.sq) throw std::runtime_error("derivative of a function symbol");
        RFP ds = polyDeriv(*rv.sq, v);
        if (ds->n.isZero()) continue;
        ds = rfDiv(ds, rfPoly(pscale(Poly::var(kv.first), 2)));
        acc = rfAdd(acc, rfMul(rfPoly(kv.second), ds));
    }
    return acc;
}
inline RFP rfDeriv(const RFP &a, uint32_t v)
{
    RF num;
    num.n = a->n;
    RFP den = rfConst(1);
    auto inv = std::make_shared<RF>();
    inv->n = Poly::c(1);
    inv->d = a->d;
    RFP r = rfMul(polyDeriv(a->n, v), inv);
    for (auto &kv : a->d)
    {
        RFP df = polyDeriv(FT.f[kv.first], v);
        if (df->n.isZero()) continue;
        auto one = std::make_shared<RF>();
        one->n = Poly::c(1);
        one->d[kv.first] = 1;
        RFP t = rfMul(rfMul(a, one), rfMul(df, rfConst(kv.second)));
        r = rfAdd(r, t, -1);
    }
    return r;
}
inline Interval rfIv(const RF &r)
{
    Interval n = polyIv(r.n);
    for (auto &kv : r.d)
    {
        Interval f = polyIv(FT.f[kv.first]);
        if (f.lo <= 0 && f.hi >= 0)
        {
            if (f.lo == 0 && kv.second > 0) f = {0, INFINITY};
            return {-INFINITY, INFINITY};
        }
        Interval inv{1 / f.hi, 1 / f.lo};
        for (int k = 0; k < kv.second; k++) n = imul(n, inv);
    }
    return n;
}
inline double rfEval(const RF &r, const std::vector<double> &x)
{
    double n = polyEval(r.n, x);
    for (auto &kv : r.d)
    {
        double f = polyEval(FT.f[kv.first], x);
        for (int k = 0; k < kv.second; k++) n /= f;
    }
    return n;
}
