// Symbolic execution of LLVM bitcode produced from the repository's sources.
#include "engine.hpp"
#include <fstream>
#include <sstream>
#include <random>
#include <sys/resource.h>
using namespace llvm;

size_t g_polyTermLimit = 60000;
Globals G;
FactorTab FT;
static ExprMgr *EM;
static std::vector<RFP> RFs;          // immortal symbolic reals
static std::deque<std::vector<SVal>> AGG; // immortal aggregates
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static double T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Opts
{
    double timeLimit = 600;
    uint64_t maxInst = 20000000000ull, maxPathInst = 60000000ull, maxStates = 2000000;
    unsigned qTimeout = 20000, fTimeout = 3000; // ms
    double flush = 0;
    int maxViol = 3;
    uint64_t seed = 1;
    bool trace = false, forkTrace = false;
    int maxEnum = 2048;
    double assumeTimeout = 0;
} O;

struct Stats
{
    uint64_t paths = 0, forks = 0, insts = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, qcache = 0, asserts = 0, assertsSym = 0, assumeKill = 0, ivDecided = 0, polyObl = 0, lraObl = 0, nraObl = 0, trivObl = 0, hintDecided = 0, errPaths = 0, prunedUnk = 0, divAssume = 0, complete = 0, forkUnk = 0;
    double solverTime = 0;
} ST;
struct Violation { std::string msg, where, kind; std::vector<std::pair<std::string, std::string>> inputs; };
static std::vector<Violation> VIOL;
static std::map<std::string, uint64_t> REACH;
static std::vector<std::string> ERR;
static std::map<std::string, uint64_t> UNKOBL;
static std::map<std::string, uint64_t> OBL;
static std::vector<std::string> COV;
static std::unordered_map<std::string, int> covIdx;
static std::vector<char> covHit;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd { int why; };                       // 0 normal, 1 assume, 2 violation
struct ForkBool { NodeId n; };
struct ForkVal { NodeId n; };
struct Retry {};
struct BugFound { std::string msg, kind; };

// ---------------------------------------------------------------- values
static uint64_t newReal(RFP r)
{
    RFs.push_back(std::move(r));
    return RFs.size() - 1;
}
static SVal mkReal(const RFP &r, unsigned w = 64)
{
    if (r->isConst()) return SVal::dbl(qd(r->n.constVal()), w);
    return SVal::real(newReal(r), w);
}
static RFP toRF(const SVal &v)
{
    if (v.k == SVal::R) return RFs[v.u];
    if (v.k == SVal::D)
    {
        if (!std::isfinite(v.d)) throw EngineError("non-finite constant mixed with symbolic real");
        return rfDouble(v.d);
    }
    throw EngineError("toRF: bad kind");
}
static SVal mkSym(NodeId n)
{
    unsigned w = EM->n[n].w;
    if (EM->isC(n)) return SVal::i(EM->cv(n), w);
    return SVal::sym(n, w);
}
static NodeId toNode(const SVal &v)
{
    if (v.k == SVal::S) return v.u;
    if (v.k == SVal::I) return EM->cst(v.u, v.w);
    if (v.k == SVal::D && v.w == 64) { uint64_t b; memcpy(&b, &v.d, 8); return EM->cst(b, 64); }
    if (v.k == SVal::R) throw EngineError("integer use of a symbolic real's bit pattern");
    throw EngineError("toNode: bad kind");
}
static SVal aggV(std::vector<SVal> v)
{
    AGG.push_back(std::move(v));
    return SVal::agg(AGG.size() - 1);
}

// ---------------------------------------------------------------- inputs
static std::unordered_map<std::string, uint32_t> inputReal, inputBV;

static void evalDerived(std::vector<double> &rv, size_t from = 0)
{
    if (rv.size() < G.vars.size()) rv.resize(G.vars.size(), std::nan(""));
    for (size_t i = from; i < G.vars.size(); i++)
        if (G.vars[i].evalf) rv[i] = G.vars[i].evalf(rv);
}
static uint32_t newRVar(const std::string &name, int kind, double lo, double hi)
{
    RVar v;
    v.name = name;
    v.kind = kind;
    v.lo = lo;
    v.hi = hi;
    G.vars.push_back(v);
    return G.vars.size() - 1;
}

// ---------------------------------------------------------------- solver
enum class Res { SAT, UNSAT, UNK };
struct QRes { Res r; std::vector<std::pair<uint32_t, double>> rv; std::vector<std::pair<uint32_t, uint64_t>> bv; };
static std::unordered_map<std::string, QRes> QC;

static void closeVars(std::set<uint32_t> &vs)
{
    std::vector<uint32_t> todo(vs.begin(), vs.end());
    while (!todo.empty())
    {
        uint32_t v = todo.back();
        todo.pop_back();
        if (v < RBASE) continue;
        auto &rv = G.vars[v - RBASE];
        if (rv.sq)
            for (auto &t : rv.sq->t)
                for (auto &f : G.monos[t.first].f)
                    if (vs.insert(RBASE + f.first).second) todo.push_back(RBASE + f.first);
    }
}
// support of a node including what its derived variables (roots, functions) are defined from
static const std::vector<uint32_t> &closedSupp(uint32_t id)
{
    static std::unordered_map<uint32_t, std::vector<uint32_t>> memo;
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    auto &sp = EM->supports[id];
    std::set<uint32_t> vs(sp.begin(), sp.end());
    closeVars(vs);
    return memo[id] = std::vector<uint32_t>(vs.begin(), vs.end());
}
static void slice(const State &s, std::set<uint32_t> vs, std::vector<NodeId> &out, std::set<uint32_t> &vars)
{
    closeVars(vs);
    std::vector<char> used(s.pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++)
        {
            if (used[i]) continue;
            auto &sp = EM->supports[EM->n[s.pc[i]].supp];
            bool hit = false;
            for (auto x : closedSupp(EM->n[s.pc[i]].supp))
                if (vs.count(x)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            ch = true;
            out.push_back(s.pc[i]);
            size_t k = vs.size();
            vs.insert(sp.begin(), sp.end());
            if (vs.size() != k) closeVars(vs);
        }
    }
    vars = vs;
}
static double parseDec(std::string d)
{
    while (!d.empty() && (d.back() == '?')) d.pop_back();
    return atof(d.c_str());
}
static void addVarDefs(z3::solver &sv, const std::set<uint32_t> &vars)
{
    for (auto v : vars)
    {
        if (v < RBASE)
        {
            auto &b = EM->bvars[v];
            z3::expr x = EM->ze(EM->var(v));
            sv.add(z3::sle(EM->ctx.bv_val((int64_t)b.lo, b.w), x) && z3::sle(x, EM->ctx.bv_val((int64_t)b.hi, b.w)));
            continue;
        }
        auto &rv = G.vars[v - RBASE];
        z3::expr x = EM->zreal(v - RBASE);
        if (rv.sq)
        {
            if (rv.kind == 1) sv.add(x >= 0);
            sv.add(x * x == EM->zpoly(*rv.sq));
            if (rv.kind != 1) { if (std::isfinite(rv.lo)) sv.add(x >= EM->zq(mpq_class(rv.lo))); if (std::isfinite(rv.hi)) sv.add(x <= EM->zq(mpq_class(rv.hi))); }
        }
        else
        {
            if (std::isfinite(rv.lo)) sv.add(x >= EM->zq(mpq_class(rv.lo)));
            if (std::isfinite(rv.hi)) sv.add(x <= EM->zq(mpq_class(rv.hi)));
        }
    }
}
static QRes attemptBV(z3::solver &sv, const std::vector<NodeId> &cs, const std::set<uint32_t> &vars, unsigned tmo)
{
    QRes q{Res::UNK, {}, {}};
    double t = now();
    sv.push();
    try
    {
        for (auto c : cs) sv.add(EM->ze(c));
        addVarDefs(sv, vars);
        auto r = sv.check();
        if (r == z3::unsat) q.r = Res::UNSAT;
        else if (r == z3::sat)
        {
            q.r = Res::SAT;
            z3::model m = sv.get_model();
            for (auto v : vars)
            {
                z3::expr e = m.eval(EM->ze(EM->var(v)), true);
                q.bv.push_back({v, e.is_bool() ? (uint64_t)e.is_true() : e.get_numeral_uint64()});
            }
        }
    }
    catch (z3::exception &e) { q.r = Res::UNK; }
    sv.pop();
    ST.solverTime += now() - t;
    return q;
}
static QRes runQuery(const std::vector<NodeId> &cs, const std::set<uint32_t> &vars, const std::vector<z3::expr> &extra, unsigned timeout)
{
    bool hasR = false, hasB = false, nonlin = !extra.empty();
    for (auto v : vars)
    {
        if (v >= RBASE) { hasR = true; if (G.vars[v - RBASE].sq) nonlin = true; }
        else hasB = true;
    }
    if (hasR && !nonlin)
        for (auto c : cs)
        {
            // cheap degree check on atoms
            std::vector<NodeId> st{c};
            std::set<NodeId> seen;
            while (!st.empty() && !nonlin)
            {
                NodeId x = st.back();
                st.pop_back();
                if (!seen.insert(x).second) continue;
                auto &nd = EM->n[x];
                if (nd.op == Op::RCMP)
                {
                    for (auto &t : EM->rpolys[nd.val].t)
                        if (G.monos[t.first].deg > 1) nonlin = true;
                }
                else if (nd.op != Op::CONST && nd.op != Op::VAR)
                {
                    st.push_back(nd.a);
                    if (nd.op != Op::ZEXT && nd.op != Op::SEXT && nd.op != Op::EXTRACT) st.push_back(nd.b);
                    if (nd.op == Op::ITE) st.push_back(nd.c);
                }
            }
        }
    auto attempt = [&](z3::solver &&sv, unsigned tmo) -> QRes {
        QRes q{Res::UNK, {}, {}};
        double t = now();
        try
        {
            z3::params p(EM->ctx);
            p.set("timeout", tmo);
            sv.set(p);
            for (auto c : cs) sv.add(EM->ze(c));
            for (auto &e : extra) sv.add(e);
            addVarDefs(sv, vars);
            auto r = sv.check();
            if (r == z3::unsat) q.r = Res::UNSAT;
            else if (r == z3::sat)
            {
                q.r = Res::SAT;
                z3::model m = sv.get_model();
                for (auto v : vars)
                {
                    if (v >= RBASE)
                    {
                        z3::expr e = m.eval(EM->zreal(v - RBASE), true);
                        double d = parseDec(std::string(Z3_get_numeral_decimal_string(EM->ctx, e, 25)));
                        q.rv.push_back({v - RBASE, d});
                    }
                    else
                    {
                        z3::expr e = m.eval(EM->ze(EM->var(v)), true);
                        uint64_t u = 0;
                        if (e.is_bool()) u = e.is_true();
                        else u = e.get_numeral_uint64();
                        q.bv.push_back({v, u});
                    }
                }
            }
        }
        catch (z3::exception &e)
        {
            q.r = Res::UNK;
        }
        ST.solverTime += now() - t;
        return q;
    };
    ST.queries++;
    QRes q{Res::UNK, {}, {}};
    if (hasB && !hasR)
    {
        static z3::solver *inc = nullptr;
        static int uses = 0;
        if (!inc || ++uses > 20000) { delete inc; inc = new z3::solver(EM->ctx, z3::solver::simple()); uses = 0; z3::params p(EM->ctx); p.set("timeout", 2000u); inc->set(p); }
        q = attemptBV(*inc, cs, vars, timeout > 2000 ? 2000 : timeout);
        if (q.r == Res::UNK) q = attempt(z3::tactic(EM->ctx, "qfbv").mk_solver(), timeout);
    }
    else if (hasR && !hasB)
    {
        if (nonlin)
        {
            q = attempt(z3::tactic(EM->ctx, "qfnra-nlsat").mk_solver(), timeout);
            if (q.r == Res::UNK) q = attempt(z3::solver(EM->ctx, "QF_NRA"), timeout / 2 + 1);
        }
        else q = attempt(z3::solver(EM->ctx, "QF_LRA"), timeout);
    }
    else q = attempt(z3::solver(EM->ctx), timeout);
    if (q.r == Res::SAT) ST.qsat++;
    else if (q.r == Res::UNSAT) ST.qunsat++;
    else ST.qunk++;
    return q;
}
static HintP mergeHint(const HintP &h, const QRes &q)
{
    auto n = std::make_shared<Hint>(h ? *h : Hint());
    if (n->bv.size() < EM->bvars.size()) n->bv.resize(EM->bvars.size(), 0);
    if (n->rv.size() < G.vars.size()) n->rv.resize(G.vars.size(), std::nan(""));
    for (auto &p : q.bv) n->bv[p.first] = p.second;
    for (auto &p : q.rv) n->rv[p.first] = p.second;
    evalDerived(n->rv);
    return n;
}
static Res checkSat(State &s, NodeId c, HintP &out, unsigned timeout)
{
    std::set<uint32_t> vs, vars;
    auto &sp = EM->supports[EM->n[c].supp];
    vs.insert(sp.begin(), sp.end());
    std::vector<NodeId> cs;
    slice(s, vs, cs, vars);
    cs.push_back(c);
    std::sort(cs.begin(), cs.end());
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key((const char *)cs.data(), cs.size() * sizeof(NodeId));
    auto it = QC.find(key);
    if (it != QC.end()) ST.qcache++;
    else it = QC.emplace(key, runQuery(cs, vars, {}, timeout)).first;
    if (it->second.r == Res::SAT) out = mergeHint(s.hint, it->second);
    return it->second.r;
}

// ---------------------------------------------------------------- path condition
static void setKnown(State &s, NodeId n, bool v, bool push = true)
{
    auto &nd = EM->n[n];
    if (nd.op == Op::XOR && nd.w == 1 && EM->isC(nd.b) && EM->cv(nd.b) == 1) { setKnown(s, nd.a, !v, push); return; }
    s.known[n] = v;
    if (nd.op == Op::AND && nd.w == 1 && v)
    {
        setKnown(s, nd.a, true, push);
        setKnown(s, nd.b, true, push);
        return;
    }
    if (nd.op == Op::OR && nd.w == 1 && !v)
    {
        setKnown(s, nd.a, false, push);
        setKnown(s, nd.b, false, push);
        return;
    }
    if (push) s.pc.push_back(v ? n : EM->bnot(n));
    if (nd.op == Op::EQ && v && EM->isC(nd.b)) s.known[nd.a] = EM->cv(nd.b);
}
static bool lookupKnown(State &s, NodeId n, uint64_t &out)
{
    if (EM->isC(n)) { out = EM->cv(n); return true; }
    auto it = s.known.find(n);
    if (it != s.known.end()) { out = it->second; return true; }
    auto &nd = EM->n[n];
    if (nd.op == Op::XOR && nd.w == 1 && EM->isC(nd.b) && EM->cv(nd.b) == 1)
    {
        if (lookupKnown(s, nd.a, out)) { out = !out; return true; }
        return false;
    }
    if (nd.w == 1 && (nd.op == Op::AND || nd.op == Op::OR))
    {
        uint64_t a, b;
        bool ka = lookupKnown(s, nd.a, a), kb = lookupKnown(s, nd.b, b);
        if (nd.op == Op::AND)
        {
            if ((ka && !a) || (kb && !b)) { out = 0; return true; }
            if (ka && kb) { out = 1; return true; }
        }
        else
        {
            if ((ka && a) || (kb && b)) { out = 1; return true; }
            if (ka && kb) { out = 0; return true; }
        }
    }
    // all support variables pinned?
    auto &sp = EM->supports[nd.supp];
    if (sp.size() > 12) return false;
    for (auto v : sp)
    {
        if (v >= RBASE) return false;
        auto jt = s.known.find(EM->var(v));
        if (jt == s.known.end()) return false;
    }
    Hint h = *s.hint;
    for (auto v : sp)
    {
        if (h.bv.size() <= v) h.bv.resize(v + 1, 0);
        h.bv[v] = s.known[EM->var(v)];
    }
    std::unordered_map<NodeId, std::optional<uint64_t>> memo;
    auto r = EM->eval(n, h, memo);
    if (!r) return false;
    out = *r;
    return true;
}
static NodeId pureNode(State &s, NodeId n);
static bool decide(State &s, NodeId n)
{
    uint64_t v;
    if (lookupKnown(s, n, v)) return v;
    NodeId m = pureNode(s, n);
    if (EM->isC(m)) return EM->cv(m);
    if (m != n && lookupKnown(s, m, v)) return v;
    throw ForkBool{m};
}
static bool decideV(State &s, const SVal &v)
{
    if (v.k == SVal::I) return v.u & 1;
    if (v.k == SVal::S) return decide(s, v.u);
    throw EngineError("branch on non-boolean value");
}
// rebuild n with decided subterms replaced by their values; undecided real comparisons are reported in atom
static NodeId substKnown(State &s, NodeId n, std::unordered_map<NodeId, NodeId> &memo, NodeId &atom)
{
    if (EM->isC(n)) return n;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    const Node nd = EM->n[n];
    uint64_t k;
    NodeId r = n;
    auto kt = s.known.find(n);
    bool real = false;
    for (auto v : EM->supports[nd.supp]) if (v >= RBASE) real = true;
    if (kt != s.known.end()) r = EM->cst(kt->second, nd.w);
    else if (!real) r = n;
    else if (nd.op == Op::RCMP)
    {
        if (lookupKnown(s, n, k)) r = EM->cst(k, 1);
        else if (!atom) atom = n;
    }
    else
    {
        NodeId a = substKnown(s, nd.a, memo, atom);
        switch (nd.op)
        {
        case Op::ITE:
            if (EM->isC(a)) r = EM->cv(a) ? substKnown(s, nd.b, memo, atom) : substKnown(s, nd.c, memo, atom);
            else
            {
                NodeId b = substKnown(s, nd.b, memo, atom), c = substKnown(s, nd.c, memo, atom);
                r = EM->ite(a, b, c);
            }
            break;
        case Op::ZEXT: r = EM->zext(a, nd.w); break;
        case Op::SEXT: r = EM->sext(a, nd.w); break;
        case Op::EXTRACT: r = EM->extract(a, nd.val, nd.w); break;
        case Op::CONCAT: { NodeId b = substKnown(s, nd.b, memo, atom); r = EM->concat(a, b); break; }
        default: { NodeId b = substKnown(s, nd.b, memo, atom); r = EM->mk(nd.op, a, b, nd.w); }
        }
    }
    memo[n] = r;
    return r;
}
// a condition that mixes machine integers with real comparisons is split on the comparisons first: solvers decide the pure parts
static bool mixedNode(NodeId n)
{
    static std::unordered_map<NodeId, bool> memo;
    if (EM->isC(n)) return false;
    const Node nd = EM->n[n];
    bool real = false;
    for (auto v : EM->supports[nd.supp]) if (v >= RBASE) real = true;
    if (!real || nd.op == Op::RCMP) return false;
    if (nd.w > 1) return true;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    bool r = true;
    if (nd.op == Op::AND || nd.op == Op::OR || nd.op == Op::XOR) r = mixedNode(nd.a) || mixedNode(nd.b);
    else if (nd.op == Op::ITE) r = mixedNode(nd.a) || mixedNode(nd.b) || mixedNode(nd.c);
    memo[n] = r;
    return r;
}
static NodeId pureNode(State &s, NodeId n)
{
    if (!mixedNode(n)) return n;
    std::unordered_map<NodeId, NodeId> memo;
    NodeId atom = 0;
    NodeId m = substKnown(s, n, memo, atom);
    if (!EM->isC(m) && atom) throw ForkBool{atom};
    return m;
}
static uint64_t conc(State &s, const SVal &v)
{
    if (v.k == SVal::I) return v.u;
    if (v.k == SVal::S)
    {
        uint64_t r;
        if (lookupKnown(s, v.u, r)) return r;
        bool real = false;
        for (auto x : EM->supports[EM->n[v.u].supp]) if (x >= RBASE) real = true;
        if (real && EM->n[v.u].op != Op::RCMP)
        {
            std::unordered_map<NodeId, NodeId> memo;
            NodeId atom = 0;
            NodeId m = substKnown(s, v.u, memo, atom);
            if (EM->isC(m)) return EM->cv(m);
            if (atom) throw ForkBool{atom};
            throw ForkVal{m};
        }
        if (real) throw ForkBool{(NodeId)v.u};
        throw ForkVal{(NodeId)v.u};
    }
    if (v.k == SVal::D) { uint64_t b; memcpy(&b, &v.d, 8); return b; }
    throw EngineError("concretize: symbolic real used as integer");
}

// ---------------------------------------------------------------- memory
static uint64_t addrOf(uint32_t id) { return uint64_t(id) << 32; }
static uint64_t allocObj(State &s, uint64_t size, uint8_t kind, const char *what, uint8_t fill = 0x7b)
{
    if (size > (1ull << 30)) throw BugFound{"allocation of unreasonable size " + std::to_string(size), "alloc"};
    Obj *o = new Obj;
    o->size = size;
    o->kind = kind;
    o->b.assign(size, fill);
    o->what = what;
    return addrOf(s.mem.add(o)) + 0;
}
static Obj *locate(State &s, uint64_t addr, uint64_t size, uint32_t &off, bool write, const char *what)
{
    uint32_t id = addr >> 32;
    off = (uint32_t)addr;
    Obj *o = id ? s.mem.ro(id) : nullptr;
    if (!o)
    {
        if (id == 0 && off < 4096) throw BugFound{std::string("null pointer dereference in ") + what, "memory"};
        throw BugFound{std::string("wild pointer access in ") + what, "memory"};
    }
    if (!o->alive) throw BugFound{std::string("use after free in ") + what, "memory"};
    if (uint64_t(off) + size > o->size)
        throw BugFound{std::string("out of bounds ") + what + " (offset " + std::to_string((int32_t)off) + " size " + std::to_string(size) + " of object of " + std::to_string(o->size) + " bytes)", "memory"};
    if (write)
    {
        if (o->ro) throw BugFound{std::string("write to constant memory in ") + what, "memory"};
        o = s.mem.rw(id);
    }
    return o;
}
static SVal byteOf(const SymCell &c, unsigned k)
{
    if (c.v.k == SVal::S) return mkSym(EM->extract(c.v.u, k * 8, 8));
    throw EngineError("byte access inside symbolic real");
}
static void clearSym(Obj *o, uint32_t off, uint32_t size)
{
    if (o->sym.empty()) return;
    auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
    std::vector<std::pair<uint32_t, SymCell>> add;
    while (it != o->sym.end() && it->first < off + size)
    {
        uint32_t a = it->first, n = it->second.size;
        if (a + n <= off) { ++it; continue; }
        if (a < off || a + n > off + size)
        {
            if (it->second.v.k == SVal::S)
                for (unsigned k = 0; k < n; k++)
                {
                    uint32_t p = a + k;
                    if (p >= off && p < off + size) continue;
                    SVal bv = byteOf(it->second, k);
                    if (bv.k == SVal::I) o->b[p] = bv.u;
                    else add.push_back({p, SymCell{bv, 1}});
                }
        }
        it = o->sym.erase(it);
    }
    for (auto &p : add) o->sym[p.first] = p.second;
}
static void storeRaw(State &s, uint64_t addr, const SVal &v, unsigned size, const char *what)
{
    uint32_t off;
    Obj *o = locate(s, addr, size, off, true, what);
    clearSym(o, off, size);
    switch (v.k)
    {
    case SVal::I:
        if (size <= 8) memcpy(&o->b[off], &v.u, size);
        else { memcpy(&o->b[off], &v.u, 8); memset(&o->b[off + 8], 0, size - 8); }
        break;
    case SVal::D:
        if (v.w == 32) { float f = v.d; memcpy(&o->b[off], &f, 4); }
        else if (v.w == 80) { long double l = v.d; memcpy(&o->b[off], &l, std::min<unsigned>(size, 16)); }
        else memcpy(&o->b[off], &v.d, 8);
        break;
    case SVal::S:
    {
        NodeId n = v.u;
        if (EM->n[n].w < size * 8) n = EM->zext(n, size * 8);
        o->sym[off] = SymCell{SVal::sym(n, size * 8), (uint8_t)size};
        break;
    }
    case SVal::R:
        o->sym[off] = SymCell{v, (uint8_t)size};
        break;
    default:
        throw EngineError("store of unsupported value");
    }
}
static SVal loadRaw(State &s, uint64_t addr, unsigned size, unsigned w, bool fp, const char *what)
{
    uint32_t off;
    Obj *o = locate(s, addr, size, off, false, what);
    if (!o->sym.empty())
    {
        auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
        bool any = false;
        while (it != o->sym.end() && it->first < off + size)
        {
            if (it->first + it->second.size > off) { any = true; break; }
            ++it;
        }
        if (any)
        {
            if (it->first == off && it->second.size == size)
            {
                SVal v = it->second.v;
                if (v.k == SVal::R) return v;
                if (fp) return v; // bit pattern carried through
                if (w < size * 8) return mkSym(EM->extract(v.u, 0, w));
                return mkSym(v.u);
            }
            // assemble bytes
            std::vector<NodeId> bytes(size);
            for (unsigned k = 0; k < size; k++) bytes[k] = EM->cst(o->b[off + k], 8);
            for (; it != o->sym.end() && it->first < off + size; ++it)
                for (unsigned k = 0; k < it->second.size; k++)
                {
                    uint32_t p = it->first + k;
                    if (p < off || p >= off + size) continue;
                    bytes[p - off] = toNode(byteOf(it->second, k));
                }
            NodeId r = bytes[0];
            for (unsigned k = 1; k < size; k++) r = EM->concat(bytes[k], r);
            if (w < size * 8) r = EM->extract(r, 0, w);
            return mkSym(r);
        }
    }
    if (fp)
    {
        if (w == 32) { float f; memcpy(&f, &o->b[off], 4); return SVal::dbl(f, 32); }
        if (w == 80) { long double l = 0; memcpy(&l, &o->b[off], 10); return SVal::dbl((double)l, 80); }
        double d;
        memcpy(&d, &o->b[off], 8);
        return SVal::dbl(d);
    }
    uint64_t u = 0;
    if (size > 8) throw EngineError("wide integer load");
    memcpy(&u, &o->b[off], size);
    return SVal::i(u, w);
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n)
{
    if (n == 0) return;
    uint32_t so, d;
    Obj *a = locate(s, src, n, so, false, "memcpy source");
    std::vector<uint8_t> tmp(a->b.begin() + so, a->b.begin() + so + n);
    std::vector<std::pair<uint32_t, SymCell>> cells;
    if (!a->sym.empty())
    {
        auto it = a->sym.lower_bound(so >= 16 ? so - 16 : 0);
        for (; it != a->sym.end() && it->first < so + n; ++it)
        {
            uint32_t p = it->first, z = it->second.size;
            if (p + z <= so) continue;
            if (p >= so && p + z <= so + n) cells.push_back({p - so, it->second});
            else
                for (unsigned k = 0; k < z; k++)
                    if (p + k >= so && p + k < so + n)
                    {
                        SVal bv = byteOf(it->second, k);
                        if (bv.k == SVal::I) tmp[p + k - so] = bv.u;
                        else cells.push_back({p + k - so, SymCell{bv, 1}});
                    }
        }
    }
    Obj *b = locate(s, dst, n, d, true, "memcpy destination");
    clearSym(b, d, n);
    memcpy(&b->b[d], tmp.data(), n);
    for (auto &c : cells) b->sym[d + c.first] = c.second;
}
static std::string cstr(State &s, uint64_t addr)
{
    std::string r;
    for (;;)
    {
        SVal v = loadRaw(s, addr++, 1, 8, false, "string read");
        uint64_t c = conc(s, v);
        if (!c) return r;
        r += (char)c;
        if (r.size() > 100000) throw EngineError("runaway string");
    }
}

// ---------------------------------------------------------------- globals
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> fnAt;
static std::unordered_map<const Function *, FnInfo *> FI;
static FnInfo *infoOf(Function *F);

static SVal evalConst(const Constant *c);
static uint64_t typeSize(Type *t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static int64_t gepOffset(const GEPOperator *g)
{
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) throw EngineError("constant gep not constant");
    return off.getSExtValue();
}
static SVal zeroOf(Type *t)
{
    if (t->isIntegerTy()) return SVal::i(0, std::min(64u, t->getIntegerBitWidth()));
    if (t->isPointerTy()) return SVal::i(0, 64);
    if (t->isDoubleTy()) return SVal::dbl(0);
    if (t->isFloatTy()) return SVal::dbl(0, 32);
    if (t->isX86_FP80Ty()) return SVal::dbl(0, 80);
    std::vector<SVal> v;
    if (auto st = dyn_cast<StructType>(t)) for (auto e : st->elements()) v.push_back(zeroOf(e));
    else if (auto at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    else if (auto vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    else throw EngineError("zeroOf type");
    return aggV(v);
}
static SVal evalConst(const Constant *c)
{
    if (auto ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() > 64) { SVal v; v.k = SVal::N; return v; }
        return SVal::i(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto cf = dyn_cast<ConstantFP>(c))
    {
        if (cf->getType()->isFloatTy()) return SVal::dbl(cf->getValueAPF().convertToFloat(), 32);
        if (cf->getType()->isDoubleTy()) return SVal::dbl(cf->getValueAPF().convertToDouble());
        APFloat f = cf->getValueAPF();
        bool li;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return SVal::dbl(f.convertToDouble(), 80);
    }
    if (isa<ConstantPointerNull>(c)) return SVal::i(0, 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto gv = dyn_cast<GlobalAlias>(c)) return evalConst(gv->getAliasee());
    if (auto gv = dyn_cast<GlobalValue>(c))
    {
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) throw EngineError("global without address " + gv->getName().str());
        return SVal::i(it->second, 64);
    }
    if (auto cds = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<SVal> v;
        for (unsigned i = 0; i < cds->getNumElements(); i++) v.push_back(evalConst(cds->getElementAsConstant(i)));
        return aggV(v);
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c))
    {
        std::vector<SVal> v;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(evalConst(ca->getOperand(i)));
        return aggV(v);
    }
    if (auto ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr: return SVal::i(evalConst(ce->getOperand(0)).u + gepOffset(cast<GEPOperator>(ce)), 64);
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        {
            SVal v = evalConst(ce->getOperand(0));
            if (ce->getType()->isIntegerTy()) return SVal::i(v.u, ce->getType()->getIntegerBitWidth());
            return v;
        }
        case Instruction::Trunc: { SVal v = evalConst(ce->getOperand(0)); return SVal::i(v.u, ce->getType()->getIntegerBitWidth()); }
        case Instruction::Add: { SVal a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); return SVal::i(a.u + b.u, a.w); }
        case Instruction::Sub: { SVal a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); return SVal::i(a.u - b.u, a.w); }
        case Instruction::ICmp:
        {
            SVal a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
            auto p = ce->getPredicate();
            if (p == CmpInst::ICMP_EQ) return SVal::i(a.u == b.u, 1);
            if (p == CmpInst::ICMP_NE) return SVal::i(a.u != b.u, 1);
            break;
        }
        default: break;
        }
        throw EngineError(std::string("constant expression ") + ce->getOpcodeName());
    }
    throw EngineError("unsupported constant");
}
static void storeConst(Obj *o, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return; // zero filled
    if (auto cds = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef raw = cds->getRawDataValues();
        memcpy(&o->b[off], raw.data(), raw.size());
        return;
    }
    if (auto cs = dyn_cast<ConstantStruct>(c))
    {
        auto sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c))
    {
        Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t es = typeSize(et);
        for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto ci = dyn_cast<ConstantInt>(c))
    {
        APInt a = ci->getValue();
        uint64_t sz = DL->getTypeStoreSize(t).getFixedValue();
        for (uint64_t k = 0; k < sz; k++) o->b[off + k] = a.extractBitsAsZExtValue(std::min<unsigned>(8, a.getBitWidth() - k * 8), k * 8);
        return;
    }
    SVal v = evalConst(c);
    if (v.k == SVal::D)
    {
        if (v.w == 32) { float f = v.d; memcpy(&o->b[off], &f, 4); }
        else if (v.w == 80) { long double l = v.d; memcpy(&o->b[off], &l, 10); }
        else memcpy(&o->b[off], &v.d, 8);
    }
    else memcpy(&o->b[off], &v.u, typeSize(t));
}

// ---------------------------------------------------------------- real ops
static RFP flushTiny(const SVal &v)
{
    if (O.flush > 0 && v.k == SVal::D && v.d != 0 && std::abs(v.d) < O.flush) return rfDouble(0);
    return toRF(v);
}
static NodeId realCmp(const RFP &diff, Rel rel)
{
    Poly p = diff->n;
    if (rel != REQ)
        for (auto &kv : diff->d)
            if (kv.second & 1)
            {
                Interval iv = polyIv(FT.f[kv.first]);
                if (iv.lo > 0) continue;
                // bounds may touch zero, but denominators are nonzero by assumption
                if (iv.lo >= 0 && iv.hi > 0) continue;
                if (iv.hi < 0) { p = pscale(p, -1); continue; }
                p = pmul(p, FT.f[kv.first]);
            }
    return EM->rcmp(p, rel);
}
static std::unordered_map<std::string, uint32_t> derivedVar;
static std::string rfKey(const RFP &r)
{
    std::string k = polyKey(r->n);
    for (auto &kv : r->d) k += "/" + std::to_string(kv.first) + "^" + std::to_string(kv.second);
    return k;
}
static RFP rfSqrt(State &s, const RFP &a0)
{
    // sqrt(n/d) = sqrt(n*d)/d with odd-power factors
    RFP a = a0;
    Poly rad = a->n;
    RF den;
    den.n = Poly::c(1);
    bool neg = false;
    for (auto &kv : a->d)
    {
        // sqrt(1/f^k): even -> 1/|f^(k/2)|, odd -> sqrt(f)/|f^((k+1)/2)|
        if (kv.second & 1) rad = pmul(rad, FT.f[kv.first]);
        den.d[kv.first] = (kv.second + 1) / 2;
    }
    // sign of the denominator factor must be decided
    for (auto &kv : den.d)
        if (kv.second & 1)
        {
            Interval iv = polyIv(FT.f[kv.first]);
            bool ng;
            if (iv.lo >= 0) ng = false;
            else if (iv.hi <= 0) ng = true;
            else ng = decide(s, EM->rcmp(FT.f[kv.first], RLT));
            if (ng) neg = !neg;
        }
    RFP root;
    Poly q;
    mpq_class cs;
    if (rad.isConst())
    {
        mpq_class c = rad.constVal();
        if (c < 0) throw BugFound{"sqrt of a negative value", "nan"};
        mpq_class r;
        if (qsqrt(c, r)) root = rfConst(r);
        else root = rfDouble(std::sqrt(qd(c)));
    }
    else if (psqrtExact(rad, q))
    {
        Interval iv = polyIv(q);
        bool ng;
        if (iv.lo >= 0) ng = false;
        else if (iv.hi <= 0) ng = true;
        else ng = decide(s, EM->rcmp(q, RLT));
        root = rfPoly(ng ? pscale(q, -1) : q);
    }
    else
    {
        // pull out square of content for sharing
        std::string key = "sqrt:" + polyKey(rad);
        auto it = derivedVar.find(key);
        uint32_t v;
        if (it == derivedVar.end())
        {
            Interval iv = polyIv(rad);
            v = newRVar("sqrt", 1, iv.lo > 0 ? std::sqrt(iv.lo) * (1 - 1e-12) : 0, iv.hi >= 0 ? std::sqrt(iv.hi) * (1 + 1e-12) : INFINITY);
            G.vars[v].sq = std::make_shared<Poly>(rad);
            G.anySq = true;
            auto pp = G.vars[v].sq;
            G.vars[v].evalf = [pp](const std::vector<double> &x) { double r = polyEval(*pp, x); return r < 0 ? (r > -1e-12 ? 0. : std::nan("")) : std::sqrt(r); };
            derivedVar[key] = v;
            QC.clear();
        }
        else v = it->second;
        // argument must be non-negative (NaN otherwise): decide it
        NodeId ng = EM->rcmp(rad, RLT);
        if (!EM->isC(ng) || EM->cv(ng))
            if (decide(s, ng)) throw BugFound{"sqrt of a negative value", "nan"};
        {
            auto h = std::make_shared<Hint>(*s.hint);
            evalDerived(h->rv, v);
            s.hint = h;
        }
        root = rfPoly(Poly::var(v));
    }
    if (den.d.empty()) return root;
    RFP d = std::make_shared<RF>(den);
    RFP r = rfMul(root, d);
    return neg ? rfNeg(r) : r;
}
static SVal freshFn(State &s, const std::string &fn, const std::vector<RFP> &args, std::function<double(const std::vector<double> &)> f, double lo, double hi)
{
    std::string key = fn;
    for (auto &a : args) key += "|" + rfKey(a);
    auto it = derivedVar.find(key);
    uint32_t v;
    if (it == derivedVar.end())
    {
        v = newRVar(fn, 2, lo, hi);
        std::vector<RFP> as = args;
        G.vars[v].evalf = [as, f](const std::vector<double> &x) {
            std::vector<double> y;
            for (auto &a : as) y.push_back(rfEval(*a, x));
            return f(y);
        };
        derivedVar[key] = v;
    }
    else v = it->second;
    auto h = std::make_shared<Hint>(*s.hint);
    evalDerived(h->rv, v);
    s.hint = h;
    return SVal::real(newReal(rfPoly(Poly::var(v))));
}
static SVal fnSinCos(State &s, bool sin, const RFP &a)
{
    // pair with sin^2 = 1 - cos^2
    SVal c = freshFn(s, "cos", {a}, [](const std::vector<double> &y) { return std::cos(y[0]); }, -1, 1);
    if (!sin) return c;
    std::string key = "sin|" + rfKey(a);
    uint32_t v;
    auto it = derivedVar.find(key);
    if (it == derivedVar.end())
    {
        v = newRVar("sin", 3, -1, 1);
        Poly cp = RFs[c.u]->n;
        G.vars[v].sq = std::make_shared<Poly>(padd(Poly::c(1), pmul(cp, cp), -1));
        G.anySq = true;
        RFP aa = a;
        G.vars[v].evalf = [aa](const std::vector<double> &x) { return std::sin(rfEval(*aa, x)); };
        derivedVar[key] = v;
    }
    else v = it->second;
    auto h = std::make_shared<Hint>(*s.hint);
    evalDerived(h->rv, v);
    s.hint = h;
    return SVal::real(newReal(rfPoly(Poly::var(v))));
}
static SVal fArith(State &s, unsigned op, const SVal &a, const SVal &b, unsigned w)
{
    if (a.k == SVal::A)
    {
        std::vector<SVal> r, x = AGG[a.u], y = AGG[b.u];
        for (size_t i = 0; i < x.size(); i++) r.push_back(fArith(s, op, x[i], y[i], x[i].w));
        return aggV(r);
    }
    if (a.k == SVal::D && b.k == SVal::D)
    {
        double r;
        switch (op)
        {
        case Instruction::FAdd: r = a.d + b.d; break;
        case Instruction::FSub: r = a.d - b.d; break;
        case Instruction::FMul: r = a.d * b.d; break;
        case Instruction::FDiv: r = a.d / b.d; break;
        default: r = std::fmod(a.d, b.d); break;
        }
        return SVal::dbl(r, w);
    }
    if ((a.k != SVal::D && a.k != SVal::R) || (b.k != SVal::D && b.k != SVal::R)) throw EngineError("fp arithmetic on symbolic integer bits");
    const SVal &c = a.k == SVal::D ? a : b;
    if (c.k == SVal::D && !std::isfinite(c.d))
    {
        if (std::isnan(c.d)) return SVal::dbl(NAN, w);
        // x (+-*/) inf with finite x
        bool left = a.k == SVal::D;
        switch (op)
        {
        case Instruction::FAdd: return SVal::dbl(c.d, w);
        case Instruction::FSub: return SVal::dbl(left ? c.d : -c.d, w);
        case Instruction::FDiv: if (!left) return SVal::dbl(0, w); break;
        default: break;
        }
        throw EngineError("infinity mixed with symbolic real");
    }
    switch (op)
    {
    case Instruction::FAdd: return mkReal(rfAdd(flushTiny(a), flushTiny(b)), w);
    case Instruction::FSub: return mkReal(rfAdd(flushTiny(a), flushTiny(b), -1), w);
    case Instruction::FMul: return mkReal(rfMul(toRF(a), toRF(b)), w);
    case Instruction::FDiv:
    {
        RFP bb = toRF(b);
        if (bb->n.isZero()) throw BugFound{"division by zero", "nan"};
        if (!bb->n.isConst())
        {
            NodeId z = EM->rcmp(bb->n, REQ);
            uint64_t kv;
            if (!lookupKnown(s, z, kv))
            {
                // the finitely-many zero set of a denominator is outside the claim
                setKnown(s, z, false);
                ST.divAssume++;
            }
            else if (kv) throw BugFound{"division by zero", "nan"};
        }
        return mkReal(rfDiv(toRF(a), bb), w);
    }
    default: throw EngineError("frem on symbolic real");
    }
}
static SVal fNeg(const SVal &a)
{
    if (a.k == SVal::D) return SVal::dbl(-a.d, a.w);
    if (a.k == SVal::A)
    {
        std::vector<SVal> r;
        for (auto &x : AGG[a.u]) r.push_back(fNeg(x));
        return aggV(r);
    }
    return mkReal(rfNeg(toRF(a)), a.w);
}
static SVal fCmp(State &s, unsigned pred, const SVal &a, const SVal &b)
{
    if (a.k == SVal::A)
    {
        std::vector<SVal> r, x = AGG[a.u], y = AGG[b.u];
        for (size_t i = 0; i < x.size(); i++) r.push_back(fCmp(s, pred, x[i], y[i]));
        return aggV(r);
    }
    if (a.k == SVal::D && b.k == SVal::D)
    {
        bool un = std::isnan(a.d) || std::isnan(b.d), r = false;
        double x = a.d, y = b.d;
        switch (pred)
        {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        default: r = true;
        }
        return SVal::i(r, 1);
    }
    const SVal &c = a.k == SVal::D ? a : b;
    if (c.k == SVal::D && !std::isfinite(c.d))
    {
        SVal z = SVal::dbl(0);
        return fCmp(s, pred, a.k == SVal::D ? a : z, b.k == SVal::D ? b : z);
    }
    if (pred == CmpInst::FCMP_ORD || pred == CmpInst::FCMP_TRUE) return SVal::i(1, 1);
    if (pred == CmpInst::FCMP_UNO || pred == CmpInst::FCMP_FALSE) return SVal::i(0, 1);
    RFP d = rfAdd(flushTiny(a), flushTiny(b), -1);
    NodeId n;
    switch (pred)
    {
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: n = realCmp(d, RLT); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: n = realCmp(d, RLE); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: n = EM->bnot(realCmp(d, RLE)); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: n = EM->bnot(realCmp(d, RLT)); break;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: n = realCmp(d, REQ); break;
    default: n = EM->bnot(realCmp(d, REQ)); break;
    }
    return mkSym(n);
}
static bool realLess(State &s, const SVal &a, const SVal &b) { return decideV(s, fCmp(s, CmpInst::FCMP_OLT, a, b)); }
static SVal fAbs(State &s, const SVal &a)
{
    if (a.k == SVal::D) return SVal::dbl(std::abs(a.d), a.w);
    if (realLess(s, a, SVal::dbl(0))) return fNeg(a);
    return a;
}

// ---------------------------------------------------------------- int ops
static SVal iArith(unsigned op, const SVal &a, const SVal &b)
{
    if (a.k == SVal::A)
    {
        std::vector<SVal> r, x = AGG[a.u], y = AGG[b.u];
        for (size_t i = 0; i < x.size(); i++) r.push_back(iArith(op, x[i], y[i]));
        return aggV(r);
    }
    unsigned w = a.w;
    if (a.k == SVal::I && b.k == SVal::I)
    {
        uint64_t x = a.u, y = b.u;
        switch (op)
        {
        case Instruction::Add: return SVal::i(x + y, w);
        case Instruction::Sub: return SVal::i(x - y, w);
        case Instruction::Mul: return SVal::i(x * y, w);
        case Instruction::UDiv: if (!y) throw BugFound{"integer division by zero", "arith"}; return SVal::i(x / y, w);
        case Instruction::URem: if (!y) throw BugFound{"integer division by zero", "arith"}; return SVal::i(x % y, w);
        case Instruction::SDiv: case Instruction::SRem:
        {
            if (!y) throw BugFound{"integer division by zero", "arith"};
            int64_t p = ExprMgr::sx(x, w), q = ExprMgr::sx(y, w);
            if (q == -1) return SVal::i(op == Instruction::SDiv ? 0 - x : 0, w);
            return SVal::i(op == Instruction::SDiv ? p / q : p % q, w);
        }
        case Instruction::Shl: return SVal::i(y >= w ? 0 : x << y, w);
        case Instruction::LShr: return SVal::i(y >= w ? 0 : x >> y, w);
        case Instruction::AShr: return SVal::i(ExprMgr::sx(x, w) >> (y >= w ? w - 1 : y), w);
        case Instruction::And: return SVal::i(x & y, w);
        case Instruction::Or: return SVal::i(x | y, w);
        case Instruction::Xor: return SVal::i(x ^ y, w);
        }
    }
    if (a.k == SVal::R || b.k == SVal::R)
    {
        const SVal &r = a.k == SVal::R ? a : b, &c = a.k == SVal::R ? b : a;
        if (c.k == SVal::I && op == Instruction::Xor && c.u == 0x8000000000000000ull) return fNeg(r);
        throw EngineError("bit operation on symbolic real");
    }
    NodeId x = toNode(a), y = toNode(b);
    Op o;
    switch (op)
    {
    case Instruction::Add: o = Op::ADD; break;
    case Instruction::Sub: o = Op::SUB; break;
    case Instruction::Mul: o = Op::MUL; break;
    case Instruction::UDiv: o = Op::UDIV; break;
    case Instruction::SDiv: o = Op::SDIV; break;
    case Instruction::URem: o = Op::UREM; break;
    case Instruction::SRem: o = Op::SREM; break;
    case Instruction::Shl: o = Op::SHL; break;
    case Instruction::LShr: o = Op::LSHR; break;
    case Instruction::AShr: o = Op::ASHR; break;
    case Instruction::And: o = Op::AND; break;
    case Instruction::Or: o = Op::OR; break;
    case Instruction::Xor: o = Op::XOR; break;
    default: throw EngineError("int op");
    }
    if (w == 1 && (o == Op::ADD || o == Op::SUB)) o = Op::XOR;
    if (w == 1 && o == Op::MUL) o = Op::AND;
    return mkSym(EM->mk(o, x, y, w));
}
static SVal iCmp(State &s, unsigned pred, const SVal &a, const SVal &b)
{
    if (a.k == SVal::A)
    {
        std::vector<SVal> r, x = AGG[a.u], y = AGG[b.u];
        for (size_t i = 0; i < x.size(); i++) r.push_back(iCmp(s, pred, x[i], y[i]));
        return aggV(r);
    }
    unsigned w = a.w;
    if (a.k == SVal::I && b.k == SVal::I)
    {
        uint64_t x = a.u, y = b.u;
        int64_t p = ExprMgr::sx(x, w), q = ExprMgr::sx(y, w);
        bool r;
        switch (pred)
        {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = p > q; break;
        case CmpInst::ICMP_SGE: r = p >= q; break;
        case CmpInst::ICMP_SLT: r = p < q; break;
        default: r = p <= q; break;
        }
        return SVal::i(r, 1);
    }
    if (a.k == SVal::R && b.k == SVal::I && b.u == 0 && pred == CmpInst::ICMP_SLT) return fCmp(s, CmpInst::FCMP_OLT, a, SVal::dbl(0));
    if (a.k == SVal::R && b.k == SVal::I && b.u == ~0ull && pred == CmpInst::ICMP_SGT)
        return fCmp(s, CmpInst::FCMP_OGE, a, SVal::dbl(0));
    NodeId x = toNode(a), y = toNode(b);
    if (w == 1 && pred != CmpInst::ICMP_EQ && pred != CmpInst::ICMP_NE)
    {
        bool sg = CmpInst::isSigned((CmpInst::Predicate)pred);
        x = sg ? EM->sext(x, 8) : EM->zext(x, 8);
        y = sg ? EM->sext(y, 8) : EM->zext(y, 8);
    }
    NodeId r;
    switch (pred)
    {
    case CmpInst::ICMP_EQ: r = EM->mk(Op::EQ, x, y, 1); break;
    case CmpInst::ICMP_NE: r = EM->bnot(EM->mk(Op::EQ, x, y, 1)); break;
    case CmpInst::ICMP_UGT: r = EM->mk(Op::ULT, y, x, 1); break;
    case CmpInst::ICMP_UGE: r = EM->mk(Op::ULE, y, x, 1); break;
    case CmpInst::ICMP_ULT: r = EM->mk(Op::ULT, x, y, 1); break;
    case CmpInst::ICMP_ULE: r = EM->mk(Op::ULE, x, y, 1); break;
    case CmpInst::ICMP_SGT: r = EM->mk(Op::SLT, y, x, 1); break;
    case CmpInst::ICMP_SGE: r = EM->mk(Op::SLE, y, x, 1); break;
    case CmpInst::ICMP_SLT: r = EM->mk(Op::SLT, x, y, 1); break;
    default: r = EM->mk(Op::SLE, x, y, 1); break;
    }
    return mkSym(r);
}
static SVal selectV(State &s, const SVal &c, const SVal &a, const SVal &b)
{
    if (c.k == SVal::A)
    {
        std::vector<SVal> r, m = AGG[c.u], x = AGG[a.u], y = AGG[b.u];
        for (size_t i = 0; i < m.size(); i++) r.push_back(selectV(s, m[i], x[i], y[i]));
        return aggV(r);
    }
    if (c.k == SVal::I) return c.u & 1 ? a : b;
    uint64_t kv;
    if (lookupKnown(s, c.u, kv)) return kv ? a : b;
    if ((a.k == SVal::I || a.k == SVal::S) && (b.k == SVal::I || b.k == SVal::S) && a.w == b.w)
    {
        if (a.k == SVal::I && b.k == SVal::I && a.u == b.u) return a;
        // pointers: fork (keeps addresses concrete)
        if (!(a.w == 64 && ((a.k == SVal::I && (a.u >> 32)) || (b.k == SVal::I && (b.u >> 32)))))
        {
            bool real = false;
            for (auto v : EM->supports[EM->n[c.u].supp])
                if (v >= RBASE) real = true;
            if (!real || a.w == 1) return mkSym(EM->ite(c.u, toNode(a), toNode(b)));
        }
    }
    if (a.k == b.k && a.k == SVal::D && memcmp(&a.d, &b.d, 8) == 0) return a;
    return decide(s, c.u) ? a : b;
}

// ---------------------------------------------------------------- violations and obligations
static std::string where(State &s)
{
    std::string r;
    int n = 0;
    auto &st = s.th[s.cur].st;
    for (int i = (int)st.size() - 1; i >= 0 && n < 6; i--)
    {
        auto &f = st[i];
        if (f.pc >= 0 && f.pc < (int)f.f->code.size())
        {
            auto *I = f.f->code[f.pc].I;
            if (auto dl = I->getDebugLoc())
            {
                for (DILocation *l = dl.get(); l && n < 6; l = l->getInlinedAt(), n++)
                    r += (r.empty() ? "" : " < ") + l->getFilename().str() + ":" + std::to_string(l->getLine());
                continue;
            }
        }
        r += (r.empty() ? "" : " < ") + f.f->dem.substr(0, 80);
        n++;
    }
    return r;
}
static void report(State &s, const HintP &h, const std::string &msg, const std::string &kind)
{
    for (auto &v : VIOL)
        if (v.msg == msg && v.kind == kind) return;
    Violation v;
    v.msg = msg;
    v.kind = kind;
    v.where = where(s);
    for (auto &in : s.inputs)
    {
        char buf[64];
        if (in.real)
        {
            double d = in.var < h->rv.size() ? h->rv[in.var] : G.vars[in.var].lo;
            if (std::isnan(d)) d = G.vars[in.var].lo;
            // keep inside the declared range after rounding
            d = std::min(std::max(d, G.vars[in.var].lo), G.vars[in.var].hi);
            snprintf(buf, sizeof buf, "%.17g", d);
        }
        else
        {
            uint64_t u = in.var < h->bv.size() ? h->bv[in.var] : 0;
            snprintf(buf, sizeof buf, "%lld", (long long)ExprMgr::sx(u, EM->bvars[in.var].w));
        }
        v.inputs.push_back({in.name, buf});
    }
    VIOL.push_back(v);
}
// full model of the path condition (all slices) for reporting
static bool fullModel(State &s, HintP &h)
{
    std::set<uint32_t> all;
    for (auto c : s.pc)
        for (auto x : EM->supports[EM->n[c].supp]) all.insert(x);
    h = s.hint;
    std::set<uint32_t> done;
    for (auto v : all)
    {
        if (done.count(v)) continue;
        std::vector<NodeId> cs;
        std::set<uint32_t> vars;
        slice(s, {v}, cs, vars);
        done.insert(vars.begin(), vars.end());
        std::unordered_map<NodeId, std::optional<uint64_t>> memo;
        bool ok = true;
        for (auto c : cs)
        {
            auto r = EM->eval(c, *h, memo);
            if (!r || !*r) ok = false;
        }
        if (ok) continue;
        QRes q = runQuery(cs, vars, {}, O.qTimeout);
        if (q.r == Res::UNSAT) return false;
        if (q.r == Res::SAT) h = mergeHint(h, q);
    }
    return true;
}
static void obligationBool(State &s, NodeId c, const std::string &msg)
{
    OBL[msg]++;
    ST.asserts++;
    uint64_t v;
    if (lookupKnown(s, c, v))
    {
        if (v) { ST.trivObl++; return; }
        HintP h;
        if (!fullModel(s, h)) throw PathEnd{1};
        report(s, h, msg, "assert");
        throw PathEnd{2};
    }
    ST.assertsSym++;
    HintP h;
    Res r = checkSat(s, EM->bnot(c), h, O.qTimeout);
    if (r == Res::UNSAT) { setKnown(s, c, true); return; }
    if (r == Res::SAT)
    {
        HintP save = s.hint;
        s.hint = h;
        report(s, h, msg, "assert");
        s.hint = save;
        throw PathEnd{2};
    }
    UNKOBL[msg]++;
    setKnown(s, c, true);
}
static std::mt19937_64 rng(12345);
// d must satisfy: |d| <= tol (two-sided) or d <= tol (one-sided)
static void obligationReal(State &s, const RFP &d, double tol, bool two, const std::string &msg)
{
    OBL[msg]++;
    ST.asserts++;
    mpq_class qt(tol);
    if (d->n.isConst() && d->d.empty())
    {
        mpq_class c = d->n.constVal();
        bool ok = two ? abs(c) <= qt : c <= qt;
        if (ok) { ST.trivObl++; return; }
        HintP h;
        if (!fullModel(s, h)) throw PathEnd{1};
        report(s, h, msg, "assert");
        throw PathEnd{2};
    }
    ST.assertsSym++;
    // 1. linear relaxation over monomial boxes (denominator bounded away from zero)
    double dm = 1, dM = 1;
    bool denOk = true;
    int dsign = 1;
    for (auto &kv : d->d)
    {
        Interval iv = polyIv(FT.f[kv.first]);
        if (iv.lo > 0 || iv.hi < 0)
        {
            double m = iv.lo > 0 ? iv.lo : -iv.hi;
            if (iv.hi < 0 && (kv.second & 1)) dsign = -dsign;
            for (int k = 0; k < kv.second; k++) dm *= m;
        }
        else denOk = false;
    }
    if (denOk && dm > 0)
    {
        Interval nv = polyIv(d->n);
        double bnd = tol * dm * (1 - 1e-9);
        bool pass = two ? (nv.hi < bnd && nv.lo > -bnd) : (dsign > 0 ? nv.hi < bnd : nv.lo > -bnd);
        if (pass)
        {
            // discharge with the solver on the linear abstraction
            double t = now();
            z3::solver sv(EM->ctx, "QF_LRA");
            z3::expr_vector sum(EM->ctx);
            int k = 0;
            bool fin = true;
            for (auto &tm : d->n.t)
            {
                if (tm.first == 0) { sum.push_back(EM->zq(tm.second)); continue; }
                Interval mi = monoIv(tm.first);
                double pad = 1e-12 * std::max(std::abs(mi.lo), std::abs(mi.hi));
                z3::expr y = EM->ctx.real_const(("m" + std::to_string(k++)).c_str());
                if (!std::isfinite(mi.lo) || !std::isfinite(mi.hi)) { fin = false; break; }
                sv.add(y >= EM->zq(mpq_class(mi.lo - pad)) && y <= EM->zq(mpq_class(mi.hi + pad)));
                sum.push_back(EM->zq(tm.second) * y);
            }
            if (fin)
            {
                z3::expr tot = z3::sum(sum);
                z3::expr b = EM->zq(mpq_class(tol * dm));
                if (two) sv.add(tot > b || tot < -b);
                else if (dsign > 0) sv.add(tot > b);
                else sv.add(tot < -b);
                ST.queries++;
                auto r = sv.check();
                ST.solverTime += now() - t;
                if (r == z3::unsat) { ST.qunsat++; ST.lraObl++; return; }
                ST.qunk++;
            }
        }
    }
    // 2. look for a concrete witness of the negation near the path's own model
    std::set<uint32_t> vs, vars;
    for (auto &tm : d->n.t)
        for (auto &f : G.monos[tm.first].f) vs.insert(RBASE + f.first);
    for (auto &kv : d->d)
        for (auto &tm : FT.f[kv.first].t)
            for (auto &f : G.monos[tm.first].f) vs.insert(RBASE + f.first);
    std::vector<NodeId> cs;
    slice(s, vs, cs, vars);
    {
        Hint best;
        double bestV = 0;
        std::uniform_real_distribution<double> U(0, 1);
        for (int it = 0; it < 600; it++)
        {
            Hint h = *s.hint;
            if (h.rv.size() < G.vars.size()) h.rv.resize(G.vars.size(), std::nan(""));
            if (it > 0)
            {
                double sc = it < 200 ? 1.0 : it < 400 ? 0.1 : 1e-3;
                bool sub = it % 3 == 0;
                for (auto v : vars)
                {
                    if (v < RBASE) continue;
                    auto &rv = G.vars[v - RBASE];
                    if (rv.kind != 0) continue;
                    if (sub && U(rng) < 0.6) continue;
                    double lo = rv.lo, hi = rv.hi;
                    if (!std::isfinite(lo)) lo = -10;
                    if (!std::isfinite(hi)) hi = 10;
                    double x = h.rv[v - RBASE];
                    if (std::isnan(x)) x = (lo + hi) / 2;
                    double y = lo + (hi - lo) * U(rng);
                    // short decimals replay more faithfully
                    double z = sc >= 1.0 ? y : x + (y - x) * sc;
                    z = std::round(z * 1048576.0) / 1048576.0;
                    h.rv[v - RBASE] = std::min(std::max(z, lo), hi);
                }
            }
            evalDerived(h.rv);
            std::unordered_map<NodeId, std::optional<uint64_t>> memo;
            bool ok = true;
            for (auto c : cs)
            {
                auto r = EM->eval(c, h, memo);
                if (!r || !*r) { ok = false; break; }
            }
            if (!ok) continue;
            double v = rfEval(*d, h.rv);
            if (two) v = std::abs(v);
            if (v > bestV) bestV = v, best = h;
        }
        if (bestV > tol * 1.5 + 1e-300)
        {
            auto hp = std::make_shared<Hint>(best);
            HintP save = s.hint;
            s.hint = hp;
            HintP h2;
            fullModel(s, h2);
            report(s, h2, msg, "assert");
            s.hint = save;
            throw PathEnd{2};
        }
    }
    // 3. nonlinear query: PC and not(obligation)
    ST.nraObl++;
    z3::expr num = EM->zpoly(d->n), den = EM->ctx.real_val(1);
    bool first = true;
    for (auto &kv : d->d)
        for (int k = 0; k < kv.second; k++)
        {
            z3::expr f = EM->zpoly(FT.f[kv.first]);
            den = first ? f : den * f;
            first = false;
        }
    z3::expr b = EM->zq(qt);
    auto ask = [&](z3::expr e) { return runQuery(cs, vars, {e}, O.qTimeout); };
    std::vector<z3::expr> alts;
    if (d->d.empty())
    {
        alts.push_back(num > b);
        if (two) alts.push_back(num < -b);
    }
    else
    {
        alts.push_back(den > 0 && num > b * den);
        alts.push_back(den < 0 && num < b * den);
        if (two)
        {
            alts.push_back(den > 0 && num < -b * den);
            alts.push_back(den < 0 && num > -b * den);
        }
    }
    for (auto &e : alts)
    {
        QRes q = ask(e);
        if (q.r == Res::SAT)
        {
            HintP h = mergeHint(s.hint, q), save = s.hint;
            s.hint = h;
            report(s, h, msg, "assert");
            s.hint = save;
            throw PathEnd{2};
        }
        if (q.r == Res::UNK) { UNKOBL[msg]++; return; }
    }
}

#include "interp.inc"
