// Models of the C/C++ runtime, libm, and the harness API.
#define B(name) reg(name, [](State &s, DInst &d, std::vector<SVal> &a, SVal &ret)
#define E )

static SVal wideArith(State &s, unsigned op, const SVal &x, const SVal &y, unsigned w)
{
    auto tou = [&](const SVal &v) { auto &q = AGG[v.u]; return ((unsigned __int128)conc(s, q[1]) << 64) | conc(s, q[0]); };
    unsigned __int128 a = tou(x), b = tou(y), r;
    switch (op)
    {
    case Instruction::Add: r = a + b; break;
    case Instruction::Sub: r = a - b; break;
    case Instruction::Mul: r = a * b; break;
    case Instruction::And: r = a & b; break;
    case Instruction::Or: r = a | b; break;
    case Instruction::Xor: r = a ^ b; break;
    case Instruction::Shl: r = b >= 128 ? 0 : a << (int)b; break;
    case Instruction::LShr: r = b >= 128 ? 0 : a >> (int)b; break;
    case Instruction::UDiv: r = a / b; break;
    case Instruction::URem: r = a % b; break;
    default: throw EngineError("wide arithmetic");
    }
    return aggV({SVal::i((uint64_t)r, 64), SVal::i((uint64_t)(r >> 64), 64)});
}
static SVal mathFn(State &s, const char *name, const SVal &a, double (*f)(double), double lo, double hi)
{
    if (a.k == SVal::D) return SVal::dbl(f(a.d), a.w);
    return freshFn(s, name, {toRF(a)}, [f](const std::vector<double> &y) { return f(y[0]); }, lo, hi);
}
static SVal vmap1(State &s, const SVal &a, std::function<SVal(const SVal &)> f)
{
    if (a.k != SVal::A) return f(a);
    std::vector<SVal> x = AGG[a.u], r;
    for (auto &y : x) r.push_back(f(y));
    return aggV(r);
}
static SVal vmap2(State &s, const SVal &a, const SVal &b, std::function<SVal(const SVal &, const SVal &)> f)
{
    if (a.k != SVal::A) return f(a, b);
    std::vector<SVal> x = AGG[a.u], y = AGG[b.u], r;
    for (size_t i = 0; i < x.size(); i++) r.push_back(f(x[i], y[i]));
    return aggV(r);
}
static SVal sqrtV(State &s, const SVal &a)
{
    if (a.k == SVal::D) return SVal::dbl(std::sqrt(a.d), a.w);
    return mkReal(rfSqrt(s, toRF(a)), a.w);
}
static SVal powV(State &s, const SVal &a, const SVal &b)
{
    if (a.k == SVal::D && b.k == SVal::D) return SVal::dbl(std::pow(a.d, b.d), a.w);
    if (b.k == SVal::D)
    {
        double y = b.d;
        if (y == 0) return SVal::dbl(1);
        double h = y * 4;
        if (h == std::floor(h) && std::abs(y) <= 24)
        {
            int q = (int)std::abs(h); // quarters
            RFP r = rfConst(1), x = toRF(a);
            for (int i = 0; i < q / 4; i++) r = rfMul(r, x);
            if (q & 3)
            {
                SVal sq = sqrtV(s, a);
                if (q & 2) r = rfMul(r, toRF(sq));
                if (q & 1) r = rfMul(r, toRF(sqrtV(s, sq)));
            }
            if (y < 0)
            {
                SVal one = SVal::dbl(1);
                return fArith(s, Instruction::FDiv, one, mkReal(r), 64);
            }
            return mkReal(r);
        }
    }
    return freshFn(s, "pow", {toRF(a), toRF(b)}, [](const std::vector<double> &y) { return std::pow(y[0], y[1]); }, rfIv(*toRF(a)).lo >= 0 ? 0 : -INFINITY, INFINITY);
}
static SVal roundV(State &s, const SVal &a, int mode) // 0 floor 1 ceil 2 round 3 trunc
{
    if (a.k == SVal::D)
    {
        double r = mode == 0 ? std::floor(a.d) : mode == 1 ? std::ceil(a.d) : mode == 2 ? std::round(a.d) : mode == 3 ? std::trunc(a.d) : std::nearbyint(a.d);
        return SVal::dbl(r, a.w);
    }
    if (mode == 0) return SVal::dbl((double)realFloor(s, a));
    if (mode == 1) return SVal::dbl(-(double)realFloor(s, fNeg(a)));
    if (mode == 3) return SVal::dbl((double)(int64_t)realTrunc(s, a, 64).u);
    if (realLess(s, a, SVal::dbl(0))) return SVal::dbl(-(double)realFloor(s, fArith(s, Instruction::FAdd, fNeg(a), SVal::dbl(0.5), 64)));
    return SVal::dbl((double)realFloor(s, fArith(s, Instruction::FAdd, a, SVal::dbl(0.5), 64)));
}
static void freeObj(State &s, uint64_t a, const char *what)
{
    if (!a) return;
    uint32_t id = a >> 32;
    Obj *o = s.mem.ro(id);
    if (!o || o->kind != 0 || (uint32_t)a) throw BugFound{std::string("invalid ") + what, "memory"};
    if (!o->alive) throw BugFound{"double free", "memory"};
    o = s.mem.rw(id);
    o->alive = false;
    o->b.clear();
    o->b.shrink_to_fit();
    o->sym.clear();
}
static uint64_t heapAlloc(State &s, const SVal &sz)
{
    uint64_t n = conc(s, sz);
    return allocObj(s, n, 0, "heap object");
}
static void throwStd(State &s, const char *ti)
{
    auto *g = M->getNamedGlobal(ti);
    Thread &t = s.th[s.cur];
    t.excObj = allocObj(s, 64, 0, "exception object", 0);
    if (!g)
    {
        throw BugFound{std::string("uncaught exception ") + ti, "exception"};
    }
    t.excTy = gaddr[g];
    unwind(s);
}
static NodeId boolOf(State &s, const SVal &v)
{
    if (v.w == 1) return toNode(v);
    return EM->bnot(EM->mk(Op::EQ, toNode(v), EM->cst(0, v.w), 1));
}
static std::string inputName(State &s, const SVal &v)
{
    std::string n = cstr(s, conc(s, v));
    return n;
}
static void assumeNode(State &s, NodeId c)
{
    uint64_t v;
    if (lookupKnown(s, c, v))
    {
        if (!v) throw PathEnd{1};
        return;
    }
    if (s.hintOk)
    {
        std::unordered_map<NodeId, std::optional<uint64_t>> memo;
        auto r = EM->eval(c, *s.hint, memo);
        if (r && *r) { setKnown(s, c, true); return; }
    }
    HintP h;
    Res r = checkSat(s, c, h, O.qTimeout);
    if (r == Res::UNSAT) throw PathEnd{1};
    setKnown(s, c, true);
    if (r == Res::SAT) { s.hint = h; }
    else s.hintOk = false;
}
static SVal ovf(State &s, const SVal &a, const SVal &b, int op, bool sg)
{
    unsigned w = a.w;
    if (a.k == SVal::I && b.k == SVal::I)
    {
        __int128 x = sg ? (__int128)ExprMgr::sx(a.u, w) : (__int128)a.u, y = sg ? (__int128)ExprMgr::sx(b.u, w) : (__int128)b.u, r;
        r = op == 0 ? x + y : op == 1 ? x - y : x * y;
        uint64_t m = ExprMgr::mask((uint64_t)r, w);
        __int128 back = sg ? (__int128)ExprMgr::sx(m, w) : (__int128)m;
        return aggV({SVal::i(m, w), SVal::i(back != r, 1)});
    }
    if (w > 32)
    {
        if (op == 2)
        {
            // multiplication by a constant: compare against quotient bounds
            if (b.k == SVal::I || a.k == SVal::I)
            {
                uint64_t c = b.k == SVal::I ? b.u : a.u;
                NodeId x = toNode(b.k == SVal::I ? a : b);
                SVal r = iArith(Instruction::Mul, a, b);
                if (c == 0) return aggV({r, SVal::i(0, 1)});
                if (!sg)
                {
                    uint64_t lim = ExprMgr::mask(~0ull, w) / c;
                    return aggV({r, mkSym(EM->mk(Op::ULT, EM->cst(lim, w), x, 1))});
                }
            }
            uint64_t x = conc(s, a), y = conc(s, b);
            return ovf(s, SVal::i(x, w), SVal::i(y, w), op, sg);
        }
        SVal r = iArith(op == 0 ? Instruction::Add : Instruction::Sub, a, b);
        NodeId x = toNode(a), y = toNode(b), z = toNode(r), o;
        NodeId zero = EM->cst(0, w);
        if (!sg) o = op == 0 ? EM->mk(Op::ULT, z, x, 1) : EM->mk(Op::ULT, x, y, 1);
        else
        {
            NodeId sxn = EM->mk(Op::SLT, x, zero, 1), sy = EM->mk(Op::SLT, y, zero, 1), sz = EM->mk(Op::SLT, z, zero, 1);
            NodeId diffz = EM->mk(Op::XOR, sxn, sz, 1), same = EM->bnot(EM->mk(Op::XOR, sxn, sy, 1));
            o = EM->band(op == 0 ? same : EM->bnot(same), diffz);
        }
        return aggV({r, mkSym(o)});
    }
    NodeId x = sg ? EM->sext(toNode(a), 2 * w) : EM->zext(toNode(a), 2 * w), y = sg ? EM->sext(toNode(b), 2 * w) : EM->zext(toNode(b), 2 * w);
    NodeId r = EM->mk(op == 0 ? Op::ADD : op == 1 ? Op::SUB : Op::MUL, x, y, 2 * w);
    NodeId m = EM->extract(r, 0, w);
    NodeId back = sg ? EM->sext(m, 2 * w) : EM->zext(m, 2 * w);
    return aggV({mkSym(m), mkSym(EM->bnot(EM->mk(Op::EQ, back, r, 1)))});
}
static int cmpBytes(State &s, uint64_t p, uint64_t q, uint64_t n, bool str)
{
    for (uint64_t i = 0; i < n; i++)
    {
        SVal x = loadRaw(s, p + i, 1, 8, false, "compare"), y = loadRaw(s, q + i, 1, 8, false, "compare");
        if (!decideV(s, iCmp(s, CmpInst::ICMP_EQ, x, y))) return decideV(s, iCmp(s, CmpInst::ICMP_ULT, x, y)) ? -1 : 1;
        if (str && decideV(s, iCmp(s, CmpInst::ICMP_EQ, x, SVal::i(0, 8)))) return 0;
    }
    return 0;
}
static void emptyString(State &s, uint64_t p)
{
    storeRaw(s, p, SVal::i(p + 16, 64), 8, "string");
    storeRaw(s, p + 8, SVal::i(0, 64), 8, "string");
    storeRaw(s, p + 16, SVal::i(0, 8), 1, "string");
}
static void readString(State &s, uint64_t p, std::string &out)
{
    uint64_t d = conc(s, loadRaw(s, p, 8, 64, false, "string")), n = conc(s, loadRaw(s, p + 8, 8, 64, false, "string"));
    for (uint64_t i = 0; i < n; i++) out += (char)conc(s, loadRaw(s, d + i, 1, 8, false, "string"));
}

static std::map<std::string, int64_t> PIN;
static void registerModels()
{
    // ---- generic stubs
    B("$ret0") { STUBUSED["stream/locale no-ops"]++; ret = a.empty() ? SVal::i(0, 64) : a[0]; if (d.w && d.w < 64 && ret.k == SVal::I) ret = SVal::i(0, d.w); } E;
    B("$emptystr") { STUBUSED["string formatting returns an empty string"]++; emptyString(s, conc(s, a[0])); } E;
    // ---- allocation
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception"})
        B(n) { ret = SVal::i(heapAlloc(s, a[0]), 64); } E;
    for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"})
        B(n) { ret = SVal::i(heapAlloc(s, a[0]), 64); } E;
    for (auto n : {"aligned_alloc", "memalign"})
        B(n) { ret = SVal::i(heapAlloc(s, a[1]), 64); } E;
    B("posix_memalign") { uint64_t p = heapAlloc(s, a[2]); storeRaw(s, conc(s, a[0]), SVal::i(p, 64), 8, "posix_memalign"); ret = SVal::i(0, 32); } E;
    B("calloc") { uint64_t n = conc(s, a[0]) * conc(s, a[1]); ret = SVal::i(allocObj(s, n, 0, "heap object", 0), 64); } E;
    B("realloc") {
        uint64_t p = conc(s, a[0]), n = conc(s, a[1]);
        uint64_t q = allocObj(s, n, 0, "heap object");
        if (p)
        {
            Obj *o = s.mem.ro(p >> 32);
            if (!o || !o->alive) throw BugFound{"realloc of invalid pointer", "memory"};
            copyMem(s, q, p, std::min<uint64_t>(n, o->size));
            freeObj(s, p, "realloc");
        }
        ret = SVal::i(q, 64);
    } E;
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "__cxa_free_exception"})
        B(n) { freeObj(s, conc(s, a[0]), "free"); } E;
    // ---- memory / strings
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"})
        B(n) { copyMem(s, conc(s, a[0]), conc(s, a[1]), conc(s, a[2])); ret = a[0]; } E;
    for (auto n : {"llvm.memset", "llvm.memset.inline", "memset"})
        B(n) {
            uint64_t p = conc(s, a[0]), n = conc(s, a[2]), v = conc(s, a[1]);
            if (n)
            {
                uint32_t off;
                Obj *o = locate(s, p, n, off, true, "memset");
                clearSym(o, off, n);
                memset(&o->b[off], (int)v, n);
            }
            ret = a[0];
        } E;
    for (auto n : {"memcmp", "bcmp"})
        B(n) { ret = SVal::i(cmpBytes(s, conc(s, a[0]), conc(s, a[1]), conc(s, a[2]), false), 32); } E;
    B("strcmp") { ret = SVal::i(cmpBytes(s, conc(s, a[0]), conc(s, a[1]), 1 << 20, true), 32); } E;
    B("strncmp") { ret = SVal::i(cmpBytes(s, conc(s, a[0]), conc(s, a[1]), conc(s, a[2]), true), 32); } E;
    B("strlen") {
        uint64_t p = conc(s, a[0]), n = 0;
        while (!decideV(s, iCmp(s, CmpInst::ICMP_EQ, loadRaw(s, p + n, 1, 8, false, "string read"), SVal::i(0, 8)))) n++;
        ret = SVal::i(n, 64);
    } E;
    B("memchr") {
        uint64_t p = conc(s, a[0]), c = conc(s, a[1]) & 255, n = conc(s, a[2]);
        ret = SVal::i(0, 64);
        for (uint64_t i = 0; i < n; i++)
            if (conc(s, loadRaw(s, p + i, 1, 8, false, "memchr")) == c) { ret = SVal::i(p + i, 64); break; }
    } E;
    B("strchr") {
        uint64_t p = conc(s, a[0]), c = conc(s, a[1]) & 255;
        std::string x = cstr(s, p);
        size_t k = c ? x.find((char)c) : x.size();
        ret = SVal::i(k == std::string::npos ? 0 : p + k, 64);
    } E;
    for (auto n : {"isspace", "isdigit", "isalpha", "toupper", "tolower", "isalnum"})
        B(n) {
            int c = (int)conc(s, a[0]);
            std::string f = d.callee->getName().str();
            ret = SVal::i(f == "isspace" ? !!isspace(c) : f == "isdigit" ? !!isdigit(c) : f == "isalpha" ? !!isalpha(c) : f == "isalnum" ? !!isalnum(c) : f == "toupper" ? toupper(c) : tolower(c), 32);
        } E;
    B("strtol") {
        uint64_t p = conc(s, a[0]);
        std::string x = cstr(s, p);
        char *e;
        long v = strtol(x.c_str(), &e, (int)conc(s, a[2]));
        if (conc(s, a[1])) storeRaw(s, conc(s, a[1]), SVal::i(p + (e - x.c_str()), 64), 8, "strtol");
        ret = SVal::i(v, 64);
    } E;
    BIdx["__isoc23_strtol"] = BIdx["strtol"];
    BIdx["strtoll"] = BIdx["strtol"];
    BIdx["__isoc23_strtoll"] = BIdx["strtol"];
    B("sprintf") { // integers and strings
        std::string f = cstr(s, conc(s, a[1])), out;
        size_t k = 2;
        for (size_t i = 0; i < f.size(); i++)
        {
            if (f[i] != '%') { out += f[i]; continue; }
            std::string sp = "%";
            while (++i < f.size() && strchr("0123456789-+ l", f[i])) if (f[i] != 'l') sp += f[i];
            if (i >= f.size()) throw EngineError("sprintf format");
            if (f[i] == '%') { out += '%'; continue; }
            if (k >= a.size()) throw EngineError("sprintf arguments");
            char buf[512];
            if (f[i] == 'd' || f[i] == 'i')
            {
                int64_t v = conc(s, a[k]);
                if (a[k].w == 32) v = (int32_t)v;
                snprintf(buf, sizeof buf, (sp + "ld").c_str(), (long)v), out += buf;
            }
            else if (f[i] == 's') out += cstr(s, conc(s, a[k]));
            else throw EngineError("sprintf format " + f);
            k++;
        }
        uint64_t p = conc(s, a[0]);
        for (size_t i = 0; i <= out.size(); i++) storeRaw(s, p + i, SVal::i(i < out.size() ? (uint8_t)out[i] : 0, 8), 1, "sprintf");
        ret = SVal::i(out.size(), 32);
    } E;
    B("strtod") {
        uint64_t p = conc(s, a[0]);
        std::string x = cstr(s, p);
        char *e;
        double v = strtod(x.c_str(), &e);
        if (conc(s, a[1])) storeRaw(s, conc(s, a[1]), SVal::i(p + (e - x.c_str()), 64), 8, "strtod");
        ret = SVal::dbl(v);
    } E;
    B("__errno_location") { static std::unordered_map<State *, int> u; auto *g = M->getNamedGlobal("vh_errno"); if (!g) throw EngineError("errno"); ret = SVal::i(gaddr[g], 64); } E;
    B("getenv") { ret = SVal::i(0, 64); } E;
    B("secure_getenv") { ret = SVal::i(0, 64); } E;
    for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "fwrite", "snprintf", "sleep", "usleep", "atexit", "__cxa_atexit", "gethostname", "vsnprintf", "perror", "fputwc", "sched_yield"})
        B(n) { STUBUSED["stdio no-ops"]++; ret = SVal::i(0, d.w ? d.w : 32); } E;
    B("time") { ret = SVal::i(0, 64); } E;
    for (auto n : {"nanosleep", "usleep"}) B(n) { ret = SVal::i(0, 32); } E;
    B("clock") { ret = SVal::i(0, 64); } E;
    B("getpid") { ret = SVal::i(4242, 32); } E;
    B("rand") { ret = SVal::i(42, 32); } E;
    B("srand") { } E;
    B("_ZNSt6chrono3_V212system_clock3nowEv") { ret = SVal::i(0, 64); } E;
    B("_ZNSt6chrono3_V212steady_clock3nowEv") { ret = SVal::i(0, 64); } E;
    for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "exit", "_exit", "__cxa_pure_virtual", "__cxa_bad_cast"})
        B(n) { throw BugFound{"the code aborted: " + d.callee->getName().str(), "abort"}; } E;
    // ---- pthread-ish
    for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "__gthread_active_p"})
        B(n) { ret = SVal::i(0, 32); } E;
    // ---- C++ runtime
    B("__cxa_throw") {
        Thread &t = s.th[s.cur];
        t.excObj = conc(s, a[0]);
        t.excTy = conc(s, a[1]);
        s.notes.push_back("throw");
        unwind(s);
    } E;
    B("__cxa_begin_catch") { ret = a[0]; } E;
    B("__cxa_get_exception_ptr") { ret = a[0]; } E;
    B("__cxa_end_catch") { } E;
    B("__cxa_rethrow") { unwind(s); } E;
    B("__cxa_guard_acquire") { SVal v = loadRaw(s, conc(s, a[0]), 1, 8, false, "guard"); ret = SVal::i(conc(s, v) == 0, 32); } E;
    B("__cxa_guard_release") { storeRaw(s, conc(s, a[0]), SVal::i(1, 8), 1, "guard"); } E;
    B("__cxa_guard_abort") { } E;
    B("__dynamic_cast") {
        uint64_t p = conc(s, a[0]);
        ret = SVal::i(0, 64);
        if (!p) return;
        uint64_t vt = conc(s, loadRaw(s, p, 8, 64, false, "vptr"));
        uint64_t ti = conc(s, loadRaw(s, vt - 8, 8, 64, false, "vtable"));
        int64_t top = conc(s, loadRaw(s, vt - 16, 8, 64, false, "vtable"));
        int64_t off = 0;
        if (tiFind(tiName(ti), tiName(conc(s, a[2])), off)) ret = SVal::i(p + top + off, 64);
    } E;
    struct TH { const char *f, *ti; };
    static const TH th[] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"}};
    for (auto &x : th)
        B(x.f) {
            for (auto &y : th)
                if (d.callee && d.callee->getName() == y.f) { throwStd(s, y.ti); return; }
            throw BugFound{"standard library exception", "exception"};
        } E;
    // constructors/destructors of standard exceptions: message is irrelevant
    for (auto n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt11range_errorD1Ev", "_ZNSt11range_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt13runtime_errorC1ERKS_"})
        B(n) { } E;
    B("_ZNKSt13runtime_error4whatEv") { auto *g = M->getNamedGlobal("vh_empty"); ret = SVal::i(g ? gaddr[g] : 0, 64); } E;
    BIdx["_ZNKSt9exception4whatEv"] = BIdx["_ZNKSt13runtime_error4whatEv"];
    BIdx["_ZNKSt11logic_error4whatEv"] = BIdx["_ZNKSt13runtime_error4whatEv"];
    // ---- intrinsics
    for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.stackrestore", "llvm.donothing", "llvm.va_start", "llvm.va_end", "llvm.sideeffect", "llvm.var.annotation"})
        B(n) { } E;
    B("llvm.stacksave") { ret = SVal::i(0, 64); } E;
    B("llvm.launder.invariant.group") { ret = a[0]; } E;
    B("llvm.strip.invariant.group") { ret = a[0]; } E;
    B("llvm.threadlocal.address") { ret = a[0]; } E;
    B("llvm.ptr.annotation") { ret = a[0]; } E;
    B("llvm.expect") { ret = a[0]; } E;
    B("llvm.is.constant") { ret = SVal::i(0, 1); } E;
    B("llvm.objectsize") { ret = SVal::i(~0ull, d.w); } E;
    B("llvm.trap") { throw BugFound{"trap", "abort"}; } E;
    B("llvm.ubsantrap") { throw BugFound{"trap", "abort"}; } E;
    B("llvm.eh.typeid.for") { uint64_t c = conc(s, a[0]); ret = SVal::i(c ? c >> 32 : 0x7fffffff, 32); } E;
    B("llvm.fabs") { ret = vmap1(s, a[0], [&](const SVal &x) { return fAbs(s, x); }); } E;
    B("fabs") { ret = fAbs(s, a[0]); } E;
    B("llvm.sqrt") { ret = vmap1(s, a[0], [&](const SVal &x) { return sqrtV(s, x); }); } E;
    B("nan") { ret = SVal::dbl(std::nan("")); } E;
    B("sqrt") { ret = sqrtV(s, a[0]); } E;
    B("sqrtf") { ret = sqrtV(s, a[0]); } E;
    for (auto n : {"llvm.fma", "llvm.fmuladd", "fma"})
        B(n) { if (a[0].k == SVal::A) throw EngineError("vector fma"); ret = fArith(s, Instruction::FAdd, fArith(s, Instruction::FMul, a[0], a[1], d.w), a[2], d.w); } E;
    for (auto n : {"llvm.maxnum", "llvm.maximum", "fmax"})
        B(n) { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { if (x.k == SVal::D && std::isnan(x.d)) return y; if (y.k == SVal::D && std::isnan(y.d)) return x; return realLess(s, x, y) ? y : x; }); } E;
    for (auto n : {"llvm.minnum", "llvm.minimum", "fmin"})
        B(n) { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { if (x.k == SVal::D && std::isnan(x.d)) return y; if (y.k == SVal::D && std::isnan(y.d)) return x; return realLess(s, y, x) ? y : x; }); } E;
    for (auto n : {"llvm.copysign", "copysign"})
        B(n) {
            bool ng = a[1].k == SVal::D ? std::signbit(a[1].d) : realLess(s, a[1], SVal::dbl(0));
            SVal m = fAbs(s, a[0]);
            ret = ng ? fNeg(m) : m;
        } E;
    B("llvm.is.fpclass") {
        unsigned m = conc(s, a[1]);
        if (a[0].k == SVal::D)
        {
            double x = a[0].d;
            unsigned c = std::isnan(x) ? 3 : std::isinf(x) ? (x < 0 ? 4 : 512) : x == 0 ? (std::signbit(x) ? 32 : 64) : std::fpclassify(x) == FP_SUBNORMAL ? (x < 0 ? 16 : 128) : (x < 0 ? 8 : 256);
            ret = SVal::i((m & c) != 0, 1);
            return;
        }
        // symbolic reals are finite
        bool fin = (m & 0x1f8) == 0x1f8, none = (m & 0x1f8) == 0;
        if (fin) ret = SVal::i(1, 1);
        else if (none) ret = SVal::i(0, 1);
        else throw EngineError("is.fpclass on symbolic real");
    } E;
    for (auto n : {"llvm.floor", "floor"}) B(n) { ret = roundV(s, a[0], 0); } E;
    for (auto n : {"llvm.ceil", "ceil"}) B(n) { ret = roundV(s, a[0], 1); } E;
    for (auto n : {"llvm.round", "round"}) B(n) { ret = roundV(s, a[0], 2); } E;
    for (auto n : {"llvm.trunc", "trunc"}) B(n) { ret = roundV(s, a[0], 3); } E;
    for (auto n : {"llvm.rint", "rint", "llvm.nearbyint", "nearbyint"}) B(n) { ret = roundV(s, a[0], 4); } E;
    for (auto n : {"lround", "llvm.lround"}) B(n) { SVal v = roundV(s, a[0], 2); ret = SVal::i((int64_t)v.d, 64); } E;
    for (auto n : {"llvm.pow", "pow"}) B(n) { ret = powV(s, a[0], a[1]); } E;
    for (auto n : {"llvm.powi"}) B(n) { ret = powV(s, a[0], SVal::dbl((double)(int32_t)conc(s, a[1]))); } E;
    for (auto n : {"llvm.exp", "exp"}) B(n) { ret = mathFn(s, "exp", a[0], [](double x) { return std::exp(x); }, 0, INFINITY); } E;
    for (auto n : {"llvm.exp2", "exp2"}) B(n) { ret = mathFn(s, "exp2", a[0], [](double x) { return std::exp2(x); }, 0, INFINITY); } E;
    for (auto n : {"llvm.log", "log"}) B(n) { ret = mathFn(s, "log", a[0], [](double x) { return std::log(x); }, -INFINITY, INFINITY); } E;
    for (auto n : {"llvm.log10", "log10"}) B(n) { ret = mathFn(s, "log10", a[0], [](double x) { return std::log10(x); }, -INFINITY, INFINITY); } E;
    for (auto n : {"llvm.log2", "log2"}) B(n) { ret = mathFn(s, "log2", a[0], [](double x) { return std::log2(x); }, -INFINITY, INFINITY); } E;
    B("tanh") { ret = mathFn(s, "tanh", a[0], [](double x) { return std::tanh(x); }, -1, 1); } E;
    B("atan") { ret = mathFn(s, "atan", a[0], [](double x) { return std::atan(x); }, -1.6, 1.6); } E;
    B("acos") { ret = mathFn(s, "acos", a[0], [](double x) { return std::acos(x); }, 0, 3.2); } E;
    B("asin") { ret = mathFn(s, "asin", a[0], [](double x) { return std::asin(x); }, -1.6, 1.6); } E;
    B("cbrt") { ret = mathFn(s, "cbrt", a[0], [](double x) { return std::cbrt(x); }, -INFINITY, INFINITY); } E;
    B("erf") { ret = mathFn(s, "erf", a[0], [](double x) { return std::erf(x); }, -1, 1); } E;
    B("sinh") { ret = mathFn(s, "sinh", a[0], [](double x) { return std::sinh(x); }, -INFINITY, INFINITY); } E;
    B("cosh") { ret = mathFn(s, "cosh", a[0], [](double x) { return std::cosh(x); }, 1, INFINITY); } E;
    B("atan2") {
        if (a[0].k == SVal::D && a[1].k == SVal::D) ret = SVal::dbl(std::atan2(a[0].d, a[1].d));
        else ret = freshFn(s, "atan2", {toRF(a[0]), toRF(a[1])}, [](const std::vector<double> &y) { return std::atan2(y[0], y[1]); }, -3.15, 3.15);
    } E;
    B("hypot") { ret = sqrtV(s, fArith(s, Instruction::FAdd, fArith(s, Instruction::FMul, a[0], a[0], 64), fArith(s, Instruction::FMul, a[1], a[1], 64), 64)); } E;
    for (auto n : {"llvm.sin", "sin"}) B(n) { ret = a[0].k == SVal::D ? SVal::dbl(std::sin(a[0].d)) : fnSinCos(s, true, toRF(a[0])); } E;
    for (auto n : {"llvm.cos", "cos"}) B(n) { ret = a[0].k == SVal::D ? SVal::dbl(std::cos(a[0].d)) : fnSinCos(s, false, toRF(a[0])); } E;
    B("tan") { ret = a[0].k == SVal::D ? SVal::dbl(std::tan(a[0].d)) : fArith(s, Instruction::FDiv, fnSinCos(s, true, toRF(a[0])), fnSinCos(s, false, toRF(a[0])), 64); } E;
    B("sincos") {
        SVal x = a[0].k == SVal::D ? SVal::dbl(std::sin(a[0].d)) : fnSinCos(s, true, toRF(a[0])), y = a[0].k == SVal::D ? SVal::dbl(std::cos(a[0].d)) : fnSinCos(s, false, toRF(a[0]));
        storeRaw(s, conc(s, a[1]), x, 8, "sincos");
        storeRaw(s, conc(s, a[2]), y, 8, "sincos");
    } E;
    B("fmod") { if (a[0].k != SVal::D || a[1].k != SVal::D) throw EngineError("fmod on symbolic real"); ret = SVal::dbl(std::fmod(a[0].d, a[1].d)); } E;
    B("ldexp") { int e = (int32_t)conc(s, a[1]); ret = fArith(s, Instruction::FMul, a[0], SVal::dbl(std::ldexp(1.0, e)), 64); } E;
    BIdx["llvm.ldexp"] = BIdx["ldexp"];
    B("tgamma") { if (a[0].k != SVal::D) throw EngineError("tgamma"); ret = SVal::dbl(std::tgamma(a[0].d)); } E;
    B("lgamma") { if (a[0].k != SVal::D) throw EngineError("lgamma"); ret = SVal::dbl(std::lgamma(a[0].d)); } E;
    struct MM { const char *n; unsigned p; };
    static const MM mm[] = {{"llvm.smax", CmpInst::ICMP_SGT}, {"llvm.smin", CmpInst::ICMP_SLT}, {"llvm.umax", CmpInst::ICMP_UGT}, {"llvm.umin", CmpInst::ICMP_ULT}};
    B("llvm.smax") { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { return selectV(s, iCmp(s, CmpInst::ICMP_SGT, x, y), x, y); }); } E;
    B("llvm.smin") { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { return selectV(s, iCmp(s, CmpInst::ICMP_SLT, x, y), x, y); }); } E;
    B("llvm.umax") { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { return selectV(s, iCmp(s, CmpInst::ICMP_UGT, x, y), x, y); }); } E;
    B("llvm.umin") { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { return selectV(s, iCmp(s, CmpInst::ICMP_ULT, x, y), x, y); }); } E;
    (void)mm;
    B("llvm.abs") { ret = vmap1(s, a[0], [&](const SVal &x) { return selectV(s, iCmp(s, CmpInst::ICMP_SLT, x, SVal::i(0, x.w)), iArith(Instruction::Sub, SVal::i(0, x.w), x), x); }); } E;
    B("llvm.usub.sat") { ret = vmap2(s, a[0], a[1], [&](const SVal &x, const SVal &y) { return selectV(s, iCmp(s, CmpInst::ICMP_ULT, x, y), SVal::i(0, x.w), iArith(Instruction::Sub, x, y)); }); } E;
    B("llvm.uadd.sat") { SVal o = ovf(s, a[0], a[1], 0, false); ret = selectV(s, AGG[o.u][1], SVal::i(~0ull, d.w), AGG[o.u][0]); } E;
    B("llvm.sadd.with.overflow") { ret = ovf(s, a[0], a[1], 0, true); } E;
    B("llvm.ssub.with.overflow") { ret = ovf(s, a[0], a[1], 1, true); } E;
    B("llvm.smul.with.overflow") { ret = ovf(s, a[0], a[1], 2, true); } E;
    B("llvm.uadd.with.overflow") { ret = ovf(s, a[0], a[1], 0, false); } E;
    B("llvm.usub.with.overflow") { ret = ovf(s, a[0], a[1], 1, false); } E;
    B("llvm.umul.with.overflow") { ret = ovf(s, a[0], a[1], 2, false); } E;
    B("llvm.ctlz") { ret = vmap1(s, a[0], [&](const SVal &x) { uint64_t u = conc(s, x); return SVal::i(u ? __builtin_clzll(u) - (64 - x.w) : x.w, x.w); }); } E;
    B("llvm.cttz") { ret = vmap1(s, a[0], [&](const SVal &x) { uint64_t u = conc(s, x); return SVal::i(u ? __builtin_ctzll(u) : x.w, x.w); }); } E;
    B("llvm.ctpop") { ret = vmap1(s, a[0], [&](const SVal &x) { return SVal::i(__builtin_popcountll(conc(s, x)), x.w); }); } E;
    B("llvm.bswap") { uint64_t u = conc(s, a[0]); ret = SVal::i(__builtin_bswap64(u) >> (64 - d.w), d.w); } E;
    B("llvm.fshl") {
        unsigned w = d.w;
        uint64_t c = conc(s, a[2]) % w;
        if (!c) { ret = a[0]; return; }
        ret = iArith(Instruction::Or, iArith(Instruction::Shl, a[0], SVal::i(c, w)), iArith(Instruction::LShr, a[1], SVal::i(w - c, w)));
    } E;
    B("llvm.fshr") {
        unsigned w = d.w;
        uint64_t c = conc(s, a[2]) % w;
        if (!c) { ret = a[1]; return; }
        ret = iArith(Instruction::Or, iArith(Instruction::Shl, a[0], SVal::i(w - c, w)), iArith(Instruction::LShr, a[1], SVal::i(c, w)));
    } E;
    B("llvm.vector.reduce.fadd") { SVal r = a[0]; for (auto x : std::vector<SVal>(AGG[a[1].u])) r = fArith(s, Instruction::FAdd, r, x, d.w); ret = r; } E;
    B("llvm.vector.reduce.add") { std::vector<SVal> v = AGG[a[0].u]; SVal r = v[0]; for (size_t i = 1; i < v.size(); i++) r = iArith(Instruction::Add, r, v[i]); ret = r; } E;
    B("llvm.vector.reduce.or") { std::vector<SVal> v = AGG[a[0].u]; SVal r = v[0]; for (size_t i = 1; i < v.size(); i++) r = iArith(Instruction::Or, r, v[i]); ret = r; } E;
    B("llvm.vector.reduce.and") { std::vector<SVal> v = AGG[a[0].u]; SVal r = v[0]; for (size_t i = 1; i < v.size(); i++) r = iArith(Instruction::And, r, v[i]); ret = r; } E;
    // ---- assertions of the code under test
    B("_Z21__DNDS_getTraceStringB5cxx11v") { throw BugFound{"DNDS assertion failed", "dnds_assert"}; } E;
    for (auto n : {"_Z19__DNDS_assert_falsePKcS0_i", "_Z24__DNDS_assert_false_infoPKcS0_iRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"})
        B(n) { throw BugFound{"DNDS assertion failed", "dnds_assert"}; } E;
    // ---- harness API
    B("vh_int") {
        std::string n = inputName(s, a[0]);
        int64_t lo = conc(s, a[1]), hi = conc(s, a[2]);
        if (lo > hi) throw PathEnd{1};
        if (auto pi = PIN.find(n); pi != PIN.end())
        {
            if (pi->second < lo || pi->second > hi) throw PathEnd{1};
            lo = hi = pi->second;
        }
        int k = s.nameCnt[n]++;
        std::string key = n + "#" + std::to_string(k);
        std::string vk = key + "|" + std::to_string(lo) + "|" + std::to_string(hi);
        auto it = inputBV.find(vk);
        uint32_t v;
        if (it == inputBV.end())
        {
            v = EM->bvars.size();
            EM->bvars.push_back({key, (uint16_t)ExprMgr::fitW(lo, hi), lo, hi});
            inputBV[vk] = v;
        }
        else v = it->second;
        auto h = std::make_shared<Hint>(*s.hint);
        if (h->bv.size() <= v) h->bv.resize(v + 1, 0);
        h->bv[v] = ExprMgr::mask(lo, EM->bvars[v].w);
        s.hint = h;
        NodeId x = EM->var(v);
        s.inputs.push_back({key, false, v});
        unsigned vw = EM->bvars[v].w;
        if (lo == hi) { s.known[x] = ExprMgr::mask(lo, vw); ret = SVal::i(lo, 64); s.inputs.back().var = v; return; }
        // the bounds are emitted by the query layer (addVarDefs); the expression layer uses them as value ranges
        ret = mkSym(EM->sext(x, 64));
    } E;
    B("vh_real") {
        std::string n = inputName(s, a[0]);
        if (a[1].k != SVal::D || a[2].k != SVal::D) throw EngineError("vh_real: symbolic range");
        double lo = a[1].d, hi = a[2].d;
        int k = s.nameCnt[n]++;
        std::string key = n + "#" + std::to_string(k);
        char vb[96];
        snprintf(vb, sizeof vb, "|%.17g|%.17g", lo, hi);
        std::string vk = key + vb;
        auto it = inputReal.find(vk);
        uint32_t v;
        if (it == inputReal.end())
        {
            v = newRVar(key, 0, lo, hi);
            inputReal[vk] = v;
        }
        else v = it->second;
        auto h = std::make_shared<Hint>(*s.hint);
        if (h->rv.size() <= v) h->rv.resize(G.vars.size(), std::nan(""));
        // generic, deterministic starting point strictly inside the box
        double fr = 0.5 + 0.37 * std::sin(1.7 * v + 0.3 + 0.9 * O.seed);
        double x = lo + (hi - lo) * fr;
        double q = std::ldexp(1.0, 20);
        double xr = std::round(x * q) / q;
        if (xr > lo && xr < hi) x = xr;
        h->rv[v] = x;
        s.hint = h;
        s.inputs.push_back({key, true, v});
        if (lo == hi) { ret = SVal::dbl(lo); return; }
        ret = SVal::real(newReal(rfPoly(Poly::var(v))));
    } E;
    B("vh_assume") { assumeNode(s, pureNode(s, boolOf(s, a[0]))); } E;
    B("vh_assert") {
        std::string m = cstr(s, conc(s, a[1]));
        if (a[0].k == SVal::I)
        {
            OBL[m]++;
            ST.asserts++;
            if (a[0].u & 1) { ST.trivObl++; return; }
            HintP h;
            if (!fullModel(s, h)) throw PathEnd{1};
            report(s, h, m, "assert");
            throw PathEnd{2};
        }
        obligationBool(s, pureNode(s, boolOf(s, a[0])), m);
    } E;
    B("vh_close") {
        std::string m = cstr(s, conc(s, a[3]));
        if (a[2].k != SVal::D) throw EngineError("vh_close: symbolic tolerance");
        if (a[0].k == SVal::D && a[1].k == SVal::D)
        {
            OBL[m]++;
            ST.asserts++;
            if (std::abs(a[0].d - a[1].d) <= a[2].d) { ST.trivObl++; return; }
            HintP h;
            if (!fullModel(s, h)) throw PathEnd{1};
            report(s, h, m, "assert");
            throw PathEnd{2};
        }
        for (int i = 0; i < 2; i++)
            if (a[i].k == SVal::D && !std::isfinite(a[i].d))
            {
                HintP h;
                if (!fullModel(s, h)) throw PathEnd{1};
                report(s, h, m + " (not finite)", "assert");
                throw PathEnd{2};
            }
        obligationReal(s, rfAdd(toRF(a[0]), toRF(a[1]), -1), a[2].d, true, m);
    } E;
    B("vh_le") {
        std::string m = cstr(s, conc(s, a[3]));
        if (a[2].k != SVal::D) throw EngineError("vh_le: symbolic tolerance");
        if (a[0].k == SVal::D && a[1].k == SVal::D)
        {
            OBL[m]++;
            ST.asserts++;
            if (a[0].d - a[1].d <= a[2].d) { ST.trivObl++; return; }
            HintP h;
            if (!fullModel(s, h)) throw PathEnd{1};
            report(s, h, m, "assert");
            throw PathEnd{2};
        }
        for (int i = 0; i < 2; i++)
            if (a[i].k == SVal::D && std::isnan(a[i].d))
            {
                HintP h;
                if (!fullModel(s, h)) throw PathEnd{1};
                report(s, h, m + " (not a number)", "assert");
                throw PathEnd{2};
            }
        obligationReal(s, rfAdd(toRF(a[0]), toRF(a[1]), -1), a[2].d, false, m);
    } E;
    B("vh_deriv") {
        if (a[1].k == SVal::D) throw EngineError("vh_deriv: not a variable");
        RFP x = toRF(a[1]), y = toRF(a[0]);
        if (!x->d.empty() || x->n.t.size() != 1 || G.monos[x->n.t[0].first].f.size() != 1 || G.monos[x->n.t[0].first].deg != 1) throw EngineError("vh_deriv: not a plain variable");
        RFP r = rfDeriv(y, G.monos[x->n.t[0].first].f[0].first);
        ret = r->isConst() ? SVal::dbl(r->n.isZero() ? 0.0 : qd(r->n.constVal())) : SVal::real(newReal(r));
    } E;
    B("vh_reach") { REACH[cstr(s, conc(s, a[0]))]++; } E;
    B("vh_concretize") { ret = SVal::i(conc(s, a[0]), 64); } E;
    B("vh_symbolic") { ret = SVal::i(1, 32); } E;
    B("vh_note") { fprintf(stderr, "note: %s\n", cstr(s, conc(s, a[0])).c_str()); } E;
    B("vh_show") {
        fprintf(stderr, "show: %s = ", cstr(s, conc(s, a[0])).c_str());
        if (a[1].k == SVal::D) fprintf(stderr, "%.17g\n", a[1].d);
        else { auto r = toRF(a[1]); fprintf(stderr, "<%zu terms, %zu denominators> ~ %.10g\n", r->n.t.size(), r->d.size(), rfEval(*r, s.hint->rv)); }
    } E;
    B("vh_show_int") {
        fprintf(stderr, "show: %s = %s %lld\n", cstr(s, conc(s, a[0])).c_str(), a[1].k == SVal::I ? "" : "sym", (long long)a[1].u);
    } E;
    B("vh_spawn") {
        uint64_t fp = conc(s, a[0]);
        auto it = fnAt.find(fp);
        if (it == fnAt.end()) throw EngineError("vh_spawn");
        SVal arg = a[1];
        int cur = s.cur;
        s.th.emplace_back();
        int id = s.th.size() - 1;
        s.cur = id;
        pushCall(s, infoOf(it->second), {arg}, nullptr);
        s.cur = cur;
        // return normally in the spawning thread
        Frame &f = s.th[cur].st.back();
        if (d.dst >= 0) f.regs[d.dst] = SVal::i(id, 32);
        if (d.op == Instruction::Invoke) jump(s, f, d.bb, d.tgt[0]);
        else f.pc++;
    } E;
    B("vh_expect_refuse") { s.expectRefuse = true; } E;
    B("vh_self") { ret = SVal::i(s.cur, 32); } E;
    B("vh_progress") { s.idleYields = 0; } E;
    B("vh_wait") {
        Frame &f = s.th[s.cur].st.back();
        if (d.op == Instruction::Invoke) jump(s, f, d.bb, d.tgt[0]);
        else f.pc++;
        int alive = 0;
        for (auto &t : s.th) alive += !t.done;
        if (++s.idleYields > 3 * alive + 3) throw BugFound{"deadlock: every simulated rank is blocked", "deadlock"};
        switchThread(s);
    } E;
    B("vh_join") {
        bool all = true;
        for (size_t i = 0; i < s.th.size(); i++)
            if ((int)i != s.cur && !s.th[i].done) all = false;
        if (all)
        {
            // simulated ranks are numbered afresh for the next group
            s.th.resize(1);
            return;
        }
        int alive = 0;
        for (auto &t : s.th) alive += !t.done;
        if (++s.idleYields > 3 * alive + 3) throw BugFound{"deadlock: every simulated rank is blocked", "deadlock"};
        switchThread(s);
        // leave pc: the join is retried when thread 0 is scheduled again
        if (s.cur == 0) throw EngineError("join: only thread 0 alive");
        throw Retry{};
    } E;
}
#undef B
#undef E
