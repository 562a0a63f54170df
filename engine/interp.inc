// Instruction interpreter, library models, exploration loop.
using BFn = void (*)(State &, DInst &, std::vector<SVal> &, SVal &);
static std::vector<BFn> BT;
static std::unordered_map<std::string, int> BIdx;
static std::map<std::string, uint64_t> STUBUSED;
static void reg(const char *n, BFn f)
{
    BIdx[n] = BT.size();
    BT.push_back(f);
}
static int bi(const std::string &n)
{
    auto it = BIdx.find(n);
    return it == BIdx.end() ? -1 : it->second;
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static int64_t pickStub(const std::string &n, const std::string &dem)
{
    // stream / locale / formatting machinery: never decides a property, modelled as no-ops
    static const char *ret0[] = {
        "_ZNSo", "_ZStls", "_ZNSi", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_fstream",
        "_ZNSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_istringstream", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt13basic_filebuf", "_ZNSt12__basic_file", "_ZSt16__ostream_insert", "_ZSt4endl",
        "_ZSt5flush", "_ZNSt15basic_streambuf", "_ZNKSt9basic_ios", "_ZNKSt5ctype", "_ZSt9use_facet", "_ZSt16__throw_bad_castv", "_ZNKSt14basic_ofstream", "_ZNKSt14basic_ifstream"};
    for (auto p : ret0)
        if (starts(n, p)) return bi("$ret0");
    if (starts(n, "_ZNKSt7__cxx1118basic_stringstream") || starts(n, "_ZNKSt7__cxx1119basic_ostringstream") || starts(n, "_ZNKSt7__cxx1115basic_stringbuf"))
        return bi("$emptystr");
    if (dem.find("fmt::v9::vformat[") == 0 || starts(n, "_ZN3fmt2v97vformatB5cxx11")) return bi("$emptystr");
    if (starts(n, "_ZN3fmt2v9") && dem.find("vprint") != std::string::npos) return bi("$ret0");
    // instantiations of operator<< on ostreams from the headers
    if (dem.find("std::basic_ostream<char, std::char_traits<char>>& std::operator<<") == 0) return bi("$ret0");
    if (dem.find("std::basic_ostream<char, std::char_traits<char>>& std::endl") == 0) return bi("$ret0");
    if (dem.find("std::basic_ostream<char, std::char_traits<char>>& std::flush") == 0) return bi("$ret0");
    if (dem.find("operator<<(std::ostream&") != std::string::npos || dem.find("operator<<(std::basic_ostream<char") != std::string::npos) return bi("$ret0");
    if (dem.find("Eigen::operator<<") != std::string::npos) return bi("$ret0");
    if (dem.find("std::basic_ostream<char, std::char_traits<char>>::") == 0) return bi("$ret0");
    return -1;
}

static FnInfo *infoOf(Function *F)
{
    auto it = FI.find(F);
    if (it != FI.end()) return it->second;
    auto *fi = new FnInfo;
    fi->F = F;
    fi->dem = demangle(F->getName().str());
    fi->nargs = F->arg_size();
    std::string n = F->getName().str();
    fi->builtin = n == "getenv" && !F->isDeclaration() ? -1 : bi(n);
    if (fi->builtin < 0 && starts(n, "llvm.")) fi->builtin = -2;
    if (fi->builtin == -1)
    {
        int64_t p = pickStub(n, fi->dem);
        if (p >= 0) { fi->builtin = p; }
    }
    FI[F] = fi;
    return fi;
}
static unsigned bitsOf(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static int intrinsicBuiltin(const std::string &n)
{
    // strip type suffixes progressively
    std::string s = n;
    for (;;)
    {
        int b = bi(s);
        if (b >= 0) return b;
        size_t p = s.rfind('.');
        if (p == std::string::npos || p <= 4) return -1;
        s.resize(p);
    }
}
static std::string repoPrefix = "/repo/";
static int covOf(const std::string &name)
{
    auto it = covIdx.find(name);
    if (it != covIdx.end()) return it->second;
    int k = COV.size();
    COV.push_back(name);
    covHit.push_back(0);
    covIdx[name] = k;
    return k;
}
static void decode(FnInfo *fi)
{
    Function *F = fi->F;
    std::unordered_map<const llvm::Value *, int> slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    std::unordered_map<const BasicBlock *, int> bbid;
    int nb = 0;
    for (auto &B : *F)
    {
        bbid[&B] = nb++;
        for (auto &I : B)
            if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    fi->nslots = n;
    fi->bbs.resize(nb);
    auto opnd = [&](llvm::Value *v) {
        Operand o;
        auto it = slot.find(v);
        if (it != slot.end()) o.slot = it->second;
        else if (auto c = dyn_cast<Constant>(v))
        {
            try { o.c = evalConst(c); }
            catch (EngineError &) { o.c.k = SVal::N; }
        }
        else o.c.k = SVal::N;
        return o;
    };
    // first pass: count instructions
    int idx = 0;
    for (auto &B : *F)
    {
        auto &bi_ = fi->bbs[bbid[&B]];
        bi_.first = idx;
        for (auto &I : B)
            if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) idx++;
    }
    fi->code.reserve(idx);
    for (auto &B : *F)
    {
        int b = bbid[&B];
        for (auto &I : B)
        {
            if (auto *ph = dyn_cast<PHINode>(&I))
            {
                std::map<int, Operand> m;
                for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) m[bbid[ph->getIncomingBlock(k)]] = opnd(ph->getIncomingValue(k));
                fi->bbs[b].phis.push_back({slot[ph], std::move(m)});
                continue;
            }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            fi->code.emplace_back();
            DInst &d = fi->code.back();
            d.I = &I;
            d.op = I.getOpcode();
            d.bb = b;
            auto ss = slot.find(&I);
            if (ss != slot.end()) d.dst = ss->second;
            d.ty = I.getType();
            d.w = bitsOf(I.getType());
            if (auto *g = dyn_cast<GetElementPtrInst>(&I))
            {
                d.ops.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                {
                    if (auto *st = gi.getStructTypeOrNull())
                    {
                        unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
                        d.goff += DL->getStructLayout(st)->getElementOffset(f);
                    }
                    else
                    {
                        int64_t es = gi.getSequentialElementStride(*DL).getFixedValue();
                        if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) d.goff += ci->getSExtValue() * es;
                        else d.gidx.push_back({opnd(gi.getOperand()), es});
                    }
                }
            }
            else if (auto *cb = dyn_cast<CallBase>(&I))
            {
                for (auto &a : cb->args()) d.ops.push_back(opnd(a.get()));
                llvm::Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto *cf = dyn_cast<Function>(cv))
                {
                    d.callee = cf;
                    d.cinfo = infoOf(cf);
                    d.builtin = d.cinfo->builtin;
                    if (d.builtin == -2)
                    {
                        d.builtin = intrinsicBuiltin(cf->getName().str());
                    }
                    else if (d.builtin == -1 && cf->isDeclaration()) d.builtin = -3;
                }
                else
                {
                    d.builtin = -4; // indirect
                    d.ops.push_back(opnd(cb->getCalledOperand()));
                    if (isa<InlineAsm>(cv)) d.builtin = -5;
                }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) d.tgt = {bbid[iv->getNormalDest()], bbid[iv->getUnwindDest()]};
            }
            else if (auto *br = dyn_cast<BranchInst>(&I))
            {
                if (br->isConditional()) d.ops.push_back(opnd(br->getCondition()));
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.tgt.push_back(bbid[br->getSuccessor(k)]);
            }
            else if (auto *sw = dyn_cast<SwitchInst>(&I))
            {
                d.ops.push_back(opnd(sw->getCondition()));
                d.tgt.push_back(bbid[sw->getDefaultDest()]);
                for (auto &c : sw->cases())
                {
                    d.ops.push_back(opnd(c.getCaseValue()));
                    d.tgt.push_back(bbid[c.getCaseSuccessor()]);
                }
            }
            else
            {
                for (auto &o : I.operands()) d.ops.push_back(opnd(o.get()));
                if (isa<LoadInst>(I)) { d.aux = DL->getTypeStoreSize(I.getType()).getFixedValue(); d.ld_fp = I.getType()->isFloatingPointTy(); }
                if (auto *si = dyn_cast<StoreInst>(&I)) { d.ty = si->getValueOperand()->getType(); d.aux = DL->getTypeStoreSize(d.ty).getFixedValue(); }
                if (auto *al = dyn_cast<AllocaInst>(&I)) d.aux = typeSize(al->getAllocatedType());
                if (auto *c = dyn_cast<CmpInst>(&I)) d.aux = c->getPredicate();
            }
            if (auto dl = I.getDebugLoc())
            {
                for (DILocation *l = dl.get(); l; l = l->getInlinedAt())
                {
                    auto *sp = l->getScope()->getSubprogram();
                    if (!sp) continue;
                    std::string fn = sp->getFilename().str();
                    if (!starts(fn, repoPrefix.c_str())) continue;
                    std::string nm = demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str());
                    if (size_t p = nm.find('('); p != std::string::npos && nm.find("operator()") == std::string::npos) nm = nm.substr(0, p);
                    if (nm.size() > 110) nm = nm.substr(0, 107) + "...";
                    d.covIds.push_back(covOf(fn.substr(repoPrefix.size()) + ":" + nm));
                }
            }
        }
    }
    fi->decoded = true;
}

// ---------------------------------------------------------------- control helpers
static void jump(State &s, Frame &f, int from, int to)
{
    auto &b = f.f->bbs[to];
    if (!b.phis.empty())
    {
        static std::vector<SVal> tmp;
        tmp.clear();
        for (auto &p : b.phis)
        {
            auto it = p.second.find(from);
            if (it == p.second.end()) throw EngineError("phi without edge");
            tmp.push_back(it->second.slot >= 0 ? f.regs[it->second.slot] : it->second.c);
        }
        size_t k = 0;
        for (auto &p : b.phis) f.regs[p.first] = tmp[k++];
    }
    f.pc = b.first;
}
static void popFrame(State &s, Thread &t)
{
    Frame &f = t.st.back();
    for (auto id : f.allocas)
    {
        s.mem.own(id / CHUNK);
        s.mem.ch[id / CHUNK].p->o[id % CHUNK] = ObjRef();
        s.mem.freeStack.push_back(id);
    }
    t.st.pop_back();
}
static void switchThread(State &s)
{
    int n = s.th.size();
    for (int k = 1; k <= n; k++)
    {
        int c = (s.cur + k) % n;
        if (!s.th[c].done) { s.cur = c; return; }
    }
}
static void pushCall(State &s, FnInfo *fi, const std::vector<SVal> &args, const CallBase *cb)
{
    if (!fi->decoded) decode(fi);
    fi->calls++;
    Thread &t = s.th[s.cur];
    if (t.st.size() > 4000) throw BugFound{"call stack exhausted", "stack"};
    t.st.emplace_back();
    Frame &f = t.st.back();
    f.f = fi;
    f.regs.resize(fi->nslots);
    for (int i = 0; i < fi->nargs && i < (int)args.size(); i++)
    {
        f.regs[i] = args[i];
        if (cb && cb->isByValArgument(i))
        {
            Type *bt = cb->getParamByValType(i);
            uint64_t sz = typeSize(bt);
            uint64_t a = allocObj(s, sz, 1, "byval");
            copyMem(s, a, conc(s, args[i]), sz);
            f.allocas.push_back(a >> 32);
            f.regs[i] = SVal::i(a, 64);
        }
    }
    for (size_t i = fi->nargs; i < args.size(); i++) f.varargs.push_back(args[i]);
    f.pc = 0;
    f.depth = t.st.size();
}

// ---------------------------------------------------------------- exceptions
static std::unordered_map<uint64_t, const GlobalVariable *> gvAt;
static const char *stdBase(const std::string &n)
{
    static std::map<std::string, const char *> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    auto it = m.find(n);
    return it == m.end() ? nullptr : it->second;
}
static void tiBases(const std::string &name, const GlobalVariable *g, std::vector<std::pair<std::string, int64_t>> &out)
{
    if (auto b = stdBase(name)) { out.push_back({b, 0}); return; }
    if (!g || !g->hasInitializer()) return;
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return;
    auto base = [&](unsigned i) -> std::string {
        auto *v = cs->getOperand(i)->stripPointerCasts();
        return isa<GlobalVariable>(v) ? v->getName().str() : "";
    };
    if (cs->getNumOperands() == 3) out.push_back({base(2), 0});
    else if (cs->getNumOperands() > 4)
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
        {
            int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
            out.push_back({base(i), fl >> 8});
        }
}
static bool tiFind(const std::string &d, const std::string &b, int64_t &off)
{
    if (d == b) return true;
    std::vector<std::pair<std::string, int64_t>> bs;
    tiBases(d, M->getNamedGlobal(d), bs);
    for (auto &x : bs)
    {
        int64_t o = off + x.second;
        if (tiFind(x.first, b, o)) { off = o; return true; }
    }
    return false;
}
static std::string tiName(uint64_t a)
{
    auto it = gvAt.find(a);
    return it == gvAt.end() ? "" : it->second->getName().str();
}
static bool catches(uint64_t clause, uint64_t thrown)
{
    if (clause == 0) return true;
    if (clause == thrown) return true;
    int64_t off = 0;
    return tiFind(tiName(thrown), tiName(clause), off);
}
static void unwind(State &s)
{
    Thread &t = s.th[s.cur];
    // first phase: is there a handler at all?
    bool handler = false;
    for (int i = (int)t.st.size() - 1; i >= 0 && !handler; i--)
    {
        Frame &f = t.st[i];
        DInst &d = f.f->code[f.pc];
        if (d.op != Instruction::Invoke) continue;
        auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst();
        for (unsigned k = 0; k < lp->getNumClauses(); k++)
            if (lp->isCatch(k) && catches(evalConst(lp->getClause(k)).u, t.excTy)) handler = true;
    }
    if (!handler) throw BugFound{"uncaught exception " + demangle(tiName(t.excTy)), "exception"};
    for (;;)
    {
        Frame &f = t.st.back();
        DInst &d = f.f->code[f.pc];
        if (d.op == Instruction::Invoke)
        {
            auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst();
            uint64_t sel = 0;
            bool take = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); k++)
            {
                if (!lp->isCatch(k)) { take = true; continue; }
                uint64_t c = evalConst(lp->getClause(k)).u;
                if (catches(c, t.excTy)) { sel = c ? (c >> 32) : 0x7fffffff; take = true; break; }
            }
            if (take)
            {
                t.caught.push_back({t.excObj, sel}); // consumed by landingpad
                int from = d.bb;
                jump(s, f, from, d.tgt[1]);
                return;
            }
        }
        popFrame(s, t);
        if (t.st.empty()) throw BugFound{"uncaught exception", "exception"};
    }
}

// ---------------------------------------------------------------- symbolic real -> integer
static int64_t realFloor(State &s, const SVal &v)
{
    RFP r = toRF(v);
    double x = rfEval(*r, s.hint->rv);
    if (std::isnan(x)) throw EngineError("rounding a symbolic real without a model");
    int64_t k = (int64_t)std::floor(x);
    SVal a = fCmp(s, CmpInst::FCMP_OGE, v, SVal::dbl((double)k)), b = fCmp(s, CmpInst::FCMP_OLT, v, SVal::dbl((double)k + 1));
    NodeId c = EM->band(toNode(a), toNode(b));
    if (!decide(s, c))
    {
        // known false under a stale model
        throw EngineError("rounding: model mismatch");
    }
    return k;
}
static SVal realTrunc(State &s, const SVal &v, unsigned w)
{
    if (realLess(s, v, SVal::dbl(0)))
    {
        int64_t k = realFloor(s, fNeg(v));
        return SVal::i(-k, w);
    }
    return SVal::i(realFloor(s, v), w);
}

// ---------------------------------------------------------------- aggregates in memory
static SVal loadTy(State &s, uint64_t addr, Type *t, const char *what)
{
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy())
    {
        unsigned w = bitsOf(t);
        if (t->isIntegerTy() && w > 64)
        {
            std::vector<SVal> v;
            for (unsigned k = 0; k < w / 64; k++) v.push_back(loadRaw(s, addr + 8 * k, 8, 64, false, what));
            return aggV(v);
        }
        return loadRaw(s, addr, DL->getTypeStoreSize(t).getFixedValue(), w, t->isFloatingPointTy(), what);
    }
    std::vector<SVal> v;
    if (auto *st = dyn_cast<StructType>(t))
    {
        auto sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, addr + sl->getElementOffset(i), st->getElementType(i), what));
    }
    else
    {
        Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = typeSize(et);
        for (uint64_t i = 0; i < n; i++) v.push_back(loadTy(s, addr + i * es, et, what));
    }
    return aggV(v);
}
static void storeTy(State &s, uint64_t addr, const SVal &v, Type *t, const char *what)
{
    if (v.k == SVal::A)
    {
        std::vector<SVal> x = AGG[v.u];
        if (auto *st = dyn_cast<StructType>(t))
        {
            auto sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < x.size(); i++) storeTy(s, addr + sl->getElementOffset(i), x[i], st->getElementType(i), what);
        }
        else if (t->isIntegerTy())
        {
            for (unsigned i = 0; i < x.size(); i++) storeRaw(s, addr + 8 * i, x[i], 8, what);
        }
        else
        {
            Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t es = typeSize(et);
            for (unsigned i = 0; i < x.size(); i++) storeTy(s, addr + i * es, x[i], et, what);
        }
        return;
    }
    storeRaw(s, addr, v, DL->getTypeStoreSize(t).getFixedValue(), what);
}
static SVal castBits(State &s, const SVal &v, Type *from, Type *to)
{
    if (v.k == SVal::A || to->isVectorTy() || to->isStructTy())
    {
        // through a scratch object
        uint64_t sz = std::max(typeSize(from), typeSize(to));
        uint64_t a = allocObj(s, sz, 1, "bitcast");
        storeTy(s, a, v, from, "bitcast");
        SVal r = loadTy(s, a, to, "bitcast");
        uint32_t id = a >> 32;
        s.mem.own(id / CHUNK);
        s.mem.ch[id / CHUNK].p->o[id % CHUNK] = ObjRef();
        s.mem.freeStack.push_back(id);
        return r;
    }
    if (to->isDoubleTy())
    {
        if (v.k == SVal::I) { double d; memcpy(&d, &v.u, 8); return SVal::dbl(d); }
        return v;
    }
    if (to->isFloatTy())
    {
        if (v.k == SVal::I) { float f; uint32_t u = v.u; memcpy(&f, &u, 4); return SVal::dbl(f, 32); }
        return v;
    }
    if (v.k == SVal::D)
    {
        if (v.w == 32) { float f = v.d; uint32_t u; memcpy(&u, &f, 4); return SVal::i(u, 32); }
        uint64_t u;
        memcpy(&u, &v.d, 8);
        return SVal::i(u, 64);
    }
    return v;
}

#include "models.inc"

// ---------------------------------------------------------------- step
static SVal mapCast(State &s, const SVal &v, std::function<SVal(const SVal &)> f)
{
    if (v.k != SVal::A) return f(v);
    std::vector<SVal> x = AGG[v.u], r;
    for (auto &y : x) r.push_back(f(y));
    return aggV(r);
}
static void checkDivisor(State &s, const SVal &b)
{
    if (b.k == SVal::S)
    {
        NodeId z = EM->mk(Op::EQ, b.u, EM->cst(0, b.w), 1);
        if (decide(s, z)) throw BugFound{"integer division by zero", "arith"};
    }
}
static void doCall(State &s, DInst &d, std::vector<SVal> &args)
{
    Thread *t = &s.th[s.cur];
    int b = d.builtin;
    FnInfo *fi = d.cinfo;
    if (b == -4)
    {
        SVal fp = args.back();
        args.pop_back();
        uint64_t a = conc(s, fp);
        auto it = fnAt.find(a);
        if (it == fnAt.end()) throw BugFound{"call through an invalid function pointer", "memory"};
        fi = infoOf(it->second);
        b = fi->builtin;
        if (b == -1 && it->second->isDeclaration()) b = -3;
    }
    if (b == -3) throw EngineError("unmodelled external function " + fi->F->getName().str() + " [" + fi->dem.substr(0, 160) + "]");
    if (b == -5)
    {
        t->st.back().pc++;
        return;
    }
    if (b == -2 || (b == -1 && starts(fi->F->getName().str(), "llvm."))) throw EngineError("unmodelled intrinsic " + fi->F->getName().str());
    if (b >= 0)
    {
        SVal ret;
        int cur = s.cur;
        size_t depth = t->st.size();
        int pc0 = t->st.back().pc;
        BT[b](s, d, args, ret);
        t = &s.th[cur];
        if (t->st.size() != depth || t->st.back().pc != pc0 || t->done) return; // builtin took control
        Frame &f = t->st.back();
        if (d.dst >= 0) f.regs[d.dst] = ret;
        if (d.op == Instruction::Invoke) jump(s, f, d.bb, d.tgt[0]);
        else f.pc++;
        return;
    }
    pushCall(s, fi, args, cast<CallBase>(d.I));
}
static void stepOne(State &s)
{
    Thread &t = s.th[s.cur];
    Frame &f = t.st.back();
    DInst &d = f.f->code[f.pc];
    if (!d.seen)
    {
        d.seen = true;
        for (int c : d.covIds) covHit[c] = 1;
    }
    if (O.trace)
    {
        std::string str;
        raw_string_ostream os(str);
        d.I->print(os);
        fprintf(stderr, "[%d/%zu] %s\n", s.cur, t.st.size(), str.c_str());
    }
    auto get = [&](const Operand &o) -> const SVal & {
        if (o.slot >= 0) return f.regs[o.slot];
        if (o.c.k == SVal::N) throw EngineError("unsupported constant operand");
        return o.c;
    };
    switch (d.op)
    {
    case Instruction::Ret:
    {
        SVal r;
        bool has = !d.ops.empty();
        if (has) r = get(d.ops[0]);
        popFrame(s, t);
        if (t.st.empty())
        {
            t.done = true;
            if (s.cur == 0) throw PathEnd{0};
            s.idleYields = 0;
            switchThread(s);
            return;
        }
        Frame &c = t.st.back();
        DInst &cd = c.f->code[c.pc];
        if (cd.dst >= 0 && has) c.regs[cd.dst] = r;
        if (cd.op == Instruction::Invoke) jump(s, c, cd.bb, cd.tgt[0]);
        else c.pc++;
        return;
    }
    case Instruction::Br:
        if (d.ops.empty()) jump(s, f, d.bb, d.tgt[0]);
        else jump(s, f, d.bb, decideV(s, get(d.ops[0])) ? d.tgt[0] : d.tgt[1]);
        return;
    case Instruction::Switch:
    {
        const SVal &c = get(d.ops[0]);
        if (c.k == SVal::I)
        {
            int tg = d.tgt[0];
            for (size_t k = 1; k < d.ops.size(); k++)
                if (d.ops[k].c.u == c.u) { tg = d.tgt[k]; break; }
            jump(s, f, d.bb, tg);
            return;
        }
        uint64_t kv;
        if (lookupKnown(s, c.u, kv))
        {
            int tg = d.tgt[0];
            for (size_t k = 1; k < d.ops.size(); k++)
                if (d.ops[k].c.u == kv) { tg = d.tgt[k]; break; }
            jump(s, f, d.bb, tg);
            return;
        }
        for (size_t k = 1; k < d.ops.size(); k++)
            if (decide(s, EM->mk(Op::EQ, c.u, EM->cst(d.ops[k].c.u, c.w), 1))) { jump(s, f, d.bb, d.tgt[k]); return; }
        jump(s, f, d.bb, d.tgt[0]);
        return;
    }
    case Instruction::Unreachable: throw BugFound{"reached unreachable code", "unreachable"};
    case Instruction::Invoke:
    case Instruction::Call:
    {
        std::vector<SVal> args;
        args.reserve(d.ops.size());
        for (auto &o : d.ops)
        {
            if (o.slot >= 0) args.push_back(f.regs[o.slot]);
            else args.push_back(o.c);
        }
        doCall(s, d, args);
        return;
    }
    case Instruction::LandingPad:
    {
        auto c = t.caught.back();
        t.caught.pop_back();
        f.regs[d.dst] = aggV({SVal::i(c.first, 64), SVal::i(c.second, 32)});
        f.pc++;
        return;
    }
    case Instruction::Resume:
    {
        popFrame(s, t);
        if (t.st.empty()) throw BugFound{"uncaught exception", "exception"};
        unwind(s);
        return;
    }
    case Instruction::Alloca:
    {
        uint64_t n = conc(s, get(d.ops[0]));
        uint64_t a = allocObj(s, n * d.aux, 1, "stack object");
        f.allocas.push_back(a >> 32);
        f.regs[d.dst] = SVal::i(a, 64);
        break;
    }
    case Instruction::Load:
    {
        uint64_t a = conc(s, get(d.ops[0]));
        if (d.w && d.w <= 80 && !(d.w > 64 && !d.ld_fp)) f.regs[d.dst] = loadRaw(s, a, d.aux, d.w, d.ld_fp, "load");
        else f.regs[d.dst] = loadTy(s, a, d.ty, "load");
        break;
    }
    case Instruction::Store:
    {
        uint64_t a = conc(s, get(d.ops[1]));
        const SVal &v = get(d.ops[0]);
        if (v.k == SVal::A) storeTy(s, a, v, d.ty, "store");
        else storeRaw(s, a, v, d.aux, "store");
        break;
    }
    case Instruction::GetElementPtr:
    {
        SVal b = get(d.ops[0]);
        if (b.k == SVal::A) throw EngineError("vector gep");
        uint64_t acc = d.goff;
        NodeId symacc = 0;
        bool sy = false;
        for (auto &g : d.gidx)
        {
            const SVal &v = get(g.first);
            if (v.k == SVal::I) acc += ExprMgr::sx(v.u, v.w) * (uint64_t)g.second;
            else
            {
                uint64_t kv;
                if (v.k == SVal::S && lookupKnown(s, v.u, kv)) { acc += ExprMgr::sx(kv, v.w) * (uint64_t)g.second; continue; }
                NodeId x = EM->mk(Op::MUL, EM->sext(toNode(v), 64), EM->cst(g.second, 64), 64);
                symacc = sy ? EM->mk(Op::ADD, symacc, x, 64) : x;
                sy = true;
            }
        }
        if (!sy && b.k == SVal::I) f.regs[d.dst] = SVal::i(b.u + acc, 64);
        else
        {
            NodeId x = EM->mk(Op::ADD, toNode(b), EM->cst(acc, 64), 64);
            if (sy) x = EM->mk(Op::ADD, symacc, x, 64);
            f.regs[d.dst] = mkSym(x);
        }
        break;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        checkDivisor(s, get(d.ops[1]));
        [[fallthrough]];
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    {
        const SVal &a = get(d.ops[0]), &b = get(d.ops[1]);
        if (a.k == SVal::A && d.w > 64) { f.regs[d.dst] = wideArith(s, d.op, a, b, d.w); break; }
        f.regs[d.dst] = iArith(d.op, a, b);
        break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        f.regs[d.dst] = fArith(s, d.op, get(d.ops[0]), get(d.ops[1]), d.w);
        break;
    case Instruction::FNeg: f.regs[d.dst] = fNeg(get(d.ops[0])); break;
    case Instruction::ICmp: f.regs[d.dst] = iCmp(s, d.aux, get(d.ops[0]), get(d.ops[1])); break;
    case Instruction::FCmp: f.regs[d.dst] = fCmp(s, d.aux, get(d.ops[0]), get(d.ops[1])); break;
    case Instruction::Select: f.regs[d.dst] = selectV(s, get(d.ops[0]), get(d.ops[1]), get(d.ops[2])); break;
    case Instruction::Freeze: f.regs[d.dst] = get(d.ops[0]); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    {
        SVal v = get(d.ops[0]);
        Type *st = d.ty->getScalarType();
        unsigned w = bitsOf(st);
        unsigned op = d.op;
        unsigned sw = bitsOf(d.I->getOperand(0)->getType()->getScalarType());
        if (w > 64 || sw > 64)
        {
            if (op == Instruction::Trunc && v.k == SVal::A) { SVal x = AGG[v.u][0]; f.regs[d.dst] = w == 64 ? x : SVal::i(conc(s, x), w); break; }
            if (op == Instruction::ZExt) { f.regs[d.dst] = aggV({v.k == SVal::I ? SVal::i(v.u, 64) : mkSym(EM->zext(toNode(v), 64)), SVal::i(0, 64)}); break; }
            if (op == Instruction::SExt) { uint64_t u = ExprMgr::sx(conc(s, v), v.w); f.regs[d.dst] = aggV({SVal::i(u, 64), SVal::i((int64_t)u < 0 ? ~0ull : 0, 64)}); break; }
            throw EngineError("wide cast");
        }
        f.regs[d.dst] = mapCast(s, v, [&](const SVal &x) -> SVal {
            if (x.k == SVal::R) { if (w == 64) return x; throw EngineError("integer cast of symbolic real bits"); }
            if (x.k == SVal::D) { uint64_t u; memcpy(&u, &x.d, 8); return SVal::i(u, w); }
            if (x.k == SVal::I)
            {
                if (op == Instruction::SExt) return SVal::i(ExprMgr::sx(x.u, x.w), w);
                return SVal::i(x.u, w);
            }
            NodeId n = x.u;
            if (w == x.w) return x;
            if (op == Instruction::SExt) return mkSym(EM->sext(n, w));
            if (w > x.w) return mkSym(EM->zext(n, w));
            return mkSym(EM->extract(n, 0, w));
        });
        break;
    }
    case Instruction::BitCast: f.regs[d.dst] = castBits(s, get(d.ops[0]), d.I->getOperand(0)->getType(), d.ty); break;
    case Instruction::FPExt: case Instruction::FPTrunc:
    {
        unsigned w = bitsOf(d.ty->getScalarType());
        f.regs[d.dst] = mapCast(s, get(d.ops[0]), [&](const SVal &x) { if (x.k == SVal::D) return SVal::dbl(x.d, w); SVal y = x; y.w = w; return y; });
        break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP:
    {
        unsigned w = bitsOf(d.ty->getScalarType());
        bool sg = d.op == Instruction::SIToFP;
        SVal v = get(d.ops[0]);
        if (v.k == SVal::A)
            for (auto &x : std::vector<SVal>(AGG[v.u])) (void)conc(s, x);
        f.regs[d.dst] = mapCast(s, v, [&](const SVal &x) {
            uint64_t u = conc(s, x);
            return SVal::dbl(sg ? (double)ExprMgr::sx(u, x.w) : (double)u, w);
        });
        break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI:
    {
        SVal v = get(d.ops[0]);
        unsigned w = bitsOf(d.ty->getScalarType());
        f.regs[d.dst] = mapCast(s, v, [&](const SVal &x) {
            if (x.k == SVal::D)
            {
                if (std::isnan(x.d)) throw BugFound{"NaN converted to an integer", "nan"};
                return SVal::i(d.op == Instruction::FPToSI ? (uint64_t)(int64_t)x.d : (uint64_t)x.d, w);
            }
            return realTrunc(s, x, w);
        });
        break;
    }
    case Instruction::ExtractValue:
    {
        SVal v = get(d.ops[0]);
        for (unsigned k : cast<ExtractValueInst>(d.I)->indices()) { if (v.k != SVal::A) throw EngineError("extractvalue"); v = AGG[v.u][k]; }
        f.regs[d.dst] = v;
        break;
    }
    case Instruction::InsertValue:
    {
        auto idx = cast<InsertValueInst>(d.I)->getIndices();
        std::function<SVal(SVal, size_t)> ins = [&](SVal a, size_t k) -> SVal {
            if (k == idx.size()) return get(d.ops[1]);
            std::vector<SVal> x = AGG[a.u];
            x[idx[k]] = ins(x[idx[k]], k + 1);
            return aggV(x);
        };
        f.regs[d.dst] = ins(get(d.ops[0]), 0);
        break;
    }
    case Instruction::ExtractElement:
    {
        SVal v = get(d.ops[0]);
        uint64_t k = conc(s, get(d.ops[1]));
        f.regs[d.dst] = AGG[v.u].at(k);
        break;
    }
    case Instruction::InsertElement:
    {
        std::vector<SVal> x = AGG[get(d.ops[0]).u];
        x.at(conc(s, get(d.ops[2]))) = get(d.ops[1]);
        f.regs[d.dst] = aggV(x);
        break;
    }
    case Instruction::ShuffleVector:
    {
        auto *sv = cast<ShuffleVectorInst>(d.I);
        std::vector<SVal> x = AGG[get(d.ops[0]).u], y = AGG[get(d.ops[1]).u], r;
        for (int k : sv->getShuffleMask())
            r.push_back(k < 0 ? x[0] : k < (int)x.size() ? x[k] : y[k - x.size()]);
        f.regs[d.dst] = aggV(r);
        break;
    }
    case Instruction::AtomicRMW:
    {
        auto *rm = cast<AtomicRMWInst>(d.I);
        uint64_t a = conc(s, get(d.ops[0]));
        unsigned sz = DL->getTypeStoreSize(d.ty).getFixedValue();
        SVal old = loadRaw(s, a, sz, d.w, false, "atomic"), v = get(d.ops[1]), nv;
        switch (rm->getOperation())
        {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = iArith(Instruction::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = iArith(Instruction::Sub, old, v); break;
        case AtomicRMWInst::And: nv = iArith(Instruction::And, old, v); break;
        case AtomicRMWInst::Or: nv = iArith(Instruction::Or, old, v); break;
        default: throw EngineError("atomicrmw op");
        }
        storeRaw(s, a, nv, sz, "atomic");
        f.regs[d.dst] = old;
        break;
    }
    case Instruction::AtomicCmpXchg:
    {
        uint64_t a = conc(s, get(d.ops[0]));
        SVal e = get(d.ops[1]), n = get(d.ops[2]);
        unsigned sz = e.w / 8;
        SVal old = loadRaw(s, a, sz, e.w, false, "atomic");
        bool eq = decideV(s, iCmp(s, CmpInst::ICMP_EQ, old, e));
        if (eq) storeRaw(s, a, n, sz, "atomic");
        f.regs[d.dst] = aggV({old, SVal::i(eq, 1)});
        break;
    }
    case Instruction::Fence: break;
    default: throw EngineError(std::string("unsupported instruction ") + d.I->getOpcodeName());
    }
    f.pc++;
}

// ---------------------------------------------------------------- exploration
static std::vector<std::unique_ptr<State>> WL;
static std::vector<std::vector<std::pair<std::string, std::string>>> SAMPLES;
static bool isRealNode(NodeId n)
{
    for (auto v : EM->supports[EM->n[n].supp])
        if (v >= RBASE) return true;
    return false;
}
static void forkBool(std::unique_ptr<State> s, NodeId n)
{
    ST.forks++;
    int hv = -1;
    if (s->hintOk)
    {
        std::unordered_map<NodeId, std::optional<uint64_t>> memo;
        auto r = EM->eval(n, *s->hint, memo);
        if (r) hv = *r ? 1 : 0;
    }
    unsigned tmo = isRealNode(n) ? O.fTimeout : O.qTimeout;
    HintP h[2];
    Res r[2];
    for (int v = 0; v < 2; v++)
    {
        if (hv == v) { r[v] = Res::SAT; h[v] = s->hint; ST.hintDecided++; }
        else r[v] = checkSat(*s, v ? n : EM->bnot(n), h[v], tmo);
        if (r[v] == Res::UNK) ST.forkUnk++;
    }
    if (O.forkTrace)
    {
        fprintf(stderr, "fork %d/%d (%zu wl) %s\n", (int)r[0], (int)r[1], WL.size(), where(*s).c_str());
    }
    if (r[0] == Res::UNSAT && r[1] == Res::UNSAT) { ST.assumeKill++; return; }
    auto commit = [&](State &x, int v) {
        setKnown(x, n, v, r[1 - v] != Res::UNSAT);
        if (r[v] == Res::SAT) x.hint = h[v];
        else x.hintOk = false;
        x.depth++;
    };
    if (r[0] == Res::UNSAT) { commit(*s, 1); WL.push_back(std::move(s)); return; }
    if (r[1] == Res::UNSAT) { commit(*s, 0); WL.push_back(std::move(s)); return; }
    auto s2 = std::make_unique<State>(*s);
    commit(*s, 1);
    commit(*s2, 0);
    if (hv == 0) std::swap(s, s2);
    WL.push_back(std::move(s2));
    WL.push_back(std::move(s));
}
static void forkVal(std::unique_ptr<State> s, NodeId n)
{
    ST.forks++;
    std::vector<std::pair<uint64_t, HintP>> vals;
    NodeId excl = EM->T;
    unsigned w = EM->n[n].w;
    bool more = true;
    if (s->hintOk)
    {
        std::unordered_map<NodeId, std::optional<uint64_t>> memo;
        auto r = EM->eval(n, *s->hint, memo);
        if (r)
        {
            vals.push_back({*r, s->hint});
            excl = EM->bnot(EM->mk(Op::EQ, n, EM->cst(*r, w), 1));
        }
    }
    while (more)
    {
        if ((int)vals.size() > O.maxEnum) throw EngineError("too many values when concretizing");
        HintP h;
        Res r = checkSat(*s, EM->isC(excl) ? EM->mk(Op::ULE, EM->cst(0, w), n, 1) : excl, h, O.qTimeout);
        if (r == Res::UNSAT) break;
        if (r == Res::UNK) throw EngineError("solver gave up when concretizing");
        std::unordered_map<NodeId, std::optional<uint64_t>> memo;
        auto v = EM->eval(n, *h, memo);
        if (!v) throw EngineError("concretize: no model value");
        vals.push_back({*v, h});
        NodeId ne = EM->bnot(EM->mk(Op::EQ, n, EM->cst(*v, w), 1));
        excl = EM->isC(excl) ? ne : EM->band(excl, ne);
    }
    if (vals.empty()) { ST.assumeKill++; return; }
    for (size_t i = vals.size(); i-- > 0;)
    {
        auto c = i == 0 ? std::move(s) : std::make_unique<State>(*s);
        NodeId e = EM->mk(Op::EQ, n, EM->cst(vals[i].first, w), 1);
        if (!EM->isC(e)) setKnown(*c, e, true, true);
        c->known[n] = vals[i].first;
        c->hint = vals[i].second;
        c->hintOk = true;
        c->depth++;
        WL.push_back(std::move(c));
    }
}
static void noteError(State &s, const std::string &m)
{
    ST.errPaths++;
    std::string e = m + " @ " + where(s);
    for (auto &x : ERR) if (x == e) return;
    if (ERR.size() < 20) ERR.push_back(e);
}
static void inputsOf(State &s, const HintP &h, std::vector<std::pair<std::string, std::string>> &out)
{
    for (auto &in : s.inputs)
    {
        char buf[64];
        if (in.real)
        {
            double d = in.var < h->rv.size() ? h->rv[in.var] : G.vars[in.var].lo;
            snprintf(buf, sizeof buf, "%.17g", std::isnan(d) ? G.vars[in.var].lo : d);
        }
        else snprintf(buf, sizeof buf, "%lld", (long long)ExprMgr::sx(in.var < h->bv.size() ? h->bv[in.var] : 0, EM->bvars[in.var].w));
        out.push_back({in.name, buf});
    }
}
static bool LIMIT = false;
static std::string LIMITWHY;
static void runState(std::unique_ptr<State> s)
{
    try
    {
        for (;;)
        {
            try { stepOne(*s); }
            catch (Retry &) {}
            s->icount++;
            if ((++ST.insts & 0xfff) == 0)
            {
                if (now() - T0 > O.timeLimit) { LIMIT = true; LIMITWHY = "time limit"; return; }
                if (ST.insts > O.maxInst) { LIMIT = true; LIMITWHY = "instruction limit"; return; }
            }
            if (s->icount > O.maxPathInst) throw BugFound{"path exceeds the instruction bound (possible non-termination)", "hang"};
        }
    }
    catch (PathEnd &e)
    {
        ST.paths++;
        if (e.why == 1) ST.assumeKill++;
        if (e.why == 0)
        {
            ST.complete++;
            if (SAMPLES.size() < 4 || (SAMPLES.size() < 12 && (ST.complete & (ST.complete - 1)) == 0))
            {
                HintP h = s->hint;
                std::vector<std::pair<std::string, std::string>> in;
                if (s->hintOk) { inputsOf(*s, h, in); SAMPLES.push_back(in); }
            }
        }
    }
    catch (ForkBool &f)
    {
        NodeId n = f.n;
        try { forkBool(std::move(s), n); }
        catch (EngineError &e) { ST.errPaths++; ERR.push_back(e.what()); }
    }
    catch (ForkVal &f)
    {
        NodeId n = f.n;
        State *raw = s.get();
        std::string w = where(*raw);
        try { forkVal(std::move(s), n); }
        catch (EngineError &e) { ST.errPaths++; ERR.push_back(std::string(e.what()) + " @ " + w); }
    }
    catch (BugFound &b)
    {
        HintP h;
        if (s->expectRefuse && (b.kind == "dnds_assert" || b.kind == "abort" || b.kind == "exception"))
        {
            REACH["refused"]++;
            ST.complete++;
        }
        else if (fullModel(*s, h)) report(*s, h, b.msg, b.kind);
        else ST.assumeKill++;
        ST.paths++;
    }
    catch (EngineError &e) { noteError(*s, e.what()); ST.paths++; }
    catch (TooBig &e) { noteError(*s, std::string("polynomial too big: ") + e.what()); ST.paths++; }
    catch (z3::exception &e) { noteError(*s, std::string("z3: ") + e.msg()); ST.paths++; }
    catch (std::out_of_range &e) { noteError(*s, std::string("internal: ") + e.what()); ST.paths++; }
}
static std::string js(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void writeOut(const std::string &path, const std::string &entry)
{
    std::ostringstream o;
    o << "{\"entry\":" << js(entry) << ",\"wall_s\":" << now() - T0;
    o << ",\"paths\":" << ST.paths << ",\"complete\":" << ST.complete << ",\"forks\":" << ST.forks << ",\"insts\":" << ST.insts << ",\"queries\":" << ST.queries << ",\"sat\":" << ST.qsat << ",\"unsat\":" << ST.qunsat << ",\"unk\":" << ST.qunk
      << ",\"qcache\":" << ST.qcache << ",\"solver_s\":" << ST.solverTime << ",\"asserts\":" << ST.asserts << ",\"assertsSym\":" << ST.assertsSym << ",\"trivial\":" << ST.trivObl << ",\"lra\":" << ST.lraObl << ",\"nra\":" << ST.nraObl << ",\"assumeKill\":" << ST.assumeKill
      << ",\"divAssume\":" << ST.divAssume << ",\"forkUnk\":" << ST.forkUnk << ",\"errPaths\":" << ST.errPaths << ",\"limit\":" << (LIMIT ? js(LIMITWHY) : "null") << ",\"pending\":" << WL.size();
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    o << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024;
    auto inp = [&](const std::vector<std::pair<std::string, std::string>> &v) {
        o << "[";
        for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[" << js(v[i].first) << "," << js(v[i].second) << "]";
        o << "]";
    };
    o << ",\"violations\":[";
    for (size_t i = 0; i < VIOL.size(); i++)
    {
        o << (i ? "," : "") << "{\"msg\":" << js(VIOL[i].msg) << ",\"kind\":" << js(VIOL[i].kind) << ",\"where\":" << js(VIOL[i].where) << ",\"inputs\":";
        inp(VIOL[i].inputs);
        o << "}";
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < SAMPLES.size(); i++) { if (i) o << ","; inp(SAMPLES[i]); }
    o << "],\"errors\":[";
    for (size_t i = 0; i < ERR.size(); i++) o << (i ? "," : "") << js(ERR[i]);
    auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) {
        o << ",\"" << n << "\":{";
        bool f = true;
        for (auto &kv : m) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; }
        o << "}";
    };
    o << "]";
    mp("reach", REACH);
    mp("unknown", UNKOBL);
    mp("obligations", OBL);
    mp("stubs", STUBUSED);
    o << ",\"functions\":[";
    bool f = true;
    for (size_t i = 0; i < COV.size(); i++)
        if (covHit[i]) { o << (f ? "" : ",") << js(COV[i]); f = false; }
    o << "]}\n";
    if (path.empty()) std::cout << o.str();
    else { std::ofstream(path) << o.str(); }
}
int main(int argc, char **argv)
{
    std::string bc, entry, out;
    bool ignoreCtorErr = true;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v;
        else if (auto v = val("--out=")) out = v;
        else if (auto v = val("--time=")) O.timeLimit = atof(v);
        else if (auto v = val("--qtimeout=")) O.qTimeout = atoi(v);
        else if (auto v = val("--ftimeout=")) O.fTimeout = atoi(v);
        else if (auto v = val("--flush=")) O.flush = atof(v);
        else if (auto v = val("--max-path-inst=")) O.maxPathInst = strtoull(v, 0, 10);
        else if (auto v = val("--max-inst=")) O.maxInst = strtoull(v, 0, 10);
        else if (auto v = val("--max-enum=")) O.maxEnum = atoi(v);
        else if (auto v = val("--max-viol=")) O.maxViol = atoi(v);
        else if (auto v = val("--prefix=")) repoPrefix = v;
        else if (auto v = val("--terms=")) g_polyTermLimit = atoll(v);
        else if (auto v = val("--seed=")) O.seed = strtoull(v, 0, 10);
        else if (auto v = val("--pin=")) { std::string x = v; size_t p = x.find('='); PIN[x.substr(0, p)] = atoll(x.c_str() + p + 1); }
        else if (a == "--trace") O.trace = true;
        else if (a == "--forks") O.forkTrace = true;
        else bc = a;
    }
    T0 = now();
    polyInit();
    EM = new ExprMgr;
    SMDiagnostic err;
    M = parseIRFile(bc, err, LC);
    if (!M) { err.print("vsym", errs()); return 3; }
    DL = &M->getDataLayout();
    registerModels();
    auto s0 = std::make_unique<State>();
    s0->hint = std::make_shared<Hint>();
    // globals
    for (auto &F : *M)
    {
        Obj *o = new Obj;
        o->kind = 3; o->size = 1; o->b.assign(1, 0); o->ro = true;
        uint64_t a = addrOf(s0->mem.add(o));
        gaddr[&F] = a;
        fnAt[a] = &F;
    }
    for (auto &g : M->globals())
    {
        Obj *o = new Obj;
        o->kind = 2;
        o->size = g.getValueType()->isSized() ? typeSize(g.getValueType()) : 64;
        if (!g.hasInitializer() && o->size < 64) o->size = 64;
        if (!g.hasInitializer()) o->size = std::max<uint64_t>(o->size, 512);
        o->b.assign(o->size, 0);
        if (g.getName() == "__libc_single_threaded") o->b[0] = 1;
        gaddr[&g] = addrOf(s0->mem.add(o));
        gvAt[gaddr[&g]] = &g;
        if (!g.hasInitializer() && g.getName().starts_with("_ZTI") && g.getName().size() < 400)
        { // a type_info defined in libstdc++: its name
            uint64_t na = gaddr[&g] + 16;
            memcpy(o->b.data() + 8, &na, 8);
            memcpy(o->b.data() + 16, g.getName().data() + 4, g.getName().size() - 4);
        }
    }
    for (auto &g : M->globals())
        if (g.hasInitializer())
        {
            Obj *o = s0->mem.rw(gaddr[&g] >> 32);
            try { storeConst(o, 0, g.getInitializer()); }
            catch (EngineError &e) { }
            if (g.isConstant()) o->ro = true;
        }
    Function *E = M->getFunction(entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    s0->th.resize(1);
    // global constructors
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors"))
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        {
            std::vector<std::pair<uint64_t, Function *>> cs;
            for (auto &op : ca->operands())
            {
                auto *st = cast<ConstantStruct>(op.get());
                if (auto *F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
            }
            std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &c : cs)
            {
                auto save = *s0;
                try
                {
                    pushCall(*s0, infoOf(c.second), {}, nullptr);
                    for (;;) { stepOne(*s0); ST.insts++; }
                }
                catch (PathEnd &e) { s0->th[0].done = false; continue; }
                catch (EngineError &e) { fprintf(stderr, "ctor skipped: %s\n", e.what()); *s0 = save; }
                catch (BugFound &e) { fprintf(stderr, "ctor skipped (bug): %s @ %s\n", e.msg.c_str(), where(*s0).c_str()); *s0 = save; }
            }
        }
    s0->icount = 0;
    pushCall(*s0, infoOf(E), {}, nullptr);
    WL.push_back(std::move(s0));
    while (!WL.empty() && !LIMIT)
    {
        if ((int)VIOL.size() >= O.maxViol) { LIMIT = true; LIMITWHY = "violation limit"; break; }
        auto s = std::move(WL.back());
        WL.pop_back();
        runState(std::move(s));
        if (now() - T0 > O.timeLimit && !WL.empty()) { LIMIT = true; LIMITWHY = "time limit"; }
    }
    writeOut(out, entry);
    fflush(stdout);
    _Exit(0);
}
