#pragma once
#include "expr.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <deque>
#include <set>
#include <iostream>

struct SVal
{
    enum K : uint8_t { I, D, S, R, A, N };
    K k = I;
    uint16_t w = 64;
    uint32_t pad = 0;
    union { uint64_t u; double d; };
    SVal() : u(0) {}
    static SVal i(uint64_t v, unsigned w) { SVal x; x.k = I; x.w = w; x.u = ExprMgr::mask(v, w); return x; }
    static SVal dbl(double v, unsigned w = 64) { SVal x; x.k = D; x.w = w; x.d = w == 32 ? (double)(float)v : v; return x; }
    static SVal sym(NodeId n, unsigned w) { SVal x; x.k = S; x.w = w; x.u = n; return x; }
    static SVal real(uint64_t id, unsigned w = 64) { SVal x; x.k = R; x.w = w; x.u = id; return x; }
    static SVal agg(uint64_t id) { SVal x; x.k = A; x.w = 0; x.u = id; return x; }
};

struct SymCell { SVal v; uint8_t size; };
struct Obj
{
    int ref = 0;
    uint64_t size = 0;
    uint8_t kind = 0; // 0 heap 1 stack 2 global 3 function
    bool alive = true, ro = false;
    std::vector<uint8_t> b;
    std::map<uint32_t, SymCell> sym;
    const char *what = "";
};
struct ObjRef
{
    Obj *p = nullptr;
    ObjRef() {}
    explicit ObjRef(Obj *o) : p(o) { if (p) p->ref++; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) p->ref++; }
    ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->ref == 0) delete p; }
};
constexpr unsigned CHUNK = 256;
struct Chunk { int ref = 0; ObjRef o[CHUNK]; };
struct ChunkRef
{
    Chunk *p = nullptr;
    ChunkRef() {}
    explicit ChunkRef(Chunk *c) : p(c) { if (p) p->ref++; }
    ChunkRef(const ChunkRef &o) : p(o.p) { if (p) p->ref++; }
    ChunkRef(ChunkRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ChunkRef &operator=(ChunkRef o) { std::swap(p, o.p); return *this; }
    ~ChunkRef() { if (p && --p->ref == 0) delete p; }
};
struct Memory
{
    std::vector<ChunkRef> ch;
    uint32_t next = 1;
    std::vector<uint32_t> freeStack; // recyclable stack ids
    Obj *ro(uint32_t id)
    {
        uint32_t c = id / CHUNK;
        if (c >= ch.size()) return nullptr;
        return ch[c].p->o[id % CHUNK].p;
    }
    void own(uint32_t c)
    {
        if (ch[c].p->ref > 1)
        {
            Chunk *n = new Chunk;
            for (unsigned i = 0; i < CHUNK; i++) n->o[i] = ch[c].p->o[i];
            ch[c] = ChunkRef(n);
        }
    }
    Obj *rw(uint32_t id)
    {
        uint32_t c = id / CHUNK;
        own(c);
        ObjRef &r = ch[c].p->o[id % CHUNK];
        if (r.p->ref > 1)
        {
            Obj *n = new Obj(*r.p);
            n->ref = 0;
            r = ObjRef(n);
        }
        return r.p;
    }
    uint32_t add(Obj *o)
    {
        uint32_t id;
        if (o->kind == 1 && !freeStack.empty())
        {
            id = freeStack.back();
            freeStack.pop_back();
        }
        else id = next++;
        uint32_t c = id / CHUNK;
        while (ch.size() <= c) ch.push_back(ChunkRef(new Chunk));
        own(c);
        ch[c].p->o[id % CHUNK] = ObjRef(o);
        return id;
    }
};

struct Operand { int slot = -1; SVal c; };
struct FnInfo;
struct DInst
{
    llvm::Instruction *I = nullptr;
    unsigned op = 0;
    int dst = -1;
    unsigned w = 0;
    bool seen = false;
    std::vector<Operand> ops;
    // gep
    int64_t goff = 0;
    std::vector<std::pair<Operand, int64_t>> gidx;
    // branch targets: inst index of block starts
    std::vector<int> tgt;
    int bb = 0;
    uint64_t aux = 0;
    llvm::Function *callee = nullptr;
    FnInfo *cinfo = nullptr;
    int builtin = -1;
    bool ld_fp = false, isPtr = false;
    llvm::Type *ty = nullptr;
    std::vector<int> covIds;
};
struct PhiIn { int dst; std::vector<Operand> byPred; };
struct BBInfo
{
    int first = 0; // first non-phi instruction
    std::vector<int> preds; // bb ids
    std::vector<std::pair<int, std::map<int, Operand>>> phis; // dst -> (predbb -> op)
};
struct FnInfo
{
    llvm::Function *F = nullptr;
    std::string dem;
    bool decoded = false;
    int nslots = 0, nargs = 0;
    std::vector<DInst> code;
    std::vector<BBInfo> bbs;
    int builtin = -1;
    uint64_t calls = 0;
};
struct Frame
{
    FnInfo *f = nullptr;
    int pc = 0;
    std::vector<SVal> regs;
    std::vector<uint32_t> allocas;
    std::vector<SVal> varargs;
    int depth = 0;
};
struct Thread
{
    std::vector<Frame> st;
    bool done = false;
    uint64_t excObj = 0, excTy = 0;
    std::vector<std::pair<uint64_t, uint64_t>> caught;
};
struct Input { std::string name; bool real; uint32_t var; };
struct State
{
    Memory mem;
    std::vector<Thread> th;
    int cur = 0;
    int idleYields = 0;
    bool expectRefuse = false;
    std::vector<NodeId> pc;
    std::unordered_map<NodeId, uint64_t> known;
    HintP hint;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCnt;
    uint64_t icount = 0;
    int depth = 0;
    std::vector<std::string> notes;
    bool hintOk = true;
};
