// Model of the MPI calls DNDSR uses, for n simulated ranks (coroutines of the engine) in one address space.
// Checked as violations: wrong ranks, truncation, unmatched signatures, collectives that disagree, use of freed or uncommitted
// types, starting an active request, freeing an active one, messages never received, deadlock (by the engine).
// Ordering: matching is by (communicator, source, tag) in posting order, as MPI requires; no wildcard receive is modelled.
#define OMPI_OMIT_MPI1_COMPAT_DECLS 1
#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include <vector>
#include "mockmpi.h"

struct ompi_datatype_t { long size; int kind; int state; long extent; std::vector<long> *disp, *len; }; // state 0 fresh 1 committed 2 freed 3 predefined
struct ompi_predefined_datatype_t : ompi_datatype_t {};
struct ompi_op_t { int op; };
struct ompi_predefined_op_t : ompi_op_t {};
struct ompi_communicator_t { int id; };
struct ompi_predefined_communicator_t : ompi_communicator_t {};
struct Coll;
struct ompi_request_t
{
    int type; // 0 null 1 send 2 recv 3 collective
    bool persistent, active, done;
    void *buf;
    int count;
    ompi_datatype_t *t;
    int self, peer, tag, comm;
    bool sync;
    char *data; // eager copy
    long bytes;
    ompi_request_t *match;
    Coll *coll;
};
struct ompi_predefined_request_t : ompi_request_t {};

enum { K_I1 = 1, K_I2, K_I4, K_I8, K_F4, K_F8, K_F16, K_B, K_U };
#define DT(name, sz, kind) ompi_predefined_datatype_t name{{sz, kind, 3, sz, nullptr, nullptr}};
extern "C"
{
    DT(ompi_mpi_datatype_null, 0, 0)
    DT(ompi_mpi_char, 1, K_I1) DT(ompi_mpi_signed_char, 1, K_I1) DT(ompi_mpi_unsigned_char, 1, K_I1) DT(ompi_mpi_byte, 1, K_B)
    DT(ompi_mpi_short, 2, K_I2) DT(ompi_mpi_unsigned_short, 2, K_I2) DT(ompi_mpi_int, 4, K_I4) DT(ompi_mpi_unsigned, 4, K_I4)
    DT(ompi_mpi_long, 8, K_I8) DT(ompi_mpi_unsigned_long, 8, K_I8) DT(ompi_mpi_long_long_int, 8, K_I8) DT(ompi_mpi_unsigned_long_long, 8, K_I8)
    DT(ompi_mpi_float, 4, K_F4) DT(ompi_mpi_double, 8, K_F8) DT(ompi_mpi_long_double, 16, K_F16) DT(ompi_mpi_real4, 4, K_F4) DT(ompi_mpi_real8, 8, K_F8)
    DT(ompi_mpi_int8_t, 1, K_I1) DT(ompi_mpi_uint8_t, 1, K_I1) DT(ompi_mpi_int16_t, 2, K_I2) DT(ompi_mpi_uint16_t, 2, K_I2)
    DT(ompi_mpi_int32_t, 4, K_I4) DT(ompi_mpi_uint32_t, 4, K_I4) DT(ompi_mpi_int64_t, 8, K_I8) DT(ompi_mpi_uint64_t, 8, K_I8)
    DT(ompi_mpi_cxx_bool, 1, K_I1) DT(ompi_mpi_c_bool, 1, K_I1) DT(ompi_mpi_aint, 8, K_I8) DT(ompi_mpi_count, 8, K_I8) DT(ompi_mpi_offset, 8, K_I8)
    ompi_predefined_op_t ompi_mpi_op_sum{{1}}, ompi_mpi_op_max{{2}}, ompi_mpi_op_min{{3}}, ompi_mpi_op_prod{{4}}, ompi_mpi_op_lor{{5}}, ompi_mpi_op_land{{6}}, ompi_mpi_op_bor{{7}}, ompi_mpi_op_band{{8}}, ompi_mpi_op_null{{0}};
    ompi_predefined_communicator_t ompi_mpi_comm_world{{1}}, ompi_mpi_comm_self{{2}}, ompi_mpi_comm_null{{0}};
    ompi_predefined_request_t ompi_request_null{};
    struct ompi_predefined_info_t { int id; } ompi_mpi_info_null{0};
    int mm_late = 0;
}
static int NR = 1, BASE = 0;
static bool RUNNING = false;
static int me() { return RUNNING ? vh_self() - BASE : 0; }
static void bad(bool c, const char *m) { vh_assert(!c, m); }
static void use(MPI_Datatype t) { bad(t == nullptr || t == MPI_DATATYPE_NULL || (t->state != 1 && t->state != 3), "MPI: a datatype is used that is null, uncommitted or freed"); }
static long bytesOf(int n, MPI_Datatype t) { return n * t->size; }
static void pack(char *out, const void *buf, int n, MPI_Datatype t)
{
    if (!t->disp) { if (n) memcpy(out, buf, n * t->size); return; }
    for (int i = 0; i < n; i++)
        for (size_t k = 0; k < t->disp->size(); k++)
        {
            long l = (*t->len)[k];
            if (l) memcpy(out, (const char *)buf + i * t->extent + (*t->disp)[k], l);
            out += l;
        }
}
static void unpack(const char *in, long bytes, void *buf, int n, MPI_Datatype t)
{
    if (!t->disp) { if (bytes) memcpy(buf, in, bytes); return; }
    for (int i = 0; i < n && bytes > 0; i++)
        for (size_t k = 0; k < t->disp->size() && bytes > 0; k++)
        {
            long l = (*t->len)[k];
            if (l > bytes) l = bytes;
            if (l) memcpy((char *)buf + i * t->extent + (*t->disp)[k], in, l);
            in += l, bytes -= l;
        }
}
// ---- environment variables
static const char *ENVN[8], *ENVV[8];
extern "C" void mm_env(const char *n, const char *v)
{
    for (int i = 0; i < 8; i++)
        if (!ENVN[i]) { ENVN[i] = n, ENVV[i] = v; return; }
}
extern "C" char *getenv(const char *n) noexcept
{
    for (int i = 0; i < 8 && ENVN[i]; i++)
    {
        const char *a = ENVN[i], *b = n;
        while (*a && *a == *b) a++, b++;
        if (*a == *b) return (char *)ENVV[i];
    }
    return nullptr;
}
// ---- point to point
static std::vector<ompi_request_t *> *POSTED; // active, unmatched, in posting order
static void deliver(ompi_request_t *s, ompi_request_t *r)
{
    if (!s->data)
    {
        s->data = (char *)malloc(s->bytes ? s->bytes : 1);
        pack(s->data, s->buf, s->count, s->t);
    }
    unpack(s->data, s->bytes, r->buf, r->count, r->t);
    free(s->data);
    s->data = nullptr;
    s->done = r->done = true;
    vh_progress();
}
static void post(ompi_request_t *q)
{
    bad(q->active, "MPI: a request is started that is still active");
    q->active = true, q->done = false, q->match = nullptr, q->data = nullptr;
    if (q->type == 1 && !mm_late)
    {
        q->data = (char *)malloc(q->bytes ? q->bytes : 1);
        pack(q->data, q->buf, q->count, q->t);
    }
    for (size_t i = 0; i < POSTED->size(); i++)
    {
        ompi_request_t *o = (*POSTED)[i];
        if (o->type == 3 - q->type && o->comm == q->comm && o->peer == q->self && o->self == q->peer && o->tag == q->tag)
        {
            POSTED->erase(POSTED->begin() + i);
            ompi_request_t *s = q->type == 1 ? q : o, *r = q->type == 1 ? o : q;
            bad(s->bytes > bytesOf(r->count, r->t), "MPI: a message is longer than the receive posted for it");
            bad(s->bytes && s->t->kind != r->t->kind, "MPI: sender and receiver disagree on the element type");
            if (!mm_late) deliver(s, r);
            else s->match = r, r->match = s, vh_progress();
            return;
        }
    }
    POSTED->push_back(q);
}
static bool progress(ompi_request_t *q);
static ompi_request_t *mk(int type, const void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm comm)
{
    use(t);
    bad(count < 0, "MPI: negative count"), bad(peer < 0 || peer >= NR, "MPI: no such rank"), bad(tag < 0, "MPI: negative tag"), bad(comm == MPI_COMM_NULL || comm->id == 0, "MPI: null communicator");
    ompi_request_t *q = new ompi_request_t{};
    q->type = type, q->buf = (void *)buf, q->count = count, q->t = t, q->self = me(), q->peer = peer, q->tag = tag, q->comm = comm->id;
    q->bytes = bytesOf(count, t);
    return q;
}
// ---- collectives
struct Coll
{
    int comm, seq, kind, root, op, arrived, left;
    struct Part { bool in; std::vector<char *> to; std::vector<long> len; long rlen; int tkind; } p[8];
};
static std::vector<Coll *> *COLLS;
static int SEQ[16][8], MADE[8];
static Coll *enter(int kind, MPI_Comm comm, int root, int op)
{
    bad(comm == MPI_COMM_NULL || comm->id == 0, "MPI: null communicator");
    if (!COLLS) COLLS = new std::vector<Coll *>;
    int r = me(), sq = SEQ[comm->id][r]++;
    Coll *c = nullptr;
    for (auto *x : *COLLS) if (x->comm == comm->id && x->seq == sq) c = x;
    if (!c)
    {
        c = new Coll{};
        c->comm = comm->id, c->seq = sq, c->kind = kind, c->root = root, c->op = op;
        COLLS->push_back(c);
    }
    bad(c->kind != kind || c->root != root || c->op != op, "MPI: ranks call different collectives at the same step");
    c->p[r].in = true, c->p[r].to.resize(NR), c->p[r].len.resize(NR);
    c->arrived++;
    vh_progress();
    return c;
}
static void give(Coll *c, int to, const void *buf, int n, MPI_Datatype t)
{
    int r = me();
    bad(n < 0, "MPI: negative count");
    long b = bytesOf(n, t);
    char *d = (char *)malloc(b ? b : 1);
    pack(d, buf, n, t);
    c->p[r].to[to] = d, c->p[r].len[to] = b, c->p[r].tkind = t->kind;
}
static void arrive(Coll *c) { while (c->arrived < NR) vh_wait(); }
static void take(Coll *c, int from, void *buf, int n, MPI_Datatype t)
{
    int r = me();
    bad(c->p[from].len[r] != bytesOf(n, t), "MPI: ranks disagree on the size of a collective transfer");
    bad(c->p[from].len[r] && c->p[from].tkind != t->kind, "MPI: ranks disagree on the element type of a collective");
    unpack(c->p[from].to[r], c->p[from].len[r], buf, n, t);
}
static void leave(Coll *c)
{
    if (++c->left == NR)
    {
        for (int r = 0; r < NR; r++) for (char *d : c->p[r].to) free(d);
        for (size_t i = 0; i < COLLS->size(); i++) if ((*COLLS)[i] == c) { COLLS->erase(COLLS->begin() + i); break; }
        delete c;
    }
}
template <class T> static T red(int op, T a, T b)
{
    switch (op)
    {
    case 1: return a + b;
    case 2: return a > b ? a : b;
    case 3: return a < b ? a : b;
    case 4: return a * b;
    case 5: return a != 0 || b != 0;
    case 6: return a != 0 && b != 0;
    }
    vh_assert(false, "MPI: reduction not modelled");
    return a;
}
static void reduceInto(int op, int kind, char *acc, const char *x, int n)
{
    for (int i = 0; i < n; i++)
        switch (kind)
        {
        case K_I1: { signed char a, b; memcpy(&a, acc + i, 1), memcpy(&b, x + i, 1); a = red<int>(op, a, b), memcpy(acc + i, &a, 1); break; }
        case K_I4: { int a, b; memcpy(&a, acc + 4 * i, 4), memcpy(&b, x + 4 * i, 4); a = red(op, a, b), memcpy(acc + 4 * i, &a, 4); break; }
        case K_I8: { long a, b; memcpy(&a, acc + 8 * i, 8), memcpy(&b, x + 8 * i, 8); a = red(op, a, b), memcpy(acc + 8 * i, &a, 8); break; }
        case K_F8: { double a, b; memcpy(&a, acc + 8 * i, 8), memcpy(&b, x + 8 * i, 8); a = red(op, a, b), memcpy(acc + 8 * i, &a, 8); break; }
        default: vh_assert(false, "MPI: reduction of a type not modelled");
        }
}
static void finishReduce(Coll *c, void *out, int count, MPI_Datatype t, int upto)
{
    long b = bytesOf(count, t);
    char *acc = (char *)malloc(b ? b : 1);
    for (int r = 0; r <= upto; r++)
    {
        bad(c->p[r].len[0] != b || (b && c->p[r].tkind != t->kind), "MPI: ranks disagree on the size or type of a reduction");
        if (r == 0) memcpy(acc, c->p[0].to[0], b); else reduceInto(c->op, t->kind, acc, c->p[r].to[0], count);
    }
    if (b) memcpy(out, acc, b);
    free(acc);
}
// a pending collective: everything needed to finish it
struct Pend { int k; void *recv; int n; MPI_Datatype t; std::vector<int> rn, rd; int root; };
static void finish(Coll *c, Pend &p)
{
    switch (p.k)
    {
    case 2: if (me() != p.root) take(c, p.root, p.recv, p.n, p.t); break;
    case 3: case 4: case 6:
        for (int r = 0; r < NR; r++) take(c, r, (char *)p.recv + (long)p.rd[r] * p.t->extent, p.rn[r], p.t);
        break;
    case 5: finishReduce(c, p.recv, p.n, p.t, NR - 1); break;
    case 7: finishReduce(c, p.recv, p.n, p.t, me()); break;
    }
    leave(c);
}
static int block(Coll *c, Pend p) { arrive(c); finish(c, p); return MPI_SUCCESS; }
struct CollReq { Coll *c; Pend p; };
static int defer(Coll *c, Pend p, MPI_Request *req)
{
    ompi_request_t *q = new ompi_request_t{};
    q->type = 3, q->active = true, q->coll = c, q->self = me(), q->buf = new CollReq{c, p};
    *req = q;
    return MPI_SUCCESS;
}
static bool progress(ompi_request_t *q)
{
    if (!q->active || q->done) return true;
    if (q->type == 3)
    {
        if (q->coll->arrived < NR) return false;
        auto *cr = (CollReq *)q->buf;
        finish(cr->c, cr->p);
        delete cr;
        q->done = true;
        return true;
    }
    if (q->type == 1 && !mm_late && !q->sync) return true; // eager
    if (q->match) q->type == 2 ? deliver(q->match, q) : deliver(q, q->match); // a matched pair completes whoever waits
    return q->done;
}
static void retire(MPI_Request *r)
{
    ompi_request_t *q = *r;
    if (q->type == 1 && !q->done && q->active)
    {
        // an eager send completes for the sender while its copy stays in flight
        if (q->persistent)
        {
            auto *k = new ompi_request_t(*q);
            for (auto &o : *POSTED) if (o == q) o = k;
            q->active = false, q->data = nullptr;
            return;
        }
        *r = MPI_REQUEST_NULL;
        return;
    }
    q->active = false;
    if (!q->persistent) { delete q; *r = MPI_REQUEST_NULL; }
}
static Coll *barrierIn(MPI_Comm c) { return enter(1, c, 0, 0); }
static Coll *bcastIn(void *buf, int n, MPI_Datatype t, int root, MPI_Comm c, Pend &p)
{
    use(t), bad(root < 0 || root >= NR, "MPI: no such root");
    Coll *k = enter(2, c, root, 0);
    if (me() == root) for (int r = 0; r < NR; r++) give(k, r, buf, n, t);
    p = Pend{2, buf, n, t, {}, {}, root};
    return k;
}
static Coll *allgatherIn(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, Pend &p)
{
    use(st), use(rt);
    Coll *k = enter(6, c, 0, 0);
    for (int i = 0; i < NR; i++) give(k, i, s, sn, st);
    p = Pend{6, r, 0, rt, {}, {}, 0};
    for (int i = 0; i < NR; i++) p.rn.push_back(rn), p.rd.push_back(i * rn);
    return k;
}
static Coll *alltoallIn(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, Pend &p)
{
    use(st), use(rt);
    Coll *k = enter(3, c, 0, 0);
    for (int i = 0; i < NR; i++) give(k, i, (const char *)s + (long)i * sn * st->extent, sn, st);
    p = Pend{3, r, 0, rt, {}, {}, 0};
    for (int i = 0; i < NR; i++) p.rn.push_back(rn), p.rd.push_back(i * rn);
    return k;
}
static Coll *alltoallvIn(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c, Pend &p)
{
    use(st), use(rt);
    Coll *k = enter(4, c, 0, 0);
    for (int i = 0; i < NR; i++) give(k, i, (const char *)s + (long)sd[i] * st->extent, sn[i], st);
    p = Pend{4, r, 0, rt, {}, {}, 0};
    for (int i = 0; i < NR; i++) p.rn.push_back(rn[i]), p.rd.push_back(rd[i]);
    return k;
}
static Coll *reduceIn(int kind, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, Pend &p)
{
    use(t);
    Coll *k = enter(kind, c, 0, op->op);
    give(k, 0, s == MPI_IN_PLACE ? r : s, n, t);
    p = Pend{kind, r, n, t, {}, {}, 0};
    return k;
}
extern "C"
{
    int MPI_Init_thread(int *, char ***, int need, int *got) { *got = need; return 0; }
    int MPI_Initialized(int *f) { *f = 1; return 0; }
    int MPI_Finalize() { return 0; }
    int MPI_Query_thread(int *l) { *l = MPI_THREAD_MULTIPLE; return 0; }
    int MPI_Abort(MPI_Comm, int) { abort(); }
    int MPI_Comm_rank(MPI_Comm c, int *r) { *r = RUNNING ? me() : 1; return 0; } // outside a run: a rank that does not log
    int MPI_Comm_size(MPI_Comm c, int *n) { *n = NR; return 0; }
    double MPI_Wtime() { return 0; }
    int MPI_Buffer_attach(void *, int) { return 0; }
    int MPI_Buffer_detach(void *b, int *n) { *(void **)b = nullptr, *n = 0; return 0; }
    int MPI_Pack_external_size(const char *, int n, MPI_Datatype t, MPI_Aint *s) { *s = n * t->size; return 0; }
    int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ext) { use(t); *lb = 0, *ext = t->extent; return 0; }
    int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)t->size; return 0; }
    int MPI_Type_create_hindexed(int n, const int bl[], const MPI_Aint d[], MPI_Datatype old, MPI_Datatype *out)
    {
        use(old);
        bad(n < 0, "MPI: negative count");
        bad(old->disp != nullptr, "MPI: nested types are not modelled");
        auto *t = new ompi_datatype_t{0, old->kind, 0, 0, new std::vector<long>, new std::vector<long>};
        for (int i = 0; i < n; i++)
        {
            bad(bl[i] < 0, "MPI: negative block length");
            t->disp->push_back(d[i]), t->len->push_back(bl[i] * old->size), t->size += bl[i] * old->size;
            if (t->extent < d[i] + bl[i] * old->size) t->extent = d[i] + bl[i] * old->size;
        }
        *out = t;
        return 0;
    }
    int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
    { // the k-th duplicate made by each rank is the same communicator
        bad(c == MPI_COMM_NULL || c->id == 0, "MPI: null communicator");
        MPI_Barrier(c);
        int r = me(), id = 3 + MADE[r]++;
        bad(id >= 16, "MPI model: too many communicators");
        *out = (MPI_Comm)malloc(sizeof(ompi_predefined_communicator_t)), (*out)->id = id;
        return 0;
    }
    int MPI_Comm_free(MPI_Comm *c) { bad(*c == MPI_COMM_NULL || (*c)->id < 3, "MPI: freeing a null or predefined communicator"); MPI_Barrier(*c); (*c)->id = 0; free(*c); *c = MPI_COMM_NULL; return 0; }
    int MPI_Type_commit(MPI_Datatype *t) { bad((*t)->state == 2, "MPI: commit of a freed type"); if ((*t)->state == 0) (*t)->state = 1; return 0; }
    int MPI_Type_free(MPI_Datatype *t)
    {
        bad(*t == nullptr || *t == MPI_DATATYPE_NULL || (*t)->state >= 2, "MPI: free of a null, freed or predefined type");
        (*t)->state = 2; // messages that use it stay valid
        *t = MPI_DATATYPE_NULL;
        return 0;
    }
    int MPI_Send_init(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(1, b, n, t, to, tag, c), (*r)->persistent = true; return 0; }
    int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(1, b, n, t, to, tag, c), (*r)->persistent = (*r)->sync = true; return 0; }
    int MPI_Bsend_init(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Send_init(b, n, t, to, tag, c, r); }
    int MPI_Recv_init(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(2, b, n, t, from, tag, c), (*r)->persistent = true; return 0; }
    int MPI_Start(MPI_Request *r) { bad(*r == MPI_REQUEST_NULL || !(*r)->persistent, "MPI: start of a request that is not persistent"); post(*r); return 0; }
    int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(r + i); return 0; }
    int MPI_Isend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(1, b, n, t, to, tag, c); post(*r); return 0; }
    int MPI_Issend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(1, b, n, t, to, tag, c), (*r)->sync = true; post(*r); return 0; }
    int MPI_Irecv(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(2, b, n, t, from, tag, c); post(*r); return 0; }
    int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *)
    {
        bool all = true;
        for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) all = progress(r[i]) && all;
        *flag = all;
        if (!all) vh_wait();
        else for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) retire(r + i);
        return 0;
    }
    int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { int f = 0; while (!f) MPI_Testall(n, r, &f, s); return 0; }
    int MPI_Wait(MPI_Request *r, MPI_Status *s) { return MPI_Waitall(1, r, s); }
    int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) { return MPI_Testall(1, r, f, s); }
    int MPI_Send(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, to, tag, c, &r); return MPI_Wait(&r, nullptr); }
    int MPI_Recv(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status *) { MPI_Request r; MPI_Irecv(b, n, t, from, tag, c, &r); return MPI_Wait(&r, nullptr); }
    int MPI_Request_free(MPI_Request *r)
    {
        bad(*r == MPI_REQUEST_NULL, "MPI: free of a null request");
        bad((*r)->active, "MPI: free of a request in flight");
        delete *r;
        *r = MPI_REQUEST_NULL;
        return 0;
    }
    int MPI_Barrier(MPI_Comm c) { return block(barrierIn(c), Pend{1}); }
    int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { return defer(barrierIn(c), Pend{1}, r); }
    int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { Pend p; Coll *k = bcastIn(b, n, t, root, c, p); return block(k, p); }
    int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) { Pend p; Coll *k = bcastIn(b, n, t, root, c, p); return defer(k, p, r); }
    int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c) { Pend p; Coll *k = allgatherIn(s, sn, st, b, n, t, c, p); return block(k, p); }
    int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c, MPI_Request *r) { Pend p; Coll *k = allgatherIn(s, sn, st, b, n, t, c, p); return defer(k, p, r); }
    int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c) { Pend p; Coll *k = alltoallIn(s, sn, st, b, n, t, c, p); return block(k, p); }
    int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c, MPI_Request *r) { Pend p; Coll *k = alltoallIn(s, sn, st, b, n, t, c, p); return defer(k, p, r); }
    int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c) { Pend p; Coll *k = alltoallvIn(s, sn, sd, st, b, n, d, t, c, p); return block(k, p); }
    int MPI_Ialltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c, MPI_Request *r) { Pend p; Coll *k = alltoallvIn(s, sn, sd, st, b, n, d, t, c, p); return defer(k, p, r); }
    int MPI_Allreduce(const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Pend p; Coll *k = reduceIn(5, s, b, n, t, op, c, p); return block(k, p); }
    int MPI_Iallreduce(const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) { Pend p; Coll *k = reduceIn(5, s, b, n, t, op, c, p); return defer(k, p, r); }
    int MPI_Scan(const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Pend p; Coll *k = reduceIn(7, s, b, n, t, op, c, p); return block(k, p); }

    struct MMArg { void (*f)(int, void *); void *arg; int rank; };
    static void tramp(void *a) { auto *m = (MMArg *)a; m->f(m->rank, m->arg); }
    void mm_run(int n, void (*f)(int, void *), void *arg)
    {
        NR = n, RUNNING = true;
        POSTED = new std::vector<ompi_request_t *>, COLLS = new std::vector<Coll *>;
        for (auto &x : SEQ) for (int &y : x) y = 0;
        for (int &y : MADE) y = 0;
        MMArg as[8];
        for (int i = 0; i < n; i++)
        {
            as[i] = MMArg{f, arg, i};
            int id = vh_spawn(tramp, as + i);
            if (i == 0) BASE = id;
        }
        vh_join();
        for (int r = 1; r < n; r++) vh_assert(SEQ[1][r] == SEQ[1][0], "MPI: ranks took part in different numbers of collectives");
        vh_assert(POSTED->empty(), "MPI: a message was sent that is never received (or the reverse)");
        delete POSTED, delete COLLS;
        COLLS = nullptr, NR = 1, RUNNING = false;
    }
}
