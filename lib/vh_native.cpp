// Native replay runtime: the same harness, compiled for the machine, fed with
// the concrete inputs the solver produced.
#include "vh.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <ucontext.h>
#include <unistd.h>
#include <csignal>
#include <exception>
static std::map<std::string, std::string> IN;
static std::map<std::string, int> CNT;
static bool strict = true;
[[noreturn]] static void die(int rc, const std::string &m)
{
    fprintf(stderr, "%s\n", m.c_str());
    fflush(stderr);
    _exit(rc);
}
static const std::string *look(const char *name)
{
    std::string k = std::string(name) + "#" + std::to_string(CNT[name]++);
    auto it = IN.find(k);
    if (it == IN.end())
    {
        fprintf(stderr, "REPLAY-NOTE input %s not in the replay file\n", k.c_str());
        return nullptr;
    }
    return &it->second;
}
extern "C"
{
    long vh_int(const char *name, long lo, long hi)
    {
        auto *p = look(name);
        long v = p ? strtol(p->c_str(), nullptr, 10) : lo;
        if (v < lo || v > hi) die(4, std::string("REPLAY-ASSUME range of ") + name);
        return v;
    }
    double vh_real(const char *name, double lo, double hi)
    {
        auto *p = look(name);
        double v = p ? strtod(p->c_str(), nullptr) : (lo + hi) / 2;
        if (!(v >= lo && v <= hi)) die(4, std::string("REPLAY-ASSUME range of ") + name);
        return v;
    }
    void vh_assume(bool c) { if (!c) die(4, "REPLAY-ASSUME not satisfied"); }
    void vh_assert(bool c, const char *m) { if (!c) die(1, std::string("REPLAY-VIOLATION ") + m); }
    void vh_close(double a, double b, double t, const char *m)
    {
        if (!(std::abs(a - b) <= t))
        {
            char buf[128];
            snprintf(buf, sizeof buf, " (%.17g vs %.17g, tol %g)", a, b, t);
            die(1, std::string("REPLAY-VIOLATION ") + m + buf);
        }
    }
    void vh_le(double a, double b, double t, const char *m)
    {
        if (!(a <= b + t))
        {
            char buf[128];
            snprintf(buf, sizeof buf, " (%.17g > %.17g, tol %g)", a, b, t);
            die(1, std::string("REPLAY-VIOLATION ") + m + buf);
        }
    }
    double vh_deriv(double, double) { fprintf(stderr, "vh_deriv in a native run\n"); _Exit(3); }
    void vh_reach(const char *) {}
    long vh_concretize(long v) { return v; }
    int vh_symbolic() { return 0; }
    void vh_note(const char *m) { fprintf(stderr, "note: %s\n", m); }
    void vh_show(const char *m, double v) { fprintf(stderr, "show: %s = %.17g\n", m, v); }
    void vh_show_int(const char *m, long v) { fprintf(stderr, "show: %s = %ld\n", m, v); }
}
// ---- cooperative threads
struct Co { ucontext_t c; bool done = false; void (*f)(void *); void *arg; char *stk = nullptr; };
static std::vector<Co *> TH;
static int cur = 0, idle = 0;
static void ensure() { if (TH.empty()) TH.push_back(new Co); }
static void swtch()
{
    int n = TH.size(), c = cur;
    for (int k = 1; k <= n; k++)
    {
        int x = (cur + k) % n;
        if (!TH[x]->done) { c = x; break; }
    }
    if (c == cur) return;
    int old = cur;
    cur = c;
    swapcontext(&TH[old]->c, &TH[c]->c);
}
static void tramp()
{
    TH[cur]->f(TH[cur]->arg);
    TH[cur]->done = true;
    idle = 0;
    swtch();
}
static int alive() { int a = 0; for (auto t : TH) a += !t->done; return a; }
extern "C"
{
    int vh_spawn(void (*f)(void *), void *arg)
    {
        ensure();
        Co *c = new Co;
        c->f = f;
        c->arg = arg;
        getcontext(&c->c);
        size_t sz = 16 << 20;
        c->stk = (char *)malloc(sz);
        c->c.uc_stack.ss_sp = c->stk;
        c->c.uc_stack.ss_size = sz;
        c->c.uc_link = nullptr;
        makecontext(&c->c, tramp, 0);
        TH.push_back(c);
        return TH.size() - 1;
    }
    int vh_self() { return cur; }
    void vh_progress() { idle = 0; }
    void vh_wait()
    {
        ensure();
        if (++idle > 3 * alive() + 3) die(1, "REPLAY-VIOLATION deadlock: every simulated rank is blocked");
        swtch();
    }
    void vh_join()
    {
        ensure();
        for (;;)
        {
            bool all = true;
            for (size_t i = 1; i < TH.size(); i++) if (!TH[i]->done) all = false;
            if (all)
            {
                TH.resize(1);
                return;
            }
            if (++idle > 3 * alive() + 3) die(1, "REPLAY-VIOLATION deadlock: every simulated rank is blocked");
            swtch();
        }
    }
}
int vh_refuse_expected = 0;
extern "C" void vh_expect_refuse() { vh_refuse_expected = 1; }
static void onTerm() { if (vh_refuse_expected) die(0, "REPLAY-OK"); die(1, "REPLAY-VIOLATION uncaught exception"); }
static void onSig(int s) { if (vh_refuse_expected && s == SIGABRT) die(0, "REPLAY-OK"); die(1, std::string("REPLAY-VIOLATION signal ") + std::to_string(s)); }
int main(int argc, char **argv)
{
    if (argc < 3) return 3;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line))
    {
        if (line.empty() || line[0] == '%') continue;
        size_t p = line.rfind(' ');
        IN[line.substr(0, p)] = line.substr(p + 1);
    }
    std::set_terminate(onTerm);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, onSig);
    auto *e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!e) die(3, "no such entry");
    e();
    fprintf(stderr, "REPLAY-OK\n");
    fflush(stderr);
    _exit(0);
}
