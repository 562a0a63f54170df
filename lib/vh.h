// Harness API shared by the symbolic engine and native replay.
#pragma once
#include <cstdint>
extern "C"
{
    long vh_int(const char *name, long lo, long hi);          // any integer in [lo,hi]
    double vh_real(const char *name, double lo, double hi);   // any real in [lo,hi]
    void vh_assume(bool c);
    void vh_assert(bool c, const char *msg);
    void vh_close(double a, double b, double tol, const char *msg); // |a-b| <= tol
    void vh_le(double a, double b, double tol, const char *msg);    // a <= b + tol
    double vh_deriv(double y, double x);                      // formal dy/dx; symbolic runs only (x a vh_real input)
    void vh_reach(const char *tag);
    long vh_concretize(long v);
    int vh_symbolic();
    void vh_expect_refuse(); // from here on an assertion failure, abort or exception ends the path well; falling through must be asserted false
    void vh_note(const char *);
    void vh_show(const char *, double);
    void vh_show_int(const char *, long);
    int vh_spawn(void (*f)(void *), void *arg);
    int vh_self();
    void vh_progress();
    void vh_wait();
    void vh_join();
}
#define VH_ENTRY extern "C" __attribute__((noinline, used)) void
