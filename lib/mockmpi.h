// Multi-rank MPI model: ranks are coroutines of one process (see mockmpi.cpp).
#pragma once
#include "vh.h"
extern "C"
{
    void mm_run(int nranks, void (*f)(int rank, void *arg), void *arg); // run f on every rank, then check that nothing is left in flight
    void mm_env(const char *name, const char *value); // what the code reads from the environment (each name once)
    extern int mm_late; // 0: messages leave at the start of a send and land as early as possible, 1: they move when the receiver waits
}
