// numeric helpers for harnesses
#pragma once
#include "vh.h"
// derivative of f (a function of n coordinates) along coordinate i: formal in symbolic runs, 8-point difference in native runs
template <class F>
double vh_D(F &&f, const double *x, int n, int i, double h = 1.0 / 256)
{
    if (vh_symbolic()) return vh_deriv(f(x), x[i]);
    double y[32];
    auto at = [&](double d) { for (int k = 0; k < n; k++) y[k] = x[k]; y[i] += d; return f((const double *)y); };
    double r = 0;
    const double c[4] = {672, -168, 32, -3};
    for (int k = 1; k <= 4; k++) r += c[k - 1] * (at(k * h) - at(-k * h));
    return r / (840 * h);
}
