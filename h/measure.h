// how often something happens: every variate independently lies in the lower or the upper half
#pragma once
#include "vf.h"
static const int NVAR = 4;
static double Var[NVAR];
static int Measuring, Used;
static inline double variate(double shared)
{
    if (!Measuring) return shared;
    int i = Used++;
    vf_assert(i < NVAR, "a handful of variates decide one step");
    return Var[i];
}
// number of the 2^NVAR quarters of variate space in which step() returns true
template <class F> static int measure(F step)
{
    double lo[NVAR], hi[NVAR];
    for (int i = 0; i < NVAR; i++) {
        double a = vf_rangeo("a", 0, 1), b = vf_rangeo("b", 0, 1);
        lo[i] = a / 2;
        hi[i] = (1 + b) / 2;
    }
    int n = 0;
    for (int k = 0; k < 1 << NVAR; k++) {
        for (int i = 0; i < NVAR; i++) Var[i] = (k >> i & 1) ? hi[i] : lo[i];
        Used = 0;
        Measuring = 0;
        if (step()) n++;
        Measuring = 0;
    }
    return n;
}
