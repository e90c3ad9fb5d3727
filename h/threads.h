// runs with several threads: the random numbers, and that no two are the same
#pragma once
#include <omp.h>
#include <vector>
#include <string>
#include "vf.h"
#include "UnitsSystem.hh"
static const UnitsSystem &U() { static UnitsSystem *u = new UnitsSystem("SI"); return *u; }
static double uniform = 0.75;
static int spread;                  // normal variates 0, 1, 2, ...; 2: and a bit
static int normals, devices, used;
static unsigned long seeds[256], poss[256];
static bool twice;
static void use(unsigned long s, unsigned long n)
{
    for (int i = 0; i < used; i++) if (seeds[i] == s && poss[i] == n) twice = true;
    if (used < 256) { seeds[used] = s; poss[used++] = n; }
}
extern "C" double vf_rng_u01(unsigned long s, unsigned long n)
{
    vf_track(0);
    use(s, n);
    double r = uniform;
    vf_track(1);
    return r;
}
extern "C" double vf_rng_normal(unsigned long s, unsigned long n)
{
    vf_track(0);
    use(s, n);
    double r = 0;
    if (spread) r = normals++;
    if (spread > 1) { double f = vf_range("z", -0.25, 0.25); r += f; }
    vf_track(1);
    return r;
}
extern "C" unsigned long vf_rng_device()
{
    vf_track(0);
    unsigned long r = 1000 + 7 * devices++;
    vf_track(1);
    return r;
}
static void fresh_threads(int n) { normals = used = 0; twice = false; omp_set_num_threads(n); }
static void distinct() { vf_assert(!twice, "no random number is used twice"); }
