#include "vf.h"
#include "MCTools.hh"
#include <vector>
#include <cstdlib>

// the n-th variate of an engine seeded with s is an arbitrary function of (s, n)
extern "C" {
static int concrete;
double vf_rng_u01(unsigned long s, unsigned long n) {
    if (concrete) { double x = (double)(s % 1000003) * 0.000000731 + (double)n * 0.0000173; return x - (double)(long)x; }
    double a[2] = {(double)s, (double)n}; return vf_ufr("u01", 0, 1, 2, a); }
double vf_rng_normal(unsigned long s, unsigned long n) { return vf_uf2("normal", (double)s, (double)n); }
static double gp_mean; static int gp_n;
unsigned vf_rng_poisson(double m, unsigned long s, unsigned long n) { gp_mean = m; gp_n++; return vf_choice("poisson", 3); }
unsigned long vf_rng_device() { return 4000000001ul; }
}
extern "C" void q_uniform()
{
    double lo = vf_real("lo"), hi = vf_real("hi");
    vf_assume_lt(lo, hi);
    MCTools::SetSeed(7);
    double r = MCTools::RandDouble(lo, hi);
    vf_le(lo, r, "uniform draw not below its interval");
    vf_lt(r, hi, "uniform draw below the upper bound");
    // affine in the interval with the same underlying variate
    MCTools::SetSeed(7);
    double u = MCTools::RandDouble(0, 1);
    vf_eqs(r, lo + (hi - lo) * u, 1, "uniform draw covers its interval evenly");
    MCTools::SetSeed(7);
    vf_eqs(MCTools::RandDouble(5, 5), 5, 1, "empty interval");
    vf_reach("uniform");
}
extern "C" void q_normal()
{
    double m = vf_real("mean"), s = vf_nonneg("sig");
    MCTools::SetSeed(11);
    double z = MCTools::RandNorm(0, 1);
    MCTools::SetSeed(11);
    double r = MCTools::RandNorm(m, s);
    vf_eqs(r, m + s * z, 1, "normal draw has the requested mean and width");
    vf_reach("normal");
}
extern "C" void q_poisson()
{
    double m = vf_pos("mean");
    gp_n = 0;
    MCTools::RandPoisson(m);
    vf_assert(gp_n == 1, "one Poisson draw");
    vf_eq(gp_mean, m, "Poisson draw with the requested mean");
    vf_reach("poisson");
}
extern "C" void q_samples()
{
    double a = vf_real("a"), b = vf_pos("b");
    int n = vf_choice("n", vf_tier() ? 7 : 4);
    MCTools::SetSeed(3);
    std::vector<double> v = MCTools::SampleNorm(a, b, n);
    MCTools::SetSeed(4);
    std::vector<double> w = MCTools::SampleUniform(a, a + b, n);
    vf_assert((int)v.size() == n && (int)w.size() == n, "requested number of samples");
    MCTools::SetSeed(3);
    std::vector<double> z = MCTools::SampleNorm(0, 1, n);
    MCTools::SetSeed(4);
    std::vector<double> u = MCTools::SampleUniform(0, 1, n);
    for (int i = 0; i < n; i++) {
        vf_eqs(v[i], a + b * z[i], 1, "normal sample has the requested mean and width");
        vf_eqs(w[i], a + b * u[i], 1, "uniform sample covers the interval");
        vf_le(a, w[i], "uniform sample not below the interval");
        vf_lt(w[i], a + b, "uniform sample below the upper bound");
    }
    vf_reach("samples");
}
// discrete: index i exactly when the variate falls in slice i of the cumulative weights
extern "C" void q_discrete()
{
    int n = 1 + vf_choice("n", vf_tier() ? 6 : 4);
    std::vector<double> w(n);
    double tot = 0;
    for (int i = 0; i < n; i++) {
        w[i] = vf_choice("zero weight", 2) ? 0 : vf_pos("w");
        tot = tot + w[i];
    }
    vf_assume_lt(0, tot);
    MCTools::SetSeed(5);
    double u = MCTools::RandDouble(0, 1);
    MCTools::SetSeed(5);
    unsigned k = MCTools::RandDiscrete(w);
    vf_assert(k < (unsigned)n, "discrete index in range");
    double lo = 0;
    for (unsigned i = 0; i < k; i++) lo += w[i];
    vf_lt(0, w[k], "index with zero weight is never drawn");
    vf_le(lo, u * tot, "variate not below the slice of the drawn index");
    vf_lt(u * tot, lo + w[k], "variate below the end of the slice of the drawn index");
    vf_reach("discrete");
}
extern "C" void q_discrete_all_reached()
{
    int n = 2 + vf_choice("n", 3), i = vf_choice("index", n);
    std::vector<double> w(n);
    double tot = 0, lo = 0;
    for (int j = 0; j < n; j++) { w[j] = vf_pos("w"); if (j < i) lo += w[j]; tot += w[j]; }
    MCTools::SetSeed(5);
    double u = MCTools::RandDouble(0, 1);
    vf_assume_lt(lo, u * tot);
    vf_assume_lt(u * tot, lo + w[i]);
    MCTools::SetSeed(5);
    vf_assert(MCTools::RandDiscrete(w) == (unsigned)i, "every index with positive weight is drawn in its slice");
    vf_reach("slice");
}
// seeding
static double draw(int k)
{
    if (k == 0) return MCTools::RandDouble(0, 1);
    if (k == 1) return MCTools::RandNorm(0, 1);
    if (k == 2) { std::vector<double> v = MCTools::SampleNorm(0, 1, 2); return v[1]; }
    std::vector<double> v = MCTools::SampleUniform(0, 1, 2); return v[1];
}
extern "C" void q_seed()
{
    int s = vf_choice("seed", 4), before = vf_choice("earlier draws", 3), a = vf_choice("first", 4), b = vf_choice("second", 4);
    MCTools::SetSeed(s);
    double x = draw(a), y = draw(b);
    for (int i = 0; i < before; i++) draw((a + i) % 4);
    MCTools::SetSeed(s);
    vf_eq(draw(a), x, "equal seeds give equal sequences");
    vf_eq(draw(b), y, "equal seeds give equal sequences");
    vf_reach("equal seeds");
}
extern "C" void q_seed_differs()
{
    // a generator that maps distinct (seed, position) to distinct variates
    static const int seeds[10] = {0, 1, 2, 3, 7, 255, 256, 65536, 1000000, -1};
    concrete = 1;
    int s = vf_choice("seed", 10), t = vf_choice("other seed", 10);
    if (s == t) vf_assume(0);
    MCTools::SetSeed(seeds[s]);
    double x = MCTools::RandDouble(0, 1);
    MCTools::SetSeed(seeds[t]);
    double y = MCTools::RandDouble(0, 1);
    vf_assert(x != y, "different seeds give different sequences");
    vf_reach("different seeds");
}
// a second draw, from the same vector with other weights or from another one: nothing of the first is remembered
extern "C" void q_again()
{
    int n = 2 + vf_choice("n", 2), m = 2 + vf_choice("m", 2), same = vf_choice("same vector", 2);
    std::vector<double> w(n), v(m);
    std::vector<double> &first = same ? w : v;
    for (unsigned i = 0; i < first.size(); i++) first[i] = vf_pos("v");
    MCTools::SetSeed(5);
    MCTools::RandDiscrete(first);
    if (same && n != m) w.resize(n = m);
    double tot = 0, lo = 0;
    for (int i = 0; i < n; i++) { w[i] = vf_nonneg("w"); tot += w[i]; }
    vf_assume_lt(0, tot);
    MCTools::SetSeed(6);
    double u = MCTools::RandDouble(0, 1);
    MCTools::SetSeed(6);
    unsigned k = MCTools::RandDiscrete(w);
    vf_assert(k < (unsigned)n, "discrete index in range, whatever was drawn before");
    for (unsigned i = 0; i < k; i++) lo += w[i];
    vf_lt(0, w[k], "index with zero weight is never drawn, whatever was drawn before");
    vf_le(lo, u * tot, "variate not below the slice of the drawn index, whatever was drawn before");
    vf_lt(u * tot, lo + w[k], "variate below the end of the slice of the drawn index, whatever was drawn before");
    vf_reach("again");
}
// a second draw from other bounds, mean and width
extern "C" void q_again_continuous()
{
    double a0 = vf_real("a0"), b0 = vf_pos("b0"), a = vf_real("a"), b = vf_pos("b");
    int first = vf_choice("first", 4), second = vf_choice("second", 4);
    MCTools::SetSeed(9);
    double z = MCTools::RandNorm(0, 1);
    MCTools::SetSeed(9);
    double u = MCTools::RandDouble(0, 1);
    for (int i = 0; i < 2; i++) {
        int k = i ? second : first;
        double lo = i ? a : a0, w = i ? b : b0, r;
        MCTools::SetSeed(9);
        if (k == 0) r = MCTools::RandDouble(lo, lo + w);
        else if (k == 1) r = MCTools::RandNorm(lo, w);
        else { std::vector<double> s = k == 2 ? MCTools::SampleNorm(lo, w, 2) : MCTools::SampleUniform(lo, lo + w, 2); r = s[0]; }
        if (i) vf_eqs(r, lo + w * (k == 0 || k == 3 ? u : z), 1, "draw from the requested distribution, whatever was drawn before");
    }
    vf_reach("again");
}
// as many weights and samples as in use
extern "C" void q_large()
{
    static const int N[] = {9, 17, 33, 64, 100, 130, 257};
    int n = N[vf_choice("n", vf_tier() ? 7 : 6)], part = vf_choice("part", 5), at[5] = {0, 1, n / 2, n - 2, n - 1}, i = at[part];
    std::vector<double> w(n);
    double tot = 0, lo = 0;
    for (int j = 0; j < n; j++) { w[j] = (j % 5 == 3 && j != i) ? 0 : 0.25 + (j % 3) * 0.5; if (j < i) lo += w[j]; tot += w[j]; }
    MCTools::SetSeed(5);
    double u = MCTools::RandDouble(0, 1);
    vf_assume_lt(lo, u * tot);
    vf_assume_lt(u * tot, lo + w[i]);
    MCTools::SetSeed(5);
    vf_assert(MCTools::RandDiscrete(w) == (unsigned)i, "every index with positive weight is drawn in its slice");
    vf_reach("large");
}
extern "C" void q_large_samples()
{
    static const int N[] = {9, 17, 64, 100, 129};
    int n = N[vf_choice("n", 5)], seen = 0;
    double a = vf_real("a"), b = vf_pos("b");
    MCTools::SetSeed(3);
    std::vector<double> v = MCTools::SampleNorm(a, b, n), z, w, u;
    MCTools::SetSeed(4);
    w = MCTools::SampleUniform(a, a + b, n);
    vf_assert((int)v.size() == n && (int)w.size() == n, "requested number of samples");
    MCTools::SetSeed(3);
    z = MCTools::SampleNorm(0, 1, n);
    MCTools::SetSeed(4);
    u = MCTools::SampleUniform(0, 1, n);
    for (int i = 0; i < n; i++) {
        vf_eqs(v[i], a + b * z[i], 1, "normal sample has the requested mean and width");
        vf_eqs(w[i], a + b * u[i], 1, "uniform sample covers the interval");
    }
    vf_reach("large");
}
