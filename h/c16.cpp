#include "physics.h"
#include "Histogram.hh"

static const char *KIND[14] = {"Energy", "X", "Y", "Z", "PX", "PY", "PZ", "energy", "x", "y", "z", "px", "py", "pz"};
static double quantity(const Particle *p, int k)
{
    k %= 7;
    if (k == 0) return p->GetEnergy();
    return k < 4 ? p->GetPosition()[k - 1] : p->GetMomentum()[k - 4];
}
// a particle whose energy is a rational expression
static Particle *some(int kind)
{
    double s = vf_pos("p"), p = kind == 2 ? s : s - 1 / (4 * s);
    int d = vf_choice("along", 2);
    ThreeVector x = rvec("x"), m = d ? ThreeVector(p * 0.6, 0, -p * 0.8) : ThreeVector(0, p, 0);
    return mkpart(kind, x, m);
}
struct Hist {
    int n;
    double lo, w;
    Histogram h;
    Hist(int k, int bins) : n(bins)
    {
        lo = vf_real("min"); w = vf_pos("width");
        h.Initialise("h", "Electron", KIND[k], 3, lo, lo + w * (n - 1), n);
    }
    double centre(int i) const { return lo + i * w; }
    // bin of q, -1 outside the range; edges and midpoints are left out
    int bin(double q) const
    {
        vf_assume_ne(q, lo);
        vf_assume_ne(q, centre(n - 1));
        if (q < lo || q > centre(n - 1)) return -1;
        for (int i = 0; i + 1 < n; i++) {
            vf_assume_ne(q, lo + (i + 0.5) * w);
            if (q < lo + (i + 0.5) * w) return i;
        }
        return n - 1;
    }
    void is(const double *want, const char *l)
    {
        for (int i = 0; i < n; i++) vf_eq(h.GetBinValues()[i], want[i], l);
    }
};
extern "C" void q_centres()
{
    int n = 2 + vf_choice("bins", vf_tier() ? 7 : 3);
    double lo = vf_real("min"), hi = vf_real("max"), t = vf_real("time");
    vf_assume_lt(lo, hi);
    Histogram a("name", "Photon", "Energy", t, lo, hi, n);
    vf_assert(a.GetName() == "name" && a.GetParticle() == "Photon", "name and particle of the histogram");
    vf_eq(a.GetTime(), t, "time of the histogram");
    vf_assert(a.GetNBins() == n, "number of bins");
    for (int i = 0; i < n; i++) {
        vf_eqs(a.GetBinCentres()[i], lo + (hi - lo) * i / (n - 1), 1, "centres are evenly spaced between minimum and maximum");
        vf_eq(a.GetBinValues()[i], 0, "a new histogram is empty");
    }
    vf_reach("centres");
}
static void append(int k, int bins, int parts)
{
    Hist H(k, bins);
    double want[8] = {0};
    for (int j = 0; j < parts; j++) {
        Particle *p = some(vf_choice("kind", 3));
        int b = H.bin(quantity(p, k));
        H.h.AppParticle(p);
        if (b >= 0) want[b]++;
        H.is(want, "a particle in range adds one to the nearest bin of its quantity");
        delete p;
    }
    vf_reach(parts == 1 ? KIND[k] : "several");
}
extern "C" void q_append() { int k = vf_choice("quantity", 14), n = 2 + vf_choice("bins", vf_tier() ? 4 : 2); append(k, n, 1); }
extern "C" void q_several() { append(vf_choice("quantity", 7), 3, 2); }
// filling with a list counts every member and normalises
static void fill(int k, int bins, int parts)
{
    Hist H(k, bins);
    double want[8] = {0};
    int in = 0;
    ParticleList list("l", 4);
    for (int j = 0; j < parts; j++) {
        Particle *p = some(j == 0 ? vf_choice("kind", 3) : 0);
        int b = H.bin(quantity(p, k));
        if (b >= 0) { want[b]++; in++; }
        list.AddParticle(p);
    }
    H.h.Fill(&list);
    for (int i = 0; i < bins && in; i++) want[i] /= in;
    for (int i = 0; i < bins; i++) vf_assert(vf_isnum(H.h.GetBinValues()[i]), "normalising never produces non-numbers");
    H.is(want, "filling counts each member once and makes the counts sum to one");
    vf_reach(in ? "some in range" : "none in range");
}
extern "C" void q_fill() { int k = vf_choice("quantity", 14); fill(k, 2, 1); }
extern "C" void q_fill2() { fill(vf_choice("quantity", 7), 3, 2); }
extern "C" void t_fill3() { fill(vf_choice("quantity", 7), 4, 3); }
extern "C" void q_empty()
{
    Hist H(vf_choice("quantity", 14), 3);
    ParticleList list("l", 4);
    H.h.Fill(&list);
    double none[3] = {0};
    for (int i = 0; i < 3; i++) vf_assert(vf_isnum(H.h.GetBinValues()[i]), "normalising never produces non-numbers");
    H.is(none, "an empty list leaves the histogram empty");
    vf_reach("empty");
}
// adding to a filled histogram, then again a list
extern "C" void q_merge()
{
    int n = 2 + vf_choice("bins", 2), m = vf_choice("other bins", 2) ? n : n + 1, same = vf_choice("same range", 3);
    Hist A(0, n);
    double lo = A.lo, hi = A.centre(n - 1);
    if (same == 1) { lo = vf_real("min2"); vf_assume_ne(lo, A.lo); vf_assume_lt(lo, hi); }
    if (same == 2) { hi = vf_real("max2"); vf_assume_ne(hi, A.centre(n - 1)); vf_assume_lt(lo, hi); }
    Histogram *b = new Histogram("other", "Electron", "Energy", 3, lo, hi, m);
    double va[8], vb[8];
    for (int i = 0; i < n; i++) { va[i] = vf_nonneg("count"); A.h.GetBinValues()[i] = va[i]; }
    for (int i = 0; i < m; i++) { vb[i] = vf_nonneg("count"); b->GetBinValues()[i] = vb[i]; }
    A.h.Merge(b);
    bool ok = m == n && same == 0;
    for (int i = 0; i < n && ok; i++) va[i] += vb[i];
    A.is(va, ok ? "merging adds the counts of compatible histograms" : "incompatible histograms are left as they were");
    vf_assert(A.h.GetNBins() == n, "merging keeps the bins");
    for (int i = 0; i < n; i++) vf_eqs(A.h.GetBinCentres()[i], A.centre(i), 1, "merging keeps the bins");
    vf_reach(ok ? "compatible" : "incompatible");
}
extern "C" void q_unknown()
{
    static const char *bad[8] = {"", "T", "Time", "ENERGY", "gamma", "px ", "XX", "P"};
    Histogram h("h", "Electron", bad[vf_choice("name", 8)], 0, 0, 10, 3);
    int fill = vf_choice("fill", 2);
    Particle *p = mkpart(vf_choice("kind", 2) * 2, ThreeVector(1, 1, 1), ThreeVector(0, 0, 5));
    ParticleList list("l", 4);
    list.AddParticle(p);
    vf_exit_ok(1);
    vf_reach("unknown");
    if (fill) h.Fill(&list);
    else h.AppParticle(p);
    vf_assert(0, "an unknown quantity is refused");
}
// a histogram without bins is refused, not written to
extern "C" void q_uninitialised()
{
    Histogram h;
    int fill = vf_choice("fill", 2);
    Particle *p = mkpart(0, ThreeVector(1, 1, 1), ThreeVector(0, 0, 5));
    ParticleList list("l", 4);
    list.AddParticle(p);
    vf_exit_ok(1);
    vf_reach("uninitialised");
    if (fill) h.Fill(&list);
    else h.AppParticle(p);
    vf_assert(0, "a histogram that was not set up is refused");
}
// two histograms filled in turn, or one at the place of another that is gone, or one that is set up a second time: nothing is shared or left
#include <new>
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(Histogram)];
    int how = vf_choice("other", 3), k = vf_choice("quantity", 2) ? 5 : 0, k0 = 5 - k, n0 = 2 + vf_choice("other bins", 2);
    double lo0 = vf_real("min0"), w0 = vf_pos("width0"), lo = vf_real("min"), w = vf_pos("width");
    Histogram *a = new (room) Histogram("a", "Electron", KIND[k0], 1, lo0, lo0 + w0 * (n0 - 1), n0), *h;
    Particle *p = some(0), *q = some(2);
    a->AppParticle(p);
    if (how == 0) h = new Histogram("b", "Photon", KIND[k], 2, lo, lo + w, 2);
    else if (how == 1) { a->~Histogram(); h = new (room) Histogram("b", "Photon", KIND[k], 2, lo, lo + w, 2); }
    else { h = a; h->Initialise("b", "Photon", KIND[k], 2, lo, lo + w, 2); }
    vf_assert(h->GetName() == "b" && h->GetParticle() == "Photon" && h->GetNBins() == 2, "name, particle and bins of this histogram");
    vf_eq(h->GetTime(), 2, "time of this histogram");
    double want[2] = {0, 0}, v = quantity(q, k);
    vf_assume_ne(v, lo);
    vf_assume_ne(v, lo + w);
    vf_assume_ne(v, lo + w / 2);
    if (lo < v && v < lo + w) want[v > lo + w / 2]++;
    h->AppParticle(q);
    for (int i = 0; i < 2; i++) {
        vf_eq(h->GetBinValues()[i], want[i], "a particle in range adds one to the nearest bin of this histogram only");
        vf_eqs(h->GetBinCentres()[i], lo + i * w, 1, "centres of this histogram");
    }
    if (how == 0) {
        double sum = 0;
        for (int i = 0; i < n0; i++) { sum += a->GetBinValues()[i]; vf_eqs(a->GetBinCentres()[i], lo0 + i * w0, 1, "centres of this histogram"); }
        vf_assert(sum == 0 || sum == 1, "filling one histogram leaves others as they were");
        vf_assert(a->GetName() == "a" && a->GetNBins() == n0, "name, particle and bins of this histogram");
        a->~Histogram();
        delete h;
    } else h->~Histogram();
    delete p;
    delete q;
    vf_reach("again");
}
// as many bins and particles as in use
extern "C" void q_large()
{
    static const int N[] = {9, 16, 17, 33, 64, 100, 129, 500};
    int n = N[vf_choice("n", vf_tier() ? 8 : 7)], part = vf_choice("part", 5), how = vf_choice("how", 2);
    int at[5] = {0, 1, n / 2, n - 2, n - 1}, i = at[part];
    double q = vf_real("q"), a = -3, w = 0.25;
    if (!how) { a = vf_real("min"); w = vf_pos("width"); }
    Histogram h("h", "Photon", "y", 3, a, a + w * (n - 1), n);
    double c = a + w * i, lo = i ? c - w / 2 : c, hi = i + 1 < n ? c + w / 2 : c;
    vf_assume_lt(lo, q);
    vf_assume_lt(q, hi);
    if (how == 0) {
        Particle *p = mkpart(2, ThreeVector(1, q, 2), ThreeVector(0, 0, 5));
        h.AppParticle(p);
        delete p;
    } else {
        ParticleList list("l", 40);
        for (int j = 0; j < 33; j++) {
            Particle *p = mkpart(j % 3, ThreeVector(1, q, 2), ThreeVector(0, 0, 5));
            list.AddParticle(p);
        }
        h.Fill(&list);
    }
    for (int j = 0; j < n; j++) {
        vf_eq(h.GetBinValues()[j], i == j, "a particle in range adds one to the nearest bin of its quantity");
        vf_eqs(h.GetBinCentres()[j], a + w * j, how ? 1 : w + (a < 0 ? -a : a), "centres are evenly spaced between minimum and maximum");
    }
    Histogram *o = new Histogram("o", "Photon", "y", 3, a, a + w * (n - 1), n);
    for (int j = 0; j < n; j++) o->GetBinValues()[j] = j;
    h.Merge(o);
    for (int j = 0; j < n; j++) vf_eq(h.GetBinValues()[j], j + (i == j), "merging adds the counts of compatible histograms");
    vf_reach("large");
}
