#include <fstream>
#include <vector>
#include "physics.h"
#include "tables.h"
#include "ContinuousEmission.hh"
#include "NonLinearBreitWheeler.hh"
#ifndef VF_REPO
#define VF_REPO "/repo"
#endif

static double U;
extern "C" double vf_rng_u01(unsigned long, unsigned long) { return U; }

// ---- tables with arbitrary contents, not square: every entry is read, in order
extern "C" void q_emission_order()
{
    U = vf_unit("U0");
    int ne = 2 + vf_choice("eta points", 2), nc = 2 + vf_choice("chi points", 2);
    int nh = vf_tier() ? 2 + vf_choice("h points", 2) : ne;
    EmTables T(nh, ne, nc);
    T.write();
    double k = vf_pos("s"), s = 1 + k, p = (s * s - 1) / (2 * s), gamma = (s * s + 1) / (2 * s), e = vf_pos("field"), eta = gamma * e;
    vf_assume_lt(1e-3, eta);
    vf_assume_lt(eta, 1);
    ConstField f(ThreeVector(0, e, 0), ThreeVector(0, 0, 0));
    Lepton part(1, -1, ThreeVector(0, 0, 0), ThreeVector(p, 0, 0));
    ContinuousEmission proc(&f, 1, false, 1, 0);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1");
    T.generic(eta, u1);
    U = u1;
    proc.Interact(&part, &list);
    vf_assert(list.GetNPart() == 1, "a photon every step");
    vf_eqs(list.GetParticle(0)->GetMomentum()[0], 2 * T.chi(eta, u1) * gamma / eta, 1, "drawn energy follows the energy table");
    vf_eqs(list.GetParticle(0)->GetWeight(), T.dtau(1, eta, gamma), 1, "rate follows the h table");
    vf_reach("emission");
}
extern "C" void q_pair_order()
{
    U = vf_unit("U0");
    int nt = 2 + vf_choice("T points", 2), n = vf_tier() ? 2 + vf_choice("split points", 2) : 5 - nt;
    BwTables T(nt, n);
    T.write();
    double k = vf_nonneg("E-2"), E = 2 + k, e = vf_pos("field"), chi = 0.5 * E * e, dt = vf_pos("dt");
    vf_assume_lt(1e-3, chi);
    vf_assume_lt(chi, 1);
    ConstField f(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
    Photon part(ThreeVector(0, 0, 0), ThreeVector(0, 0, E));
    double tau = part.GetOpticalDepth();
    NonLinearBreitWheeler proc(&f, dt, false);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1");
    T.generic(chi, u1);
    U = u1;
    proc.Interact(&part, &list);
    vf_eqs(part.GetOpticalDepth(), tau - T.dtau(dt, chi, E), 1, "rate follows the T table");
    if (list.GetNPart() == 2) {
        Particle *q = list.GetParticle(0);
        if (q->GetName() != "Positron") q = list.GetParticle(1);
        double en = q->GetEnergy(), want = T.split(chi, u1) * E;
        if (want < 1) want = 1;
        if (want > E - 1) want = E - 1;
        vf_eqs(en, want, 1, "drawn energy follows the split table");
    }
    vf_reach(list.GetNPart() ? "pair" : "no pair");
}
// ---- a missing table stops the program
static void some(const char *const *names, int n, int missing)
{
    for (int i = 0; i < n; i++)
        if (i != missing) vf_file((std::string("tab/") + names[i]).c_str(), "2 2 0 1\n0 1\n0 1\n0 1\n0 1\n");
    vf_setenv("QED_TABLES_PATH", "tab");
}
extern "C" void q_missing()
{
    static const char *const em[] = {"hsokolov.table", "ksi_sokolov.table", "chimin.table"};
    static const char *const bw[] = {"pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"};
    int kind = vf_choice("process", 2);
    some(kind ? bw : em, kind ? 4 : 3, vf_choice("missing", kind ? 4 : 3));
    ConstField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    vf_reach("missing");
    vf_exit_ok(1);
    if (kind) { NonLinearBreitWheeler p(&f, 1, false); }
    else { ContinuousEmission p(&f, 1, false, 1, 0); }
    vf_assert(0, "a missing table stops the program");
}
// ---- the shipped tables, loaded once
static std::vector<double> shipped(const char *name, const char *dir)
{
    std::string s = std::string(VF_REPO "/Tables/") + name;
    vf_disk(s.c_str());
    size_t n;
    vf_file((std::string(dir) + "/" + name).c_str(), vf_file_get(s.c_str(), &n));
    std::ifstream f(s);
    std::vector<double> r;
    double x;
    while (f >> x) r.push_back(x);
    return r;
}
static ConstField Fld;
struct Shipped {
    std::vector<double> ksi, cmin, h, split, eps, lchi, t;
    ContinuousEmission *em, *emh;
    NonLinearBreitWheeler *bw, *bwt;
    Shipped()
    {
        ksi = shipped("ksi_sokolov.table", "ship/em"); cmin = shipped("chimin.table", "ship/em");
        split = shipped("e_split.table", "ship/bw"); eps = shipped("epsilon.table", "ship/bw"); lchi = shipped("log_chi.table", "ship/bw");
        // energies with a flat rate, rates with a simple energy table
        vf_file("ship/em/hsokolov.table", "2\n-10 0\n10 0\n");
        vf_file("ship/bw/pairprod.table", "2\n-10 1\n10 1\n");
        h = shipped("hsokolov.table", "ship/h");
        vf_file("ship/h/ksi_sokolov.table", "2 2 -9 9 0 1 0 1\n");
        vf_file("ship/h/chimin.table", "1e-12 1e-12\n");
        t = shipped("pairprod.table", "ship/t");
        vf_file("ship/t/e_split.table", "2 0 1 0 1\n");
        vf_file("ship/t/epsilon.table", "0 1\n");
        vf_file("ship/t/log_chi.table", "-9 9\n");
        vf_setenv("QED_TABLES_PATH", "ship/em");
        em = new ContinuousEmission(&Fld, 1, false, 1, 0);
        vf_setenv("QED_TABLES_PATH", "ship/h");
        emh = new ContinuousEmission(&Fld, 1, false, 1, 0);
        vf_setenv("QED_TABLES_PATH", "ship/bw");
        bw = new NonLinearBreitWheeler(&Fld, 1e30, false);
        vf_setenv("QED_TABLES_PATH", "ship/t");
        bwt = new NonLinearBreitWheeler(&Fld, 1e-9, false);
    }
};
static Shipped G;
// number of rows examined, and which
static int row(int rows)
{
    static const int q[] = {0, 1, 17, 40, 57, 73, 97, 98};
    if (vf_tier()) return vf_choice("row", rows - 1);
    int r = q[vf_choice("row", 8)];
    return r < rows - 1 ? r : rows - 2;
}
static double piece(const double *x, const double *y, int n, double mid, double u)
{
    int i = 0;
    while (i + 2 < n && x[i + 1] <= mid) i++;
    return y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (u - x[i]);
}
static std::vector<double> cuts(const double *a, const double *b, int n)
{
    std::vector<double> c(1, 0.);
    int i = 0, j = 0;
    while (i < n || j < n) {
        double v = j >= n || (i < n && a[i] < b[j]) ? a[i++] : b[j++];
        if (v > c.back() && v < 1) c.push_back(v);
    }
    c.push_back(1);
    return c;
}
extern "C" void q_shipped_complete()
{
    size_t n = (size_t)G.split[0], ne = (size_t)G.ksi[0], nc = (size_t)G.ksi[1];
    vf_assert(G.split.size() == 1 + n * n && G.eps.size() == n && G.lchi.size() == n, "shipped split tables are complete");
    vf_assert(G.ksi.size() == 4 + ne * nc && G.cmin.size() == ne, "shipped energy tables are complete");
    vf_assert(G.h.size() == 1 + 2 * (size_t)G.h[0] && G.t.size() == 1 + 2 * (size_t)G.t[0], "shipped rate tables are complete");
    for (size_t i = 0; i + 1 < n; i++) vf_lt(G.lchi[i], G.lchi[i + 1], "shipped axis increases");
    for (size_t i = 0; i + 1 < n; i++) vf_lt(G.eps[i], G.eps[i + 1], "shipped axis increases");
    for (size_t i = 3; i < G.h.size(); i += 2) vf_lt(G.h[i - 2], G.h[i], "shipped axis increases");
    for (size_t i = 3; i < G.t.size(); i += 2) vf_lt(G.t[i - 2], G.t[i], "shipped axis increases");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j + 1 < n; j++) vf_le(G.split[1 + i * n + j], G.split[2 + i * n + j], "shipped quantiles increase");
    for (size_t i = 0; i < ne; i++) {
        for (size_t j = 0; j + 1 < nc; j++) vf_le(G.ksi[4 + i * nc + j], G.ksi[5 + i * nc + j], "shipped quantiles increase");
        vf_lt(0, G.cmin[i], "shipped smallest photon parameters are positive");
    }
    vf_reach("complete");
}
extern "C" void q_shipped_split()
{
    int n = (int)G.split[0];
    int r = row(n);
    const double *A = &G.split[1 + r * n], *B = A + n, E = 1e6, *X = &G.lchi[0], *F = &G.eps[0];
    std::vector<double> c = cuts(A, B, n);
    int k = vf_choice("interval", (int)c.size() - 1);
    double f = vf_rangeo("f", 1e-9, 1 - 1e-9), x = X[r] + f * (X[r + 1] - X[r]), e = __builtin_pow(10., x) * 2 / E;
    Fld = ConstField(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
    U = 0;      // optical depth zero: decays in this step
    Photon g(ThreeVector(0, 0, 0), ThreeVector(0, 0, E));
    ParticleList list("l", 2);
    double v = vf_rangeo("v", 1e-9, 1 - 1e-9), u = c[k] + v * (c[k + 1] - c[k]);
    U = u;
    G.bw->Interact(&g, &list);
    vf_assert(list.GetNPart() == 2, "decays");
    double mid = 0.5 * (c[k] + c[k + 1]), want = (1 - f) * piece(A, F, n, mid, u) + f * piece(B, F, n, mid, u);
    // the first tabulated fraction is not zero: below its quantile the fraction is only bounded
    bool in = mid > A[0] && mid > B[0];
    double a = list.GetParticle(0)->GetEnergy(), b = list.GetParticle(1)->GetEnergy();
    if (list.GetParticle(0)->GetName() != "Positron") { double t = a; a = b; b = t; }
    vf_le(1, a * (1 + 1e-9), "positron has at least its rest energy");
    vf_le(1, b * (1 + 1e-9), "electron has at least its rest energy");
    vf_eqs(a + b, E, 1, "energies add up");
    if (in) {
        vf_le(0, want, "shipped energy fraction is not negative");
        vf_le(want, 1 + 1e-9, "shipped energy fraction is at most one");
        vf_le(want * E - 1.01, a, "drawn fraction follows the shipped table");
        vf_le(a, want * E + 1.01, "drawn fraction follows the shipped table");
    }
    vf_reach("split");
}
extern "C" void q_shipped_energy()
{
    int ne = (int)G.ksi[0], nc = (int)G.ksi[1];
    int r = row(ne);
    double x0 = G.ksi[2], d = (G.ksi[3] - x0) / (ne - 1), gamma = 512 + 1. / 2048, p = 512 - 1. / 2048;
    const double *A = &G.ksi[4 + r * nc], *B = A + nc;
    std::vector<double> c = cuts(A, B, nc), ca(nc), cb(nc);
    int k = vf_choice("interval", (int)c.size() - 1);
    double f = vf_rangeo("f", 1e-9, 1 - 1e-9), x = x0 + (r + f) * d, e = __builtin_pow(10., x) / gamma;
    double la = __builtin_log10(G.cmin[r]), lb = __builtin_log10(G.cmin[r + 1]), l2 = __builtin_log10(2.);
    for (int j = 0; j < nc; j++) {
        ca[j] = la + j * (x0 + r * d - l2 - la) / (nc - 1);
        cb[j] = lb + j * (x0 + (r + 1) * d - l2 - lb) / (nc - 1);
    }
    Fld = ConstField(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
    U = 0.5;
    Lepton part(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, p));
    ParticleList list("l", 2);
    double v = vf_rangeo("v", 1e-9, 1 - 1e-9), u = c[k] + v * (c[k + 1] - c[k]);
    U = u;
    G.em->Interact(&part, &list);
    vf_assert(list.GetNPart() == 1, "emits");
    double mid = 0.5 * (c[k] + c[k + 1]), want = (1 - f) * piece(A, &ca[0], nc, mid, u) + f * piece(B, &cb[0], nc, mid, u);
    double en = list.GetParticle(0)->GetEnergy();
    vf_le(want - x, -l2 + 1e-9, "drawn photon energy is at most the emitter energy");
    double dev = __builtin_log10(en) - (__builtin_log10(2 * gamma) + want - x);
    vf_le(-1e-6, dev, "drawn photon energy follows the shipped table");
    vf_le(dev, 1e-6, "drawn photon energy follows the shipped table");
    vf_lt(0, en, "drawn photon energy is positive");
    vf_reach("energy");
}
// rates interpolate the shipped tables
extern "C" void q_shipped_h()
{
    int n = (int)G.h[0], k = vf_choice("point", vf_tier() ? n - 1 : 12);
    if (!vf_tier()) k = k * (n - 2) / 11;
    double f = vf_rangeo("f", 1e-9, 1 - 1e-9), gamma = 512 + 1. / 2048, p = 512 - 1. / 2048, x0 = G.h[1 + 2 * k], x1 = G.h[3 + 2 * k];
    double x = x0 + f * (x1 - x0), eta = __builtin_pow(10., x), h = G.h[2 + 2 * k] + f * (G.h[4 + 2 * k] - G.h[2 + 2 * k]);
    Fld = ConstField(ThreeVector(eta / gamma, 0, 0), ThreeVector(0, 0, 0));
    U = 0.5;
    Lepton part(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, p));
    ParticleList list("l", 2);
    G.emh->Interact(&part, &list);
    vf_assert(list.GetNPart() == 1, "emits");
    vf_eqs(list.GetParticle(0)->GetWeight(), SQRT3 * ALPHA * eta * __builtin_pow(10., h) / (2 * PI_ * gamma), 1, "rate follows the shipped h table");
    vf_reach("h");
}
extern "C" void q_shipped_T()
{
    int n = (int)G.t[0], k = vf_choice("point", vf_tier() ? n - 1 : 12);
    if (!vf_tier()) k = k * (n - 2) / 11;
    double f = vf_rangeo("f", 1e-9, 1 - 1e-9), x0 = G.t[1 + 2 * k], x1 = G.t[3 + 2 * k], E = 1024;
    double x = x0 + f * (x1 - x0), chi = __builtin_pow(10., x), h = G.t[2 + 2 * k] + f * (G.t[4 + 2 * k] - G.t[2 + 2 * k]);
    Fld = ConstField(ThreeVector(2 * chi / E, 0, 0), ThreeVector(0, 0, 0));
    U = 1 - 1e-15;
    Photon g(ThreeVector(0, 0, 0), ThreeVector(0, 0, E));
    double tau = g.GetOpticalDepth(), drop = 1e-9 * ALPHA * chi * __builtin_pow(10., h) / E;
    vf_assume_lt(drop, tau);
    ParticleList list("l", 2);
    G.bwt->Interact(&g, &list);
    vf_eqs(g.GetOpticalDepth(), tau - drop, 1e-30, "rate follows the shipped T table");
    vf_assert(list.GetNPart() == 0, "no decay");
    vf_reach("T");
}
