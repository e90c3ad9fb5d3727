#include "physics.h"
#include "SourceGenerator.hh"
#include "ParticleList.hh"

// variates: mode 0 one arbitrary value shared by all draws of a kind, mode 1 concrete and distinct, mode 2 fresh
static int mode, un, zn;
static double U, Z, uu[32];
extern "C" double vf_rng_u01(unsigned long, unsigned long) { un++; return mode == 0 ? U : mode == 1 ? uu[un % 32] : mode == 3 ? (un * 709 % 1021 + 0.5) / 1024 : vf_unit("u"); }
extern "C" double vf_rng_normal(unsigned long, unsigned long) { zn++; return mode == 0 ? Z : mode & 1 ? 0.5 + zn : vf_real("z"); }
static void draws(int m) { mode = m; un = zn = 0; if (m == 0) { U = vf_unit("U"); Z = vf_real("Z"); } }
static double dot(const ThreeVector &a, const ThreeVector &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static ThreeVector cross(const ThreeVector &a, const ThreeVector &b)
{
    return ThreeVector(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static ThreeVector minus(const ThreeVector &a, const ThreeVector &b) { return ThreeVector(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
static const char *TYPES[6] = {"Photon", "photon", "Electron", "electron", "Positron", "positron"};
static const char *NAMES[3] = {"Photon", "Electron", "Positron"};
static double mass(int ty) { return ty < 2 ? 0 : 1; }
// unit directions with rational components; k = 0..
static ThreeVector unit(int k)
{
    static const double d[7][3] = {{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {.6, 0, -.8}, {-2. / 7, 3. / 7, -6. / 7}, {0, 0, -1}, {4. / 9, -4. / 9, 7. / 9}};
    return ThreeVector(d[k][0], d[k][1], d[k][2]);
}
static int ndir() { return vf_tier() ? 7 : 5; }
static Particle *only(ParticleList *l, int ty)
{
    vf_assert(l->GetNPart() == 1, "one particle per event");
    Particle *p = l->GetParticle(0);
    vf_assert(p->GetName() == NAMES[ty / 2], "particle of the requested type");
    vf_eq(p->GetWeight(), 1, "weight one");
    vf_eq(p->GetTime(), 0, "time zero");
    vf_assert(p->IsAlive(), "born alive");
    vf_eqs(p->GetMass(), mass(ty), 1, "mass of the type");
    vf_eqs(p->GetCharge(), ty < 2 ? 0 : ty < 4 ? -1 : 1, 1, "charge of the type");
    return p;
}
extern "C" void q_nospread()
{
    double L, e = vf_pos("energy");
    int ty = vf_choice("type", 6), track = vf_choice("track", 2);
    ThreeVector x = rvec("x"), d = rmom("d", &L);
    draws(0);
    SourceGenerator g(TYPES[ty], "mono", 2, mass(ty) + e, 0, 0, 0, 0, x, d, track);
    vf_assert(g.GetSourceNumber() == 2, "source size");
    for (int i = 0; i < 2; i++) {
        ParticleList *l = g.GenerateList();
        Particle *p = only(l, ty);
        eq3(p->GetPosition(), x, 1, "without spread particles start at the position");
        vf_assert(p->GetTracking() == (track != 0), "tracking as requested");
        vf_eqs(p->GetEnergy(), mass(ty) + e, 1, "mono energy");
        ThreeVector q = p->GetDirection();
        for (int j = 0; j < 3; j++) vf_eqs(q[j] * L, d[j], 1, "without divergence particles move along the direction");
        g.FreeSources(l);
    }
    vf_reach("nospread");
}
extern "C" void q_energy()
{
    static const char *D[6] = {"mono", "gaussian", "Gaussian", "linear", "Linear", "Mono"};
    int ty = 2 * vf_choice("type", 3), dk = vf_choice("distribution", 6);
    double e1 = vf_pos("e1"), e2 = vf_pos("e2"), want;
    draws(0);
    if (dk == 0 || dk == 5) want = e1;
    else if (dk < 3) want = e1 + e2 * Z;
    else want = e1 + (e2 - e1) * U;
    vf_assume_lt(mass(ty), want);
    SourceGenerator g(TYPES[ty], D[dk], 2, e1, e2, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    for (int i = 0; i < 2; i++) {
        ParticleList *l = g.GenerateList();
        vf_eqs(only(l, ty)->GetEnergy(), want, 1, "energy follows the requested distribution");
        g.FreeSources(l);
    }
    vf_reach("energy");
}
extern "C" void q_count()
{
    int n = vf_choice("n", vf_tier() ? 4 : 3) + 1, ty = 2 * vf_choice("type", 3);
    draws(2);
    SourceGenerator g(TYPES[ty], "mono", n, 2, 2, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(1, 0, 0));
    for (int i = 0; i < n; i++) {
        ParticleList *l = g.GenerateList();
        only(l, ty);
        g.FreeSources(l);
    }
    vf_exit_ok(1);
    g.GenerateList();
    vf_assert(0, "a depleted source refuses further requests");
}
extern "C" void q_unknown()
{
    static const char *bad[4] = {"muon", "", "PHOTON", "electrons"};
    int k = vf_choice("type", 4);
    draws(2);
    vf_exit_ok(1);
    SourceGenerator g(bad[k], "mono", 1, 2, 2, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(1, 0, 0));
    g.GenerateList();
    vf_assert(0, "unknown types are refused");
}
extern "C" void q_duration()
{
    ThreeVector d = unit(vf_choice("d", ndir())), x = rvec("x");
    double tau = vf_nonneg("tau");
    draws(0);
    SourceGenerator g("electron", "mono", 1, 2, 2, 0, tau, 0, x, d);
    ParticleList *l = g.GenerateList();
    ThreeVector r = minus(l->GetParticle(0)->GetPosition(), x), c = cross(r, d);
    for (int j = 0; j < 3; j++) vf_eqs(c[j], 0, 1, "duration spread is along the direction");
    vf_eqs(dot(r, d) * dot(r, d), tau * tau * Z * Z, 1, "duration spread has the requested width and is centred on the position");
    g.FreeSources(l);
    vf_reach("duration");
}
extern "C" void q_width()
{
    ThreeVector d = unit(vf_choice("d", ndir())), x = rvec("x");
    double s = vf_nonneg("s");
    draws(0);
    SourceGenerator g("photon", "mono", 1, 2, 2, s, 0, 0, x, d);
    ParticleList *l = g.GenerateList();
    ThreeVector r = minus(l->GetParticle(0)->GetPosition(), x);
    vf_eqs(dot(r, d), 0, 1, "position spread is perpendicular to the direction");
    vf_eqs(dot(r, r), 2 * s * s * Z * Z, 1, "position spread has the requested width in both transverse directions and is centred on the position");
    g.FreeSources(l);
    vf_reach("width");
}
extern "C" void q_divergence()
{
    ThreeVector d = unit(vf_choice("d", ndir()));
    int ty = 2 * vf_choice("type", 3);
    double s = vf_nonneg("s");
    draws(0);
    SourceGenerator g(TYPES[ty], "mono", 1, 2, 2, 0, 0, s, ThreeVector(0, 0, 0), d);
    ParticleList *l = g.GenerateList();
    Particle *p = only(l, ty);
    vf_eqs(dot(p->GetDirection(), d), __builtin_cos(s * Z), 1, "divergence is the angle to the direction");
    vf_eqs(p->GetEnergy(), 2, 1, "divergence keeps the energy");
    eq3(p->GetPosition(), ThreeVector(0, 0, 0), 1, "divergence keeps the position");
    g.FreeSources(l);
    vf_reach("divergence");
}
static void near(double a, double b, const char *l) { vf_le(a - b, 1e-9, l); vf_le(b - a, 1e-9, l); }
// azimuth: quarter turns of the uniform variate turn the transverse momentum by quarter turns
extern "C" void q_azimuth()
{
    ThreeVector d = unit(vf_choice("d", ndir())), t[4];
    double s = vf_choice("s", 2) ? 0.3 : 1.2;
    draws(0);
    Z = 1;
    for (int k = 0; k < 4; k++) {
        U = 0.25 * k;
        SourceGenerator g("photon", "mono", 1, 1, 1, 0, 0, s, ThreeVector(0, 0, 0), d);
        ParticleList *l = g.GenerateList();
        ThreeVector p = l->GetParticle(0)->GetMomentum();
        double a = dot(p, d);
        t[k] = ThreeVector(p[0] - a * d[0], p[1] - a * d[1], p[2] - a * d[2]);
        g.FreeSources(l);
    }
    for (int j = 0; j < 3; j++) {
        near(t[0][j], -t[2][j], "azimuth is uniform over the full circle");
        near(t[1][j], -t[3][j], "azimuth is uniform over the full circle");
    }
    near(dot(t[0], t[1]), 0, "azimuth is uniform over the full circle");
    near(dot(t[1], t[1]), dot(t[0], t[0]), "azimuth is uniform over the full circle");
    vf_reach("azimuth");
}
// distinct variates for distinct quantities and particles
extern "C" void q_independent()
{
    double s = vf_pos("s"), tau = vf_pos("tau");
    for (int i = 0; i < 32; i++) uu[i] = (i * 7 % 32) / 32.0;
    draws(1);
    SourceGenerator g("electron", "linear", 3, 2, 10, s, tau, 0.01, ThreeVector(1, 2, 3), ThreeVector(0, 0, 1));
    double x[3], y[3], z[3], e[3], a[3];
    for (int i = 0; i < 3; i++) {
        ParticleList *l = g.GenerateList();
        Particle *p = only(l, 2);
        ThreeVector r = p->GetPosition();
        x[i] = (r[0] - 1) / s; y[i] = (r[1] - 2) / s; z[i] = (r[2] - 3) / tau;
        e[i] = p->GetEnergy();
        a[i] = p->GetDirection()[2];
        g.FreeSources(l);
    }
    for (int i = 0; i < 3; i++) {
        vf_assert(x[i] - y[i] > 1e-6 || y[i] - x[i] > 1e-6, "transverse coordinates are drawn independently");
        vf_assert(x[i] - z[i] > 1e-6 || z[i] - x[i] > 1e-6, "longitudinal and transverse coordinates are drawn independently");
        int j = (i + 1) % 3;
        vf_assert(x[i] - x[j] > 1e-6 || x[j] - x[i] > 1e-6, "particles get different positions");
        vf_assert(y[i] - y[j] > 1e-6 || y[j] - y[i] > 1e-6, "particles get different positions");
        vf_assert(z[i] - z[j] > 1e-6 || z[j] - z[i] > 1e-6, "particles get different positions");
        vf_assert(e[i] - e[j] > 1e-9 || e[j] - e[i] > 1e-9, "particles get different energies");
        vf_assert(a[i] - a[j] > 1e-12 || a[j] - a[i] > 1e-12, "particles get different angles");
    }
    vf_reach("independent");
}
// another source before, alive or gone (and at the same address): nothing of it is remembered
#include <new>
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(SourceGenerator)];
    int gone = vf_choice("gone", 2), left = vf_choice("left", 2), k = vf_choice("d", 3), k0 = (k + 1 + vf_choice("d0", 2)) % 4, ty = 2 * vf_choice("type", 3), ty0 = (ty + 2) % 6;
    double e = vf_pos("energy"), e0 = vf_pos("energy0"), tau = vf_nonneg("tau"), tau0 = vf_nonneg("tau0"), y = vf_nonneg("spread0");
    ThreeVector x = rvec("x"), x0 = rvec("x0"), d = unit(k), c = unit(k0);
    draws(0);
    SourceGenerator *a = gone ? new (room) SourceGenerator(TYPES[ty0], "linear", 2, mass(ty0) + e0, mass(ty0) + e0, y, tau0, 0, x0, c, true)
                              : new SourceGenerator(TYPES[ty0], "linear", 2, mass(ty0) + e0, mass(ty0) + e0, y, tau0, 0, x0, c, true);
    for (int i = 0; i < 2 - left; i++) { ParticleList *l = a->GenerateList(); a->FreeSources(l); }
    if (gone) a->~SourceGenerator();
    SourceGenerator *g = new (room) SourceGenerator(TYPES[ty], "mono", 3, mass(ty) + e, 0, 0, tau, 0, x, d, false);
    vf_assert(g->GetSourceNumber() == 3, "source size");
    for (int i = 0; i < 3; i++) {
        if (i == 1 && !gone && left) { ParticleList *l = a->GenerateList(); a->FreeSources(l); }
        ParticleList *l = g->GenerateList();
        Particle *p = only(l, ty);
        vf_eqs(p->GetEnergy(), mass(ty) + e, 1, "energy as requested, whatever other sources do");
        ThreeVector q = p->GetDirection(), r = minus(p->GetPosition(), x), z = cross(r, d);
        for (int j = 0; j < 3; j++) vf_eqs(q[j], d[j], 1, "direction as requested, whatever other sources do");
        for (int j = 0; j < 3; j++) vf_eqs(z[j], 0, 1, "duration spread is along the direction, whatever other sources do");
        vf_eqs(dot(r, d) * dot(r, d), tau * tau * Z * Z, 1, "duration spread has the requested width, whatever other sources do");
        vf_assert(!p->GetTracking(), "tracking as requested, whatever other sources do");
        g->FreeSources(l);
    }
    g->~SourceGenerator();
    if (!gone) delete a;
    vf_reach("again");
}
// sources as large as in use: every event up to the last, none beyond it
extern "C" void q_large()
{
    static const int N[] = {9, 17, 33, 64, 101, 130};
    int k = vf_choice("n", 6), n = N[k], ty = 2 * (vf_tier() ? vf_choice("type", 3) : k % 3);
    double e = vf_pos("energy");
    ThreeVector x = rvec("x"), d(0.6, 0, -0.8);
    draws(1);
    SourceGenerator g(TYPES[ty], "mono", n, mass(ty) + e, 0, 0, 0, 0, x, d);
    vf_assert((int)g.GetSourceNumber() == n, "source size");
    for (int i = 0; i < n; i++) {
        ParticleList *l = g.GenerateList();
        Particle *p = only(l, ty);
        if (i < 3 || i > n - 4 || i % 16 < 2) {
            eq3(p->GetPosition(), x, 1, "without spread particles start at the position");
            vf_eqs(p->GetEnergy(), mass(ty) + e, 1, "mono energy");
            ThreeVector q = p->GetDirection();
            for (int j = 0; j < 3; j++) vf_eqs(q[j], d[j], 1, "without divergence particles move along the direction");
        }
        g.FreeSources(l);
    }
    vf_reach("large");
    vf_exit_ok(1);
    g.GenerateList();
    vf_assert(0, "a depleted source refuses further requests");
}
// every event has samples of its own
extern "C" void q_large_spread()
{
    int k = vf_choice("n", 3), n = k == 0 ? 17 : k == 1 ? 33 : 130, ty = 2 * vf_choice("type", 3), how = vf_choice("energies", 2);
    draws(3);
    double lo = mass(ty) + 1, w = how ? 1.0 / 1024 : 7, s = vf_pos("s"), tau = vf_pos("tau"), v[5][130];
    SourceGenerator g(TYPES[ty], how ? "gaussian" : "linear", n, lo, how ? w : lo + w, s, tau, 1.0 / 1024, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    for (int i = 0; i < n; i++) {
        ParticleList *l = g.GenerateList();
        Particle *p = only(l, ty);
        ThreeVector r = p->GetPosition();
        v[0][i] = r[0] / s; v[1][i] = r[1] / s; v[2][i] = r[2] / tau;
        v[3][i] = p->GetEnergy();
        v[4][i] = p->GetDirection()[2];
        bool own[5] = {true, true, true, true, true};
        for (int j = 0; j < i; j++) for (int q = 0; q < 5; q++) own[q] &= v[q][j] - v[q][i] > 1e-9 || v[q][i] - v[q][j] > 1e-9;
        for (int q = 0; q < 3; q++) vf_assert(own[q], "every event has a position of its own");
        vf_assert(own[3], "every event has an energy of its own");
        vf_assert(own[4], "every event has an angle of its own");
        g.FreeSources(l);
    }
    vf_reach("large spread");
}
