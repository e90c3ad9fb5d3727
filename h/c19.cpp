#include "physics.h"
static double last_u;
extern "C" double vf_rng_u01(unsigned long, unsigned long) { last_u = vf_unit("u"); return last_u; }
static void kinematics(const Particle *p, double m, const ThreeVector &mom, double L, const char *)
{
    double E = p->GetEnergy(), g = p->GetGamma(), b = p->GetBeta();
    ThreeVector d = p->GetDirection();
    vf_eqs(p->GetMass(), m, 1, "mass kept");
    if (m == 0) {
        vf_eqs(E, L, 1, "photon energy equals its momentum");
        vf_eqs(b, 1, 1, "photons move at the speed of light");
    } else {
        vf_eqs(E * E, m * m + L * L, 1, "E^2 = m^2 + p^2");
        vf_le(m, E, "energy at least the rest energy");
        vf_eqs(g * m, E, 1, "gamma = E/m");
        vf_eqs(b * E, L, 1, "beta = p/E");
        vf_lt(b, 1, "beta < 1");
        vf_le(0, b, "beta >= 0");
    }
    for (int i = 0; i < 3; i++) vf_eqs(d[i] * L, mom[i], 1, "direction is the unit vector along the momentum");
    eq3(p->GetMomentum(), mom, 1, "momentum kept");
}
extern "C" void q_lepton()
{
    double m = vf_pos("mass"), L, q = vf_choice("charge", 2) ? 1 : -1, w = vf_pos("w"), t = vf_real("t");
    ThreeVector x = rvec("x"), p = rmom("p", &L);
    Lepton a(m, q, x, p, w, t, false);
    kinematics(&a, m, p, L, "lepton");
    eq3(a.GetPosition(), x, 1e-9, "position kept");
    vf_eq(a.GetWeight(), w, "weight kept");
    vf_eq(a.GetTime(), t, "time kept");
    vf_eq(a.GetCharge(), q, "charge kept");
    vf_assert(a.IsAlive(), "born alive");
    vf_assert(a.GetName() == (q < 0 ? "Electron" : "Positron"), "name follows the charge");
    vf_assert(a.GetType() == "Lepton", "type");
    a.Kill();
    vf_assert(!a.IsAlive(), "killed");
    vf_reach("lepton");
}
extern "C" void q_energy()
{
    double m = vf_pos("mass"), k = vf_nonneg("kinetic"), L, q = vf_choice("charge", 2) ? 1 : -1, w = vf_pos("w"), t = vf_real("t");
    ThreeVector x = rvec("x"), d = rmom("d", &L);
    Lepton a(m, q, m + k, x, d, w, t, false);
    vf_eqs(a.GetEnergy(), m + k, 1, "a lepton built from an energy has that energy");
    ThreeVector p = a.GetMomentum();
    for (int i = 0; i < 3; i++) vf_eqs(p[i] * L, len(p) * d[i], 1, "a lepton built from a direction moves along it");
    vf_eqs(sq(p), k * (k + 2 * m), 1, "momentum of a lepton built from an energy");
    eq3(a.GetPosition(), x, 1e-9, "position kept");
    vf_eq(a.GetWeight(), w, "weight kept");
    vf_eq(a.GetTime(), t, "time kept");
    vf_eq(a.GetCharge(), q, "charge kept");
    vf_assert(a.GetName() == (q < 0 ? "Electron" : "Positron"), "name follows the charge");
    vf_assert(a.IsAlive(), "born alive");
    vf_reach("energy");
}
extern "C" void q_photon()
{
    double L, w = vf_pos("w"), t = vf_real("t");
    ThreeVector x = rvec("x"), p = rmom("p", &L);
    if (vf_choice("from energy", 2)) {
        double e = vf_pos("e");
        Photon a(e, x, p, w, t, false);
        kinematics(&a, 0, p * (e / L), e, "photon");
        vf_eq(a.GetWeight(), w, "weight kept");
        vf_eq(a.GetTime(), t, "time kept");
        vf_eq(a.GetCharge(), 0, "photons carry no charge");
    } else {
        Photon a(x, p, w, t, false);
        kinematics(&a, 0, p, L, "photon");
        vf_eq(a.GetWeight(), w, "weight kept");
        vf_eq(a.GetTime(), t, "time kept");
        vf_eq(a.GetCharge(), 0, "photons carry no charge");
        vf_assert(a.GetName() == "Photon" && a.GetType() == "Photon", "photon name");
        eq3(a.GetPosition(), x, 1e-9, "position kept");
    }
    vf_reach("photon");
}
extern "C" void q_rest()
{
    double m = vf_pos("mass");
    Lepton a(m, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    vf_eqs(a.GetEnergy(), m, 1, "energy at rest is the mass");
    vf_eqs(a.GetGamma(), 1, 1, "gamma at rest is 1");
    vf_eqs(a.GetBeta(), 0, 1, "beta at rest is 0");
    vf_eqs(a.GetWeight(), 1, 1, "default weight is one");
    vf_eqs(a.GetTime(), 0, 1, "default time is zero");
    vf_assert(!a.GetTracking(), "no tracking by default");
    vf_reach("rest");
}
extern "C" void q_depth()
{
    double pz = vf_pos("p");
    int kind = vf_choice("kind", 3);
    Particle *a = mkpart(kind, ThreeVector(0, 0, 0), ThreeVector(0, 0, pz));
    double tau = a->GetOpticalDepth();
    vf_le(0, tau, "optical depth starts non-negative");
    double e = __builtin_exp(-tau), r = (e - last_u) * (e - 1 + last_u);
    vf_eqs(r, 0, 1, "optical depth is exponentially distributed with mean one");
    double d1 = vf_real("d1"), d2 = vf_real("d2");
    a->UpdateOpticalDepth(d1);
    vf_eqs(a->GetOpticalDepth(), tau - d1, 1, "optical depth falls by what is subtracted");
    a->UpdateOpticalDepth(d2);
    vf_eqs(a->GetOpticalDepth(), tau - d1 - d2, 1, "optical depth falls by what is subtracted");
    a->InitOpticalDepth();
    e = __builtin_exp(-a->GetOpticalDepth());
    vf_le(0, a->GetOpticalDepth(), "a fresh optical depth is non-negative");
    vf_eqs((e - last_u) * (e - 1 + last_u), 0, 1, "a fresh optical depth is exponentially distributed");
    delete a;
    vf_reach("depth");
}
extern "C" void q_history()
{
    double L, w = vf_pos("w"), t = vf_real("t");
    int kind = vf_choice("kind", 3), track = vf_choice("track", 2), n = vf_choice("n", vf_tier() ? 5 : 4), rest = kind < 2 ? vf_choice("rest", 3) : 0, dead = vf_choice("dead", 2);
    ThreeVector x0 = rvec("x"), p0 = rmom("p", &L);
    Particle *a = mkpart(kind, x0, p0, w, t, track);
    vf_assert(a->GetTracking() == (track != 0), "tracking flag kept");
    vf_assert(a->GetPosHist().size() == 0 || (track && a->GetPosHist().size() == 1), "empty history at birth");
    size_t h0 = a->GetPosHist().size();
    ThreeVector x[5], p[5];
    double T[5], G[5];
    for (int i = 0; i < n; i++) {
        double dt = vf_real("dt"), z = vf_pos("pz");
        x[i] = rvec("x");
        p[i] = ThreeVector(0, i == 1 ? -0.75 * z : 0, z);
        if (rest && i == rest) p[i] = ThreeVector(0, 0, 0);
        if (dead && i == 1) a->Kill();
        a->UpdateTime(dt);
        t += dt;
        a->UpdateTrack(x[i], p[i]);
        T[i] = t;
        double l2 = sq(p[i]);
        G[i] = kind == 2 ? (i == 1 ? 1.25 : 1) * z : __builtin_sqrt(1 + l2);
        vf_eqs(a->GetTime(), t, 1, "time advances by the step");
        eq3(a->GetPosition(), x[i], 1e-9, "position is the updated one");
        eq3(a->GetMomentum(), p[i], 1e-9, "momentum is the updated one");
    }
    size_t want = track ? h0 + n : 0;
    vf_assert(a->GetPosHist().size() == want && a->GetMomHist().size() == want && a->GetTimeHist().size() == want && a->GetGammaHist().size() == want,
              "one sample per update in every history, none without tracking");
    if (track) for (int i = 0; i < n; i++) {
        eq3(a->GetPosHist()[h0 + i], x[i], 1e-9, "history holds the positions in order");
        eq3(a->GetMomHist()[h0 + i], p[i], 1e-9, "history holds the momenta in order");
        vf_eqs(a->GetTimeHist()[h0 + i], T[i], 1, "history holds the times in order");
        vf_eqs(a->GetGammaHist()[h0 + i], G[i], 1, "history holds the gammas in order");
    }
    vf_eq(a->GetWeight(), w, "weight kept");
    vf_assert(a->IsAlive() == !(dead && n > 1), "still alive");
    delete a;
    vf_reach("history");
}
// settings that are left out: weight one, time zero, no history
extern "C" void q_defaults()
{
    double m = vf_pos("mass"), k = vf_pos("kinetic"), L;
    int how = vf_choice("how", 4);
    ThreeVector x = rvec("x"), p = rmom("p", &L), y = rvec("y");
    Particle *a;
    if (how == 0) a = new Lepton(m, -1, x, p);
    else if (how == 1) a = new Lepton(m, 1, m + k, x, p);
    else if (how == 2) a = new Photon(x, p);
    else a = new Photon(k, x, p);
    vf_eq(a->GetWeight(), 1, "the default weight is one");
    vf_eq(a->GetTime(), 0, "the default time is zero");
    vf_assert(a->IsAlive(), "born alive");
    a->UpdateTrack(y, p);
    eq3(a->GetPosition(), y, 1e-9, "position follows the update");
    vf_assert(a->GetPosHist().size() == 0 && a->GetMomHist().size() == 0 && a->GetTimeHist().size() == 0 && a->GetGammaHist().size() == 0, "nothing is recorded unless asked for");
    delete a;
    vf_reach("defaults");
}
// a second particle, at another address or at that of one that is gone, and the same one in another state: nothing of the first is remembered
#include <new>
static void ask(const Particle *p, int n) { for (int i = 0; i < 4; i++) if (n == 4 || n == i) { if (i == 0) p->GetEnergy(); if (i == 1) p->GetGamma(); if (i == 2) p->GetBeta(); if (i == 3) p->GetDirection(); } }
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(Lepton) > sizeof(Photon) ? sizeof(Lepton) : sizeof(Photon)];
    int who = vf_choice("particle", 3), kind = vf_choice("kind", 2), kind0 = who ? vf_choice("earlier kind", 2) : kind, first = vf_choice("asked", 5);
    double m = vf_pos("mass"), m0 = m, L, L0;
    if (who) m0 = vf_pos("mass0");
    ThreeVector x(0, 0, 0), p0 = rmom("p0", &L0), p = rmom("p", &L);
    Particle *a, *b;
    if (kind0) a = who == 1 ? new Photon(x, p0, 1, 0, false) : new (room) Photon(x, p0, 1, 0, false);
    else a = who == 1 ? new Lepton(m0, -1, x, p0, 1, 0, false) : new (room) Lepton(m0, -1, x, p0, 1, 0, false);
    ask(a, first);
    if (who == 0) { a->UpdateTrack(x, p); b = a; }
    else {
        if (who == 2) a->~Particle();
        if (kind) b = new (room) Photon(x, p, 1, 0, false);
        else b = new (room) Lepton(m, -1, x, p, 1, 0, false);
    }
    int order = vf_choice("order", 2);
    if (order) ask(b, 3);
    kinematics(b, kind ? 0 : m, p, L, "again");
    b->~Particle();
    if (who == 1) delete a;
    vf_reach("again");
}
// dead particles keep their books too
extern "C" void q_dead_depth()
{
    double pz = vf_pos("p"), d = vf_real("d");
    Particle *a = mkpart(vf_choice("kind", 3), ThreeVector(0, 0, 0), ThreeVector(0, 0, pz));
    double tau = a->GetOpticalDepth();
    a->Kill();
    a->UpdateOpticalDepth(d);
    vf_eqs(a->GetOpticalDepth(), tau - d, 1, "optical depth falls by what is subtracted");
    vf_assert(!a->IsAlive(), "the dead stay dead");
    delete a;
    vf_reach("dead");
}
// histories as long as in use
extern "C" void q_large()
{
    static const int N[] = {9, 17, 65, 130, 300};
    int n = N[vf_choice("n", 5)], kind = vf_choice("kind", 3);
    double dt = vf_real("dt"), y = vf_real("y");
    Particle *a = mkpart(kind, ThreeVector(0, y, 0), ThreeVector(0, 0, 0.75), 1, 0, true);
    size_t h0 = a->GetPosHist().size();
    for (int i = 1; i <= n; i++) {
        a->UpdateTime(dt);
        a->UpdateTrack(ThreeVector(i, y, 0), ThreeVector(0, 0, i % 2 ? 1.875 : 0.75));
    }
    vf_assert(a->GetPosHist().size() == h0 + n && a->GetMomHist().size() == h0 + n && a->GetTimeHist().size() == h0 + n && a->GetGammaHist().size() == h0 + n,
              "one sample per update in every history, none without tracking");
    for (int i = 1; i <= n; i++) {
        double p = i % 2 ? 1.875 : 0.75;
        eq3(a->GetPosHist()[h0 + i - 1], ThreeVector(i, y, 0), 1, "history holds the positions in order");
        eq3(a->GetMomHist()[h0 + i - 1], ThreeVector(0, 0, p), 1, "history holds the momenta in order");
        vf_eqs(a->GetTimeHist()[h0 + i - 1], i * dt, 1, "history holds the times in order");
        vf_eqs(a->GetGammaHist()[h0 + i - 1], kind == 2 ? p : i % 2 ? 2.125 : 1.25, 1, "history holds the gammas in order");
    }
    delete a;
    vf_reach("large");
}
