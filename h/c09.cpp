#include "physics.h"
#include "tables.h"
#include "measure.h"
#include "ContinuousEmission.hh"

// one arbitrary variate shared by every draw
static double U;
static int NDraw;
extern "C" double vf_rng_u01(unsigned long, unsigned long) { NDraw++; return variate(U); }

struct Setup {
    double s, p, gamma, e, eta, w, t, dt;
    ThreeVector x;
    ConstField f;
    Particle *part;
    Setup(int kind, bool inTable, double L = 1)
    {
        double k = vf_pos("s");
        s = 1 + k;
        p = (s * s - 1) / (2 * s);
        gamma = (s * s + 1) / (2 * s);
        e = vf_pos("field");
        eta = gamma * e;
        if (inTable) { vf_assume_lt(1e-3, eta); vf_assume_lt(eta, L); }
        x = rvec("x");
        w = vf_pos("weight"); t = vf_real("time"); dt = vf_pos("dt");
        f = ConstField(ThreeVector(0, e, 0), ThreeVector(0, 0, 0));
        part = mkpart(kind, x, ThreeVector(p, 0, 0), w, t);
    }
    ~Setup() { delete part; }
};
static void photon(const Setup &S, Particle *g, double k, double weight, int track)
{
    vf_assert(g->GetName() == "Photon", "a photon is emitted");
    ThreeVector m = g->GetMomentum();
    vf_eqs(m[0], k, 1, "photon energy and direction");
    vf_eqs(m[1], 0, 1e-3, "photon moves along the emitter's direction");
    vf_eqs(m[2], 0, 1e-3, "photon moves along the emitter's direction");
    eq3(g->GetPosition(), S.x, 1, "photon starts at the emitter's position");
    vf_eqs(g->GetTime(), S.t, 1, "photon starts at the emitter's time");
    vf_eqs(g->GetWeight(), weight, 1, "photon weight is the expected number of photons over the sampling fraction");
    vf_assert(g->IsAlive(), "photon is alive");
    vf_assert(g->GetTracking() == (track != 0), "photon tracking as configured");
}
// recorded in a fraction frac of the steps
static bool sampled(double u, double frac, int n)
{
    return (n == 1) == (u < frac) || (n == 1) == (u > 1 - frac);
}
extern "C" void q_semiclassical()
{
    U = vf_unit("U0");
    EmTables T(2, vf_tier() ? 3 : 2, vf_tier() ? 3 : 2);
    T.write();
    Setup S(vf_choice("kind", 2), true);
    double cut = vf_nonneg("cut"), frac = 1;
    int track = vf_choice("track", 2), one = vf_choice("every step", 2);
    if (!one) frac = vf_rangeo("frac", 0, 1);
    ContinuousEmission proc(&S.f, S.dt, false, frac, cut, track);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1"), k = 2 * T.chi(S.eta, u1) * S.gamma / S.eta, w = S.w * T.dtau(S.dt, S.eta, S.gamma) / frac;
    T.generic(S.eta, u1);
    U = u1;
    NDraw = 0;
    Snap before(S.part);
    proc.Interact(S.part, &list);
    before.same(S.part, "continuous emission leaves the emitter as it is");
    int n = list.GetNPart();
    vf_assert(n <= 1, "at most one photon per step");
    if (n) {
        photon(S, list.GetParticle(0), k, w, track);
        vf_eqs(S.f.t, S.t, 1, "field sampled at the particle's time");
        eq3(S.f.x, S.x, 1, "field sampled at the particle's position");
        vf_le(cut, k, "only photons above the cut are recorded");
    }
    if (k > cut) {
        if (one) vf_assert(n == 1, "with sampling fraction one every step emits");
        else {
            vf_assume_ne(u1, frac);
            vf_assume_ne(u1, 1 - frac);
            vf_assert(sampled(u1, frac, n), "photons are recorded with probability equal to the sampling fraction");
            if (n) vf_assert(NDraw >= 2, "energy and recording come from different variates");
        }
    }
    vf_reach(n ? "recorded" : "not recorded");
}
// classical mode: the table's h is replaced by its classical limit, drawn energy parameter scales with eta squared
extern "C" void q_classical()
{
    U = vf_unit("U0");
    EmTables T(2, 2, 2);
    T.write();
    Setup S(vf_choice("kind", 2), true, 100);
    int track = vf_choice("track", 2);
    double frac = vf_rangeo("frac", 0, 1);
    if (vf_choice("every step", 2)) frac = 1;
    ContinuousEmission proc(&S.f, S.dt, true, frac, 0, track);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1");
    U = u1;
    Snap before(S.part);
    proc.Interact(S.part, &list);
    before.same(S.part, "continuous emission leaves the emitter as it is");
    int n = list.GetNPart();
    vf_assert(n <= 1, "at most one photon per step");
    vf_assume_ne(u1, frac);
    vf_assume_ne(u1, 1 - frac);
    vf_assert(sampled(u1, frac, n), "photons are recorded with probability equal to the sampling fraction");
    if (n) {
        Particle *g = list.GetParticle(0);
        double w = S.dt * SQRT3 * ALPHA * S.eta * __builtin_pow(10., 0.7193) / (2 * PI_ * S.gamma) * S.w / frac;
        photon(S, g, g->GetEnergy(), w, track);
        // the same variate in a field m times as strong: photon energy m times as large
        double m = vf_pos("m"), en = g->GetEnergy();
        ConstField f2(ThreeVector(0, S.e * m, 0), ThreeVector(0, 0, 0));
        ContinuousEmission again(&f2, S.dt, true, frac, 0, track);
        ParticleList list2("l", 4);
        again.Interact(S.part, &list2);
        vf_assert(list2.GetNPart() == 1, "the sampling does not depend on the field");
        vf_eqs(list2.GetParticle(0)->GetEnergy(), m * en, 1, "classical photon energies are proportional to eta");
    }
    vf_reach(n ? "recorded" : "not recorded");
}
extern "C" void q_never()
{
    U = vf_unit("U0");
    EmTables T;
    T.write();
    int kind = vf_choice("kind", 3), classical = vf_choice("classical", 2);
    Setup S(kind, true);
    if (kind != 2) S.part->Kill();
    ContinuousEmission proc(&S.f, S.dt, classical, 1, 0);
    ParticleList list("l", 4);
    Snap before(S.part);
    proc.Interact(S.part, &list);
    before.same(S.part, "photons and dead particles are left alone");
    vf_assert(list.GetNPart() == 0, "photons and dead particles never emit");
    vf_reach("never");
}
// tables that obey the classical law (chi = c(u) eta^2 in every row): both modes draw the energy that the law gives
extern "C" void q_classical_scale()
{
    U = vf_unit("U0");
    double g = vf_rangeo("gap", 0, 1);
    EmTables T(2, 2, 2);
    double b = 8 - 0.3010299956639812;
    for (int i = 0; i < 2; i++) {
        T.cmin[i] = __builtin_pow(10., -8 + 2 * T.eaxis(i));
        T.d[i][1] = g * (b - T.eaxis(i)) / (b - T.eaxis(0));
    }
    T.write();
    int classical = vf_choice("classical", 2);
    Setup S(vf_choice("kind", 2), true);
    ContinuousEmission proc(&S.f, S.dt, classical, 1, 0);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1");
    vf_assume_lt(u1, T.d[1][1]);
    U = u1;
    proc.Interact(S.part, &list);
    vf_assert(list.GetNPart() == 1, "with sampling fraction one every step emits");
    double c = __builtin_pow(10., -8 + u1 * (b - T.eaxis(0)) / g);
    vf_eqs(list.GetParticle(0)->GetEnergy(), 2 * c * S.eta * S.gamma, 1e-6, "photon energy where the table follows the classical law");
    vf_reach(classical ? "classical" : "quantum");
}
// no field, no emission
extern "C" void q_nofield()
{
    U = vf_unit("U0");
    EmTables T;
    T.write();
    double pz = vf_pos("p"), dt = vf_pos("dt"), cut = vf_choice("cut", 2) ? vf_pos("cut") : 0;
    ConstField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    Lepton part(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, pz));
    ContinuousEmission proc(&f, dt, vf_choice("classical", 2), 1, cut);
    ParticleList list("l", 4);
    Snap before(&part);
    proc.Interact(&part, &list);
    before.same(&part, "without field nothing happens");
    vf_assert(list.GetNPart() == 0, "without field nothing is emitted");
    vf_reach("nofield");
}
// with sampling fraction 1/2 half of the (independent) variates lead to a photon
extern "C" void q_half()
{
    int classical = vf_choice("classical", 2);
    U = 0.5;
    EmTables T(2, 2, 2);
    for (int i = 0; i < 2; i++) { T.hy[i] = 0.5; T.d[i][1] = 1; }
    T.write();
    double p = 100, e = 1e-4, cut = vf_choice("cut", 2) ? 1e-12 : 0;
    int track = vf_choice("track", 2), kind = vf_choice("kind", 2);
    ConstField f(ThreeVector(0, e, 0), ThreeVector(0, 0, 0));
    ContinuousEmission proc(&f, 1e-3, classical, 0.5, cut, track);
    int n = measure([&]() {
        Particle *part = mkpart(kind, ThreeVector(0, 0, 0), ThreeVector(p, 0, 0), 1, 0);
        
        ParticleList list("l", 4);
        Measuring = 1;
        proc.Interact(part, &list);
        Measuring = 0;
        delete part;
        return list.GetNPart() == 1;
    });
    vf_assert(n == 1 << (NVAR - 1), "photons are recorded with probability equal to the sampling fraction");
    vf_reach("half");
}
// an earlier emission of the same particle elsewhere, of another one or of one at the same address, with the same or another process: nothing of it is remembered
#include <new>
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(Lepton)];
    U = vf_unit("U0");
    EmTables T(2, 2, 2);
    T.write();
    int who = vf_choice("particle", 3), other = vf_choice("other process", 3), kind = who == 1;
    double s = 2, p = (s * s - 1) / (2 * s), gamma = (s * s + 1) / (2 * s), e = vf_pos("field"), eta = gamma * e, p1 = p, e1 = vf_pos("field1"), dt = vf_pos("dt"), y = vf_real("x"), t = vf_real("time");
    vf_assume_lt(1e-3, eta);
    vf_assume_lt(eta, 1);
    if (who) p1 = 2 * p;
    vf_assume_lt(1e-3, e1 * gamma);
    vf_assume_lt(e1 * (2 * gamma), 1);
    PatchField f(ThreeVector(e, 0, 0), ThreeVector(e1, 0, 0), y);
    ConstField g(ThreeVector(e1, 0, 0), ThreeVector(0, 0, 0));
    ContinuousEmission *P = new ContinuousEmission(&f, dt, false, 1, 0), *Q = P;
    if (other) Q = new ContinuousEmission(&g, 2 * dt, other == 2, 1, 0);
    ThreeVector x0(y + 1, 2, 3), x(y, 2, 3);
    Lepton *a = who == 1 ? new Lepton(1, -1, x0, ThreeVector(0, 0, p1), 1, t, false) : new (room) Lepton(1, who ? -1 : kind ? 1 : -1, x0, ThreeVector(0, 0, p1), 1, t, false), *b = a;
    ParticleList list("l", 4);
    U = vf_rangeo("U1", 0, 1);
    vf_assume_lt(U, T.d[0][1]);
    vf_assume_lt(U, T.d[1][1]);
    Q->Interact(a, &list);
    int before = list.GetNPart();
    if (who == 0) a->UpdateTrack(x, ThreeVector(0, 0, p));
    else {
        if (who == 2) a->~Lepton();
        b = new (room) Lepton(1, kind ? 1 : -1, x, ThreeVector(0, 0, p), 1, t, false);
    }
    double u2 = vf_unit("U2"), want = 2 * T.chi(eta, u2) * gamma / eta;
    U = u2;
    P->Interact(b, &list);
    vf_assert((int)list.GetNPart() == before + 1, "with sampling fraction one every step emits, whatever was emitted before");
    vf_eqs(list.GetParticle(before)->GetMomentum()[2], want, 1, "photon energy from the local field and a fresh variate, whatever was emitted before");
    vf_eqs(list.GetParticle(before)->GetWeight(), T.dtau(dt, eta, gamma), 1, "photon weight from the local field, whatever was emitted before");
    b->~Lepton();
    if (who == 1) delete a;
    if (other) delete Q;
    delete P;
    vf_reach("again");
}
