#include "physics.h"
#include "tables.h"
#include "measure.h"
#include "StochasticEmission.hh"

// one arbitrary variate shared by every draw, changed by the harness between phases
static double U;
static int NDraw, NoDraw;      // histories with a further draw are outside the case
extern "C" double vf_rng_u01(unsigned long, unsigned long)
{
    if (NoDraw) vf_assume(0);
    NDraw++;
    return variate(U);
}

struct Setup {
    double s, p, gamma, beta, e, eta, tau, w, t, dt;
    ThreeVector x;
    ConstField f;
    Particle *part;
    // gamma, momentum and eta rational: p = (s^2-1)/2s, gamma = (s^2+1)/2s, field across the motion
    Setup(int kind, bool inTable)
    {
        double k = vf_pos("s");
        s = 1 + k;
        p = (s * s - 1) / (2 * s);
        gamma = (s * s + 1) / (2 * s);
        e = vf_pos("field");
        eta = gamma * e;
        if (inTable) { vf_assume_lt(1e-3, eta); vf_assume_lt(eta, 1); }
        x = rvec("x");
        w = vf_pos("weight"); t = vf_real("time"); dt = vf_pos("dt");
        f = ConstField(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
        part = mkpart(kind, x, ThreeVector(0, 0, p), w, t);
        tau = part->GetOpticalDepth();
    }
    ~Setup() { delete part; }
};
// the optical depth falls by rate times step; nothing else happens while it stays above zero
extern "C" void q_rate()
{
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T(vf_tier() ? 3 : 2, 2, 2);
    T.write();
    Setup S(vf_choice("kind", 2), false);
    vf_assume_lt(1e-11, S.eta);
    double drop = T.dtau(S.dt, S.eta, S.gamma), frac = vf_rangeo("frac", 0, 1);
    vf_assume_lt(drop, S.tau);
    StochasticEmission proc(&S.f, S.dt, frac, 0);
    ParticleList list("l", 4);
    Snap before(S.part);
    proc.Interact(S.part, &list);
    vf_eqs(S.part->GetOpticalDepth(), S.tau - drop, 1, "optical depth falls by rate times step");
    before.same(S.part, "without emission the particle is unchanged", false);
    vf_assert(list.GetNPart() == 0, "no photon while the optical depth is positive");
    vf_eqs(S.f.t, S.t, 1, "field sampled at the particle's time");
    eq3(S.f.x, S.x, 1, "field sampled at the particle's position");
    vf_reach("rate");
}
// rate for every direction, electric and magnetic field: eta is the field in the rest frame
extern "C" void q_eta()
{
    double L, s = 0.7193, dt = vf_pos("dt");       // the value used below the table too
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T(2, 2, 2);
    T.hy[0] = T.hy[1] = s;
    T.write();
    ThreeVector p = rmom("p", &L), E = rvec("E"), B = rvec("B");
    ConstField f(E, B);
    Particle *part = mkpart(0, ThreeVector(0, 0, 0), p);
    double tau = part->GetOpticalDepth(), g2 = 1 + L * L;
    ThreeVector n(p[0] / L, p[1] / L, p[2] / L);
    double en = n[0] * E[0] + n[1] * E[1] + n[2] * E[2], gam = __builtin_sqrt(g2), be = L / gam;
    ThreeVector v(E[0] - en * n[0] + be * (n[1] * B[2] - n[2] * B[1]), E[1] - en * n[1] + be * (n[2] * B[0] - n[0] * B[2]),
                  E[2] - en * n[2] + be * (n[0] * B[1] - n[1] * B[0]));
    // (drop/dt)^2 = k^2 (eta/gamma)^2
    double eg2 = sq(v) + en * en / g2, k = SQRT3 * ALPHA * __builtin_pow(10., s) / (2 * PI_);
    StochasticEmission proc(&f, dt, 1, 0);
    ParticleList list("l", 4);
    Snap before(part);
    NoDraw = 1;
    proc.Interact(part, &list);
    double drop = tau - part->GetOpticalDepth();
    vf_eqs(drop * drop, k * k * dt * dt * eg2, 1, "rate is proportional to eta/gamma of the local field");
    vf_le(0, drop, "optical depth never rises");
    vf_assert(list.GetNPart() == 0, "no photon while the optical depth is positive");
    delete part;
    vf_reach("eta");
}
extern "C" void q_emit()
{
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T(2, vf_tier() ? 3 : 2, vf_tier() ? 3 : 2);
    T.write();
    Setup S(vf_choice("kind", 2), true);
    double drop = T.dtau(S.dt, S.eta, S.gamma), frac = vf_rangeo("frac", 0, 1), cut = vf_nonneg("cut");
    int track = vf_choice("track", 2), one = vf_choice("all photons", 2);
    vf_assume_lt(S.tau, drop);
    if (one) frac = 1;
    StochasticEmission proc(&S.f, S.dt, frac, cut, track);
    ParticleList list("l", 4);
    U = vf_unit("U1");
    T.generic(S.eta, U);
    double u1 = U, k = 2 * T.chi(S.eta, u1) * S.gamma / S.eta;
    NDraw = 0;
    proc.Interact(S.part, &list);
    ThreeVector q = S.part->GetMomentum();
    vf_eqs(q[0], 0, 1e-3, "recoil is antiparallel to the motion");
    vf_eqs(q[1], 0, 1e-3, "recoil is antiparallel to the motion");
    vf_eqs(q[2], S.p - k, 1, "recoil is the momentum of the drawn photon");
    eq3(S.part->GetPosition(), S.x, 1, "emission does not move the emitter");
    vf_eqs(S.part->GetTime(), S.t, 1, "emission does not change the emitter's time");
    vf_eqs(S.part->GetWeight(), S.w, 1, "emission does not change the emitter's weight");
    vf_assert(S.part->IsAlive(), "the emitter lives on");
    double e = __builtin_exp(-S.part->GetOpticalDepth());
    vf_eqs((e - u1) * (e - 1 + u1), 0, 1, "a fresh optical depth is drawn");
    vf_le(0, S.part->GetOpticalDepth(), "the fresh optical depth is not negative");
    int n = list.GetNPart();
    vf_assert(n <= 1, "at most one photon per emission");
    if (n) {
        Particle *g = list.GetParticle(0);
        vf_assert(g->GetName() == "Photon", "a photon is recorded");
        ThreeVector m = g->GetMomentum();
        vf_eqs(m[0], 0, 1e-3, "photon moves along the emitter's direction before recoil");
        vf_eqs(m[1], 0, 1e-3, "photon moves along the emitter's direction before recoil");
        vf_eqs(m[2], k, 1, "photon moves along the emitter's direction before recoil");
        eq3(g->GetPosition(), S.x, 1, "photon starts at the emitter's position");
        vf_eqs(g->GetTime(), S.t, 1, "photon starts at the emitter's time");
        vf_eqs(g->GetWeight() * frac, S.w, 1, "photon weight is the emitter's weight over the sampling fraction");
        vf_assert(g->IsAlive(), "photon is alive");
        vf_assert(g->GetTracking() == (track != 0), "photon tracking as configured");
        vf_le(cut, k, "only photons above the cut are recorded");
    }
    if (one) { if (k > cut) vf_assert(n == 1, "with sampling fraction one every photon above the cut is recorded"); }
    else if (k > cut) {
        vf_assume_ne(u1, frac);
        vf_assume_ne(u1, 1 - frac);
        vf_assert(NDraw >= 3, "energy, recording and the next optical depth come from different variates");
        vf_assert((n == 1) == (u1 < frac) || (n == 1) == (u1 > 1 - frac), "photons are recorded with probability equal to the sampling fraction");
    }
    vf_reach(n ? "recorded" : "not recorded");
}
extern "C" void q_never()
{
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T;
    T.write();
    int kind = vf_choice("kind", 3);
    Setup S(kind, true);
    if (kind != 2) S.part->Kill();
    StochasticEmission proc(&S.f, S.dt, 1, 0);
    ParticleList list("l", 4);
    Snap before(S.part);
    proc.Interact(S.part, &list);
    before.same(S.part, "photons and dead particles are left alone");
    vf_assert(list.GetNPart() == 0, "photons and dead particles never emit");
    vf_reach("never");
}
// no field, no emission
extern "C" void q_nofield()
{
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T;
    T.write();
    double pz = vf_pos("p"), dt = vf_pos("dt");
    ConstField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    Lepton part(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, pz));
    StochasticEmission proc(&f, dt, 1, 0);
    ParticleList list("l", 4);
    Snap before(&part);
    proc.Interact(&part, &list);
    before.same(&part, "without field nothing happens");
    vf_assert(list.GetNPart() == 0, "without field nothing is emitted");
    vf_reach("nofield");
}
// with sampling fraction 1/2 half of the (independent) variates lead to a photon
extern "C" void q_half()
{
    NoDraw = 0;
    U = 0.5;
    EmTables T(2, 2, 2);
    for (int i = 0; i < 2; i++) { T.hy[i] = 0.5; T.d[i][1] = 1; }
    T.write();
    double p = 100, e = 1e-4, cut = vf_choice("cut", 2) ? 1e-12 : 0;
    int track = vf_choice("track", 2), kind = vf_choice("kind", 2);
    ConstField f(ThreeVector(0, e, 0), ThreeVector(0, 0, 0));
    StochasticEmission proc(&f, 1e-3, 0.5, cut, track);
    int n = measure([&]() {
        Particle *part = mkpart(kind, ThreeVector(0, 0, 0), ThreeVector(p, 0, 0), 1, 0);
        part->UpdateOpticalDepth(part->GetOpticalDepth());
        ParticleList list("l", 4);
        Measuring = 1;
        proc.Interact(part, &list);
        Measuring = 0;
        delete part;
        return list.GetNPart() == 1;
    });
    vf_assert(n == 1 << (NVAR - 1), "photons are recorded with probability equal to the sampling fraction");
    vf_reach("half");
}
// an earlier emission of the same particle elsewhere, of another one or of one at the same address, with the same or another process: nothing of it is remembered
#include <new>
static void again(bool emit)
{
    alignas(16) static char room[sizeof(Lepton)];
    NoDraw = 0;
    U = vf_unit("U0");
    EmTables T(2, 2, 2);
    T.write();
    int who = vf_choice("particle", 3), other = vf_choice("other process", 2), kind = who == 1;
    double s = 2, p = (s * s - 1) / (2 * s), gamma = (s * s + 1) / (2 * s), e = vf_pos("field"), eta = gamma * e, p1 = p, e1 = vf_pos("field1"), dt = vf_pos("dt"), dt1 = dt, y = vf_real("x"), t = vf_real("time");
    vf_assume_lt(1e-3, eta);
    vf_assume_lt(eta, 1);
    if (who) p1 = 2 * p;
    vf_assume_lt(1e-3, e1 * gamma);
    vf_assume_lt(e1 * (2 * gamma), 1);
    if (other) dt1 = 2 * dt;
    PatchField f(ThreeVector(e, 0, 0), ThreeVector(e1, 0, 0), y);
    ConstField g(ThreeVector(e1, 0, 0), ThreeVector(0, 0, 0));
    StochasticEmission *P = new StochasticEmission(&f, dt, 1, 0), *Q = P;
    if (other) Q = new StochasticEmission(&g, dt1, 1, 0);
    ThreeVector x0(y + 1, 2, 3), x(y, 2, 3);
    Lepton *a = who == 1 ? new Lepton(1, -1, x0, ThreeVector(0, 0, p1), 1, t, false) : new (room) Lepton(1, who ? -1 : kind ? 1 : -1, x0, ThreeVector(0, 0, p1), 1, t, false), *b = a;
    spent(a);
    ParticleList list("l", 4);
    U = vf_rangeo("U1", 0, 1);
    vf_assume_lt(U, T.d[0][1]);
    vf_assume_lt(U, T.d[1][1]);
    Q->Interact(a, &list);
    int before = list.GetNPart();
    if (who == 0) a->UpdateTrack(x, ThreeVector(0, 0, p));
    else {
        if (who == 2) a->~Lepton();
        b = new (room) Lepton(1, kind ? 1 : -1, x, ThreeVector(0, 0, p), 1, t, false);
    }
    if (emit) {
        spent(b);
        double u2 = vf_unit("U2");
        U = u2;
        double want = 2 * T.chi(eta, u2) * gamma / eta;
        P->Interact(b, &list);
        vf_assert((int)list.GetNPart() == before + 1, "every spent optical depth emits, whatever was emitted before");
        vf_eqs(list.GetParticle(before)->GetMomentum()[2], want, 1, "photon energy from the local field and a fresh variate, whatever was emitted before");
        vf_eqs(b->GetMomentum()[2], p - want, 1, "recoil of this emission, whatever was emitted before");
    } else {
        double tau = b->GetOpticalDepth(), drop = T.dtau(dt, eta, gamma);
        vf_assume_lt(drop, tau);
        P->Interact(b, &list);
        vf_eqs(b->GetOpticalDepth(), tau - drop, 1, "optical depth falls by rate times step, whatever was emitted before");
        vf_assert((int)list.GetNPart() == before, "no photon while the optical depth is positive, whatever was emitted before");
    }
    b->~Lepton();
    if (who == 1) delete a;
    if (other) delete Q;
    delete P;
    vf_reach(emit ? "emission" : "rate");
}
extern "C" void q_again_emit() { again(true); }
extern "C" void q_again_rate() { again(false); }
