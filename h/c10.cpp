#include "physics.h"
#include "tables.h"
#include "NonLinearBreitWheeler.hh"

// one arbitrary variate shared by every draw
static double U;
static int NoDraw;      // histories with a further draw are outside the case
extern "C" double vf_rng_u01(unsigned long, unsigned long)
{
    if (NoDraw) vf_assume(0);
    return U;
}
struct Setup {
    double E, e, chi, w, t, dt, tau;
    ThreeVector x;
    ConstField f;
    Photon *part;
    Setup(bool inTable)
    {
        NoDraw = 0;
        double k = vf_nonneg("E-2");
        E = 2 + k;
        e = vf_pos("field");
        chi = 0.5 * E * e;
        if (inTable) { vf_assume_lt(1e-3, chi); vf_assume_lt(chi, 1); }
        x = rvec("x");
        w = vf_pos("weight"); t = vf_real("time"); dt = vf_pos("dt");
        f = ConstField(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
        part = new Photon(x, ThreeVector(0, 0, E), w, t, false);
        tau = part->GetOpticalDepth();
    }
    ~Setup() { delete part; }
};
extern "C" void q_rate()
{
    U = vf_unit("U0");
    BwTables T(vf_tier() ? 3 : 2, 2);
    T.write();
    Setup S(false);
    double drop = T.dtau(S.dt, S.chi, S.E);
    vf_assume_lt(drop, S.tau);
    NonLinearBreitWheeler proc(&S.f, S.dt, false);
    ParticleList list("l", 4);
    Snap before(S.part);
    proc.Interact(S.part, &list);
    vf_eqs(S.part->GetOpticalDepth(), S.tau - drop, 1, "optical depth falls by rate times step");
    before.same(S.part, "without decay the photon is unchanged", false);
    vf_assert(list.GetNPart() == 0, "no pair while the optical depth is positive");
    vf_eqs(S.f.t, S.t, 1, "field sampled at the photon's time");
    eq3(S.f.x, S.x, 1, "field sampled at the photon's position");
    vf_reach("rate");
}
// chi from every direction and every electric and magnetic field
extern "C" void q_chi()
{
    NoDraw = 0;
    double L, dt = vf_pos("dt");
    U = vf_unit("U0");
    BwTables T(2, 2);
    double h = vf_real("h");
    T.ty[0] = T.ty[1] = h;
    T.write();
    ThreeVector p = rmom("p", &L), E = rvec("E"), B = rvec("B");
    vf_assume_le(2, L);
    ConstField f(E, B);
    Photon part(ThreeVector(0, 0, 0), p, 1, 0, false);
    double tau = part.GetOpticalDepth();
    ThreeVector n(p[0] / L, p[1] / L, p[2] / L);
    double en = n[0] * E[0] + n[1] * E[1] + n[2] * E[2];
    ThreeVector v(E[0] - en * n[0] + n[1] * B[2] - n[2] * B[1], E[1] - en * n[1] + n[2] * B[0] - n[0] * B[2],
                  E[2] - en * n[2] + n[0] * B[1] - n[1] * B[0]);
    double chi2 = 0.25 * sq(v), k = dt * ALPHA * __builtin_pow(10., h);    // (chi/E)^2
    NonLinearBreitWheeler proc(&f, dt, false);
    ParticleList list("l", 4);
    NoDraw = 1;
    proc.Interact(&part, &list);
    double drop = tau - part.GetOpticalDepth();
    vf_eqs(drop * drop, k * k * chi2, 1, "rate is alpha chi T over energy of the local field");
    vf_le(0, drop, "optical depth never rises");
    vf_assert(list.GetNPart() == 0 && part.IsAlive(), "no pair while the optical depth is positive");
    vf_reach("chi");
}
static void lepton(const Setup &S, Particle *q, double energy, int track)
{
    ThreeVector m = q->GetMomentum();
    vf_eqs(m[0], 0, 1e-3, "pair moves along the photon's direction");
    vf_eqs(m[1], 0, 1e-3, "pair moves along the photon's direction");
    vf_le(0, m[2], "pair moves along the photon's direction");
    vf_eqs(m[2] * m[2] + 1, energy * energy, 1, "pair energies follow the tabulated split");
    eq3(q->GetPosition(), S.x, 1, "pair starts at the photon's position");
    vf_eqs(q->GetTime(), S.t, 1, "pair starts at the photon's time");
    vf_eqs(q->GetWeight(), S.w, 1, "pair has the photon's weight");
    vf_eqs(q->GetMass(), 1, 1, "pair consists of leptons");
    vf_assert(q->IsAlive(), "pair is alive");
    vf_assert(q->GetTracking() == (track != 0), "pair tracking as configured");
}
extern "C" void q_decay()
{
    U = vf_unit("U0");
    BwTables T(2, vf_tier() ? 3 : 2);
    T.write();
    Setup S(true);
    int track = vf_choice("track", 2);
    vf_assume_lt(S.tau, T.dtau(S.dt, S.chi, S.E));
    NonLinearBreitWheeler proc(&S.f, S.dt, track);
    ParticleList list("l", 4);
    double u1 = vf_unit("U1");
    T.generic(S.chi, u1);
    U = u1;
    proc.Interact(S.part, &list);
    vf_assert(!S.part->IsAlive(), "the photon is gone");
    vf_assert(list.GetNPart() == 2, "exactly two particles are created");
    Particle *a = list.GetParticle(0), *b = list.GetParticle(1);
    bool swap = b->GetName() == "Positron";
    Particle *e = swap ? a : b, *p = swap ? b : a;
    vf_assert(e->GetName() == "Electron" && p->GetName() == "Positron", "the pair is one electron and one positron");
    vf_eqs(e->GetCharge(), -1, 1, "electron charge");
    vf_eqs(p->GetCharge(), 1, 1, "positron charge");
    double ep = T.split(S.chi, u1) * S.E;
    // each has at least its rest energy
    if (ep < 1) ep = 1;
    if (ep > S.E - 1) ep = S.E - 1;
    lepton(S, p, ep, track);
    lepton(S, e, S.E - ep, track);
    vf_eqs(e->GetEnergy() + p->GetEnergy(), S.E, 1, "pair energies add up to the photon energy");
    vf_reach("decay");
}
extern "C" void q_never()
{
    U = vf_unit("U0");
    BwTables T;
    T.write();
    Setup S(true);
    NonLinearBreitWheeler proc(&S.f, S.dt, 0);
    ParticleList list("l", 4);
    int kind = vf_choice("kind", 3);
    Particle *q = S.part;
    if (kind != 2) q = mkpart(kind, S.x, ThreeVector(0, 0, S.E));
    else S.part->Kill();
    Snap before(q);
    proc.Interact(q, &list);
    before.same(q, "charged particles and dead photons are left alone");
    vf_assert(list.GetNPart() == 0, "charged particles and dead photons never decay");
    if (kind != 2) delete q;
    vf_reach("never");
}
// photons below the pair threshold live on
extern "C" void q_threshold()
{
    NoDraw = 0;
    U = vf_unit("U0");
    BwTables T;
    T.write();
    double en = vf_rangeo("E", 0, 2), e = vf_pos("field"), dt = vf_pos("dt");
    vf_assume_lt(1e-3, 0.5 * e * en);
    vf_assume_lt(0.5 * e * en, 1);
    ConstField f(ThreeVector(e, 0, 0), ThreeVector(0, 0, 0));
    Photon part(ThreeVector(0, 0, 0), ThreeVector(0, 0, en), 1, 0, false);
    NonLinearBreitWheeler proc(&f, dt, 0);
    ParticleList list("l", 4);
    proc.Interact(&part, &list);
    vf_assert(part.IsAlive(), "a photon without the rest energy of a pair lives on");
    vf_assert(list.GetNPart() == 0, "a photon without the rest energy of a pair does not decay");
    vf_reach("threshold");
}
// no field, no change
extern "C" void q_nofield()
{
    NoDraw = 0;
    U = vf_unit("U0");
    BwTables T;
    if (vf_choice("flat", 2)) T.ty[1] = T.ty[0];    // as in the shipped table
    else vf_assume_lt(T.ty[0], T.ty[1]);
    T.write();
    double en = vf_pos("E"), dt = vf_pos("dt"), L;
    int par = vf_choice("field", 4);
    // no field at all, along the motion, or a wave running with the photon
    double a = vf_real("a");
    ThreeVector E(0, 0, 0), B(0, 0, 0), p(0, 0, en);
    if (par == 1) E = ThreeVector(0, 0, a);
    if (par == 2) B = ThreeVector(0, 0, a);
    if (par == 3) { E = ThreeVector(a, 0, 0); B = ThreeVector(0, a, 0); }
    ConstField f(E, B);
    Photon part(ThreeVector(0, 0, 0), p, 1, 0, false);
    NonLinearBreitWheeler proc(&f, dt, 0);
    ParticleList list("l", 4);
    Snap before(&part);
    proc.Interact(&part, &list);
    before.same(&part, "without field nothing happens");
    vf_assert(list.GetNPart() == 0, "without field no pair");
    vf_reach("nofield");
}
// an earlier photon, alive or decayed, here or at the same address, or the same photon elsewhere, with the same or another process: nothing of it is remembered
#include <new>
static void again(bool decay)
{
    alignas(16) static char room[sizeof(Photon)];
    NoDraw = 0;
    U = vf_unit("U0");
    BwTables T(2, 2);
    T.write();
    int who = vf_choice("photon", 3), other = vf_choice("other process", 2), gone = who && vf_choice("decayed", 2);
    double E = 3, e = vf_pos("field"), chi = 0.5 * E * e, E1 = who ? 2 * E : E, e1 = vf_pos("field1"), dt = vf_pos("dt"), y = vf_real("x"), t = vf_real("time");
    vf_assume_lt(1e-3, chi);
    vf_assume_lt(chi, 1);
    vf_assume_lt(1e-3, 0.5 * E1 * e1);
    vf_assume_lt(0.5 * E1 * e1, 1);
    PatchField f(ThreeVector(e, 0, 0), ThreeVector(e1, 0, 0), y);
    ConstField g(ThreeVector(e1, 0, 0), ThreeVector(0, 0, 0));
    NonLinearBreitWheeler *P = new NonLinearBreitWheeler(&f, dt, false), *Q = P;
    if (other) Q = new NonLinearBreitWheeler(&g, 2 * dt, false);
    ThreeVector x0(y + 1, 2, 3), x(y, 2, 3);
    Photon *a = who == 1 ? new Photon(x0, ThreeVector(0, 0, E1), 1, t, false) : new (room) Photon(x0, ThreeVector(0, 0, E1), 1, t, false), *b = a;
    if (gone) spent(a);
    else vf_assume_lt(T.dtau(other ? 2 * dt : dt, 0.5 * E1 * e1, E1), a->GetOpticalDepth());
    ParticleList list("l", 8);
    U = vf_rangeo("U1", 0, 1);
    vf_assume_lt(U, T.d[0][1]);
    vf_assume_lt(U, T.d[1][1]);
    Q->Interact(a, &list);
    int before = list.GetNPart();
    if (who == 0) a->UpdateTrack(x, ThreeVector(0, 0, E));
    else {
        if (who == 2) a->~Photon();
        U = vf_unit("U3");
        b = new (room) Photon(x, ThreeVector(0, 0, E), 1, t, false);
    }
    if (decay) {
        spent(b);
        double u2 = vf_unit("U2");
        vf_assume_lt(u2, T.d[0][1]);
        vf_assume_lt(u2, T.d[1][1]);
        U = u2;
        P->Interact(b, &list);
        vf_assert(!b->IsAlive() && (int)list.GetNPart() == before + 2, "every spent optical depth makes a pair, whatever decayed before");
        Particle *q = list.GetParticle(before), *r = list.GetParticle(before + 1);
        if (r->GetName() == "Positron") q = r;
        double ep = T.split(chi, u2) * E, m = q->GetMomentum()[2];
        if (ep < 1) ep = 1;
        if (ep > E - 1) ep = E - 1;
        vf_eqs(m * m + 1, ep * ep, 1, "pair energies follow the tabulated split, whatever decayed before");
    } else {
        double tau = b->GetOpticalDepth(), drop = T.dtau(dt, chi, E);
        vf_assume_lt(drop, tau);
        P->Interact(b, &list);
        vf_eqs(b->GetOpticalDepth(), tau - drop, 1, "optical depth falls by rate times step, whatever decayed before");
        vf_assert((int)list.GetNPart() == before && b->IsAlive(), "no pair while the optical depth is positive, whatever decayed before");
    }
    b->~Photon();
    if (who == 1) delete a;
    if (other) delete Q;
    delete P;
    vf_reach(decay ? "decay" : "rate");
}
extern "C" void q_again_decay() { again(true); }
extern "C" void q_again_rate() { again(false); }
