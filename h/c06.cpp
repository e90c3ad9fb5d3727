#include "physics.h"
#include <new>
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"

static ThreeVector vel(double m, const ThreeVector &p) { return p * (1 / (m * __builtin_sqrt(1 + sq(p) / (m * m)))); }
static ThreeVector cross(const ThreeVector &a, const ThreeVector &b)
{
    return ThreeVector(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static void rhs(const EMField &f, double m, double q, double t, const ThreeVector &x, const ThreeVector &p, ThreeVector &dx, ThreeVector &dp)
{
    ThreeVector E, B;
    f.GetField(t, x, E, B);
    dx = vel(m, p);
    dp = q * (E + cross(dx, B));
}
static void charged(bool track)
{
    UFField f;
    double dt = vf_real("dt"), m = 1, q = vf_choice("charge", 2) ? 1 : -1, t0 = vf_real("time");
    ThreeVector x0 = rvec("x"), p0 = rvec("p");
    Lepton part(m, q, x0, p0, 1, t0, track);
    ThreeVector a1, a2, a3, a4, b1, b2, b3, b4;
    rhs(f, m, q, t0, x0, p0, a1, b1);
    rhs(f, m, q, t0 + dt / 2, x0 + (dt / 2) * a1, p0 + (dt / 2) * b1, a2, b2);
    rhs(f, m, q, t0 + dt / 2, x0 + (dt / 2) * a2, p0 + (dt / 2) * b2, a3, b3);
    rhs(f, m, q, t0 + dt, x0 + dt * a3, p0 + dt * b3, a4, b4);
    Snap before(&part);
    LorentzPusher pusher(&f, dt);
    pusher.PushParticle(&part);
    eq3(part.GetPosition(), x0 + (dt / 6) * (a1 + 2 * a2 + 2 * a3 + a4), 1e-6, "position follows the fourth-order Runge-Kutta step");
    eq3(part.GetMomentum(), p0 + (dt / 6) * (b1 + 2 * b2 + 2 * b3 + b4), 1e-6, "momentum follows the fourth-order Runge-Kutta step");
    vf_eqs(part.GetTime(), t0 + dt, 1e-6, "clock advances by one time step");
    vf_assert(part.IsAlive(), "still alive");
    vf_eq(part.GetWeight(), before.w, "weight unchanged");
    vf_eq(part.GetOpticalDepth(), before.tau, "optical depth unchanged");
    vf_assert(part.GetPosHist().size() == (track ? 1u : 0u), "one history sample per push when tracking");
    if (track) {
        eq3(part.GetPosHist()[0], part.GetPosition(), 1e-9, "history position is the position after the push");
        eq3(part.GetMomHist()[0], part.GetMomentum(), 1e-9, "history momentum is the momentum after the push");
        vf_eq(part.GetTimeHist()[0], part.GetTime(), "history time is the time after the push");
    }
    vf_reach("charged");
}
extern "C" void q_charged() { charged(false); }
extern "C" void q_charged_tracked() { charged(true); }

template <class P> static ParticlePusher *mk(EMField *f, double dt) { return new P(f, dt); }
static ParticlePusher *pusher(int k, EMField *f, double dt)
{
    return k == 0 ? mk<LorentzPusher>(f, dt) : k == 1 ? mk<LandauPusher>(f, dt) : mk<ModifiedLandauPusher>(f, dt);
}
extern "C" void q_photon()
{
    UFField f;
    double L, dt = vf_real("dt"), t0 = vf_real("time"), w = vf_pos("weight");
    bool track = vf_choice("track", 2);
    ThreeVector x0 = rvec("x"), p = rmom("p", &L);
    Photon part(x0, p, w, t0, track);
    Snap before(&part);
    ParticlePusher *P = pusher(vf_choice("pusher", 3), &f, dt);
    P->PushParticle(&part);
    eq3(part.GetPosition(), x0 + (dt / L) * p, 1e-6, "photon moves straight at the speed of light");
    eq3(part.GetMomentum(), p, 1e-9, "photon momentum unchanged");
    vf_eqs(part.GetTime(), t0 + dt, 1e-6, "clock advances by one time step");
    vf_eq(part.GetOpticalDepth(), before.tau, "optical depth unchanged");
    vf_eq(part.GetWeight(), w, "weight unchanged");
    vf_assert(part.IsAlive(), "still alive");
    if (track) {
        vf_assert(part.GetTimeHist().size() == 1, "one history sample per push when tracking");
        vf_eq(part.GetTimeHist()[0], part.GetTime(), "history time is the time after the push");
        eq3(part.GetPosHist()[0], part.GetPosition(), 1e-9, "history position is the position after the push");
    }
    delete P;
    vf_reach("photon");
}
extern "C" void q_dead()
{
    UFField f;
    double L;
    ThreeVector x = rvec("x"), p = rmom("p", &L);
    int kind = vf_choice("kind", 3), pk = vf_choice("pusher", 3);
    double w = vf_pos("weight"), t = vf_real("time"), dt = vf_real("dt");
    Particle *part = mkpart(kind, x, p, w, t, vf_choice("track", 2));
    part->Kill();
    Snap before(part);
    ParticlePusher *P = pusher(pk, &f, dt);
    P->PushParticle(part);
    before.same(part, "a dead particle is left unchanged");
    delete P;
    delete part;
    vf_reach("dead");
}
// a list push equals pushing every member once
extern "C" void q_list()
{
    UFField f;
    double dt = vf_real("dt");
    int n = vf_choice("n", vf_tier() ? 5 : 4);
    ParticlePusher *P = pusher(0, &f, dt);
    ParticleList list("l", n + 1);
    Particle *ref[5];
    for (int i = 0; i < n; i++) {
        double xi = vf_real("x"), pi = vf_pos("p");
        ThreeVector x(xi, i, 0), p(0, 0, pi);
        int kind = vf_choice("kind", 3), dead = vf_choice("dead", 2);
        Particle *a = mkpart(kind, x, p, 1, i);
        ref[i] = mkpart(kind, x, p, 1, i);
        if (dead) { a->Kill(); ref[i]->Kill(); }
        list.AddParticle(a);
        P->PushParticle(ref[i]);
    }
    P->PushParticleList(&list);
    vf_assert((int)list.GetNPart() == n, "list push keeps the number of particles");
    for (int i = 0; i < n; i++) {
        Particle *a = list.GetParticle(i);
        eq3(a->GetPosition(), ref[i]->GetPosition(), 1e-6, "every member is pushed once");
        eq3(a->GetMomentum(), ref[i]->GetMomentum(), 1e-6, "every member is pushed once");
        vf_eqs(a->GetTime(), ref[i]->GetTime(), 1e-6, "every member is pushed once");
        delete ref[i];
    }
    delete P;
    vf_reach("list");
}
// a second push, of the same particle set to another state, of another one, or of one at the same address: nothing of the first is remembered
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(Lepton)];
    UFField f;
    ConstField o(ThreeVector(0, 3, 0), ThreeVector(0, 0, 0));
    int who = vf_choice("particle", 3), first = vf_choice("first pusher", 2), q = vf_choice("charge", 2) ? 1 : -1, q1 = who == 0 ? q : -q;
    double z = vf_real("z0"), k = vf_real("p0"), d0 = vf_real("dt0"), s0 = vf_real("time0"), dt = vf_real("dt");
    Lepton *other = who == 1 ? new Lepton(1, q1, ThreeVector(0, 0, z), ThreeVector(k, 0, 0), 1, s0, false) : new (room) Lepton(1, q1, ThreeVector(0, 0, z), ThreeVector(k, 0, 0), 1, s0, false), *part = other;
    ParticlePusher *P = new LorentzPusher(&f, first == 0 ? d0 = dt : d0), *R = P;
    if (first == 1) { R = new LorentzPusher(&o, d0); }
    if (first == 0) P->PushParticle(other); else R->PushParticle(other);
    ThreeVector x0 = rvec("x"), p0 = rvec("p");
    double t0;
    if (who == 0) { part->UpdateTrack(x0, p0); t0 = part->GetTime(); }
    else {
        t0 = vf_real("time");
        if (who == 2) other->~Lepton();
        part = new (room) Lepton(1, q, x0, p0, 1, t0, false);
    }
    ParticlePusher *S = P;
    if (first) S = new LorentzPusher(&f, dt);
    ThreeVector a1, a2, a3, a4, b1, b2, b3, b4;
    double m = 1;
    rhs(f, m, q, t0, x0, p0, a1, b1);
    rhs(f, m, q, t0 + dt / 2, x0 + (dt / 2) * a1, p0 + (dt / 2) * b1, a2, b2);
    rhs(f, m, q, t0 + dt / 2, x0 + (dt / 2) * a2, p0 + (dt / 2) * b2, a3, b3);
    rhs(f, m, q, t0 + dt, x0 + dt * a3, p0 + dt * b3, a4, b4);
    S->PushParticle(part);
    eq3(part->GetPosition(), x0 + (dt / 6) * (a1 + 2 * a2 + 2 * a3 + a4), 1e-6, "position follows the fourth-order Runge-Kutta step, whatever was pushed before");
    eq3(part->GetMomentum(), p0 + (dt / 6) * (b1 + 2 * b2 + 2 * b3 + b4), 1e-6, "momentum follows the fourth-order Runge-Kutta step, whatever was pushed before");
    vf_eqs(part->GetTime(), t0 + dt, 1e-6, "clock advances by one time step, whatever was pushed before");
    part->~Lepton();
    if (who == 1) delete other;
    if (R != P) delete R;
    if (S != P) delete S;
    delete P;
    vf_reach("again");
}
// the same with a field that is constant along each of the pushes, where every stage can be followed
extern "C" void q_again_patch()
{
    alignas(16) static char room[sizeof(Lepton)];
    int who = vf_choice("particle", 3), other = vf_choice("other pusher", 2), kind = vf_choice("kind", 3), q = vf_choice("charge", 2) ? 1 : -1;
    double e = vf_real("field"), e1 = vf_real("field1"), y = vf_real("x"), t = vf_real("time"), t0 = t, dt = vf_real("dt"), dt1 = dt;
    if (other) dt1 = vf_real("dt1");
    PatchField f(ThreeVector(0, e, 0), ThreeVector(0, e1, 0), y);
    ConstField g(ThreeVector(0, e1, 0), ThreeVector(0, 0, 0));
    ParticlePusher *P = pusher(0, &f, dt), *Q = P;
    if (other) Q = pusher(0, &g, dt1);
    ThreeVector x0(y + 1, 2, 3), x(y, 2, 3), p(0, kind ? -0.75 : 0, 0);
    Lepton *a = who == 1 ? new Lepton(1, q, x0, ThreeVector(0, 0.75, 0), 1, t0, false) : new (room) Lepton(1, who ? -q : q, x0, ThreeVector(0, 0.75, 0), 1, t0, false), *b = a;
    Q->PushParticle(a);
    if (kind == 2) t = vf_real("time2");
    if (who == 0) { a->UpdateTrack(x, p); if (kind == 2) a->UpdateTime(t - a->GetTime()); else t = a->GetTime(); }
    else {
        if (who == 2) a->~Lepton();
        b = new (room) Lepton(1, q, x, p, 1, t, false);
    }
    P->PushParticle(b);
    eq3(b->GetMomentum(), ThreeVector(0, p[1] + q * e * dt, 0), 1e-6, "momentum changes by force times step in a constant field, whatever was pushed before");
    vf_eqs(b->GetTime(), t + dt, 1e-6, "clock advances by one time step, whatever was pushed before");
    b->~Lepton();
    if (who == 1) delete a;
    if (other) delete Q;
    delete P;
    vf_reach("patch");
}
// a list as long as in use
extern "C" void q_large()
{
    ConstField f(ThreeVector(0.25, 0, 0.5), ThreeVector(0, 0, 0));
    double dt = 0.5, y = vf_real("y");
    int n = vf_choice("n", 2) ? 33 : 12;
    ParticlePusher *P = pusher(0, &f, dt);
    ParticleList list("l", 40);
    Particle *ref[33];
    for (int i = 0; i < n; i++) {
        ThreeVector x(0, y, i), p(0, 0, 1 + i);
        Particle *a = mkpart(i % 3, x, p, 1, i);
        ref[i] = mkpart(i % 3, x, p, 1, i);
        if (i % 5 == 3) { a->Kill(); ref[i]->Kill(); }
        list.AddParticle(a);
        P->PushParticle(ref[i]);
    }
    P->PushParticleList(&list);
    vf_assert((int)list.GetNPart() == n, "list push keeps the number of particles");
    for (int i = 0; i < n; i++) {
        Particle *a = list.GetParticle(i);
        eq3(a->GetPosition(), ref[i]->GetPosition(), 1e-6, "every member is pushed once");
        eq3(a->GetMomentum(), ref[i]->GetMomentum(), 1e-6, "every member is pushed once");
        vf_eqs(a->GetTime(), ref[i]->GetTime(), 1e-6, "every member is pushed once");
        delete ref[i];
    }
    delete P;
    vf_reach("large");
}
// many steps of one particle: each starts where the last one ended
extern "C" void q_many_steps()
{
    int n = vf_tier() && vf_choice("n", 2) ? 33 : 12, kind = vf_choice("kind", 3), track = vf_choice("track", 2);
    double x = vf_real("x"), dt = 0.5;
    // the same force in every step: momentum grows by the same amount, up to rounding
    ConstField f(ThreeVector(0, 0, 0.25), ThreeVector(0, 0, 0));
    ParticlePusher *P = pusher(0, &f, dt);
    Particle *a = mkpart(kind, ThreeVector(x, 0, 0), ThreeVector(0, 0, 0.75), 1, 3, track);
    for (int i = 1; i <= n; i++) {
        P->PushParticle(a);
        if (i % 8 && i != n) continue;
        vf_eqs(a->GetTime(), 3 + i * dt, 1, "time advances by the step");
        vf_eqs(a->GetPosition()[0], x, 1, "nothing pushes sideways");
        vf_eqs(a->GetMomentum()[2], 0.75 + (kind == 2 ? 0 : kind ? 1 : -1) * i * dt * 0.25, 1, "every step adds the same momentum");
        if (kind == 2) vf_eqs(a->GetPosition()[2], i * dt, 1, "photons move at the speed of light");
    }
    vf_assert(a->GetPosHist().size() == (track ? n + 0u : 0u) || a->GetPosHist().size() == n + 1u, "one sample per step");
    delete a;
    delete P;
    vf_reach("steps");
}
