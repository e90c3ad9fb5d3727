#include "physics.h"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"

static const double ALPHA = 0.0072973525664;
// the field acts only at the last stage time, so 6*(p1-p0)/dt is the force at the initial momentum
struct LastStage : EMField {
    ThreeVector E, B;
    double t0;
    void GetField(double t, const ThreeVector &, ThreeVector &e, ThreeVector &b) const override
    {
        if (t == t0) { e = E; b = B; }
        else { e = ThreeVector(0, 0, 0); b = ThreeVector(0, 0, 0); }
    }
};
static ThreeVector cross(const ThreeVector &a, const ThreeVector &b)
{
    return ThreeVector(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static double dot(const ThreeVector &a, const ThreeVector &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
struct Force {
    ThreeVector E, B, p;
    double L, m;
    int zero;
    void draw(bool anyMass, bool anyDir = true)
    {
        zero = vf_choice("field", 4);
        E = ThreeVector(0, 0, 0); B = ThreeVector(0, 0, 0);
        if (zero == 0 || zero == 1) E = rvec("E");
        if (zero == 0 || zero == 2) B = rvec("B");
        m = anyMass ? vf_pos("mass") : 1;
        if (anyDir) p = rmom("p", &L);
        else L = vf_pos("p");
    }
    template <class P> ThreeVector get(double q) const
    {
        LastStage f;
        f.E = E; f.B = B; f.t0 = 0.5;
        double dt = 0.5;
        Lepton part(m, q, ThreeVector(0, 0, 0), p, 1, 0, false);
        P pusher(&f, dt);
        pusher.PushParticle(&part);
        ThreeVector r = part.GetMomentum();
        return ThreeVector((r[0] - p[0]) * 12, (r[1] - p[1]) * 12, (r[2] - p[2]) * 12);
    }
    ThreeVector v() const { double g = __builtin_sqrt(m * m + L * L); return ThreeVector(p[0] / g, p[1] / g, p[2] / g); }
    ThreeVector lorentz(double q) const
    {
        ThreeVector c = cross(v(), B);
        return ThreeVector(q * (E[0] + c[0]), q * (E[1] + c[1]), q * (E[2] + c[2]));
    }
    double scale() const { return 1e3; }
    // eta^2 = gamma^2 |E_perp + v x B|^2 + (n.E)^2, in the particle's rest frame (unit mass)
    double eta2() const
    {
        ThreeVector c = cross(v(), B), n(p[0] / L, p[1] / L, p[2] / L);
        double en = dot(n, E);
        ThreeVector w(E[0] - en * n[0] + c[0], E[1] - en * n[1] + c[1], E[2] - en * n[2] + c[2]);
        return (1 + L * L) * sq(w) + en * en;
    }
};
extern "C" void q_lorentz()
{
    Force f;
    f.draw(true);
    double q = vf_real("charge");
    vf_assume_ne(q, 0);
    ThreeVector F = f.get<LorentzPusher>(q), R = f.lorentz(q), G = f.get<LorentzPusher>(-q);
    eq3(F, R, 1e3, "force is q(E + v x B)");
    for (int i = 0; i < 3; i++) vf_eqs(F[i], -G[i], 1e3, "opposite charges feel opposite forces");
    if (f.zero == 2) vf_eqs(dot(F, f.p), 0, 1e3, "the magnetic field does no work");
    vf_reach("lorentz");
}
template <class P> static void landau(bool modified)
{
    Force f;
    f.draw(false, !modified);
    double q = vf_choice("charge", 2) ? 1 : -1;
    if (modified) {
        static const double d[6][3] = {{0, 0, 1}, {0, -1, 0}, {1, 0, 0}, {.6, 0, .8}, {-2. / 7, 3. / 7, -6. / 7}, {4. / 9, 4. / 9, -7. / 9}};
        int k = vf_choice("direction", vf_tier() ? 6 : 5);
        f.p = ThreeVector(f.L * d[k][0], f.L * d[k][1], f.L * d[k][2]);
    }
    ThreeVector F = f.get<P>(q), G = f.get<P>(-q), R = f.lorentz(q);
    ThreeVector n(f.p[0] / f.L, f.p[1] / f.L, f.p[2] / f.L);
    ThreeVector D(F[0] - R[0], F[1] - R[1], F[2] - R[2]);
    for (int i = 0; i < 3; i++) vf_eqs(F[i] - R[i], G[i] + R[i], 1e3, "drag is the same for both charge signs");
    double e2 = f.eta2(), g = 1;
    if (modified) {
        double gam = __builtin_sqrt(1 + f.L * f.L), e = __builtin_sqrt(e2 / (gam * gam)) * gam;
        g = __builtin_pow(1 + 4.8 * (1 + e) * __builtin_log(1 + 1.7 * e) + 2.44 * e * e, -2. / 3);
    }
    double d = (2. / 3) * ALPHA * e2 * g;
    for (int i = 0; i < 3; i++) vf_eqs(D[i], -d * n[i], 1e3, "drag is antiparallel to the motion and of size 2/3 alpha eta^2 times the quantum factor");
    if (f.zero == 3) for (int i = 0; i < 3; i++) vf_eqs(D[i], 0, 1, "no drag in zero field");
    vf_reach("drag");
}
extern "C" void q_landau() { landau<LandauPusher>(false); }
extern "C" void q_modified() { landau<ModifiedLandauPusher>(true); }
// the quantum factor itself, from a purely electric field along the motion (eta = |E|)
static double factor(double E)
{
    Force f;
    f.p = ThreeVector(0, 0, 1); f.L = 1; f.m = 1; f.zero = 1;
    f.E = ThreeVector(0, 0, E); f.B = ThreeVector(0, 0, 0);
    ThreeVector F = f.get<ModifiedLandauPusher>(1);
    return (E - F[2]) / ((2. / 3) * ALPHA * E * E);
}
extern "C" void q_factor_range()
{
    double e = vf_pos("eta");
    double g = factor(e);
    vf_lt(0, g, "quantum factor is positive");
    vf_le(g, 1, "quantum factor does not exceed 1");
    vf_reach("range");
}
extern "C" void q_factor_falls()
{
    double e = vf_pos("eta"), k = vf_pos("more");
    double g = factor(e), h = factor(e + k);
    vf_lt(h, g, "quantum factor falls with eta");
    vf_reach("falls");
}
// a particle at rest has no direction of motion: no drag, and no non-numbers
template <class P> static void rest()
{
    Force f;
    f.draw(false);
    f.p = ThreeVector(0, 0, 0); f.L = 0;
    double q = vf_choice("charge", 2) ? 1 : -1;
    ThreeVector F = f.get<P>(q);
    for (int i = 0; i < 3; i++) {
        vf_assert(vf_isnum(F[i]), "force on a particle at rest is a number");
        vf_eqs(F[i], q * f.E[i], 1e3, "a particle at rest feels qE and no drag");
    }
    vf_reach("rest");
}
extern "C" void q_rest_lorentz() { rest<LorentzPusher>(); }
extern "C" void q_rest_landau() { rest<LandauPusher>(); }
extern "C" void q_rest_modified() { rest<ModifiedLandauPusher>(); }
// an earlier push of the same particle, or of one at the same address, in another field: nothing of it is remembered
#include <new>
template <class P> static void again(bool drag)
{
    alignas(16) static char room[sizeof(Lepton)];
    int who = vf_choice("particle", 3), other = vf_choice("other pusher", 2), q = vf_choice("charge", 2) ? 1 : -1;
    Force f;
    f.zero = 0; f.m = 1;
    f.L = vf_pos("p");
    f.p = ThreeVector(0, 0, f.L);
    double ex = vf_real("Ex"), ez = vf_real("Ez"), by = vf_real("By");
    f.E = ThreeVector(ex, 0, ez); f.B = ThreeVector(0, by, 0);
    double dt = 0.5;
    LastStage g, h;
    h.E = ThreeVector(0, 2, 0); h.B = ThreeVector(0, 0, 0); h.t0 = 0.5;
    g.E = f.E; g.B = f.B; g.t0 = 7;
    P *a = new P(&g, dt), *b = a;
    if (other) b = new P(&h, dt);
    else { g.E = h.E; g.B = h.B; g.t0 = 0.5; }
    ThreeVector x(0, 0, 0), p0(0, 0, 0.75);
    Lepton *first = who == 1 ? new Lepton(1, q, x, p0, 1, 0, false) : new (room) Lepton(1, who ? -q : q, x, p0, 1, 0, false), *part = first;
    b->PushParticle(first);
    g.E = f.E; g.B = f.B; g.t0 = 0.5;
    if (who == 0) { first->UpdateTrack(x, f.p); first->UpdateTime(-first->GetTime()); }
    else {
        if (who == 2) first->~Lepton();
        part = new (room) Lepton(1, q, x, f.p, 1, 0, false);
    }
    a->PushParticle(part);
    ThreeVector r = part->GetMomentum(), R = f.lorentz(q);
    double d = drag ? (2. / 3) * ALPHA * f.eta2() : 0;
    for (int i = 0; i < 3; i++) vf_eqs((r[i] - f.p[i]) * 12, R[i] - (i == 2 ? d : 0), 1e3, "force follows from the present field, charge and momentum, whatever was pushed before");
    part->~Lepton();
    if (who == 1) delete first;
    if (other) delete b;
    delete a;
    vf_reach("again");
}
extern "C" void q_again_lorentz() { again<LorentzPusher>(false); }
extern "C" void q_again_landau() { again<LandauPusher>(true); }
