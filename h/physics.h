// shared helpers for the physics harnesses
#pragma once
#include "vf.h"
#include "ThreeVector.hh"
#include "EMField.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"

static inline ThreeVector rvec(const char *n) { double x = vf_real(n), y = vf_real(n), z = vf_real(n); return ThreeVector(x, y, z); }
static inline void eq3(const ThreeVector &a, const ThreeVector &b, double s, const char *l)
{
    for (int i = 0; i < 3; i++) vf_eqs(a[i], b[i], s, l);
}
static inline double sq(const ThreeVector &a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; }
static inline double len(const ThreeVector &a) { return __builtin_sqrt(sq(a)); }
// momenta with a rational length: every direction except -z (and -z as a separate choice), every length
static inline ThreeVector rmom(const char *n, double *length)
{
    double k = vf_pos(n);
    if (vf_choice("backwards", 2)) { *length = k; return ThreeVector(0, 0, -k); }
    double u = vf_real(n), v = vf_real(n);
    *length = k * (1 + u * u + v * v);
    return ThreeVector(2 * u * k, 2 * v * k, (1 - u * u - v * v) * k);
}
// arbitrary field: each component an arbitrary function of time and position
struct UFField : EMField {
    void GetField(double t, const ThreeVector &x, ThreeVector &e, ThreeVector &b) const override
    {
        static const char *n[6] = {"Ex", "Ey", "Ez", "Bx", "By", "Bz"};
        double v[6];
        for (int i = 0; i < 6; i++) v[i] = vf_uf4(n[i], t, x[0], x[1], x[2]);
        e = ThreeVector(v[0], v[1], v[2]);
        b = ThreeVector(v[3], v[4], v[5]);
    }
};
// constant field that remembers where it was sampled
struct ConstField : EMField {
    ThreeVector E, B;
    mutable int n; mutable double t; mutable ThreeVector x;
    ConstField() : n(0), t(0) {}
    ConstField(const ThreeVector &e, const ThreeVector &b) : E(e), B(b), n(0), t(0) {}
    void GetField(double tt, const ThreeVector &xx, ThreeVector &e, ThreeVector &b) const override
    {
        n++; t = tt; x = xx; e = E; b = B;
    }
};
// everything observable of a particle
struct Snap {
    ThreeVector x, p; double t, w, tau; bool alive; size_t h[4];
    Snap(const Particle *q) : x(q->GetPosition()), p(q->GetMomentum()), t(q->GetTime()), w(q->GetWeight()), tau(q->GetOpticalDepth()), alive(q->IsAlive())
    {
        h[0] = q->GetPosHist().size(); h[1] = q->GetMomHist().size(); h[2] = q->GetTimeHist().size(); h[3] = q->GetGammaHist().size();
    }
    void same(const Particle *q, const char *l, bool tauToo = true) const
    {
        Snap s(q);
        eq3(s.x, x, 1e-9, l); eq3(s.p, p, 1e-9, l);
        vf_eq(s.t, t, l); vf_eq(s.w, w, l);
        if (tauToo) vf_eq(s.tau, tau, l);
        vf_assert(s.alive == alive, l);
        for (int i = 0; i < 4; i++) vf_assert(s.h[i] == h[i], l);
    }
};
static inline Particle *mkpart(int kind, const ThreeVector &x, const ThreeVector &p, double w = 1, double t = 0, bool track = false)
{
    if (kind == 0) return new Lepton(1, -1, x, p, w, t, track);
    if (kind == 1) return new Lepton(1, 1, x, p, w, t, track);
    return new Photon(x, p, w, t, track);
}
// constant field that is weaker or stronger somewhere: one value on the plane x[0] = where, another off it
struct PatchField : EMField {
    ThreeVector here, there;
    double where;
    PatchField(const ThreeVector &e, const ThreeVector &o, double w) : here(e), there(o), where(w) {}
    void GetField(double, const ThreeVector &x, ThreeVector &e, ThreeVector &b) const override
    {
        e = x[0] == where ? here : there;
        b = ThreeVector(0, 0, 0);
    }
};
static inline void spent(Particle *p) { p->UpdateOpticalDepth(p->GetOpticalDepth()); }
