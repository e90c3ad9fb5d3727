// the run loop under test sees these stand-ins instead of the pushers, processes and sources: they report every call to the
// harness, and what a push or an interaction does to a particle is chosen by the harness (the real ones are checked elsewhere)
#pragma once
#include <iostream>
#include "EMField.hh"
#include "GaussianEMField.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "FocusingField.hh"
#include "ParticlePusher.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "ParticleList.hh"
#include "SourceGenerator.hh"
#include "ContinuousEmission.hh"
#include "StochasticEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "MCTools.hh"
struct ProcInfo { int kind; EMField *field; double dt; double frac, cut; bool track; };
enum { LORENTZ, LANDAU, MODIFIED };
enum { STOCHASTIC, CLASSICAL, SEMICLASSICAL, PAIRS };
void spy_event(SourceGenerator *, ParticleList *);
void spy_push(int kind, EMField *, double dt, Particle *);
void spy_interact(const ProcInfo *, Particle *, ParticleList *);
extern int spy_alive;      // stand-ins that exist
template <class B, int K> struct SpyPusher : B {
    EMField *sf; double sdt;
    SpyPusher(EMField *f, double dt) : B(f, dt), sf(f), sdt(dt) {}
    void PushParticle(Particle *p) { spy_push(K, sf, sdt, p); }
    void PushParticle(Particle *p) const { spy_push(K, sf, sdt, p); }
};
struct SpyProc : Process {
    ProcInfo info;
    SpyProc(int kind, EMField *f, double dt, double frac, double cut, bool track) : Process(f, dt, track)
    {
        info.kind = kind; info.field = f; info.dt = dt; info.frac = frac; info.cut = cut; info.track = track; spy_alive++;
    }
    ~SpyProc() { spy_alive--; }
    void Interact(Particle *p, ParticleList *l) { spy_interact(&info, p, l); }
    void Interact(Particle *p, ParticleList *l) const { spy_interact(&info, p, l); }
};
struct SpyContinuous : SpyProc {
    SpyContinuous(EMField *f, double dt, bool classical = false, double frac = 1, double cut = 0, bool track = false)
        : SpyProc(classical ? CLASSICAL : SEMICLASSICAL, f, dt, frac, cut, track) {}
};
struct SpyStochastic : SpyProc {
    SpyStochastic(EMField *f, double dt, double frac = 1, double cut = 0, bool track = false) : SpyProc(STOCHASTIC, f, dt, frac, cut, track) {}
};
struct SpyPairs : SpyProc {
    SpyPairs(EMField *f, double dt, bool track = false) : SpyProc(PAIRS, f, dt, 1, 0, track) {}
};
struct SpySource : SourceGenerator {
    template <class... A> SpySource(A... a) : SourceGenerator(a...) {}
    ParticleList *GenerateList() { ParticleList *l = SourceGenerator::GenerateList(); spy_event(this, l); return l; }
};
#ifdef VF_SPY
typedef SpyPusher<LorentzPusher, LORENTZ> SpyLorentz;
typedef SpyPusher<LandauPusher, LANDAU> SpyLandau;
typedef SpyPusher<ModifiedLandauPusher, MODIFIED> SpyModified;
#define LorentzPusher SpyLorentz
#define LandauPusher SpyLandau
#define ModifiedLandauPusher SpyModified
#define ContinuousEmission SpyContinuous
#define StochasticEmission SpyStochastic
#define NonLinearBreitWheeler SpyPairs
#define SourceGenerator SpySource
#endif
