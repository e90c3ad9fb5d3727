// records what a run loop does to its particles and checks it against the rules of a run
#pragma once
#include "out.h"
#include "spy.h"
#include <vector>
#include <string>
int spy_alive;
static const UnitsSystem &U() { static UnitsSystem *u = new UnitsSystem("SI"); return *u; }

// variates are shared by all draws, so that their order is left free
static double uniform_, normal_;
extern "C" double vf_rng_u01(unsigned long, unsigned long) { return uniform_; }
extern "C" double vf_rng_normal(unsigned long, unsigned long) { return normal_; }

// what is configured
static int pusher, proc[2], nproc, steps;
static double ts, frac, cut;
static bool track;
static EMField *seen_field;
static ProcInfo seen[2];
static int nseen;
// what happens
struct Rec {
    Particle *p; int event, kind, born, died, pushes, in[2];
    std::vector<ThreeVector> x;     // at the end of every step since birth
    ThreeVector mom; double energy, w;
};
static std::vector<Rec> recs;
static int events, cur;     // events so far, first record of the current one
static std::vector<Row> first;
static EMField *ref_field;
static int act_step, act_proc, act_what, act_event, act2;      // step whose interaction creates or converts; what the offspring does
static ThreeVector D(1, 0.5, 0.25);

static Rec *find(Particle *p)
{
    for (size_t i = cur; i < recs.size(); i++) if (recs[i].p == p) return &recs[i];
    return NULL;
}
static int kind_of(Particle *p)
{
    for (int k = 0; k < 3; k++) if (p->GetName() == NAME3[k]) return k;
    return -1;
}
static void born(Particle *p, int step)
{
    Rec r;
    r.p = p; r.event = events - 1; r.kind = kind_of(p); r.born = step; r.died = -1; r.pushes = r.in[0] = r.in[1] = 0;
    r.x.push_back(p->GetPosition()); r.mom = p->GetMomentum(); r.energy = p->GetEnergy(); r.w = p->GetWeight();
    recs.push_back(r);
}
static void finish()
{
    for (size_t i = cur; i < recs.size(); i++) {
        Rec &r = recs[i];
        int last = r.died >= 0 ? r.died : steps;
        vf_assert(r.pushes == last - r.born, "every particle is pushed once in every step that it existed at the start of");
        for (int k = 0; k < nproc; k++) if (r.died < 0) vf_assert(r.in[k] == r.pushes, "every particle interacts once with every process in every step");
    }
    cur = recs.size();
}
void spy_event(SourceGenerator *, ParticleList *l)
{
    finish();
    vf_assert(l->GetNPart() == 1, "one particle per event");
    first.push_back(row_of(events, l->GetParticle(0)));
    events++;
    born(l->GetParticle(0), 0);
}
void spy_push(int kind, EMField *f, double dt, Particle *p)
{
    if (!p->IsAlive()) return;
    Rec *r = find(p);
    vf_assert(r != NULL, "only particles of the event are pushed");
    if (!r) return;
    vf_assert(r->born + r->pushes < steps, "no particle is pushed beyond the end of the run");
    vf_assert(kind == pusher, "the force law belongs to the radiation model");
    if (ref_field) {
        double t = vf_real("t");
        ThreeVector at = rvec("at"), e, b, we, wb;
        f->GetField(t, at, e, b);
        ref_field->GetField(t, at, we, wb);
        eq3(e, we, 1, "the field of the deck is the one that runs");
        eq3(b, wb, 1, "the field of the deck is the one that runs");
    }
    seen_field = f;
    vf_eq(dt, ts / U().RefTime(), "particles are pushed by the time step");
    for (int k = 0; k < nproc; k++) vf_assert(r->in[k] == r->pushes, "a particle interacts before it is pushed again");
    vf_eq(p->GetTime(), (r->born + r->pushes) * (ts / U().RefTime()), "particles move from the time of their last step");
    ThreeVector x = p->GetPosition();
    eq3(x, r->x.back(), 1, "nothing but a push moves a particle");
    x = ThreeVector(x[0] + D[0], x[1] + D[1], x[2] + D[2]);
    p->UpdateTime(dt);
    p->UpdateTrack(x, p->GetMomentum());
    r->pushes++;
    r->x.push_back(x);
}
static void add(Particle *p, ParticleList *l, int kind, const ThreeVector &at, int step, bool tr)
{
    Particle *n = mkpart(kind, at, ThreeVector(0.75, 0, 1), 0.5, p->GetTime(), tr);
    l->AddParticle(n);
    born(n, step);
}
void spy_interact(const ProcInfo *q, Particle *p, ParticleList *l)
{
    if (!p->IsAlive()) return;
    Rec *r = find(p);
    vf_assert(r != NULL, "only particles of the event interact");
    if (!r) return;
    int k = -1;
    for (int i = 0; i < nproc; i++) if (proc[i] == q->kind) k = i;
    vf_assert(k >= 0, "only the selected processes are run");
    if (k < 0) return;
    seen[k] = *q;
    if (k >= nseen) nseen = k + 1;
    vf_eq(q->dt, ts / U().RefTime(), "interactions cover the time step");
    r->in[k]++;
    vf_assert(r->in[k] == r->pushes, "a particle interacts once after each push");
    int step = r->born + r->pushes;
    bool prime = (size_t)(r - &recs[0]) == (size_t)cur;
    ThreeVector x = p->GetPosition();
    if (r->event != act_event || proc[k] != proc[act_proc]) return;
    if (prime && act_what && step == act_step) {
        if (act_what == 1) add(p, l, 2, ThreeVector(x[0] + 4, x[1], x[2]), step, q->track);
        else {
            r->died = step;
            p->Kill();
            add(p, l, 1, ThreeVector(x[0] + 4, x[1], x[2]), step, q->track);
            add(p, l, 0, ThreeVector(x[0] + 8, x[1], x[2]), step, q->track);
        }
    } else if (!prime && act2 && r->born == act_step && r->pushes == 1 && r == &recs[cur + 1])
        add(p, l, 2, ThreeVector(x[0] + 4, x[1], x[2]), step, q->track);
}
static const struct { const char *name; int push, proc; } MODELS[6] = {
    {"Classical", LANDAU, CLASSICAL}, {"Semiclassical", MODIFIED, SEMICLASSICAL}, {"Quantum", LORENTZ, STOCHASTIC},
    {"classical", LANDAU, CLASSICAL}, {"semiclassical", MODIFIED, SEMICLASSICAL}, {"quantum", LORENTZ, STOCHASTIC}};
