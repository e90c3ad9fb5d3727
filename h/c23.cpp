// C23: the scripting interface runs what it was told to and survives being told nonsense
#include "runspy.h"
#include "RunManager.hh"
#include <new>
// the settings of one run
struct Set {
    int model, pairs, kind, distro, name, dir; double e, w, dur, pol, waist, e1, e2, radius, pdur, div, end; ThreeVector start, focus, pos;
};
static const char *KINDS[6] = {"Electron", "Positron", "Photon", "electron", "positron", "photon"}, *DIST[3] = {"mono", "linear", "gaussian"};
static const char *FIELDS[4] = {"Gaussian", "gaussian", "Focusing", "focusing"};
static const double DIR[3][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {2. / 7, -3. / 7, 6. / 7}};
static ThreeVector dirv(int k) { return ThreeVector(DIR[k][0], DIR[k][1], DIR[k][2]); }
static ThreeVector over(const ThreeVector &a, double s) { return ThreeVector(a[0] / s, a[1] / s, a[2] / s); }
static void fresh()
{
    std::vector<Rec>().swap(recs); std::vector<Row>().swap(first); events = cur = nseen = 0; seen_field = NULL;
    act_what = act_proc = act_event = act2 = 0; act_step = 1;
    uniform_ = 0.25; normal_ = 0; frac = 1; cut = 0; track = false; steps = 1; spy_alive = 0;
}
static Set plain()
{
    Set s;
    s.model = s.pairs = s.kind = s.distro = s.name = s.dir = 0;
    s.e = 1e15; s.w = 1e-6; s.dur = 1e-14; s.pol = 0; s.waist = 2e-6; s.e1 = 1.25 * U().RefEnergy(); s.e2 = s.radius = s.pdur = s.div = 0;
    s.start = ThreeVector(0, 0, 1e-5); s.pos = ThreeVector(U().RefLength(), 0, 0);
    ts = 1e-16; steps = 1; s.end = 0.5 * ts;
    return s;
}
static void config(const Set &s)
{
    pusher = MODELS[s.model].push; nproc = 1; proc[0] = MODELS[s.model].proc;
    if (s.pairs) { nproc = 2; proc[1] = PAIRS; }
}
static void time(RunManager &m, const Set &s) { m.setTime(ts, s.end); }
static void field(RunManager &m, const Set &s) { m.setField(FIELDS[s.name], s.e, s.w, s.dur, s.waist, s.pol, s.start, s.focus); }
static void physics(RunManager &m, const Set &s) { m.setPhysics(MODELS[s.model].name); m.usePairProduction(s.pairs != 0); }
static void source(RunManager &m, const Set &s)
{
    m.setGenerator(KINDS[s.kind], DIST[s.distro], s.e1, s.e2, s.radius, s.pdur, s.div, s.pos, dirv(s.dir));
}
static void all(RunManager &m, const Set &s) { time(m, s); field(m, s); physics(m, s); source(m, s); config(s); }
static void results(RunManager &m, int n)
{
    finish();
    double P = U().RefMomentum(), L = U().RefLength();
    py::array_t<double> in = m.getInput();
    bool ok = in.ndim() == 2 && in.shape(0) == n && in.shape(1) == 6 && in.size() == 6 * n;
    vf_assert(events == n, "every event is run once");
    vf_assert(ok, "one input row per particle");
    for (int i = 0; ok && i < n; i++) for (int j = 0; j < 6; j++)
        vf_eqs(in.data()[6 * i + j], first[i].v[j + 2] * (j < 3 ? P : L), j < 3 ? P : L, "input rows are momenta and positions in SI");
    for (int k = 0; k < 3; k++) {
        py::array_t<double> out = k == 0 ? m.getElectrons() : k == 1 ? m.getPositrons() : m.getPhotons();
        std::vector<const Rec *> r;
        for (size_t i = 0; i < recs.size(); i++) if (recs[i].kind == k && recs[i].died < 0) r.push_back(&recs[i]);
        ok = out.ndim() == 2 && out.shape(0) == (long)r.size() && out.shape(1) == 7 && out.size() == 7 * (long)r.size();
        vf_assert(ok, "one row per live outgoing particle of each kind");
        for (size_t i = 0; ok && i < r.size(); i++) {
            const double *d = out.data() + 7 * i;
            for (int j = 0; j < 3; j++) {
                vf_eqs(d[j], r[i]->mom[j] * P, P, "rows hold the momentum in SI");
                vf_eqs(d[3 + j], r[i]->x.back()[j] * L, L, "rows hold the position in SI");
            }
            vf_eq(d[6], r[i]->w, "rows hold the weight");
        }
    }
}
// a plain run gives plain results: the object is usable
static void usable(RunManager &m)
{
    fresh();
    Set s = plain();
    all(m, s);
    m.beamOn(1);
    results(m, 1);
}
extern "C" {
void q_run()
{
    fresh();
    RunManager *m = new RunManager;
    Set s = plain();
    int th = vf_tier(), n = vf_choice("events", 3);
    s.pairs = vf_choice("pairs", 2); s.kind = th ? vf_choice("kind", 3) : 2 * vf_choice("kind", 2); s.model = th ? vf_choice("model", 3) : 0;
    ts = vf_range("time step", 1e-18, 1e-12);
    steps = vf_choice("steps", 4);
    if (steps > 2 || (steps && vf_choice("part of a step", 2))) { double f = vf_range("part", 0.05, 0.95); s.end = (steps - f) * ts; }
    else s.end = steps * ts;
    if (steps && n) {
        act_what = vf_choice("interaction", 3);
        if (act_what) {
            act_event = n - 1; act_step = 1 + vf_choice("in step", steps); act_proc = vf_choice("by", s.pairs + 1);
            if (act_step < steps) act2 = vf_choice("offspring interacts", 2);
        }
    }
    all(*m, s);
    m->beamOn(n);
    results(*m, n);
    delete m;
    vf_reach("run");
}
// each name selects its model, field and particle; parameters arrive in code units
void q_settings()
{
    fresh();
    RunManager *m = new RunManager;
    Set s = plain();
    double L = U().RefLength(), E = U().RefEnergy(), T = U().RefTime(), F = U().RefEField();
    int what = vf_choice("vary", 3);
    ts = vf_range("time step", 1e-18, 1e-12); s.end = 0.5 * ts;
    if (what == 0) {
        s.model = vf_choice("model", 6); s.pairs = vf_choice("pairs", 2);
        int h = vf_choice("fraction", 4);
        frac = h == 0 ? 1 : h == 1 ? 0 : vf_unit("sample fraction");
        all(*m, s);
        if (h) m->setSampleFraction(frac);
        if (h == 3) m->setSampleFraction(vf_choice("beyond", 2) ? 1.5 : -0.5);
        m->beamOn(1);
        results(*m, 1);
        vf_assert(nseen == nproc, "every selected process runs");
        for (int i = 0; i < nseen; i++) {
            vf_assert(seen[i].field == seen_field, "pushes and interactions share the field");
            if (seen[i].kind == PAIRS) continue;
            vf_eq(seen[i].frac, frac, "the sampling fraction that was set");
            vf_eq(seen[i].cut, 0, "all photon energies are tracked");
        }
    } else if (what == 1) {
        s.name = vf_choice("field", 4);
        s.e = vf_pos("e_max"); s.w = vf_pos("wavelength"); s.dur = vf_pos("duration"); s.waist = vf_pos("waist"); s.pol = vf_real("polarisation");
        s.focus = rvec("focus");
        double len = vf_pos("distance");
        ThreeVector f = s.focus;
        s.start = vf_choice("sideways", 2) ? ThreeVector(f[0] + len * 0.6, f[1], f[2] - len * 0.8) : ThreeVector(f[0], f[1], f[2] - len);
        if (s.name < 2) ref_field = new GaussianEMField(s.e / F, s.w / L, s.dur / T, s.waist / L, s.pol, over(s.start, L), over(s.focus, L));
        else ref_field = new FocusingField(s.e / F, s.w / L, s.dur / T, s.waist / L, s.pol, over(s.start, L), over(s.focus, L));
        all(*m, s);
        m->beamOn(1);
        results(*m, 1);
        delete ref_field;
        ref_field = NULL;
    } else {
        s.kind = vf_choice("kind", 6); s.distro = vf_choice("distribution", 3); s.dir = vf_choice("direction", 3);
        double e1 = vf_pos("energy"), e2 = vf_pos("spread");
        s.e1 = E * (1 + e1); s.e2 = s.distro == 1 ? s.e1 + E * e2 : E * e2;
        s.radius = vf_pos("radius"); s.pdur = vf_pos("duration"); s.div = vf_pos("divergence"); s.pos = rvec("position");
        uniform_ = vf_unit("u"); normal_ = vf_pos("z");
        all(*m, s);
        m->beamOn(1);
        results(*m, 1);
        SourceGenerator g(KINDS[s.kind], DIST[s.distro], 1, s.e1 / E, s.e2 / E, s.radius / L, s.pdur / T, s.div, over(s.pos, L), dirv(s.dir));
        ParticleList *l = g.GenerateList();
        Row r = row_of(0, l->GetParticle(0));
        for (int j = 1; j < 8; j++) vf_eqs(first[0].v[j], r.v[j], 1, "the source that was set is the one that runs");
        vf_assert(recs[0].kind == s.kind % 3, "particles of the requested type");
        g.FreeSources(l);
    }
    delete m;
    vf_reach("settings");
}
// any subset of the settings missing, at first or after a run, any order; then everything given
void q_missing()
{
    fresh();
    RunManager *m = new RunManager;
    int before = vf_choice("refused runs", 3), have = vf_choice("settings", 16), back = vf_choice("reversed", 2);
    Set s = plain();
    config(s);
    for (int i = 0; i < 4; i++) {
        int k = back ? 3 - i : i;
        if (!(have >> k & 1)) continue;
        if (k == 0) time(*m, s);
        if (k == 1) field(*m, s);
        if (k == 2) physics(*m, s);
        if (k == 3) source(*m, s);
    }
    for (int i = 0; i < before; i++) {
        fresh();
        m->beamOn(1);
        vf_assert(have == 15 ? events == 1 : events == 0, "a run with missing settings is refused");
        if (have == 15) results(*m, 1);
    }
    if (vf_choice("then run", 2)) usable(*m);
    delete m;
    vf_reach("missing");
}
// settings that cannot be run are refused and the object stays usable
void q_invalid()
{
    fresh();
    RunManager *m = new RunManager;
    int ran = vf_choice("ran before", 2), what = vf_choice("what", 10);
    if (ran) usable(*m);
    fresh();
    Set s = plain();
    all(*m, s);
    int n = 1, th = 1;
    if (what == 0) m->setField("Static", 1, 1, 1, 1, 0, s.start, s.focus);
    if (what == 1) m->setPhysics("Newton");
    if (what == 2) m->setPhysics("");
    if (what == 3) m->setTime(0, 1);
    if (what == 4) { double d = vf_pos("negative step"); m->setTime(-d, 1); }
    if (what == 5) th = 0;
    if (what == 6) th = -1;
    if (what == 7) n = -1;
    if (what == 8) m->setGenerator("Muon", "mono", 1, 0, 0, 0, 0, s.pos, dirv(0));
    if (what == 9) m->setField("", 1, 1, 1, 1, 0, s.start, s.focus);
    m->beamOn(n, th);
    vf_assert(events == 0, "a run with invalid settings is refused");
    if (vf_choice("then run", 2)) usable(*m);
    delete m;
    vf_reach("invalid");
}
// runs do not mix: settings changed between two (three) runs
void q_again()
{
    fresh();
    RunManager *m = new RunManager;
    Set s = plain();
    int runs = vf_tier() ? 3 : 2;
    for (int i = 0; i < runs; i++) {
        fresh();
        int n = vf_choice("events", 3), what = i ? vf_choice("changed", 6) : 5;
        if (what == 0) { s.model = 1; s.pairs = 1 - s.pairs; physics(*m, s); config(s); }
        if (what == 1) { s.kind = 2 - s.kind; source(*m, s); }
        if (what == 2) { ts *= 2; s.end = 0.75 * ts; time(*m, s); }
        if (what == 3) { s.name = 2 - s.name; field(*m, s); }
        if (what == 5) { s = plain(); all(*m, s); }
        if (n) { act_what = vf_choice("interaction", 3); act_event = n - 1; }
        m->beamOn(n);
        results(*m, n);
        if (vf_choice("read twice", 2)) results(*m, n);
    }
    delete m;
    vf_reach("again");
}
}
// as many events and steps as in use, and many runs in a row
extern "C" void q_large()
{
    fresh();
    RunManager *m = new RunManager;
    Set s = plain();
    int how = vf_choice("many", 3), runs = how == 2 ? 9 : 1, n = how == 0 ? 33 : 2;
    for (int r = 0; r < runs; r++) {
        fresh();
        s.pairs = how == 1; s.kind = r % 3; s.model = r % 3;
        ts = 1e-16; steps = how == 1 ? 20 : 2;
        s.end = (steps - 0.5) * ts;
        act_what = 2 - r % 2; act_event = n - 1; act_step = how == 1 ? 13 : 1;
        all(*m, s);
        m->beamOn(n - (how == 2 && r % 4 == 3));
        results(*m, n - (how == 2 && r % 4 == 3));
    }
    delete m;
    vf_reach("large");
}
