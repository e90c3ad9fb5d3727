// C22: the program's run loop: every particle, every step, every selected process, every output
#include "runspy.h"
int qed_main(int, char **);

// the deck
static std::string deck;
static void sec(const char *s) { deck += "["; deck += s; deck += "]\n"; }
static void line(const char *k, const char *v) { deck += k; deck += " = "; deck += v; deck += "\n"; }
static void num(const char *k, double v) { line(k, vf_num(v)); }
static void vec(const char *k, const ThreeVector &v)
{
    std::string t;
    for (int i = 0; i < 3; i++) { if (i) t += " "; t += vf_num(v[i]); }
    line(k, t.c_str());
}

// ---------------------------------------------------------------------------------------------------------------------
static void reset()
{
    deck = ""; recs.clear(); first.clear(); events = cur = 0; nseen = 0; seen_field = NULL; act_what = act_proc = act_event = act2 = 0; act_step = 1;
    uniform_ = 0.25; normal_ = 0; frac = 1; cut = 0; track = false; steps = 1; ts = 1e-16; spy_alive = 0;
}
static void general(double end)
{
    sec("General"); line("units", "SI"); num("time_step", ts); num("time_end", end);
    if (track) line("tracking", "true");
}
static void physics(int model, bool pairs)
{
    pusher = MODELS[model].push; nproc = 1; proc[0] = MODELS[model].proc;
    if (pairs) { nproc = 2; proc[1] = PAIRS; }
    sec("Physics"); line("radiation_model", MODELS[model].name);
    line("pair_production", pairs ? "true" : "false");
}
static void field() { sec("Field"); line("field_type", "static"); }
// a source of n particles of the kind at x = 1
static void source(const char *s, int kind, int n, bool out)
{
    sec(s); line("name", s); line("particle_type", NAME3[kind]); line("number_particles", std::to_string(n).c_str());
    line("energy_distribution", "mono"); num("energy_mean", 1.25 * U().RefEnergy());
    vec("position", ThreeVector(U().RefLength(), 0, 0)); vec("direction", ThreeVector(0, 0, 1));
    line("output", out ? "true" : "false");
}
static void hist(const char *s, const char *name, int kind, double time)
{
    sec(s); line("name", name); line("particle", NAME3[kind]); line("type", "x"); num("time", time);
    line("bins", "32"); line("min_bin", "0"); line("max_bin", "31");
}
static int go()
{
    vf_file("c22.ini", deck.c_str());
    char a0[] = "QEDCASC", a1[] = "c22.ini", *av[] = {a0, a1, NULL};
    int r = qed_main(2, av);
    finish();
    return r;
}
// number of steps and the end time that asks for them
static double end_time()
{
    if (vf_choice("whole", 2)) { steps = vf_choice("steps", 3); return steps * ts; }
    steps = vf_tier() ? 1 + vf_choice("steps", 4) : 1 + 2 * vf_choice("steps", 2);
    double f = vf_range("part", 0.05, 0.95);
    return (steps - f) * ts;
}
// a time and the step at whose start it has come
static double hist_time(int from, int *at, int both = 1)
{
    int k = from + vf_choice("at", steps + 2 - from), whole = both && vf_choice("whole time", 2);
    *at = k > steps ? steps : k;
    if (whole && k < 3) return k * ts;
    double f = vf_range("before", 0.05, 0.95);
    return (k - f) * ts;
}
static void expect_hist(const char *name, int kind, int at)
{
    double want[32];
    for (int i = 0; i < 32; i++) want[i] = 0;
    for (size_t i = 0; i < recs.size(); i++) {
        const Rec &r = recs[i];
        if (r.kind != kind || r.born > at || (r.died >= 0 && r.died <= at)) continue;
        int b = (int)(r.x[at - r.born][0] + 0.5);
        if (b < 32) want[b] += 1; // the rest lies beyond the last bin
    }
    std::string g = std::string("Histograms/") + name;
    const H5::Node *c = set_at(g + "/BinCentres", 32, 0, "every histogram is in the output"), *v = set_at(g + "/BinValues", 32, 0, "every histogram is in the output");
    if (!c || !v) return;
    bool ok = true;
    for (int i = 0; i < 32; i++) {
        ok &= c->data[i] == i;
        vf_eqs(v->data[i], want[i], 1, "a histogram holds the live particles of its type at its time, once per event");
    }
    vf_assert(ok, "histogram bins are those of the deck");
}
static void expect_rows(const std::string &g, int from, int to)
{
    std::vector<Row> p(first.begin() + from, first.begin() + to), k[3];
    for (int i = 0; i < to - from; i++) p[i].v[0] = i;
    Scale s(NULL);
    same_rows(g + "/Primary", p, s, "the output holds every particle before the run");
    for (size_t i = 0; i < recs.size(); i++) {
        const Rec &r = recs[i];
        if (r.event < from || r.event >= to || r.died >= 0) continue;
        Row w;
        w.v[0] = r.event - from; w.v[1] = r.energy;
        for (int j = 0; j < 3; j++) { w.v[2 + j] = r.mom[j]; w.v[5 + j] = r.x.back()[j]; }
        k[r.kind].push_back(w);
    }
    for (int j = 0; j < 3; j++) {
        if (k[j].size()) same_rows(g + "/" + SET3[j], k[j], s, "the output holds every live particle after the run");
        else if (node(g + "/" + SET3[j])) set_at(g + "/" + SET3[j], 0, 8, "no particle is made up");
    }
}
static void done()
{
    H5::reset();
    std::vector<Rec>().swap(recs);
    std::vector<Row>().swap(first);
}
extern "C" {
// one event, every step count, every model: one push and one interaction with each process per step; one histogram
void q_loop()
{
    reset();
    int th = vf_tier(), model = th ? vf_choice("model", 3) : 0, pairs = vf_choice("pairs", 2), kind = th ? vf_choice("kind", 3) : 2 * vf_choice("kind", 2), at;
    ts = vf_range("time step", 1e-18, 1e-12);
    double end = end_time();
    if (steps) {
        act_what = vf_choice("interaction", 3);
        if (act_what) {
            act_step = 1 + vf_choice("in step", steps);
            act_proc = vf_choice("by", pairs + 1);
            if (act_step < steps) act2 = vf_choice("offspring interacts", 2);
        }
    }
    int hk = act_what == 2 || th ? vf_choice("histogram of", 3) : act_what && vf_choice("histogram of photons", 2) ? 2 : kind;
    general(end); field(); physics(model, pairs); source("Particle1", kind, 1, true);
    double t = hist_time(0, &at, th || steps == 2);
    hist("Histogram1", "h", hk, t);
    vf_assert(go() == 0, "the run succeeds");
    vf_assert(events == 1, "every event is run once");
    expect_rows("Particles/ParticleSource", 0, 1);
    expect_hist("h", hk, at);
    done();
    vf_reach("loop");
}
// several sources and events, several histograms in time order
void q_events()
{
    reset();
    int ns = 1 + vf_choice("sources", 2), n[2], out[2], nh = vf_choice("histograms", 3), at[2] = {0, 0};
    for (int i = 0; i < ns; i++) { n[i] = 1 + vf_choice("events", vf_tier() ? 3 : 2); out[i] = vf_tier() || ns == 1 || i == 0 ? vf_choice("output", 2) : 1; }
    double end;
    steps = 2;
    { double f = vf_range("part", 0.05, 0.95); end = (steps - f) * ts; }
    act_event = vf_choice("in event", n[0] + (ns > 1 ? n[1] : 0));
    act_what = vf_tier() ? 1 + vf_choice("interaction", 2) : 2;
    act_step = vf_tier() ? 1 + vf_choice("in step", 2) : 1;
    physics(0, false); field(); 
    for (int i = 0; i < ns; i++) source(i ? "Particle2" : "Particle1", i ? 1 : 0, n[i], out[i]);
    for (int i = 0; i < nh; i++) {
        double t = hist_time(i ? at[0] : 0, &at[i], vf_tier());
        hist(i ? "Histogram2" : "Histogram1", i ? "b" : "a", i ? 1 : 0, t);
    }
    general(end);
    vf_assert(go() == 0, "the run succeeds");
    vf_assert(events == n[0] + (ns > 1 ? n[1] : 0), "every event of every source is run once");
    int from = 0, groups = 0;
    for (int i = 0; i < ns; i++) {
        std::string g = "Particles/ParticleSource";
        if (groups) g += "1";
        if (out[i]) { expect_rows(g, from, from + n[i]); groups++; }
        from += n[i];
    }
    for (int i = groups; i < 2; i++) vf_assert(node(i ? "Particles/ParticleSource1" : "Particles/ParticleSource") == NULL, "sources without output are not output");
    for (int i = 0; i < nh; i++) expect_hist(i ? "b" : "a", i ? 1 : 0, at[i]);
    vf_assert(node("Particles/ParticleTrack") == NULL, "no tracks unless asked for");
    done();
    vf_reach("events");
}
// tracking: every particle of every event has its track
void q_track()
{
    reset();
    int pairs = vf_choice("pairs", 2), n = 1 + vf_choice("events", 2), model = vf_choice("model", 3);
    track = true;
    steps = 2; act_what = vf_choice("interaction", 3); act_step = 1 + vf_choice("in step", 2); act_event = vf_choice("in event", n); act_proc = vf_choice("by", pairs + 1);
    general(1.5 * ts); field(); physics(model, pairs); source("Particle1", 2, n, vf_choice("output", 2));
    vf_assert(go() == 0, "the run succeeds");
    for (size_t i = 0; i < recs.size(); i++) {
        const Rec &r = recs[i];
        std::string g = "Particles/ParticleTrack/Event" + std::to_string(i);
        const H5::Node *d = set_at(g + "/Position", r.pushes, 3, "with tracking every particle is tracked from its first step");
        for (int j = 0; d && j < r.pushes; j++) for (int k = 0; k < 3; k++) vf_eqs(d->data[3 * j + k], r.x[j + 1][k], 1, "a track holds the position after each step");
    }
    vf_assert(node("Particles/ParticleTrack/Event" + std::to_string(recs.size())) == NULL, "no track is made up");
    done();
    vf_reach("track");
}
// the model, its parameters and the field of the deck are the ones that run
void q_models()
{
    reset();
    int model = vf_choice("model", 6), pairs = vf_choice("pairs", 2);
    bool hf = vf_choice("sample fraction", 2), hc = vf_choice("minimum energy", 2);
    track = vf_choice("track", 2);
    ts = vf_range("time step", 1e-18, 1e-12);
    frac = vf_unit("sample fraction"); cut = vf_pos("minimum energy");
    general(0.5 * ts); field(); physics(model, pairs);
    if (hf) num("sample_fraction", frac); else frac = 1;
    if (hc) num("min_energy", cut); else cut = 0;
    source("Particle1", 0, 1, false);
    vf_assert(go() == 0, "the run succeeds");
    vf_assert(nseen == nproc, "every selected process runs");
    for (int i = 0; i < nseen; i++) {
        vf_assert(seen[i].field == seen_field, "pushes and interactions share the field");
        vf_assert(seen[i].track == track, "created particles are tracked if tracking is on");
        if (seen[i].kind == PAIRS) continue;
        vf_eq(seen[i].frac, frac, "sampling fraction of the deck");
        vf_eq(seen[i].cut, cut / U().RefEnergy(), "energy cut of the deck");
    }
    done();
    vf_reach("models");
}
}
// every field type: probe the running field where the run uses it
extern "C" void q_fields()
{
    reset();
    int kind = vf_choice("field", 4);
    general(0.5 * ts);
    sec("Field");
    double e = vf_pos("e_max"), w = vf_pos("wavelength"), dur = vf_pos("duration"), waist = vf_pos("waist"), pol = vf_real("polerisation");
    ThreeVector a = rvec("a"), b = rvec("b");
    double L = U().RefLength(), E = U().RefEField(), B = U().RefBField(), T = U().RefTime();
    if (kind == 0) {
        line("field_type", "static"); vec("e_field", a); vec("b_field", b);
        ref_field = new StaticEMField(ThreeVector(a[0] / E, a[1] / E, a[2] / E), ThreeVector(b[0] / B, b[1] / B, b[2] / B));
    } else {
        num("e_max", e); num("wavelength", w); num("polerisation", pol);
        if (kind == 1) {
            static const double d[3][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {2. / 7, -3. / 7, 6. / 7}};
            int k = vf_choice("direction", 3);
            ThreeVector dir(d[k][0], d[k][1], d[k][2]);
            line("field_type", "plane"); vec("direction", dir);
            ref_field = new PlaneEMField(e / E, w / L, pol, dir);
        } else {
            // along the axis, where the geometry is rational
            double len = vf_pos("distance");
            a = vf_choice("sideways", 2) ? ThreeVector(b[0] + len * 0.6, b[1], b[2] - len * 0.8) : ThreeVector(b[0], b[1], b[2] - len);
            num("duration", dur); num("waist", waist); vec("start", a); vec("focus", b);
            line("field_type", kind == 2 ? "gaussian" : "focusing");
            ThreeVector s(a[0] / L, a[1] / L, a[2] / L), f(b[0] / L, b[1] / L, b[2] / L);
            if (kind == 2) ref_field = new GaussianEMField(e / E, w / L, dur / T, waist / L, pol, s, f);
            else ref_field = new FocusingField(e / E, w / L, dur / T, waist / L, pol, s, f);
        }
    }
    physics(0, false); source("Particle1", 0, 1, false);
    vf_assert(go() == 0, "the run succeeds");
    delete ref_field;
    ref_field = NULL;
    done();
    vf_reach("fields");
}
// every source parameter of the deck reaches the source
extern "C" void q_source()
{
    reset();
    int kind = vf_choice("kind", 3), distro = vf_choice("distribution", 3), low = vf_choice("lower", 2);
    static const char *DIST[3] = {"mono", "linear", "gaussian"}, *LOW3[3] = {"electron", "positron", "photon"};
    static const double d[3][3] = {{0, 0, 1}, {0.6, 0, -0.8}, {2. / 7, -3. / 7, 6. / 7}};
    int k = vf_choice("direction", 3);
    ThreeVector x = rvec("position"), dir(d[k][0], d[k][1], d[k][2]);
    double e1 = vf_pos("energy") , e2 = vf_pos("spread"), radius = vf_pos("radius"), dur = vf_pos("duration"), div = vf_pos("divergence");
    uniform_ = vf_unit("u"); normal_ = vf_pos("z");
    double L = U().RefLength(), E = U().RefEnergy(), T = U().RefTime();
    e1 = E * (1 + e1); e2 = distro == 1 ? e1 + E * e2 : E * e2;
    general(0.5 * ts); field(); physics(2, false);
    sec("Particle1"); line("name", "beam"); line("particle_type", low ? LOW3[kind] : NAME3[kind]); line("number_particles", "2");
    line("energy_distribution", DIST[distro]);
    num("energy_mean", e1); num("energy_sig", e2);
    vec("position", x); vec("direction", dir);
    num("radius", radius); num("duration", dur); num("divergence", div);
    line("output", "true");
    vf_assert(go() == 0, "the run succeeds");
    vf_assert(events == 2, "as many events as the source has particles");
    SourceGenerator g(NAME3[kind], DIST[distro], 2, e1 / E, e2 / E, radius / L, dur / T, div, ThreeVector(x[0] / L, x[1] / L, x[2] / L), dir);
    for (int i = 0; i < 2; i++) {
        ParticleList *l = g.GenerateList();
        Row r = row_of(i, l->GetParticle(0));
        for (int j = 0; j < 8; j++) vf_eqs(first[i].v[j], r.v[j], 1, "the source of the deck is the one that runs");
        vf_assert(recs[i].kind == kind, "particles of the requested type");
        g.FreeSources(l);
    }
    done();
    vf_reach("source");
}
// as many steps, events, sources and histograms as in use: numbers of more than one digit
extern "C" void q_large()
{
    reset();
    int how = vf_choice("many", 4), n = how == 1 ? 12 : 1, ns = how == 2 ? 11 : 1, nh = how == 3 ? 11 : 0, out = 1;
    steps = how == 0 ? 20 : 2;
    ts = vf_range("time step", 1e-18, 1e-12);
    act_what = how == 0 ? vf_choice("interaction", 3) : 2;
    act_step = how == 0 ? (vf_choice("late", 2) ? 13 : 1) : 1;
    act_event = how == 1 ? (vf_choice("event", 2) ? 11 : 9) : how == 2 ? 10 : 0;
    track = how == 1 && vf_choice("track", 2);
    general((steps - 0.5) * ts); field(); physics(0, how == 0);
    for (int i = 0; i < ns; i++) source(("Particle" + std::to_string(i + 1)).c_str(), i % 2, n, out);
    for (int i = 0; i < nh; i++) hist(("Histogram" + std::to_string(i + 1)).c_str(), ("h" + std::to_string(i)).c_str(), i % 3, (i < 5 ? 0.5 : 1.5) * ts);
    if (how == 0) { hist("Histogram1", "late", 0, 15.5 * ts); hist("Histogram2", "later", 1, 17.5 * ts); }
    vf_assert(go() == 0, "the run succeeds");
    vf_assert(events == n * ns, "every event of every source is run once");
    for (int i = 0; i < ns; i++) expect_rows("Particles/ParticleSource" + (i ? std::to_string(i) : std::string()), i * n, (i + 1) * n);
    vf_assert(node("Particles/ParticleSource" + std::to_string(ns)) == NULL, "no source is made up");
    for (int i = 0; i < nh; i++) expect_hist(("h" + std::to_string(i)).c_str(), i % 3, i < 5 ? 1 : 2);
    if (how == 0) { expect_hist("late", 0, 16); expect_hist("later", 1, 18); }
    for (size_t i = 0; track && i < recs.size(); i++) set_at("Particles/ParticleTrack/Event" + std::to_string(i) + "/Position", recs[i].pushes, 3, "with tracking every particle is tracked from its first step");
    done();
    vf_reach("large");
}
