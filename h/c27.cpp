// C27: the program with two threads: every interleaving keeps every event, count, row and track, and shares nothing unguarded
#include "out.h"
#include "tables.h"
#include "threads.h"
int qed_main(int, char **);

static std::string deck;
static void sec(const char *s) { deck += "["; deck += s; deck += "]\n"; }
static void line(const char *k, const char *v) { deck += k; deck += " = "; deck += v; deck += "\n"; }
static void num(const char *k, double v) { line(k, vf_num(v)); }
static void vec(const char *k, double a, double b, double c)
{
    double v[3] = {a, b, c};
    std::string t;
    for (int i = 0; i < 3; i++) { if (i) t += " "; t += vf_num(v[i]); }
    line(k, t.c_str());
}
static const double TS = 1e-15;
static void general(int steps, bool track)
{
    sec("General"); line("units", "SI"); num("time_step", TS); num("time_end", (steps - 0.5) * TS);
    if (track) line("tracking", "true");
}
static void physics(const char *model, bool pairs)
{
    sec("Physics"); line("radiation_model", model); line("pair_production", pairs ? "true" : "false");
}
static void source(const char *s, int kind, int n, double energy, double sig, double radius, bool out)
{
    sec(s); line("name", s); line("particle_type", NAME3[kind]); line("number_particles", std::to_string(n).c_str());
    line("energy_distribution", sig > 0 ? "gaussian" : "mono"); num("energy_mean", energy * U().RefEnergy());
    if (sig > 0) num("energy_sig", sig * U().RefEnergy());
    vec("position", 0, 0, 0); vec("direction", 0, 0, -1);
    if (radius > 0) num("radius", radius);
    line("output", out ? "true" : "false");
}
static void hist(const char *s, const char *name, int kind, const char *type, double time, int bins, double lo, double hi)
{
    sec(s); line("name", name); line("particle", NAME3[kind]); line("type", type); num("time", time);
    line("bins", std::to_string(bins).c_str()); num("min_bin", lo); num("max_bin", hi);
}
static void go(int threads)
{
    vf_file("c27.ini", deck.c_str());
    char a0[] = "QEDCASC", a1[] = "c27.ini", *av[] = {a0, a1, NULL};
    H5::reset();
    fresh_threads(threads);
    vf_assert(qed_main(2, av) == 0, "the run succeeds");
    distinct();
}
// rows of a data set of the output
static std::vector<Row> rows(const std::string &p)
{
    std::vector<Row> r;
    const H5::Node *d = node(p);
    for (size_t i = 0; d && d->rank == 2 && i < d->dim[0]; i++) {
        Row w;
        for (int j = 0; j < 8; j++) w.v[j] = d->data[8 * i + j];
        r.push_back(w);
    }
    return r;
}
static const std::string SRC = "Particles/ParticleSource";
static std::string trk(int i) { return "Particles/ParticleTrack/Event" + std::to_string(i); }
static void tables()
{
    EmTables em(2, 2, 2);
    BwTables bw(2, 2);
    em.hy[0] = -5; em.hy[1] = -0.5;
    for (int i = 0; i < 2; i++) { em.d[i][1] = 0.9 + 0.05 * i; bw.d[i][1] = 0.9 + 0.05 * i; }
    bw.ty[0] = -8; bw.ty[1] = -1;
    em.write(); bw.write();
}
// the variate behind the energy of a particle
static const int TAGS = 24;
static int tag_of(double e)
{
    for (int i = 0; i < TAGS; i++) if (e > 9.5 + i && e < 10.5 + i) return i;
    return -1;
}
extern "C" {
// the books: photons with different energies, each generated, counted, stored and tracked exactly once
void q_books()
{
    deck = "";
    int th = vf_tier(), n = 2 + vf_choice("events", 2), few = !th && n > 2, steps = few || vf_choice("steps", 2), when = vf_choice("histogram at the end", 2);
    bool out = few || vf_choice("output", 2), track = few || vf_choice("tracking", 2);
    vf_switches(th ? 3 : few ? 1 : 2);
    spread = 2;
    tables();
    general(steps, track);
    sec("Field"); line("field_type", "static");
    physics("Quantum", false);
    source("Particle1", 2, n, 10, 1, 0, out);
    hist("Histogram1", "h", 2, "energy", when ? 1 : 0, TAGS, 10, 10 + TAGS - 1);
    go(2 + (th && n > 2 && vf_choice("third thread", 2)));
    bool got[3][TAGS] = {};
    const H5::Node *v = set_at("Histograms/h/BinValues", TAGS, 0, "every histogram is in the output");
    int sum = 0;
    for (int i = 0; v && i < TAGS; i++) {
        bool one = v->data[i] == 1;
        vf_assert(one || v->data[i] == 0, "a histogram counts the particle of every event once");
        if (one) { got[0][i] = true; sum++; }
    }
    vf_assert(sum == n, "a histogram counts the particle of every event once");
    if (out) {
        std::vector<Row> p = rows(SRC + "/Primary"), q = rows(SRC + "/Photons");
        vf_assert((int)p.size() == n && (int)q.size() == n, "the output holds every event once");
        for (int i = 0; i < n && i < (int)p.size() && i < (int)q.size(); i++) {
            int k = tag_of(p[i].v[1]);
            vf_assert(p[i].v[0] == (double)i && q[i].v[0] == (double)i, "rows carry the number of their event");
            vf_assert(k >= 0 && got[0][k] && !got[1][k], "every event is generated once");
            if (k >= 0) got[1][k] = true;
            vf_eq(q[i].v[1], p[i].v[1], "what an event leaves behind belongs to it");
        }
    }
    for (int i = 0; track && i < n; i++) {
        const H5::Node *m = set_at(trk(i) + "/Gamma", steps, 0, "every event has its track");
        const H5::Node *x = set_at(trk(i) + "/Momentum", steps, 3, "every event has its track");
        if (!m || !x || !steps) continue;
        int k = tag_of(-x->data[2]);
        vf_assert(k >= 0 && got[0][k] && !got[2][k], "every event has its own track");
        if (k >= 0) got[2][k] = true;
    }
    vf_assert(!track || node(trk(n)) == NULL, "no track is made up");
    H5::reset();
    vf_reach("books");
}
// the physics: two events processed by two threads end as they do when a single thread processes them
void q_physics()
{
    static const char *MODEL[3] = {"Classical", "Semiclassical", "Quantum"}, *FIELD[4] = {"static", "plane", "gaussian", "focusing"};
    deck = "";
    int th = vf_tier(), model = vf_choice("model", 3), fld = vf_choice("field", 4), kind = vf_choice("photon", 2) ? 2 : th ? vf_choice("positron", 2) : 0;
    bool pairs = kind == 2 || (th && vf_choice("pairs", 2)), track = th ? vf_choice("tracking", 2) : fld & 1;
    if (kind == 2) vf_assume(model == 0 || th);
    uniform = vf_choice("variates", 2) ? 0.75 : 1e-6;
    vf_switches(th ? 2 : 1);
    spread = 1;
    tables();
    general(2, track);
    sec("Field"); line("field_type", FIELD[fld]);
    if (fld == 0) { vec("e_field", 1e14, 0, 0); vec("b_field", 0, 3e5, 0); }
    else {
        num("e_max", 1e14); num("wavelength", 1e-6); num("polerisation", 0.5);
        if (fld == 1) vec("direction", 0, 0, 1);
        else { num("duration", 1e-14); num("waist", 2e-6); vec("start", 0, 0, -1e-6); vec("focus", 0, 0, 0); }
    }
    physics(MODEL[model], pairs);
    source("Particle1", kind, 2, 2000, 100, 1e-7, true);
    hist("Histogram1", "h", kind, "energy", 1, 8, 0, 4000);
    go(1);
    std::vector<Row> ref[4], got[4];
    for (int k = 0; k < 4; k++) ref[k] = rows(SRC + "/" + (k ? SET3[k - 1] : "Primary"));
    const H5::Node *h = set_at("Histograms/h/BinValues", 8, 0, "every histogram is in the output");
    double want[8] = {};
    for (int i = 0; h && i < 8; i++) want[i] = h->data[i];
    vf_assert(ref[0].size() == 2, "every event is run once");
    if (ref[1].size() + ref[2].size() + ref[3].size() > 2) vf_reach("something happens");
    go(2);
    for (int k = 0; k < 4; k++) {
        got[k] = rows(SRC + "/" + (k ? SET3[k - 1] : "Primary"));
        vf_assert(got[k].size() == ref[k].size(), "two threads leave as many particles as one");
    }
    // which event of the single-threaded run is it
    int as[2] = {-1, -1};
    for (size_t i = 0; i < got[0].size() && i < 2; i++) {
        for (int j = 0; j < 2; j++) if (__builtin_fabs(got[0][i].v[1] - ref[0][j].v[1]) < 1) as[i] = j;
    }
    vf_assert(as[0] >= 0 && as[1] >= 0 && as[0] != as[1], "every event is generated once");
    for (int k = 0; k < 4; k++) for (int e = 0; e < 2; e++) {
        size_t i = 0, j = 0;
        for (;; i++, j++) {
            while (i < got[k].size() && got[k][i].v[0] != e) i++;
            while (j < ref[k].size() && ref[k][j].v[0] != as[e]) j++;
            if (i >= got[k].size() || j >= ref[k].size()) break;
            for (int c = 1; c < 8; c++) vf_eqs(got[k][i].v[c], ref[k][j].v[c], 1, "an event ends as it does in a single thread");
        }
        vf_assert(i >= got[k].size() && j >= ref[k].size(), "an event leaves as many particles as in a single thread");
    }
    h = set_at("Histograms/h/BinValues", 8, 0, "every histogram is in the output");
    for (int i = 0; h && i < 8; i++) vf_eq(h->data[i], want[i], "histograms add up as in a single thread");
    H5::reset();
    vf_reach("physics");
}
}
