// C29: the program run by several processes: the sum of independent runs in one file, and no random number used twice
#include "out.h"
#include "tables.h"
#include "mpi.h"
int qed_main(int, char **);
static const UnitsSystem &U() { static UnitsSystem *u = new UnitsSystem("SI"); return *u; }

// every variate is known by the seed of its sequence and its place in it
static int used, normals, devices;
static double uniform = 0.75;
static bool twice, spread;
static unsigned long seeds[4096], places[4096];
static void use(unsigned long s, unsigned long n)
{
    for (int i = 0; i < used; i++) if (seeds[i] == s && places[i] == n) twice = true;
    if (used < 4096) { seeds[used] = s; places[used++] = n; }
}
extern "C" double vf_rng_u01(unsigned long s, unsigned long n) { use(s, n); return uniform; }
extern "C" double vf_rng_normal(unsigned long s, unsigned long n)
{
    use(s, n);
    if (!spread) return 0;
    double f = vf_range("z", 0.0625, 0.25);
    return normals++ + f;
}
// processes are seeded apart by the device, as in the real world
extern "C" unsigned long vf_rng_device() { return 100000 + 7 * devices++; }

static std::string deck;
static void sec(const char *s) { deck += "["; deck += s; deck += "]\n"; }
static void line(const char *k, const char *v) { deck += k; deck += " = "; deck += v; deck += "\n"; }
static void num(const char *k, double v) { line(k, vf_num(v)); }
static void vec(const char *k, double a, double b, double c)
{
    double v[3] = {a, b, c};
    std::string t;
    for (int i = 0; i < 3; i++) { if (i) t += " "; t += vf_num(v[i]); }
    line(k, t.c_str());
}
static const double TS = 1e-15;
static const int TAGS = 96;
static void general(int steps, bool track)
{
    sec("General"); line("units", "SI"); num("time_step", TS); num("time_end", (steps - 0.5) * TS);
    if (track) line("tracking", "true");
}
static void physics(const char *model, bool pairs)
{
    sec("Physics"); line("radiation_model", model); line("pair_production", pairs ? "true" : "false");
}
static void source(const char *s, int kind, int n, double energy, double sig, bool out)
{
    sec(s); line("name", s); line("particle_type", NAME3[kind]); line("number_particles", std::to_string(n).c_str());
    line("energy_distribution", "gaussian"); num("energy_mean", energy * U().RefEnergy()); num("energy_sig", sig * U().RefEnergy());
    vec("position", 0, 0, 0); vec("direction", 0, 0, -1);
    line("output", out ? "true" : "false");
}
static void hist(const char *s, const char *name, int kind, double time, int bins, double lo, double hi)
{
    sec(s); line("name", name); line("particle", NAME3[kind]); line("type", "energy"); num("time", time);
    line("bins", std::to_string(bins).c_str()); num("min_bin", lo); num("max_bin", hi);
}
static void tables()
{
    EmTables em(2, 2, 2);
    BwTables bw(2, 2);
    em.hy[0] = -5; em.hy[1] = -0.5;
    for (int i = 0; i < 2; i++) { em.d[i][1] = 0.9 + 0.05 * i; bw.d[i][1] = 0.9 + 0.05 * i; }
    bw.ty[0] = -8; bw.ty[1] = -1;
    em.write(); bw.write();
}
static void go(int procs)
{
    vf_file("c29.ini", deck.c_str());
    char a0[] = "QEDCASC", a1[] = "c29.ini", *av[] = {a0, a1, NULL};
    H5::reset();
    used = normals = 0; twice = false;
    mpi::start(procs);
    for (int r = procs - 1; r >= 0; r--) {
        mpi::as(r);
        int inits = mpi::w().inited, done = mpi::w().done;
        vf_assert(qed_main(2, av) == 0, "every process succeeds");
        vf_assert(mpi::w().inited == inits + 1 && mpi::w().done == done + 1, "every process joins and leaves the run once");
    }
    mpi::end();
    vf_assert(!twice, "no random number is used twice in a run");
}
static std::vector<Row> rows(const std::string &p)
{
    std::vector<Row> r;
    const H5::Node *d = node(p);
    for (size_t i = 0; d && d->rank == 2 && i < d->dim[0]; i++) {
        Row w;
        for (int j = 0; j < 8; j++) w.v[j] = d->data[8 * i + j];
        r.push_back(w);
    }
    return r;
}
// the groups of the sources, in any order
static std::vector<std::string> groups()
{
    std::vector<std::string> g;
    H5::Store *f = H5::store("out.h5");
    for (size_t i = 0; f && i < f->nodes.size(); i++) {
        const std::string &p = f->nodes[i]->path;
        size_t l = p.rfind("/Primary");
        if (l != std::string::npos && l + 8 == p.size()) g.push_back(p.substr(0, l));
    }
    return g;
}
static int tag_of(double e)
{
    for (int i = 0; i < TAGS; i++) if (e > 10 + i && e < 10.5 + i) return i;
    return -1;
}
extern "C" {
// photons with different energies: each generated by one process, counted and stored once
void q_books()
{
    deck = "";
    spread = true;
    int procs = 1 + vf_choice("processes", vf_tier() ? 4 : 3), ns = 1 + vf_choice("sources", 2), n[2] = {1, 1}, total = 0, steps = vf_choice("steps", 2), nh = vf_choice("histograms", 3);
    bool out = vf_choice("output", 2), track = out && vf_choice("tracking", 2), late = nh == 1 && vf_choice("late", 2);
    tables();
    general(steps, track);
    sec("Field"); line("field_type", "static");
    physics("Quantum", false);
    for (int i = 0; i < ns; i++) { n[i] = 1 + (i == 0 ? vf_choice("events", 2) : 2 - n[0]); total += n[i]; source(i ? "Particle2" : "Particle1", 2, n[i], 10, 1, out); }
    for (int h = 0; h < nh; h++) hist(h ? "Histogram2" : "Histogram1", h ? "second" : "first", 2, h || late ? 1 : 0, TAGS, 10, 10 + TAGS - 1);
    go(procs);
    bool seen[TAGS] = {};
    int found = 0;
    for (int h = 0; h < nh; h++) {
        std::string g = std::string("Histograms/") + (h ? "second" : "first");
        const H5::Node *v = set_at(g + "/BinValues", TAGS, 0, "every histogram is in the output");
        int sum = 0;
        for (int i = 0; v && i < TAGS; i++) {
            bool one = v->data[i] == 1;
            vf_assert(one || v->data[i] == 0, "a histogram counts the particle of every event of every process once");
            if (h) vf_assert(one == seen[i], "histograms of the same quantity agree");
            if (one) { seen[i] = true; sum++; }
        }
        vf_assert(sum == procs * total, "a histogram counts the particle of every event of every process once");
    }
    if (out) {
        bool got[TAGS] = {};
        std::vector<std::string> g = groups();
        vf_assert((int)g.size() == ns, "the events of every source are written");
        bool sizes[2] = {false, false};
        for (size_t k = 0; k < g.size(); k++) {
            std::vector<Row> p = rows(g[k] + "/Primary"), q = rows(g[k] + "/Photons");
            vf_assert(p.size() == q.size(), "what an event starts with is there at its end");
            for (int i = 0; i < ns; i++) if (!sizes[i] && (int)p.size() == procs * n[i]) { sizes[i] = true; break; }
            for (size_t i = 0; i < p.size() && i < q.size(); i++) {
                int t = tag_of(p[i].v[1]);
                vf_assert(t >= 0 && !got[t], "every event of every process is written once");
                if (t < 0) continue;
                got[t] = true;
                found++;
                if (nh) vf_assert(seen[t], "histograms and events tell of the same particles");
                for (int c = 0; c < 5; c++) vf_eqs(q[i].v[c], p[i].v[c], 1, "without a field photons keep their momentum");
                vf_eqs(q[i].v[7], p[i].v[7] - steps * (TS / U().RefTime()), 1e-3, "photons move for every step of every process");
            }
        }
        vf_assert(found == procs * total, "the output holds every event of every process");
        for (int i = 0; i < ns; i++) vf_assert(sizes[i], "every process runs every source in full");
    } else vf_assert(groups().empty(), "without output no events are written");
    H5::reset();
    vf_reach("books");
}
// emission: every process emits and all photons are in the output
void q_emission()
{
    static const char *MODEL[3] = {"Classical", "Semiclassical", "Quantum"};
    deck = "";
    spread = false;
    int procs = 1 + vf_choice("processes", 3), model = vf_choice("model", 3), n = 1 + vf_choice("events", 2), steps = 1 + vf_choice("steps", 2);
    bool pairs = vf_choice("pairs", 2);
    uniform = vf_choice("variates", 2) ? 0.75 : 1e-6;
    tables();
    general(steps, false);
    sec("Field"); line("field_type", "static"); vec("e_field", 1e14, 0, 0); vec("b_field", 0, 3e5, 0);
    physics(MODEL[model], pairs);
    source("Particle1", 0, n, 2000, 100, true);
    hist("Histogram1", "h", 2, 1, 2, 0, 1e6);
    int one[2] = {0, 0}, all[2] = {0, 0};
    for (int k = 0; k < 2; k++) {
        go(k ? procs : 1);
        int *c = k ? all : one;
        c[0] = rows("Particles/ParticleSource/Photons").size();
        c[1] = rows("Particles/ParticleSource/Electrons").size();
        const H5::Node *v = set_at("Histograms/h/BinValues", 2, 0, "every histogram is in the output");
        if (v) vf_eq(v->data[0] + v->data[1], c[0], "the histogram counts the photons of all processes");
    }
    for (int i = 0; i < 2; i++) vf_assert(all[i] == procs * one[i], "with the same variates every process adds as much as a single one");
    vf_assert(all[1] >= procs * n, "electrons stay");
    H5::reset();
    vf_reach(one[0] ? "emission" : "none");
}
}
