// C01: every key of an input deck reaches the run parameters, converted and with defaults
#include "vf.h"
#include <cstring>
#include <cstdio>
#include <string>
#include "FileParser.hh"

static std::string deck;
static void sec(const char *s) { deck += "["; deck += s; deck += "]\n"; }
static void line(const char *k, const char *v) { deck += k; deck += " = "; deck += v; deck += "\n"; }
static void num(const char *k, double v) { line(k, vf_num(v)); }
struct V3 { double v[3]; };
static V3 any3(const char *n) { V3 r; for (int i = 0; i < 3; i++) r.v[i] = vf_real(n); return r; }
static void vec(const char *k, const V3 &v, int style) {
    std::string t = style == 0 ? "" : "[";
    for (int i = 0; i < 3; i++) { if (i) t += style == 2 ? ", " : " "; t += vf_num(v.v[i]); }
    if (style) t += "]";
    line(k, t.c_str());
}
static FileParser *parse(const char *deckname = "c01.ini") {
    vf_file("c01.ini", deck.c_str());
    int out = vf_choice("check output", 2);
    return new FileParser(deckname, out != 0);
}
static void general() {
    sec("General"); line("units", "SI"); line("time_step", "1e-16"); line("time_end", "1e-14");
}
static void same3(const ThreeVector &a, const V3 &b, double ref, const char *l) {
    for (int i = 0; i < 3; i++) vf_eq(a[i], b.v[i] / ref, l);
}
// which of n two-valued things hold: all subsets (thorough, up to 12), or an orthogonal array of strength 3 in which every
// combination of values of any three of them occurs, and the two rows with all and none
static void subset(int n, bool *have) {
    if (vf_tier() && n <= 12) { for (int i = 0; i < n; i++) have[i] = vf_choice("key", 2); return; }
    int bits = 0;
    while ((1 << bits) < n) bits++;
    int rows = 2 << bits, r = vf_choice("keys", rows + 1);
    for (int i = 0; i < n; i++) {
        int v = (r & ((i << 1) | 1)), x = 0;
        for (int k = 0; k <= bits; k++) x ^= (v >> k) & 1;
        have[i] = r == rows || x;
    }
}
static const struct { const char *t; bool v; } FLAGS[] = {{"true", true}, {"False", false}, {"ON", true}, {"0", false}};

extern "C" {
void q_general() {
    double ts = vf_real("time_step"), te = vf_real("time_end");
    bool have[2];
    subset(2, have);
    int f = vf_choice("flag", 4);
    deck = "";
    int first = vf_choice("first", 2);
    if (first) { sec("Physics"); line("radiation_model", "quantum"); }
    sec("General"); line("units", "SI");
    if (have[0]) line("file_name", "my out.h5");
    num("time_end", te); num("time_step", ts);
    if (have[1]) line("tracking", FLAGS[f].t);
    UnitsSystem u("SI");
    FileParser *p = parse();
    GeneralParameters g = p->GetGeneral();
    vf_assert(g.units == "SI", "units");
    vf_eq(g.timeStep, ts / u.RefTime(), "time step");
    vf_eq(g.timeEnd, te / u.RefTime(), "time end");
    vf_assert(g.fileName == (have[0] ? "my out.h5" : "out.h5"), "file name");
    vf_assert(g.tracking == (have[1] ? FLAGS[f].v : false), "tracking");
    vf_assert(p->GetParticle().size() == 0, "no particles");
    vf_assert(p->GetHistograms().size() == 0, "no histograms");
    vf_assert(p->GetPhysics().Physics == (first ? "quantum" : ""), "radiation model");
    delete p;
    vf_reach("general");
}
void q_static() {
    V3 e = any3("e"), b = any3("b");
    bool have[2];
    subset(2, have);
    int style = vf_choice("style", 3);
    deck = ""; general(); sec("Field"); line("field_type", "static");
    if (have[0]) vec("e_field", e, style); else e.v[0] = e.v[1] = e.v[2] = 0;
    if (have[1]) vec("b_field", b, style); else b.v[0] = b.v[1] = b.v[2] = 0;
    UnitsSystem u("SI");
    FileParser *p = parse();
    FieldParameters f = p->GetField();
    vf_assert(f.Type == "static", "type");
    same3(f.E, e, u.RefEField(), "electric field");
    same3(f.B, b, u.RefBField(), "magnetic field");
    delete p;
    vf_reach("static");
}
void q_plane() {
    double e = vf_real("e_max"), w = vf_real("wavelength"), q = vf_real("polerisation");
    V3 d = any3("direction");
    bool have[4];
    subset(4, have);
    deck = ""; general(); sec("Field"); line("field_type", "plane");
    if (have[0]) num("e_max", e); else e = 0;
    if (have[1]) num("wavelength", w); else w = 1;
    if (have[2]) vec("direction", d, 2); else { d.v[0] = d.v[1] = 0; d.v[2] = 1; }
    if (have[3]) num("polerisation", q); else q = 0;
    UnitsSystem u("SI");
    FileParser *p = parse();
    FieldParameters f = p->GetField();
    vf_assert(f.Type == "plane", "type");
    vf_eq(f.MaxE, e / u.RefEField(), "amplitude");
    vf_eq(f.Wavelength, w / u.RefLength(), "wavelength");
    vf_eq(f.Polerisation, q, "polarisation");
    same3(f.Direction, d, 1, "direction");
    delete p;
    vf_reach("plane");
}
void q_pulse() {
    int kind = vf_choice("kind", 2);
    double e = vf_real("e_max"), w = vf_real("wavelength"), t = vf_real("duration"), s = vf_real("waist"), q = vf_real("polerisation");
    V3 a = any3("start"), c = any3("focus");
    bool have[7];
    subset(7, have);
    deck = ""; general(); sec("Field"); line("field_type", kind ? "gaussian" : "focusing");
    if (have[0]) num("e_max", e); else e = 0;
    if (have[1]) num("wavelength", w); else w = 1;
    if (have[2]) num("duration", t); else t = 1;
    if (have[3]) num("waist", s); else s = 1;
    if (have[4]) num("polerisation", q); else q = 0;
    if (have[5]) vec("start", a, 1); else a.v[0] = a.v[1] = a.v[2] = 0;
    if (have[6]) vec("focus", c, 0); else c.v[0] = c.v[1] = c.v[2] = 0;
    UnitsSystem u("SI");
    FileParser *p = parse();
    FieldParameters f = p->GetField();
    vf_assert(f.Type == (kind ? "gaussian" : "focusing"), "type");
    vf_eq(f.MaxE, e / u.RefEField(), "amplitude");
    vf_eq(f.Wavelength, w / u.RefLength(), "wavelength");
    vf_eq(f.Duration, t / u.RefTime(), "duration");
    vf_eq(f.Waist, s / u.RefLength(), "waist");
    vf_eq(f.Polerisation, q, "polarisation");
    same3(f.Start, a, u.RefLength(), "start");
    same3(f.Focus, c, u.RefLength(), "focus");
    delete p;
    vf_reach(kind ? "gaussian" : "focusing");
}
void q_physics() {
    double m = vf_real("min_energy"), s = vf_real("sample_fraction");
    bool have[4];
    subset(4, have);
    int f = vf_choice("flag", 4), model = vf_choice("model", 3);
    static const char *M[] = {"classical", "semiclassical", "Quantum"};
    deck = ""; general(); sec("Physics");
    line("unused", "1");
    if (have[0]) line("radiation_model", M[model]);
    if (have[1]) num("min_energy", m); else m = 0;
    if (have[2]) num("sample_fraction", s); else s = 1;
    if (have[3]) line("pair_production", FLAGS[f].t);
    UnitsSystem u("SI");
    FileParser *p = parse();
    PhysicsParameters y = p->GetPhysics();
    vf_assert(y.Physics == (have[0] ? M[model] : ""), "radiation model");
    vf_eq(y.MinEnergy, m / u.RefEnergy(), "minimum energy");
    vf_eq(y.SampleFraction, s, "sample fraction");
    vf_assert(y.PairProduction == (have[3] ? FLAGS[f].v : false), "pair production");
    delete p;
    vf_reach("physics");
}
static void particle(const char *name, const bool *have, ParticleParameters &w, V3 &pos, V3 &dir, int n, int flag) {
    static const long N[] = {1, 7, 1000000};
    char b[32];
    w.Energy1 = vf_real("energy_mean"); w.Energy2 = vf_real("energy_sig"); w.Radius = vf_real("radius");
    w.Divergence = vf_real("divergence"); w.Duration = vf_real("duration");
    pos = any3("position"); dir = any3("direction");
    sec(name);
    line("unused", "x");
    w.Number = 1; w.Name = name; w.Type = "Electron"; w.Distro = "mono"; w.Output = false;
    if (have[0]) { line("number_particles", n == 0 ? "1" : n == 1 ? "7" : "1000000"); w.Number = N[n]; }
    if (have[1]) { line("name", "the beam"); w.Name = "the beam"; }
    static const char *T[] = {"Photon", "Positron", "Electron", "electron"}, *D[] = {"gaussian", "linear", "mono", "Linear"};
    if (have[2]) { w.Type = T[have[12] + 2 * have[13]]; line("particle_type", w.Type.c_str()); }
    if (have[3]) { w.Distro = D[have[14] + 2 * have[15]]; line("energy_distribution", w.Distro.c_str()); }
    if (have[4]) vec("position", pos, 1); else pos.v[0] = pos.v[1] = pos.v[2] = 0;
    if (have[5]) vec("direction", dir, 2); else { dir.v[0] = dir.v[1] = 0; dir.v[2] = 1; }
    if (have[6]) num("energy_mean", w.Energy1); else w.Energy1 = 0;
    if (have[7]) num("energy_sig", w.Energy2); else w.Energy2 = 0;
    if (have[8]) num("radius", w.Radius); else w.Radius = 0;
    if (have[9]) num("divergence", w.Divergence); else w.Divergence = 0;
    if (have[10]) num("duration", w.Duration); else w.Duration = 0;
    if (have[11]) { line("output", FLAGS[flag].t); w.Output = FLAGS[flag].v; }
    (void)b;
}
static void check_particle(const ParticleParameters &g, const ParticleParameters &w, const V3 &pos, const V3 &dir) {
    UnitsSystem u("SI");
    vf_assert(g.Number == w.Number, "number of particles");
    vf_assert(g.Name == w.Name, "name");
    vf_assert(g.Type == w.Type, "particle type");
    vf_assert(g.Distro == w.Distro, "distribution");
    same3(g.Position, pos, u.RefLength(), "position");
    same3(g.Direction, dir, 1, "direction");
    vf_eq(g.Energy1, w.Energy1 / u.RefEnergy(), "first energy");
    vf_eq(g.Energy2, w.Energy2 / u.RefEnergy(), "second energy");
    vf_eq(g.Radius, w.Radius / u.RefLength(), "radius");
    vf_eq(g.Divergence, w.Divergence, "divergence");
    vf_eq(g.Duration, w.Duration / u.RefTime(), "duration");
    vf_assert(g.Output == w.Output, "output flag");
}
void q_particle() {
    bool have[16];
    subset(vf_tier() ? 12 : 16, have);
    if (vf_tier()) for (int i = 0; i < 4; i++) have[12 + i] = have[3 * i] ^ have[3 * i + 2];
    int n = have[0] ? vf_choice("n", 3) : 0, flag = have[11] ? vf_choice("flag", 4) : 0;
    ParticleParameters w;
    V3 pos, dir;
    deck = ""; general();
    particle("Particle1", have, w, pos, dir, n, flag);
    FileParser *p = parse();
    std::vector<ParticleParameters> g = p->GetParticle();
    vf_assert(g.size() == 1, "one source");
    check_particle(g[0], w, pos, dir);
    delete p;
    vf_reach("particle");
}
static void histogram(const char *name, const bool *have, HistogramParameters &w, int n) {
    static const int N[] = {1, 50, 4096};
    w.Time = vf_real("time"); w.MinBin = vf_real("min_bin"); w.MaxBin = vf_real("max_bin");
    sec(name);
    line("unused", "x");
    w.Name = name; w.Particle = ""; w.Type = ""; w.Bins = 1;
    if (have[0]) { line("name", "spectrum"); w.Name = "spectrum"; }
    static const char *P[] = {"Photon", "the beam"}, *T[] = {"Energy", "px"};
    if (have[1]) { w.Particle = P[have[7]]; line("particle", P[have[7]]); }
    if (have[2]) { w.Type = T[have[8]]; line("type", T[have[8]]); }
    if (have[3]) num("time", w.Time); else w.Time = 0;
    if (have[4]) { line("bins", n == 0 ? "1" : n == 1 ? "50" : "0x1000"); w.Bins = N[n]; }
    if (have[5]) num("min_bin", w.MinBin); else w.MinBin = 0;
    if (have[6]) num("max_bin", w.MaxBin); else w.MaxBin = 1;
}
static void check_histogram(const HistogramParameters &g, const HistogramParameters &w) {
    UnitsSystem u("SI");
    vf_assert(g.Name == w.Name, "name");
    vf_assert(g.Particle == w.Particle, "particle");
    vf_assert(g.Type == w.Type, "quantity");
    vf_eq(g.Time, w.Time / u.RefTime(), "time");
    vf_assert(g.Bins == w.Bins, "bins");
    vf_eq(g.MinBin, w.MinBin, "first bin");
    vf_eq(g.MaxBin, w.MaxBin, "last bin");
}
void q_histogram() {
    bool have[9];
    subset(9, have);
    int n = have[4] ? vf_choice("n", 3) : 0;
    HistogramParameters w;
    deck = ""; general();
    histogram("Histogram1", have, w, n);
    FileParser *p = parse();
    std::vector<HistogramParameters> g = p->GetHistograms();
    vf_assert(g.size() == 1, "one histogram");
    check_histogram(g[0], w);
    delete p;
    vf_reach("histogram");
}
// any number of numbered sections in a row, in any place of the deck; a gap ends the row
void q_sections() {
    int np = vf_choice("particles", vf_tier() ? 4 : 3), nh = vf_choice("histograms", vf_tier() ? 4 : 3), gap = vf_choice("gap", 2), order = vf_choice("order", 3);
    bool have[16];
    ParticleParameters w[4];
    HistogramParameters h[4];
    V3 pos[4], dir[4];
    static const char *PN[] = {"Particle1", "Particle2", "Particle3", "Particle4"}, *HN[] = {"Histogram1", "Histogram2", "Histogram3", "Histogram4"};
    deck = "";
    if (order == 0) general();
    for (int k = 0; k < np; k++) {
        int i = order == 2 ? np - 1 - k : k;
        for (int j = 0; j < 16; j++) have[j] = (j + i) % 3 != 1;
        particle(PN[i], have, w[i], pos[i], dir[i], 1, i & 1);
    }
    if (order == 1) general();
    for (int k = 0; k < nh; k++) {
        int i = order == 2 ? nh - 1 - k : k;
        for (int j = 0; j < 9; j++) have[j] = (j + i) % 3 != 2;
        histogram(HN[i], have, h[i], 1);
    }
    if (gap) { sec("Particle6"); line("name", "late"); sec("Histogram6"); line("name", "late"); }
    if (order == 2) general();
    FileParser *p = parse();
    std::vector<ParticleParameters> g = p->GetParticle();
    std::vector<HistogramParameters> q = p->GetHistograms();
    vf_assert((int)g.size() == np, "number of sources");
    vf_assert((int)q.size() == nh, "number of histograms");
    for (int i = 0; i < np; i++) check_particle(g[i], w[i], pos[i], dir[i]);
    for (int i = 0; i < nh; i++) check_histogram(q[i], h[i]);
    vf_eq(p->GetGeneral().timeEnd * UnitsSystem("SI").RefTime(), 1e-14, "general");
    delete p;
    vf_reach("sections");
}
// long rows of sections, past nine and past ninety nine
void q_many() {
    int n = vf_choice("n", 4), what = vf_choice("what", 2);
    static const int N[] = {9, 10, 12, 103};
    double v = vf_real("v");
    deck = ""; general();
    for (int i = 1; i <= N[n]; i++) {
        std::string b = (what ? "Histogram" : "Particle") + std::to_string(i);
        sec(b.c_str());
        if (N[n] > 20 && i % 25 > 2) line("name", "x"); else num(what ? "min_bin" : "divergence", v + i);
    }
    vf_file("c01.ini", deck.c_str());
    FileParser *p = new FileParser("c01.ini", false);
    vf_assert((int)p->GetParticle().size() == (what ? 0 : N[n]), "number of sources");
    vf_assert((int)p->GetHistograms().size() == (what ? N[n] : 0), "number of histograms");
    for (int i = 1; i <= N[n]; i++) {
        double want = N[n] > 20 && i % 25 > 2 ? 0 : v + i;
        vf_eq(what ? p->GetHistograms()[i - 1].MinBin : p->GetParticle()[i - 1].Divergence, want, "value of a late section");
    }
    delete p;
    vf_reach("many");
}
// decks that cannot be run
void q_refused() {
    int what = vf_choice("what", 8);
    deck = "";
    if (what != 0) {
        sec(what == 1 ? "Generals" : "General");
        if (what != 2) line("time_step", "1e-16");
        if (what != 3) line("time_end", "1e-14");
        if (what != 4) line("units", what == 5 ? "CGS" : "SI");
    }
    sec("Field");
    line("field_type", what == 6 ? "plain" : what == 7 ? "" : "static");
    vf_file("c01.ini", deck.c_str());
    vf_exit_ok(1); vf_throw_ok(1);
    vf_reach("refused");
    FileParser *p = new FileParser("c01.ini", false);
    vf_assert(0, "deck accepted");
    delete p;
}
// nothing else is refused
void q_accepted() {
    static const char *F[] = {"static", "plane", "gaussian", "focusing"};
    int f = vf_choice("field", 5);
    deck = ""; general();
    if (f < 4) { sec("Field"); line("field_type", F[f]); }
    FileParser *p = parse();
    vf_assert(p->GetField().Type == (f < 4 ? F[f] : ""), "field type");
    delete p;
    vf_reach("accepted");
}
// a second deck in the same process, and a parser that is asked twice: nothing of the first deck is left
void q_again() {
    int n0 = vf_choice("first", 3), n1 = vf_choice("second", 3), asked = vf_choice("asked", 2), kept = vf_choice("kept", 2);
    bool on[16], off[16];
    for (int i = 0; i < 16; i++) { on[i] = true; off[i] = false; }
    on[7] = on[8] = true;
    ParticleParameters w[2], v[2];
    HistogramParameters h[2], k[2];
    V3 pos[2], dir[2], pos0[2], dir0[2], e = any3("e"), b = any3("b");
    static const char *PN[] = {"Particle1", "Particle2"}, *HN[] = {"Histogram1", "Histogram2"};
    deck = ""; sec("General"); line("units", "SI"); num("time_step", vf_real("ts0")); num("time_end", vf_real("te0")); line("tracking", "true"); line("file_name", "first.h5");
    for (int i = 0; i < n0; i++) particle(PN[i], on, v[i], pos0[i], dir0[i], 1, 0);
    for (int i = 0; i < n0; i++) histogram(HN[i], on, k[i], 1);
    sec("Field"); line("field_type", "static"); vec("e_field", e, 0); vec("b_field", b, 0);
    sec("Physics"); line("radiation_model", "Quantum"); line("pair_production", "true");
    vf_file("c01.ini", deck.c_str());
    FileParser *a = new FileParser("c01.ini", false);
    if (asked) { a->GetGeneral(); a->GetField(); a->GetPhysics(); a->GetParticle(); a->GetHistograms(); }
    if (!kept) delete a;
    double ts = vf_real("ts"), te = vf_real("te");
    deck = ""; sec("General"); line("units", "SI"); num("time_step", ts); num("time_end", te);
    for (int i = 0; i < n1; i++) histogram(HN[i], off, h[i], 1);
    for (int i = 0; i < n1; i++) particle(PN[i], off, w[i], pos[i], dir[i], 1, 0);
    vf_file("c01.ini", deck.c_str());
    FileParser *p = new FileParser("c01.ini", false);
    UnitsSystem u("SI");
    for (int i = 0; i < 2; i++) {
        GeneralParameters g = p->GetGeneral();
        vf_eq(g.timeStep, ts / u.RefTime(), "time step");
        vf_eq(g.timeEnd, te / u.RefTime(), "time end");
        vf_assert(!g.tracking && g.fileName == "out.h5", "nothing of an earlier deck is left");
        vf_assert(p->GetField().Type == "" && p->GetPhysics().Physics == "" && !p->GetPhysics().PairProduction, "nothing of an earlier deck is left");
        std::vector<ParticleParameters> x = p->GetParticle();
        std::vector<HistogramParameters> y = p->GetHistograms();
        vf_assert((int)x.size() == n1 && (int)y.size() == n1, "sources and histograms of this deck only");
        for (int j = 0; j < n1; j++) { check_particle(x[j], w[j], pos[j], dir[j]); check_histogram(y[j], h[j]); }
    }
    if (kept) {
        vf_assert((int)a->GetParticle().size() == n0 && (int)a->GetHistograms().size() == n0, "a later deck leaves an earlier one as it was");
        for (int j = 0; j < n0; j++) { check_particle(a->GetParticle()[j], v[j], pos0[j], dir0[j]); check_histogram(a->GetHistograms()[j], k[j]); }
        same3(a->GetField().E, e, u.RefEField(), "a later deck leaves an earlier one as it was");
        delete a;
    }
    delete p;
    vf_reach("again");
}
}
