// C28: the summary that a run writes of its input lists what the run uses
#include "vf.h"
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
#include "FileParser.hh"

static std::string deck;
static void sec(const char *s) { deck += "["; deck += s; deck += "]\n"; }
static void line(const char *k, const char *v) { deck += k; deck += " = "; deck += v; deck += "\n"; }
static void num(const char *k, double v) { line(k, vf_num(v)); }
struct V3 { double v[3], s[3]; };          // values and their sizes
static V3 any3(const char *n)
{
    V3 r;
    for (int i = 0; i < 3; i++) { r.s[i] = vf_pos(n); r.v[i] = i == 1 ? -r.s[i] : r.s[i]; }
    return r;
}
static void vec(const char *k, const V3 &v)
{
    std::string t;
    for (int i = 0; i < 3; i++) { if (i) t += " "; t += vf_num(v.v[i]); }
    line(k, t.c_str());
}
struct Block { std::string title; std::vector<std::string> key, val; };
static std::vector<Block> blocks;
static std::string trim(const std::string &s)
{
    size_t a = 0, b = s.size();
    while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == '\r')) a++;
    while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t' || s[b - 1] == '\r')) b--;
    return s.substr(a, b - a);
}
static void summary()
{
    blocks.clear();
    std::ifstream f("input-check.txt");
    std::string l;
    while (std::getline(f, l)) {
        size_t e = l.find('=');
        if (e == std::string::npos) {
            l = trim(l);
            if (l.empty()) continue;
            blocks.push_back(Block());
            blocks.back().title = l;
            continue;
        }
        vf_assert(!blocks.empty(), "every entry stands under the heading of its section");
        if (blocks.empty()) return;
        blocks.back().key.push_back(trim(l.substr(0, e)));
        blocks.back().val.push_back(trim(l.substr(e + 1)));
    }
}
static const Block *block(const char *title)
{
    const Block *r = NULL;
    int n = 0;
    size_t l = std::string(title).size();
    for (size_t i = 0; i < blocks.size(); i++) {
        const std::string &t = blocks[i].title;
        if (t.compare(0, l, title) != 0 || (t.size() > l && t[l] >= '0' && t[l] <= '9')) continue;   // "Particle 1" is not "Particle 10"
        r = &blocks[i]; n++;
    }
    vf_assert(n == 1, "every section of the run is listed once");
    return r;
}
static std::string get(const Block *b, const char *key)
{
    std::string r;
    int n = 0;
    for (size_t i = 0; b && i < b->key.size(); i++) if (b->key[i] == key) { r = b->val[i]; n++; }
    vf_assert(n == 1, "every entry is listed once");
    return r;
}
static void text(const Block *b, const char *key, const std::string &want) { vf_assert(get(b, key) == want, key); }
// printed with at least five digits; size: of the wanted value
static void value(const std::string &t, double want, double size, const char *key)
{
    char *e = NULL;
    double x = std::strtod(t.c_str(), &e);
    vf_assert(e && e != t.c_str() && *e == 0, "a number is listed as a number");
    vf_eqs(x, want, 20 * size, key);
}
static void real(const Block *b, const char *key, double want) { value(get(b, key), want, want, key); }
static void three(const Block *b, const char *key, const V3 &v, double ref)
{
    std::string t = get(b, key), w;
    size_t n = t.size();
    vf_assert(n > 2 && t[0] == '[' && t[n - 1] == ']', "a vector is listed as a vector");
    if (n <= 2) return;
    t = t.substr(1, n - 2);
    for (int i = 0; i < 3; i++) {
        t = trim(t);
        size_t e = t.find(' ');
        vf_assert((e != std::string::npos) == (i < 2), "a vector has three components");
        value(t.substr(0, e), v.v[i] / ref, v.s[i] / ref, key);
        if (e != std::string::npos) t = t.substr(e);
    }
}
static void general(double ts, double te, bool track)
{
    sec("General"); line("units", "SI"); num("time_step", ts); num("time_end", te); line("file_name", "run 7.h5");
    if (track) line("tracking", "on");
}
static void parse()
{
    // what an earlier run in the same directory left
    if (vf_choice("old summary", 2)) vf_file("input-check.txt", "General input parameters \nUnits = cgs\nTime step = 7\n\n\nParticle 1\nName = old\n\n\nHistogram 9\nName = old\n");
    vf_file("c28.ini", deck.c_str()); delete new FileParser("c28.ini", true);
    summary();
}

extern "C" {
void q_sections()
{
    UnitsSystem u("SI");
    double ts = vf_pos("time_step"), te = vf_pos("time_end"), m = vf_pos("min_energy"), s = vf_pos("sample_fraction");
    bool track = vf_choice("tracking", 2), pairs = vf_choice("pairs", 2), late = vf_choice("order", 2);
    deck = "";
    if (!late) general(ts, te, track);
    sec("Physics"); line("radiation_model", "Quantum"); num("min_energy", m); num("sample_fraction", s); line("pair_production", pairs ? "yes" : "no");
    if (late) general(ts, te, track);
    parse();
    const Block *b = block("General");
    text(b, "Units", "SI");
    real(b, "Time step", ts / u.RefTime());
    real(b, "Time end", te / u.RefTime());
    text(b, "Output file", "run 7.h5");
    text(b, "Tracking", track ? "1" : "0");
    b = block("Physics");
    text(b, "Physics module used", "Quantum");
    text(b, "Pair production", pairs ? "1" : "0");
    real(b, "Sample fraction", s);
    real(b, "Minimum photon energy", m / u.RefEnergy());
    vf_assert(blocks.size() == 2, "no section is made up");
    vf_reach("sections");
}
void q_field()
{
    static const char *F[] = {"static", "plane", "gaussian", "focusing"};
    UnitsSystem u("SI");
    int k = vf_choice("field", 4);
    double e = vf_pos("e_max"), w = vf_pos("wavelength"), t = vf_pos("duration"), s = vf_pos("waist"), q = vf_pos("polerisation");
    V3 a = any3("a"), c = any3("c");
    deck = ""; general(1, 2, false);
    sec("Field"); line("field_type", F[k]);
    if (k == 0) { vec("e_field", a); vec("b_field", c); }
    else { num("e_max", e); num("wavelength", w); num("polerisation", q); }
    if (k == 1) vec("direction", a);
    if (k > 1) { num("duration", t); num("waist", s); vec("start", a); vec("focus", c); }
    parse();
    const Block *b = block("Field");
    text(b, "Field type", F[k]);
    if (k == 0) { three(b, "E strength", a, u.RefEField()); three(b, "B strength", c, u.RefBField()); }
    else real(b, "Wavelength", w / u.RefLength());
    if (k == 1) { three(b, "Direction", a, 1); real(b, "Polerisation", q); }
    if (k > 1) {
        real(b, "Max E", e / u.RefEField()); real(b, "Duration", t / u.RefTime()); real(b, "Waist", s / u.RefLength());
        three(b, "Start", a, u.RefLength()); three(b, "Focus", c, u.RefLength());
    }
    vf_assert(blocks.size() == 3, "no section is made up");
    vf_reach(F[k]);
}
// any number of sources and histograms, each under its own number
static void rows(int np, int nh)
{
    UnitsSystem u("SI");
    static const char *T[] = {"Photon", "Electron", "Positron"}, *N[] = {"3", "1", "20"}, *W[] = {"a", "the beam", "c"};
    double v[12][7];
    V3 d[12], x[12];
    deck = ""; general(1, 2, false);
    for (int i = 0; i < np; i++) {
        std::string n = "Particle" + std::to_string(i + 1);
        for (int j = 0; j < 5; j++) v[i][j] = vf_pos("p");
        d[i] = any3("direction"); x[i] = any3("position");
        sec(n.c_str()); line("name", W[i % 3]); line("number_particles", N[i % 3]); line("particle_type", T[i % 3]); line("energy_distribution", "gaussian");
        num("energy_mean", v[i][0]); num("energy_sig", v[i][1]); num("radius", v[i][2]); num("divergence", v[i][3]); num("duration", v[i][4]);
        vec("direction", d[i]); vec("position", x[i]); line("output", i == 1 ? "false" : "true");
    }
    double h[12][3];
    for (int i = 0; i < nh; i++) {
        std::string n = "Histogram" + std::to_string(i + 1);
        for (int j = 0; j < 3; j++) h[i][j] = vf_pos("h");
        sec(n.c_str()); line("name", W[2 - i % 3]); line("particle", T[i % 3]); line("type", "energy"); num("time", h[i][0]); line("bins", N[i % 3]);
        num("min_bin", h[i][1]); num("max_bin", h[i][2]);
    }
    parse();
    for (int i = 0; i < np; i++) {
        std::string n = "Particle " + std::to_string(i + 1);
        const Block *b = block(n.c_str());
        text(b, "Name", W[i % 3]); text(b, "Number", N[i % 3]); text(b, "Type", T[i % 3]); text(b, "Output", i == 1 ? "0" : "1");
        real(b, "Energy1", v[i][0] / u.RefEnergy()); real(b, "Energy2", v[i][1] / u.RefEnergy()); real(b, "Radius", v[i][2] / u.RefLength());
        real(b, "Divergence", v[i][3]); real(b, "Duration", v[i][4] / u.RefTime());
        three(b, "Direction", d[i], 1); three(b, "Position", x[i], u.RefLength());
    }
    for (int i = 0; i < nh; i++) {
        std::string n = "Histogram " + std::to_string(i + 1);
        const Block *b = block(n.c_str());
        text(b, "Name", W[2 - i % 3]); text(b, "Particle", T[i % 3]); text(b, "Bins", N[i % 3]);
        real(b, "Time", h[i][0] / u.RefTime()); real(b, "Min Bin", h[i][1]); real(b, "Max Bin", h[i][2]);
    }
    vf_assert((int)blocks.size() == 2 + np + nh, "no section is made up");
    vf_reach("rows");
}
void q_rows() { int np = vf_choice("particles", 4), nh = vf_choice("histograms", 4); rows(np, nh); }
void q_large() { int w = vf_choice("many", 3); rows(w == 1 ? 0 : 11, w == 0 ? 1 : 12); }
// off: nothing is written
void q_off()
{
    deck = ""; general(1, 2, false);
    vf_file("c28.ini", deck.c_str());
    vf_file("input-check.txt", "old\n");
    delete new FileParser("c28.ini");
    std::ifstream f("input-check.txt");
    std::string l;
    std::getline(f, l);
    vf_assert(l == "old", "without a request no summary is written");
    vf_reach("off");
}
}
