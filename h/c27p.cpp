// C27: the scripting interface with two threads: every event is run once and reported once, as a single thread would
#include "physics.h"
#include "tables.h"
#include "threads.h"
#include "RunManager.hh"
#include <vector>
#include <string>
static const char *NAME3[3] = {"Electron", "Positron", "Photon"};
typedef std::vector<std::vector<double> > Table;
static Table table(const py::array_t<double> &a, int width)
{
    Table t;
    vf_assert(a.ndim() == 2 && a.shape(1) == width, "results are tables");
    for (int i = 0; i < (int)a.shape(0); i++) t.push_back(std::vector<double>(a.data() + width * i, a.data() + width * (i + 1)));
    return t;
}
static bool near(const std::vector<double> &a, const std::vector<double> &b)
{
    for (size_t i = 0; i < a.size(); i++) {
        double d = __builtin_fabs(a[i] - b[i]), s = __builtin_fabs(a[i]) + __builtin_fabs(b[i]);
        if (!(d <= 1e-12 * s)) return false;
    }
    return true;
}
// the same rows in any order
static void same(const Table &a, const Table &b, const char *l)
{
    vf_assert(a.size() == b.size(), l);
    std::vector<bool> used(b.size());
    for (size_t i = 0; i < a.size(); i++) {
        bool ok = false;
        for (size_t j = 0; j < b.size() && !ok; j++) if (!used[j] && near(a[i], b[j])) { used[j] = true; ok = true; }
        vf_assert(ok, l);
    }
}
static void tables()
{
    EmTables em(2, 2, 2);
    BwTables bw(2, 2);
    em.hy[0] = -5; em.hy[1] = -0.5;
    for (int i = 0; i < 2; i++) { em.d[i][1] = 0.9 + 0.05 * i; bw.d[i][1] = 0.9 + 0.05 * i; }
    bw.ty[0] = -8; bw.ty[1] = -1;
    em.write(); bw.write();
}
static RunManager *make(const char *model, const char *field, int kind, bool pairs, double energy, double sig, double radius, int steps)
{
    RunManager *m = new RunManager;
    m->setTime(1e-15, (steps - 0.5) * 1e-15);
    m->setField(field, 1e14, 1e-6, 1e-14, 2e-6, 0.5, ThreeVector(0, 0, -1e-6), ThreeVector(0, 0, 0));
    m->setPhysics(model);
    m->usePairProduction(pairs);
    m->setGenerator(NAME3[kind], "gaussian", energy * U().RefEnergy(), sig * U().RefEnergy(), radius, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, -1));
    return m;
}
extern "C" {
// photons of different energies come in once and go out once
void q_script_books()
{
    int th = vf_tier(), n = 2 + vf_choice("events", 2), steps = vf_choice("steps", 2);
    vf_switches(th ? 3 : 2);
    spread = 2;
    tables();
    RunManager *m = make("Quantum", "gaussian", 2, false, 10, 1, 0, steps);
    fresh_threads(1);
    int threads = 2 + (th && n > 2 && vf_choice("third thread", 2));
    m->beamOn(n, threads);
    distinct();
    Table in = table(m->getInput(), 6), out = table(m->getPhotons(), 7);
    vf_assert((int)in.size() == n && (int)out.size() == n, "every event is run and reported once");
    double P = U().RefMomentum();
    bool got[2][24] = {};
    for (int k = 0; k < 2; k++) {
        const Table &t = k ? out : in;
        for (int i = 0; i < (int)t.size() && i < n; i++) {
            double e = -t[i][2] / P;
            int tag = -1;
            for (int j = 0; j < 24; j++) if (e > 9.5 + j && e < 10.5 + j) tag = j;
            vf_assert(tag >= 0 && !got[k][tag] && (!k || got[0][tag]), "every event is run and reported once");
            if (tag >= 0) got[k][tag] = true;
        }
    }
    vf_assert(m->getElectrons().size() == 0 && m->getPositrons().size() == 0, "no particle is made up");
    delete m;
    vf_reach("books");
}
// the physics: what two threads report is what one thread reports
void q_script_physics()
{
    static const char *MODEL[3] = {"Classical", "Semiclassical", "Quantum"}, *FIELD[2] = {"gaussian", "focusing"};
    int th = vf_tier(), model = vf_choice("model", 3), fld = vf_choice("field", 2), kind = vf_choice("photon", 2) ? 2 : th ? vf_choice("positron", 2) : 0;
    bool pairs = kind == 2 || (th && vf_choice("pairs", 2));
    if (kind == 2) vf_assume(model == 0 || th);
    uniform = vf_choice("variates", 2) ? 0.75 : 1e-6;
    vf_switches(th ? 2 : 1);
    spread = 1;
    tables();
    Table r[2][4];
    for (int k = 0; k < 2; k++) {
        RunManager *m = make(MODEL[model], FIELD[fld], kind, pairs, 2000, 100, 1e-7, 2);
        fresh_threads(1);
        m->beamOn(2, k + 1);
        distinct();
        r[k][0] = table(m->getInput(), 6);
        r[k][1] = table(m->getElectrons(), 7);
        r[k][2] = table(m->getPositrons(), 7);
        r[k][3] = table(m->getPhotons(), 7);
        delete m;
    }
    vf_assert(r[0][0].size() == 2, "every event is run once");
    if (r[0][1].size() + r[0][2].size() + r[0][3].size() > 2) vf_reach("something happens");
    for (int k = 0; k < 4; k++) same(r[1][k], r[0][k], k ? "two threads report the particles that one does" : "two threads start from the particles that one does");
    vf_reach("physics");
}
}
