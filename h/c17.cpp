#include "out.h"
#include "Histogram.hh"
// every output call is meant to succeed: an uncaught exception is a violation
static UnitsSystem *units() { return vf_choice("units", 2) ? new UnitsSystem("SI") : NULL; }
static OutputManager *manager(UnitsSystem *u) { return u ? new OutputManager("out.h5", u) : new OutputManager("out.h5"); }
static void basic()
{
    vf_assert(is_group("Particles") && is_group("Fields") && is_group("Histograms"), "the file has its particle, field and histogram groups");
}
extern "C" void q_groups()
{
    UnitsSystem *u = units();
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    basic();
    delete o;
    basic();
    vf_assert(H5::store("out.h5")->open == 0, "the file is closed at the end");
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("groups");
}
// one event: what is expected of it
struct Expect { std::vector<Row> first, last[3]; };
static void store_event(OutputManager *o, Expect &e, int id, int most)
{
    ParticleList *list = new ParticleList("event", 8);
    int k = vf_choice("primary", 3);
    list->AddParticle(any_part(k));
    o->StoreSource(list, id, true);
    e.first.push_back(row_of(id, list->GetParticle(0)));
    int n = vf_choice("created", most);
    for (int i = 0; i < n; i++) list->AddParticle(any_part(vf_choice("kind", 3)));
    ThreeVector x = rvec("x"), p = rvec("p");
    list->GetParticle(0)->UpdateTrack(x, p);
    for (int i = 0; i <= n; i++) if (vf_choice("killed", 2)) list->GetParticle(i)->Kill();
    o->StoreSource(list, id, false);
    for (int i = 0; i <= n; i++) {
        Particle *q = list->GetParticle(i);
        if (!q->IsAlive()) continue;
        for (int j = 0; j < 3; j++) if (q->GetName() == NAME3[j]) e.last[j].push_back(row_of(id, q));
    }
    delete list;
}
static int event_sets(const std::string &g, const Expect &e, const Scale &s)
{
    int k = 1;
    vf_assert(is_group(g), "the source's group exists");
    same_rows(g + "/Primary", e.first, s, "each stored event has its primary row");
    for (int j = 0; j < 3; j++) {
        if (e.last[j].size()) { k++; same_rows(g + "/" + SET3[j], e.last[j], s, "each live particle at the end of an event has its row"); }
        else if (node(g + "/" + SET3[j])) { k++; same_rows(g + "/" + SET3[j], e.last[j], s, "no row for what is not there"); }
    }
    return k;
}
static void events(int n, int most)
{
    UnitsSystem *u = units();
    Scale s(u);
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    {
        Expect e;
        o->InitSource(n);
        for (int i = 0; i < n; i++) store_event(o, e, i, most);
        int order = 0;
        (void)order;
        o->OutputEvents(true, false);
        int k = event_sets("Particles/ParticleSource", e, s);
        vf_assert(sets() == k, "nothing but the stored events is written");
    }
    basic();
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("events");
}
extern "C" void q_event() { events(1, 3); }
extern "C" void q_events2() { events(2, 2); }
extern "C" void t_events2() { events(2, 3); }
extern "C" void t_event3() { events(1, 4); }
extern "C" void q_no_event()
{
    OutputManager *o = manager(units());
    o->InitSource(1 + vf_choice("events", 2));
    o->OutputEvents(false, vf_choice("tracks", 2));
    vf_assert(sets() == 0, "nothing is written when no output is asked for");
    delete o;
    vf_reach("none");
}
// several sources of one run, and events stored in any order
extern "C" void q_sources()
{
    UnitsSystem *u = units();
    Scale s(u);
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    {
        Expect e[2];
        int skip = vf_choice("silent source between", 2);
        o->InitSource(1);
        store_event(o, e[0], 0, 2);
        o->OutputEvents(true, false);
        if (skip) o->OutputEvents(false, false);
        o->InitSource(2);
        Expect x;
        store_event(o, x, 1, 1);
        store_event(o, e[1], 0, 1);
        e[1].first.push_back(x.first[0]);
        for (int j = 0; j < 3; j++) e[1].last[j].insert(e[1].last[j].end(), x.last[j].begin(), x.last[j].end());
        o->OutputEvents(true, false);
        int k = event_sets("Particles/ParticleSource", e[0], s);
        // the second source is in a group of its own, whatever its name
        std::string second;
        H5::Store *f = H5::store("out.h5");
        for (size_t i = 0; i < f->nodes.size(); i++) {
            const std::string &p = f->nodes[i]->path;
            size_t l = p.rfind("/Primary");
            if (l != std::string::npos && p.substr(0, l) != "Particles/ParticleSource") second = p.substr(0, l);
        }
        vf_assert(!second.empty(), "the events of every source are written");
        k += event_sets(second, e[1], s);
        vf_assert(sets() == k, "nothing but the stored events is written");
    }
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("sources");
}
struct Hist { std::vector<ThreeVector> x, p; std::vector<double> t, g; };
static Particle *tracked(int kind, int n, Hist &h)
{
    Particle *p = any_part(kind, true);
    for (int i = 0; i < n; i++) {
        double dt = vf_pos("dt");
        p->UpdateTime(dt);
        ThreeVector x = rvec("x"), m = rvec("p");
        p->UpdateTrack(x, m);
    }
    h.x = p->GetPosHist(); h.p = p->GetMomHist(); h.t = p->GetTimeHist(); h.g = p->GetGammaHist();
    return p;
}
static void same_track(const std::string &g, const Hist &h, const Scale &s)
{
    size_t n = h.x.size();
    vf_assert(is_group(g), "every track has its group");
    const char *l = "a track holds position, momentum, time and gamma of every step";
    const H5::Node *x = set_at(g + "/Position", n, 3, l), *p = set_at(g + "/Momentum", n, 3, l), *t = set_at(g + "/Time", n, 0, l), *m = set_at(g + "/Gamma", n, 0, l);
    if (!x || !p || !t || !m) return;
    for (size_t i = 0; i < n; i++) {
        for (int j = 0; j < 3; j++) {
            vf_eqs(x->data[3 * i + j], h.x[i][j] * s.x, s.x, "positions of tracks in the declared units");
            vf_eqs(p->data[3 * i + j], h.p[i][j] * s.p, s.p, "momenta of tracks in the declared units");
        }
        vf_eqs(t->data[i], h.t[i] * s.t, s.t, "times of tracks in the declared units");
        vf_eq(m->data[i], h.g[i], "gamma of tracks is dimensionless");
    }
}
static std::string num(int i) { return std::to_string(i); }
static void tracks(int lists, int parts, int steps)
{
    UnitsSystem *u = units();
    Scale s(u);
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    {
        std::vector<Hist> h;
        int half = vf_choice("output between", 2);
        for (int i = 0; i < lists; i++) {
            ParticleList list("event", 8);
            int n = 1 + vf_choice("parts", parts);
            for (int j = 0; j < n; j++) {
                Hist x;
                int kind = vf_choice("kind", 3), st = vf_choice("steps", steps);
                list.AddParticle(tracked(kind, st, x));
                h.push_back(x);
            }
            o->StoreTrack(&list, i);
            if (half && i == 0) o->OutputEvents(false, true);
        }
        o->OutputEvents(false, true);
        for (size_t i = 0; i < h.size(); i++) same_track("Particles/ParticleTrack/Event" + num(i), h[i], s);
        vf_assert(sets() == 4 * (int)h.size(), "every track is written once");
    }
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("tracks");
}
extern "C" void q_track() { tracks(1, 1, 3); }
extern "C" void q_tracks() { tracks(2, 1, 2); }
extern "C" void t_tracks() { tracks(2, 2, 3); }
extern "C" void q_single()
{
    UnitsSystem *u = units();
    Scale s(u);
    OutputManager *o = manager(u);
    Hist h[2];
    int n = 1 + vf_choice("particles", 2);
    for (int i = 0; i < n; i++) {
        int kind = vf_choice("kind", 3), st = 1 + vf_choice("steps", 2);
        Particle *p = tracked(kind, st, h[i]);
        o->SingleParticle(p, "part" + num(i));
        delete p;
    }
    for (int i = 0; i < n; i++) same_track("Particles/Single/part" + num(i), h[i], s);
    vf_assert(sets() == 4 * n, "every particle is written once");
    basic();
    delete o;
    vf_reach("single");
}
extern "C" void q_untracked()
{
    OutputManager *o = manager(NULL);
    vf_exit_ok(1);
    vf_reach("untracked");
    Particle *p = any_part(vf_choice("kind", 3));
    if (vf_choice("list", 2)) {
        ParticleList list("l", 2);
        list.AddParticle(p);
        o->ListTracks(&list, "name");
    } else o->SingleParticle(p, "name");
    vf_assert(0, "a particle without history is refused");
}
static void list_tracks(OutputManager *o, const Scale &s, const char *name, int most, int steps)
{
    ParticleList list("list", 8);
    Hist h[3];
    int n = vf_choice("parts", most + 1);
    for (int i = 0; i < n; i++) {
        int kind = vf_choice("kind", 3), st = 1 + vf_choice("steps", steps);
        list.AddParticle(tracked(kind, st, h[i]));
    }
    o->ListTracks(&list, name);
    for (int i = 0; i < n; i++) same_track(std::string("Particles/ParticleList/") + name + "/" + num(i), h[i], s);
}
static void list_props(OutputManager *o, const Scale &s, const char *name, const char *sname, int most)
{
    ParticleList list(name, 8);
    int n = vf_choice("parts", most + 1), k = 0;
    double want[4][5];
    for (int i = 0; i < n; i++) {
        Particle *p = any_part(vf_choice("kind", 3));
        list.AddParticle(p);
        if (vf_choice("killed", 2)) { p->Kill(); continue; }
        want[k][0] = i; want[k][1] = p->GetEnergy();
        for (int j = 0; j < 3; j++) want[k][2 + j] = p->GetPosition()[j];
        k++;
    }
    o->ListProperties(&list, sname);
    const char *l = "a list output holds each live particle's number, energy and position";
    const H5::Node *d = set_at(std::string("Particles/ParticleList/") + name + "/" + sname, k, 5, l);
    if (!d) return;
    for (int i = 0; i < k; i++) {
        vf_eq(d->data[5 * i], want[i][0], l);
        vf_eqs(d->data[5 * i + 1], want[i][1] * s.e, s.e, l);
        for (int j = 2; j < 5; j++) vf_eqs(d->data[5 * i + j], want[i][j] * s.x, s.x, l);
    }
}
extern "C" void q_list_tracks()
{
    UnitsSystem *u = units();
    Scale s(u);
    OutputManager *o = manager(u);
    list_tracks(o, s, "a", 2, 2);
    basic();
    delete o;
    vf_reach("list tracks");
}
extern "C" void q_list_props()
{
    UnitsSystem *u = units();
    Scale s(u);
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    list_props(o, s, "l", "set", 2 + vf_tier());
    if (vf_choice("again", 2)) list_props(o, s, "l", "set2", 1);
    basic();
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("list properties");
}
class Arb : public EMField {
public:
    void GetField(double t, const ThreeVector &x, ThreeVector &E, ThreeVector &B) const
    {
        const char *n[6] = {"E0", "E1", "E2", "B0", "B1", "B2"};
        for (int i = 0; i < 3; i++) {
            E[i] = vf_uf4(n[i], t, x[0], x[1], x[2]);
            B[i] = vf_uf4(n[3 + i], t, x[0], x[1], x[2]);
        }
    }
};
static void axis(std::vector<double> &v, const char *n, int k) { for (int i = 0; i < k; i++) { double a = vf_real(n); v.push_back(a); } }
static void field_out(OutputManager *o, int nt, int nx, int ny, int nz)
{
    Arb f;
    std::vector<double> t, x, y, z;
    axis(t, "t", nt); axis(x, "x", nx); axis(y, "y", ny); axis(z, "z", nz);
    o->OutEMField(&f, t, x, y, z);
    for (int it = 0; it < nt; it++) {
        std::string g = "Fields/" + num(it);
        vf_assert(is_group(g), "every field time has its group");
        for (int d = 0; d < 3; d++) {
            const H5::Node *e = node(g + "/E" + num(d)), *b = node(g + "/B" + num(d));
            vf_assert(e && b, "all six components are written");
            if (!e || !b) return;
            bool ok = e->rank == 3 && b->rank == 3;
            int n[3] = {nx, ny, nz};
            for (int i = 0; i < 3 && ok; i++) ok = e->dim[i] == n[i] && b->dim[i] == n[i];
            vf_assert(ok, "field samples have one axis per coordinate");
            if (!ok) return;
            for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) {
                ThreeVector E, B;
                f.GetField(t[it], ThreeVector(x[i], y[j], z[k]), E, B);
                vf_eq(e->data[(i * ny + j) * nz + k], E[d], "a field sample is the field at its time and place");
                vf_eq(b->data[(i * ny + j) * nz + k], B[d], "a field sample is the field at its time and place");
            }
        }
    }
}
extern "C" void q_field()
{
    UnitsSystem *u = units();
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    int nt = 1 + vf_choice("times", 2);
    int nx = 1 + vf_choice("nx", 2), ny = 1 + vf_choice("ny", 2), nz = 1 + vf_choice("nz", 2 + vf_tier());
    field_out(o, nt, nx, ny, nz);
    vf_assert(sets() == 6 * nt, "field samples are written once");
    basic();
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("field");
}
static void hist_out(OutputManager *o, const char *name, int n)
{
    double lo = vf_real("lo"), hi = vf_real("hi");
    vf_assume_lt(lo, hi);
    Histogram h(name, "Electron", "Energy", 0, lo, hi, n);
    double c[4], v[4];
    for (int i = 0; i < n; i++) { v[i] = vf_nonneg("count"); h.GetBinValues()[i] = v[i]; c[i] = h.GetBinCentres()[i]; }
    o->OutputHist(&h);
    std::string g = std::string("Histograms/") + name;
    vf_assert(is_group(g), "every histogram has its group");
    const H5::Node *b = set_at(g + "/BinCentres", n, 0, "a histogram holds its bin centres"), *d = set_at(g + "/BinValues", n, 0, "a histogram holds its counts");
    if (!b || !d) return;
    for (int i = 0; i < n; i++) {
        vf_eq(b->data[i], c[i], "a histogram holds its bin centres");
        vf_eq(d->data[i], v[i], "a histogram holds its counts");
    }
}
extern "C" void q_hist()
{
    UnitsSystem *u = units();
    H5::reset(); unsigned long a = vf_live();
    OutputManager *o = manager(u);
    int n = 1 + vf_choice("histograms", 2);
    for (int i = 0; i < n; i++) hist_out(o, i ? "h1" : "h0", 2 + vf_choice("bins", 3));
    vf_assert(sets() == 2 * n, "histograms are written once");
    delete o;
    H5::reset();
    vf_assert(vf_live() <= a, "nothing is leaked");
    vf_reach("histogram");
}
// any order of output calls
static void mixed(int n)
{
    UnitsSystem *u = units();
    Scale s(u);
    OutputManager *o = manager(u);
    bool used[7] = {0};
    int want = 0;
    for (int i = 0; i < n; i++) {
        int k = vf_choice("call", 7);
        vf_assume(!used[k]);
        used[k] = true;
        std::string tag = num(k);
        if (k == 0) { Hist h; Particle *p = tracked(0, 1, h); o->SingleParticle(p, "part"); delete p; same_track("Particles/Single/part", h, s); want += 4; }
        if (k == 1) {
            Hist h;
            ParticleList list("x", 2);
            list.AddParticle(tracked(1, 1, h));
            o->ListTracks(&list, "tracks");
            same_track("Particles/ParticleList/tracks/0", h, s);
            want += 4;
        }
        if (k == 2) { list_props(o, s, "props", "set", 0); want++; }
        if (k == 3) { Expect e; o->InitSource(1); store_event(o, e, 0, 1); o->OutputEvents(true, false); want += event_sets("Particles/ParticleSource", e, s); }
        if (k == 4) {
            Hist h;
            ParticleList list("x", 2);
            list.AddParticle(tracked(2, 1, h));
            o->StoreTrack(&list, 0);
            o->OutputEvents(false, true);
            same_track("Particles/ParticleTrack/Event0", h, s);
            want += 4;
        }
        if (k == 5) { field_out(o, 1, 1, 1, 1); want += 6; }
        if (k == 6) { hist_out(o, "h", 2); want += 2; }
        vf_assert(sets() == want, "every output is written once, in any order of calls");
        basic();
    }
    delete o;
    vf_reach("mixed");
}
extern "C" void q_mixed() { mixed(2); }
extern "C" void t_mixed() { mixed(3); }
extern "C" void q_hdf5()
{
    HDF5Output *o = new HDF5Output("out.h5");
    double d[6];
    for (int i = 0; i < 6; i++) d[i] = vf_real("v");
    int rep = vf_choice("repeat", 3);
    for (int i = 0; i <= rep; i++) o->AddGroup("A");
    o->AddGroup("A/B");
    o->AddGroup("A");
    o->AddArray1D(d, 6, "A/one");
    o->AddArray2D(d, 2, 3, "A/B/two");
    o->AddArray3D(d, 1, 2, 3, "three");
    o->AddGroup("C");
    delete o;
    HDF5Output *p = new HDF5Output("out.h5", true);
    p->AddGroup("A");
    p->AddGroup("D");
    p->AddArray1D(d, 2, "D/one");
    delete p;
    vf_assert(is_group("A") && is_group("A/B") && is_group("C") && is_group("D"), "a group asked for exists, however often it was asked for");
    const H5::Node *n1 = set_at("A/one", 6, 0, "a vector keeps its length"), *n2 = set_at("A/B/two", 2, 3, "a matrix keeps its shape"), *n3 = node("three"),
        *n4 = set_at("D/one", 2, 0, "appending keeps what was there");
    vf_assert(n3 && n3->rank == 3 && n3->dim[0] == 1 && n3->dim[1] == 2 && n3->dim[2] == 3, "a block keeps its shape");
    for (int i = 0; i < 6; i++) {
        vf_eq(n1->data[i], d[i], "values are kept");
        vf_eq(n2->data[i], d[i], "values are kept");
        vf_eq(n3->data[i], d[i], "values are kept");
        if (i < 2) vf_eq(n4->data[i], d[i], "values are kept");
    }
    vf_reach("hdf5");
}
// the file of an earlier run is replaced
extern "C" void q_replaced()
{
    UnitsSystem *u = units();
    Scale s(u);
    H5::reset();
    int other = vf_choice("earlier by", 3);
    if (other == 0) { OutputManager *o = manager(u); hist_out(o, "old", 2); delete o; }
    if (other == 1) { OutputManager *o = manager(u); Expect e; o->InitSource(2); for (int i = 0; i < 2; i++) store_event(o, e, i, 1); o->OutputEvents(true, false); delete o; }
    if (other == 2) { double v[2] = {1, 2}; HDF5Output h("out.h5"); h.AddArray1D(v, 2, "Particles"); }
    OutputManager *o = manager(u);
    hist_out(o, "new", 2);
    Expect e;
    o->InitSource(1);
    store_event(o, e, 0, 1);
    o->OutputEvents(true, false);
    int k = 2 + event_sets("Particles/ParticleSource", e, s);
    delete o;
    basic();
    vf_assert(node("Histograms/old") == NULL && sets() == k, "a run replaces the file of an earlier one");
    vf_reach("replaced");
}
// as many events, particles, steps, tracks, sources, samples and bins as in use: row and group numbers of more than one digit
static Particle *numbered(int i, int kind, double v, bool track = false) { return mkpart(kind, ThreeVector(v, i, -i), ThreeVector(0, 0, 0.75 * (1 + i)), 1, 0, track); }
extern "C" void q_large_event()
{
    int n = vf_choice("particles", 2) ? 70 : 13, evs = n == 13 ? 12 : 2, u = vf_choice("units", 2);
    double v = vf_real("v");
    UnitsSystem *us = u ? new UnitsSystem("SI") : NULL;
    Scale s(us);
    OutputManager *o = manager(us);
    Expect e;
    o->InitSource(evs);
    for (int id = 0; id < evs; id++) {
        ParticleList list("event", 80);
        list.AddParticle(numbered(id, id % 3, v));
        o->StoreSource(&list, id, true);
        e.first.push_back(row_of(id, list.GetParticle(0)));
        for (int i = 1; i < n; i++) list.AddParticle(numbered(i + id, (i + i / 4) % 3, v));
        for (int i = 0; i < n; i++) if ((i + id) % 5 == 2) list.GetParticle(i)->Kill();
        o->StoreSource(&list, id, false);
        for (int i = 0; i < n; i++) {
            Particle *q = list.GetParticle(i);
            if (!q->IsAlive()) continue;
            for (int j = 0; j < 3; j++) if (q->GetName() == NAME3[j]) e.last[j].push_back(row_of(id, q));
        }
    }
    o->OutputEvents(true, false);
    vf_assert(event_sets("Particles/ParticleSource", e, s) == sets(), "nothing but the stored events is written");
    delete o;
    vf_reach("event");
}
extern "C" void q_large_tracks()
{
    int how = vf_choice("how", 4), parts = how == 3 ? 1 : 12, steps = how == 3 ? 140 : 2;
    double v = vf_real("v"), dt = vf_real("dt");
    OutputManager *o = manager(NULL);
    Scale s(NULL);
    Hist h[12];
    ParticleList list("list", 20);
    for (int i = 0; i < parts; i++) {
        Particle *p = numbered(i, i % 3, v, true);
        for (int j = 0; j < steps; j++) { p->UpdateTime(dt); p->UpdateTrack(ThreeVector(v, i, j), ThreeVector(0, 0, 0.75 * (1 + j % 7))); }
        h[i].x = p->GetPosHist(); h[i].p = p->GetMomHist(); h[i].t = p->GetTimeHist(); h[i].g = p->GetGammaHist();
        list.AddParticle(p);
    }
    std::string g;
    if (how == 0 || how == 3) { g = "Particles/ParticleTrack/Event"; o->StoreTrack(&list, 0); o->OutputEvents(false, true); }
    else if (how == 1) { g = "Particles/ParticleList/many/"; o->ListTracks(&list, "many"); }
    else {
        g = "Particles/Single/p";
        for (int i = 0; i < parts; i++) o->SingleParticle(list.GetParticle(i), "p" + num(i));
    }
    for (int i = 0; i < parts; i++) same_track(g + num(i), h[i], s);
    vf_assert(sets() == 4 * parts, "every track is written once");
    delete o;
    vf_reach("tracks");
}
extern "C" void q_large_rest()
{
    int how = vf_choice("how", 4);
    double v = vf_real("v");
    OutputManager *o = manager(NULL);
    if (how == 0) {
        Expect e[12];
        for (int k = 0; k < 12; k++) {
            o->InitSource(1);
            ParticleList list("event", 8);
            list.AddParticle(numbered(k, k % 3, v));
            o->StoreSource(&list, 0, true);
            e[k].first.push_back(row_of(0, list.GetParticle(0)));
            o->StoreSource(&list, 0, false);
            for (int j = 0; j < 3; j++) if (list.GetParticle(0)->GetName() == NAME3[j]) e[k].last[j].push_back(e[k].first[0]);
            o->OutputEvents(true, false);
        }
        // each source is in a group of its own, whatever its name
        H5::Store *f = H5::store("out.h5");
        int found = 0;
        bool seen[12] = {false};
        for (size_t i = 0; i < f->nodes.size(); i++) {
            const std::string &p = f->nodes[i]->path;
            size_t l = p.rfind("/Primary");
            if (l == std::string::npos) continue;
            int k = (int)(f->nodes[i]->data[6] + 0.5);
            vf_assert(k >= 0 && k < 12 && !seen[k], "the events of every source are written");
            if (k < 0 || k > 11) return;
            seen[k] = true; found++;
            event_sets(p.substr(0, l), e[k], Scale(NULL));
        }
        vf_assert(found == 12, "the events of every source are written");
    } else if (how == 1) { field_out(o, 12, 1, 1, 1); }
    else if (how == 2) { field_out(o, 1, 3, 4, 5); }
    else {
        ParticleList list("l", 40);
        for (int i = 0; i < 33; i++) { list.AddParticle(numbered(i, i % 3, v)); if (i % 4 == 1) list.GetParticle(i)->Kill(); }
        o->ListProperties(&list, "set");
        const H5::Node *d = set_at("Particles/ParticleList/l/set", 25, 5, "a list output holds each live particle's number, energy and position");
        for (int i = 0, k = 0; d && i < 33; i++) {
            if (i % 4 == 1) continue;
            vf_eq(d->data[5 * k], i, "a list output holds each live particle's number, energy and position");
            vf_eq(d->data[5 * k + 1], list.GetParticle(i)->GetEnergy(), "a list output holds each live particle's number, energy and position");
            vf_eq(d->data[5 * k + 3], i, "a list output holds each live particle's number, energy and position");
            k++;
        }
        Histogram h("h", "Electron", "x", 0, 0, 64, 65);
        for (int i = 0; i < 65; i++) h.GetBinValues()[i] = v * i;
        o->OutputHist(&h);
        const H5::Node *b = set_at("Histograms/h/BinCentres", 65, 0, "a histogram holds its bin centres"), *w = set_at("Histograms/h/BinValues", 65, 0, "a histogram holds its counts");
        for (int i = 0; b && w && i < 65; i++) { vf_eq(b->data[i], i, "a histogram holds its bin centres"); vf_eq(w->data[i], v * i, "a histogram holds its counts"); }
    }
    delete o;
    vf_reach("rest");
}
