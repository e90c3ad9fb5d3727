#include "out.h"
#include "Histogram.hh"
#include "mpi.h"
static UnitsSystem *U;
static OutputManager *manager() { return U ? new OutputManager("out.h5", U) : new OutputManager("out.h5"); }
struct Expect { std::vector<Row> first, last[3]; };
// one rank's events of one source
static void fill(OutputManager *o, Expect &e, int events, int most)
{
    o->InitSource(events);
    for (int id = 0; id < events; id++) {
        ParticleList *list = new ParticleList("event", 8);
        list->AddParticle(any_part(vf_choice("primary", 2)));
        o->StoreSource(list, id, true);
        e.first.push_back(row_of(id, list->GetParticle(0)));
        int n = vf_choice("created", most);
        for (int i = 0; i < n; i++) list->AddParticle(any_part(1 + vf_choice("kind", 2)));
        if (vf_choice("killed", 2)) list->GetParticle(n)->Kill();
        o->StoreSource(list, id, false);
        for (int i = 0; i <= n; i++) {
            Particle *q = list->GetParticle(i);
            if (!q->IsAlive()) continue;
            for (int j = 0; j < 3; j++) if (q->GetName() == NAME3[j]) e.last[j].push_back(row_of(id, q));
        }
        delete list;
    }
}
static void compare(const std::string &g, const Expect &e, const Scale &s)
{
    vf_assert(is_group(g), "the source's group exists");
    same_rows(g + "/Primary", e.first, s, "the merged file holds every process's primaries once, in process order");
    for (int j = 0; j < 3; j++)
        if (e.last[j].size() || node(g + "/" + SET3[j]))
            same_rows(g + "/" + SET3[j], e.last[j], s, "the merged file holds every process's particles once, in process order");
}
static void events(int procs, int evs, int most, int tracks = 0)
{
    U = vf_choice("units", 2) ? new UnitsSystem("SI") : NULL;
    Scale s(U);
    mpi::start(procs);
    Expect part[4], all;
    for (int r = procs - 1; r >= 0; r--) {
        mpi::as(r);
        OutputManager *o = manager();
        int n = vf_choice("events", evs + 1);
        fill(o, part[r], n, most);
        o->OutputEventsMPI(true, tracks);
        delete o;
    }
    for (int r = 0; r < procs; r++) {
        all.first.insert(all.first.end(), part[r].first.begin(), part[r].first.end());
        for (int j = 0; j < 3; j++) all.last[j].insert(all.last[j].end(), part[r].last[j].begin(), part[r].last[j].end());
    }
    mpi::end();
    compare("Particles/ParticleSource", all, s);
    vf_reach("events");
}
extern "C" void q_one() { events(1, 2, 2); }
extern "C" void q_two() { events(2, 1, 3); }
extern "C" void q_three() { events(3, 1, 2, 1); }
extern "C" void t_two() { events(2, 2, 2); }
extern "C" void t_three() { events(3, 1, 3); }
// two sources one after the other
extern "C" void q_sources()
{
    int procs = 2;
    U = NULL;
    mpi::start(procs);
    Expect part[2][2];
    int n[2][2];
    for (int r = procs - 1; r >= 0; r--) {
        mpi::as(r);
        OutputManager *o = manager();
        for (int k = 0; k < 2; k++) {
            n[r][k] = vf_choice("events", 2);
            fill(o, part[r][k], n[r][k], 1 + vf_tier());
            o->OutputEventsMPI(true, false);
        }
        o->OutputEventsMPI(false, vf_choice("tracks", 2));
        delete o;
    }
    mpi::end();
    for (int k = 0; k < 2; k++) {
        std::string g = "Particles/ParticleSource";
        if (k) {
            H5::Store *f = H5::store("out.h5");
            std::string second;
            for (size_t i = 0; i < f->nodes.size(); i++) {
                const std::string &p = f->nodes[i]->path;
                size_t l = p.rfind("/Primary");
                if (l != std::string::npos && p.substr(0, l) != g) second = p.substr(0, l);
            }
            vf_assert(!second.empty(), "the events of every source are written");
            g = second;
        }
        Expect all;
        for (int r = 0; r < procs; r++) {
            all.first.insert(all.first.end(), part[r][k].first.begin(), part[r][k].first.end());
            for (int j = 0; j < 3; j++) all.last[j].insert(all.last[j].end(), part[r][k].last[j].begin(), part[r][k].last[j].end());
        }
        compare(g, all, Scale(NULL));
    }
    vf_reach("sources");
}
// histograms, several in a row, after events
static void hists(int procs, int count, int bins, bool with)
{
    U = vf_choice("units", 2) ? new UnitsSystem("SI") : NULL;
    Scale s(U);
    mpi::start(procs);
    double lo[3], hi[3], sum[3][5];
    for (int h = 0; h < count; h++) {
        lo[h] = vf_real("lo"); hi[h] = vf_real("hi");
        vf_assume_lt(lo[h], hi[h]);
        for (int i = 0; i < 5; i++) sum[h][i] = 0;
    }
    Expect part[4], all;
    for (int r = procs - 1; r >= 0; r--) {
        mpi::as(r);
        OutputManager *o = manager();
        if (with) { fill(o, part[r], vf_choice("events", 2), 1); o->OutputEventsMPI(true, false); }
        for (int h = 0; h < count; h++) {
            Histogram x(h ? (h == 1 ? "h1" : "h2") : "h0", "Electron", "Energy", 0, lo[h], hi[h], bins + h);
            for (int i = 0; i < bins + h; i++) { double v = vf_nonneg("count"); x.GetBinValues()[i] = v; sum[h][i] += v; }
            o->OutputHistMPI(&x);
        }
        delete o;
    }
    mpi::end();
    for (int h = 0; h < count; h++) {
        std::string g = std::string("Histograms/h") + char('0' + h);
        vf_assert(is_group(g), "every histogram has its group");
        const char *l = "a merged histogram is the sum over all processes";
        const H5::Node *b = set_at(g + "/BinCentres", bins + h, 0, l), *d = set_at(g + "/BinValues", bins + h, 0, l);
        if (!b || !d) return;
        for (int i = 0; i < bins + h; i++) {
            vf_eq(b->data[i], lo[h] + i * (hi[h] - lo[h]) / (bins + h - 1), "a merged histogram keeps its bin centres");
            vf_eq(d->data[i], sum[h][i], l);
        }
    }
    if (with) {
        for (int r = 0; r < procs; r++) {
            all.first.insert(all.first.end(), part[r].first.begin(), part[r].first.end());
            for (int j = 0; j < 3; j++) all.last[j].insert(all.last[j].end(), part[r].last[j].begin(), part[r].last[j].end());
        }
        compare("Particles/ParticleSource", all, s);
    }
    vf_reach("histograms");
}
extern "C" void q_hist() { int p = 1 + vf_choice("processes", 3), n = 2 + vf_choice("bins", 3); hists(p, 1, n, false); }
extern "C" void q_hists() { int p = 1 + vf_choice("processes", 3); hists(p, 2, 2, false); }
extern "C" void q_both() { int p = 2 + vf_choice("processes", 2); hists(p, 1, 2, true); }
extern "C" void t_hists() { int p = 2 + vf_choice("processes", 3); hists(p, 3, 2, false); }
// more processes, events, particles, histograms and bins
extern "C" void q_large()
{
    int procs = vf_choice("processes", 2) ? 9 : 5, how = vf_choice("how", 2);
    mpi::orderly() = vf_choice("last sent arrives first", 2) ? -1 : 1;
    double v = vf_real("v");
    U = NULL;
    mpi::start(procs);
    Expect part[9], all;
    int nb = 40, nh = 11;
    for (int r = procs - 1; r >= 0; r--) {
        mpi::as(r);
        OutputManager *o = manager();
        if (how == 0) {
            int evs = r % 3, n = r % 2 ? 12 : 3;
            o->InitSource(evs);
            for (int id = 0; id < evs; id++) {
                ParticleList list("event", 20);
                for (int i = 0; i < n; i++) list.AddParticle(mkpart((i + r) % 3, ThreeVector(v, r, i), ThreeVector(0, 0, 0.75 * (1 + r)), 1, 0, false));
                o->StoreSource(&list, id, true);
                part[r].first.push_back(row_of(id, list.GetParticle(0)));
                for (int i = 0; i < n; i++) if ((i + id) % 4 == 1) list.GetParticle(i)->Kill();
                o->StoreSource(&list, id, false);
                for (int i = 0; i < n; i++) {
                    Particle *q = list.GetParticle(i);
                    if (!q->IsAlive()) continue;
                    for (int j = 0; j < 3; j++) if (q->GetName() == NAME3[j]) part[r].last[j].push_back(row_of(id, q));
                }
            }
            o->OutputEventsMPI(true, false);
        } else for (int h = 0; h < nh; h++) {
            Histogram x("h" + std::to_string(h), "Electron", "Energy", 0, 0, nb - 1 + h, nb + h);
            for (int i = 0; i < nb + h; i++) x.GetBinValues()[i] = v + r * 100 + i * h;
            o->OutputHistMPI(&x);
        }
        delete o;
    }
    mpi::end();
    mpi::orderly() = 0;
    if (how == 0) {
        for (int r = 0; r < procs; r++) {
            all.first.insert(all.first.end(), part[r].first.begin(), part[r].first.end());
            for (int j = 0; j < 3; j++) all.last[j].insert(all.last[j].end(), part[r].last[j].begin(), part[r].last[j].end());
        }
        compare("Particles/ParticleSource", all, Scale(NULL));
    } else for (int h = 0; h < nh; h++) {
        std::string g = "Histograms/h" + std::to_string(h);
        const char *l = "a merged histogram is the sum over all processes";
        const H5::Node *b = set_at(g + "/BinCentres", nb + h, 0, l), *d = set_at(g + "/BinValues", nb + h, 0, l);
        if (!b || !d) return;
        for (int i = 0; i < nb + h; i++) {
            vf_eq(b->data[i], i, "a merged histogram keeps its bin centres");
            vf_eqs(d->data[i], procs * (v + i * h) + 100 * procs * (procs - 1) / 2, 1, l);
        }
    }
    vf_reach("large");
}
