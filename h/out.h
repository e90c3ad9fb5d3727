// reading the modelled output file back
#pragma once
#include "physics.h"
#include "H5Cpp.h"
#include "UnitsSystem.hh"
#include "OutputManager.hh"
static const char *NAME3[3] = {"Electron", "Positron", "Photon"};
static const char *SET3[3] = {"Electrons", "Positrons", "Photons"};
static const H5::Node *node(const std::string &p)
{
    H5::Store *s = H5::store("out.h5");
    return s ? H5::find(s, p) : NULL;
}
static bool is_group(const std::string &p) { const H5::Node *n = node(p); return n && n->group; }
static const H5::Node *set_at(const std::string &p, size_t n, size_t m, const char *l)
{
    const H5::Node *d = node(p);
    vf_assert(d && !d->group, l);
    if (!d || d->group) return NULL;
    bool ok = d->rank == (m ? 2 : 1) && d->dim[0] == n && (!m || d->dim[1] == m);
    vf_assert(ok, l);
    return ok ? d : NULL;
}
static int sets()
{
    int k = 0;
    H5::Store *s = H5::store("out.h5");
    for (size_t i = 0; i < s->nodes.size(); i++) k += !s->nodes[i]->group;
    return k;
}
struct Scale {
    double e, p, x, t;
    Scale(const UnitsSystem *u)
    {
        e = u ? u->RefEnergy() : 1; p = u ? u->RefMomentum() : 1; x = u ? u->RefLength() : 1; t = u ? u->RefTime() : 1;
    }
};
// expected row of a stored particle
struct Row { double v[8]; };
static Row row_of(int id, const Particle *p)
{
    Row r;
    ThreeVector m = p->GetMomentum(), x = p->GetPosition();
    r.v[0] = id; r.v[1] = p->GetEnergy();
    for (int i = 0; i < 3; i++) { r.v[2 + i] = m[i]; r.v[5 + i] = x[i]; }
    return r;
}
static void same_row(const double *d, const Row &r, const Scale &s, const char *l)
{
    vf_eq(d[0], r.v[0], l);
    vf_eqs(d[1], r.v[1] * s.e, s.e, l);
    for (int i = 2; i < 5; i++) vf_eqs(d[i], r.v[i] * s.p, s.p, l);
    for (int i = 5; i < 8; i++) vf_eqs(d[i], r.v[i] * s.x, s.x, l);
}
static void same_rows(const std::string &p, const std::vector<Row> &rows, const Scale &s, const char *l)
{
    const H5::Node *d = set_at(p, rows.size(), 8, l);
    if (!d) return;
    for (size_t i = 0; i < rows.size(); i++) same_row(d->data + 8 * i, rows[i], s, l);
}
static Particle *any_part(int kind, bool track = false)
{
    ThreeVector x = rvec("x"), p = rvec("p");
    double w = vf_pos("w"), t = vf_nonneg("t");
    return mkpart(kind, x, p, w, t, track);
}
