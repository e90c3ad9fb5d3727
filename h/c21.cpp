#include "physics.h"
// a particle whose destruction is counted
static int freed[600];
struct Counted : Lepton {
    int id;
    Counted(int i, double z, double q = -1, bool rest = false) : Lepton(1, q, ThreeVector(z, i, 0), ThreeVector(0, 0, rest ? 0 : 1)), id(i) {}
    ~Counted() { freed[id]++; }
};
struct Light : Photon {
    int id;
    Light(int i, double z) : Photon(ThreeVector(z, i, 0), ThreeVector(0, 0, 1), 1, 0, true), id(i) {}
    ~Light() { freed[id]++; }
};
static Particle *make(int i, int kind, double x) {
    if (kind == 2) return new Light(i, x);
    return new Counted(i, x, kind == 1 ? 1 : -1, kind == 3);
}
extern "C" void q_list()
{
    int cap = vf_choice("capacity", vf_tier() ? 5 : 4), n = vf_choice("adds", cap + 3);
    for (int i = 0; i < 8; i++) freed[i] = 0;
    double x = vf_real("x");
    int kind = vf_choice("kind", 4), dead = vf_choice("dead", 4), late = vf_choice("late", 2);
    Particle *p[8];
    for (int i = 0; i < n; i++) p[i] = make(i, (kind + i) % 4, x);
    if (!late) for (int i = 0; i < n; i++) if (dead == 3 || i == dead) p[i]->Kill();
    ParticleList *list = new ParticleList("some name", cap);
    vf_assert(list->GetNPart() == 0, "a new list is empty");
    for (int i = 0; i < n; i++) {
        list->AddParticle(p[i]);
        int want = i + 1 < cap ? i + 1 : cap;
        vf_assert((int)list->GetNPart() == want, "count follows the particles added, up to the capacity");
        for (int j = 0; j < want; j++) vf_assert(list->GetParticle(j) == p[j], "particles come back in order of addition");
        vf_assert(list->GetName() == "some name", "name kept");
    }
    for (int i = 0; i < n; i++) vf_assert(freed[i] == 0, "nothing freed while the list lives");
    if (late) for (int i = 0; i < n; i++) if (dead == 3 || i == dead) p[i]->Kill();
    for (int i = 0; i < n; i++) vf_assert(p[i]->IsAlive() == !(dead == 3 || i == dead), "particles are left alive or dead");
    for (int i = 0; i < n; i++) vf_eq(p[i]->GetPosition()[0], x, "particles are left unchanged");
    delete list;
    for (int i = 0; i < n; i++) {
        if (i < cap) vf_assert(freed[i] == 1, "each particle of the list is freed exactly once");
        else vf_assert(freed[i] == 0, "a refused particle is not freed by the list");
    }
    for (int i = cap; i < n; i++) delete p[i];
    vf_reach("list");
}
// default capacity holds one million
extern "C" void q_default()
{
    ParticleList list("d");
    vf_assert(list.GetNPart() == 0, "a new list is empty");
    Counted *p = new Counted(0, 1), *q = new Counted(1, 1);
    list.AddParticle(p);
    list.AddParticle(q);
    vf_assert(list.GetNPart() == 2 && list.GetParticle(0) == p && list.GetParticle(1) == q, "default list keeps particles in order");
    vf_assert(list.GetName() == "d", "name kept");
    vf_reach("default");
}
// more particles than any small reserve, up to and beyond the capacity
extern "C" void q_large()
{
    static const int C[] = {9, 17, 64, 100, 257, 500};
    int cap = C[vf_choice("capacity", 6)], n = cap + vf_choice("over", 3) - 1;
    static Particle *p[600];
    for (int i = 0; i < 600; i++) freed[i] = 0;
    ParticleList *list = new ParticleList("l", cap);
    for (int i = 0; i < n; i++) {
        p[i] = make(i, i % 4, i);
        if (i % 7 == 3) p[i]->Kill();
        list->AddParticle(p[i]);
        vf_assert((int)list->GetNPart() == (i + 1 < cap ? i + 1 : cap), "count follows the particles added, up to the capacity");
    }
    for (int i = 0; i < n && i < cap; i++) vf_assert(list->GetParticle(i) == p[i], "particles come back in order of addition");
    for (int i = 0; i < n; i++) {
        vf_assert(freed[i] == 0, "nothing freed while the list lives");
        vf_assert(p[i]->IsAlive() == (i % 7 != 3), "particles are left alive or dead");
        vf_eq(p[i]->GetPosition()[0], i, "particles are left unchanged");
    }
    delete list;
    for (int i = 0; i < n; i++) {
        if (i < cap) vf_assert(freed[i] == 1, "each particle of the list is freed exactly once");
        else { vf_assert(freed[i] == 0, "a refused particle is not freed by the list"); delete p[i]; }
    }
    vf_reach("large");
}
// the list that is made without a capacity
extern "C" void q_default_many()
{
    int n = vf_choice("n", 2) ? 590 : 130;
    static Particle *p[600];
    for (int i = 0; i < 600; i++) freed[i] = 0;
    {
        ParticleList list("d");
        for (int i = 0; i < n; i++) list.AddParticle(p[i] = make(i, i % 4, i));
        vf_assert((int)list.GetNPart() == n, "a list without a capacity takes every particle of a cascade");
        for (int i = 0; i < n; i++) vf_assert(list.GetParticle(i) == p[i], "default list keeps particles in order");
    }
    for (int i = 0; i < n; i++) vf_assert(freed[i] == 1, "each particle of the list is freed exactly once");
    vf_reach("many");
}
