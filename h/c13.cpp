#include "physics.h"
#include <new>
#include "PlaneEMField.hh"
#include "StaticEMField.hh"

static ThreeVector cross(const ThreeVector &a, const ThreeVector &b)
{
    return ThreeVector(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static double dot(const ThreeVector &a, const ThreeVector &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static const double PI_ = 3.14159265359;

extern "C" void q_static()
{
    ThreeVector E = rvec("E"), B = rvec("B"), x = rvec("x"), y = rvec("y"), e = rvec("e"), b = rvec("b");
    double t = vf_real("t"), s = vf_real("s");
    StaticEMField f(E, B);
    f.GetField(t, x, e, b);
    eq3(e, E, 1e-3, "static electric field");
    eq3(b, B, 1e-3, "static magnetic field");
    EMField *g = &f;
    g->GetField(s, y, e, b);
    eq3(e, E, 1e-3, "static electric field everywhere, always");
    eq3(b, B, 1e-3, "static magnetic field everywhere, always");
    vf_reach("static");
}
static void wave(const ThreeVector &d, double L)
{
    double A = vf_pos("A"), lam = vf_pos("lambda"), pol = vf_real("pol"), t = vf_real("t");
    ThreeVector x = rvec("x"), E(7, -5, 3), B(2, 11, -13);
    ThreeVector n(d[0] / L, d[1] / L, d[2] / L);
    PlaneEMField f(A, lam, pol, d);
    const EMField *g = &f;
    g->GetField(t, x, E, B);
    double w = A * __builtin_cos((dot(n, x) - t) * (2 * PI_ / lam));
    vf_eqs(dot(E, n), 0, 1e-3, "E is transverse");
    vf_eqs(sq(E), w * w, 1, "amplitude, wavelength and speed");
    eq3(B, cross(n, E), 1, "B is E turned by a right angle: same size, E x B along the direction");
    vf_reach("plane");
}
// every direction in a coordinate plane, any length of it
extern "C" void q_plane()
{
    double u = vf_real("u"), L = vf_pos("L");
    int k = vf_choice("plane", 3);
    double c = L * (1 - u * u) / (1 + u * u), s = L * 2 * u / (1 + u * u), d[3];
    d[k] = 0; d[(k + 1) % 3] = c; d[(k + 2) % 3] = s;
    wave(ThreeVector(d[0], d[1], d[2]), L);
}
// any direction, any length of it
extern "C" void t_plane_general()
{
    double L;
    ThreeVector d = rmom("d", &L);
    wave(d, L);
}
// along the axes the polarisation is measured from the x axis of the turned frame
extern "C" void q_plane_axis()
{
    static const double ax[6][3] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, -1, 0}, {2. / 3, -1. / 3, 2. / 3}, {-0.6, 0, -0.8}};
    int k = vf_choice("axis", 6);
    ThreeVector n(ax[k][0], ax[k][1], ax[k][2]), x = rvec("x"), E(7, -5, 3), B(2, 11, -13);
    double s = vf_pos("length"), A = vf_pos("A"), lam = vf_pos("lambda"), pol = vf_real("pol"), t = vf_real("t");
    PlaneEMField f(A, lam, pol, ThreeVector(s * n[0], s * n[1], s * n[2]));
    f.GetField(t, x, E, B);
    double w = A * __builtin_cos((dot(n, x) - t) * (2 * PI_ / lam)), c = __builtin_cos(pol), q = __builtin_sin(pol);
    ThreeMatrix inv = n.RotateToAxis(ThreeVector(0, 0, 1)).Inverse();
    eq3(E, inv * ThreeVector(w * c, w * q, 0), 1, "E of the plane wave");
    eq3(B, inv * ThreeVector(-w * q, w * c, 0), 1, "B of the plane wave");
    if (k == 0) {
        vf_eqs(E[0], w * c, 1, "polarisation angle is measured from x");
        vf_eqs(E[1], w * q, 1, "polarisation angle is measured from x");
    }
    vf_reach("axis");
}
// the field asked before elsewhere, or another field before it, alive or gone (and at the same address): nothing of it is remembered
extern "C" void q_again()
{
    alignas(16) static char room[sizeof(PlaneEMField)];
    int how = vf_choice("before", 3), turned = vf_choice("turned", 2);
    double A = vf_pos("A"), lam = vf_pos("lambda"), pol = vf_real("pol"), t = vf_real("t"), A0 = A, lam0 = lam, pol0 = pol;
    if (how) { A0 = vf_pos("A0"); lam0 = vf_pos("lambda0"); pol0 = vf_real("pol0"); }
    ThreeVector x = rvec("x"), x0 = rvec("x0"), n(0, 0, 1), m(0, 0, 1), E(7, -5, 3), B(2, 11, -13);
    double t0 = vf_real("t0");
    if (turned) { if (how) m = ThreeVector(.6, 0, -.8); else m = n = ThreeVector(.6, 0, -.8); }
    PlaneEMField *other = NULL, *f;
    if (how == 1) other = new PlaneEMField(A0, lam0, pol0, m);
    else other = new (room) PlaneEMField(A0, lam0, pol0, m);
    other->GetField(t0, x0, E, B);
    if (how == 0) f = other;
    else {
        if (how == 2) other->~PlaneEMField();
        f = new (room) PlaneEMField(A, lam, pol, n);
    }
    f->GetField(t, x, E, B);
    double w = A * __builtin_cos((dot(n, x) - t) * (2 * PI_ / lam)), c = __builtin_cos(pol), q = __builtin_sin(pol);
    ThreeMatrix inv = n.RotateToAxis(ThreeVector(0, 0, 1)).Inverse();
    eq3(E, inv * ThreeVector(w * c, w * q, 0), 1, "E of the plane wave, whatever was asked before");
    eq3(B, inv * ThreeVector(-w * q, w * c, 0), 1, "B of the plane wave, whatever was asked before");
    f->~PlaneEMField();
    if (how == 1) delete other;
    vf_reach("again");
}
extern "C" void q_static_again()
{
    alignas(16) static char room[sizeof(StaticEMField)];
    ThreeVector E0 = rvec("E0"), B0 = rvec("B0"), E = rvec("E"), B = rvec("B"), x0 = rvec("x0"), x = rvec("x"), e, b;
    double t0 = vf_real("t0"), t = vf_real("t");
    int gone = vf_choice("gone", 2);
    StaticEMField *o = gone ? new (room) StaticEMField(E0, B0) : new StaticEMField(E0, B0);
    o->GetField(t0, x0, e, b);
    if (gone) o->~StaticEMField();
    StaticEMField *f = new (room) StaticEMField(E, B);
    f->GetField(t, x, e, b);
    eq3(e, E, 1e-3, "static electric field, whatever was asked before");
    eq3(b, B, 1e-3, "static magnetic field, whatever was asked before");
    if (!gone) delete o;
    vf_reach("again");
}
