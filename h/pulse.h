// a pulse seen from its own frame: axis n, focus F, start S = F - D n, observer F + Rinv (x,y,z)
#pragma once
#include "physics.h"
#include <new>
static const double PI_ = 3.14159265359;
struct Pulse {
    double A, lam, tau, w0, pol, D, x, y, z, zeta, t, k, zr, t0;
    int focal;
    ThreeVector n, F, S, X;
    ThreeMatrix inv;
    Pulse(bool turned)
    {
        int a = turned ? vf_choice("axis", 5) : 0;
        along(a);
    }
    Pulse(int axis, int) { along(axis); }
    void along(int a)
    {
        static const double ax[5][3] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {2. / 3, -1. / 3, 2. / 3}, {-0.6, 0, -0.8}};
        n = ThreeVector(ax[a][0], ax[a][1], ax[a][2]);
        A = vf_pos("A"); lam = vf_pos("lambda"); tau = vf_pos("tau"); w0 = vf_pos("waist"); pol = vf_real("pol"); D = vf_pos("D");
        k = 2 * PI_ / lam;
        zr = k * w0 * w0 / 2;
        F = rvec("F");
        S = ThreeVector(F[0] - D * n[0], F[1] - D * n[1], F[2] - D * n[2]);
        inv = n.RotateToAxis(ThreeVector(0, 0, 1)).Inverse();
        t0 = D;
        observe();
    }
    // any place and time
    void observe()
    {
        x = vf_real("px"); y = vf_real("py"); zeta = 0;
        focal = vf_choice("in focal plane", 2);
        if (!focal) { zeta = vf_real("zeta"); vf_assume_ne(zeta, 0); }
        z = zeta * zr;
        t = vf_real("t");
        X = F + inv * ThreeVector(x, y, z);
    }
    double r2() const { return x * x + y * y; }
    double spread() const { return 1 + zeta * zeta; }       // (w/w0)^2
    // exponent of transverse and longitudinal envelope
    double envelope() const { double s = t - t0 - z; return -r2() / (w0 * w0 * spread()) - s * s / (tau * tau); }
    double curved() const { return focal ? 0 : r2() * zeta / (w0 * w0 * (1 + zeta * zeta)); }    // k r^2 / 2R
};
// the field asked before elsewhere, or another field before it, alive or gone (and at the same address)
template <class Field> struct Before {
    alignas(16) char room[sizeof(Field)];
    Field *other, *f;
    template <class Check> Before(Check check)
    {
        int how = vf_choice("before", 3), axis = vf_choice("turned", 2) ? 4 : 0;
        Pulse P(axis, 0);
        ThreeVector E(7, -5, 3), B(2, 11, -13);
        other = NULL;
        if (how == 0) {
            f = make(room, P);
            f->GetField(P.t, P.X, E, B);
            P.observe();
        } else {
            Pulse Q(axis ? 0 : 2, 0);
            other = how == 1 ? new Field(Q.A, Q.lam, Q.tau, Q.w0, Q.pol, Q.S, Q.F) : make(room, Q);
            other->GetField(Q.t, Q.X, E, B);
            if (how == 2) other->~Field();
            f = make(room, P);
        }
        f->GetField(P.t, P.X, E, B);
        check(P, E, B);
        f->~Field();
        if (how == 1) delete other;
    }
    static Field *make(char *p, const Pulse &Q) { return new (p) Field(Q.A, Q.lam, Q.tau, Q.w0, Q.pol, Q.S, Q.F); }
};
