#include "pulse.h"
#include "FocusingField.hh"
// Salamin, Appl. Phys. B 86, 319 (2007), through the fourth order
static double ipow(double a, int n) { double r = 1; for (int i = 0; i < n; i++) r *= a; return r; }
struct Salamin {
    double xi, up, p2, eps, S[7], C[5];
    Salamin(const Pulse &P)
    {
        double g = __builtin_atan(P.zeta), psi = P.k * (P.t - P.t0 - P.z) - P.curved(), q = 1 / __builtin_sqrt(P.spread());
        double c = __builtin_cos(P.pol), s = __builtin_sin(P.pol);
        xi = (P.x * c + P.y * s) / P.w0; up = (P.y * c - P.x * s) / P.w0; p2 = xi * xi + up * up; eps = P.w0 / P.zr;
        for (int n = 0; n < 7; n++) S[n] = ipow(q, n + 1) * __builtin_sin(psi + (n + 1) * g);
        for (int n = 0; n < 5; n++) C[n] = ipow(q, n + 1) * __builtin_cos(psi + (n + 1) * g);
    }
    double ex() const
    {
        return S[0] + ipow(eps, 2) * (xi * xi * S[2] - p2 * p2 * S[3] / 4) + ipow(eps, 4) * (S[2] / 8 - p2 * S[3] / 4
            - p2 * (p2 - 16 * xi * xi) * S[4] / 16 - p2 * p2 * (p2 + 2 * xi * xi) * S[5] / 8 + ipow(p2, 4) * S[6] / 32);
    }
    double ey() const { return xi * up * (ipow(eps, 2) * S[2] + ipow(eps, 4) * (p2 * S[4] - p2 * p2 * S[5] / 4)); }
    double ez() const { return xi * (eps * C[1] + ipow(eps, 3) * (-C[2] / 2 + p2 * C[3] - p2 * p2 * C[4] / 4)); }
    double by() const
    {
        return S[0] + ipow(eps, 2) * (p2 * S[2] / 2 - p2 * p2 * S[3] / 4)
            + ipow(eps, 4) * (-S[2] / 8 + p2 * S[3] / 4 + 5 * p2 * p2 * S[4] / 16 - ipow(p2, 3) * S[5] / 4 + ipow(p2, 4) * S[6] / 32);
    }
    double bz() const { return up * (eps * C[1] + ipow(eps, 3) * (C[2] / 2 + p2 * C[3] / 2 - p2 * p2 * C[4] / 4)); }
};
extern "C" void q_focusing()
{
    Pulse P(true);
    ThreeVector E(7, -5, 3), B(2, 11, -13);
    FocusingField f(P.A, P.lam, P.tau, P.w0, P.pol, P.S, P.F);
    const EMField *g = &f;
    double a = P.A * __builtin_exp(P.envelope());
    int far = vf_choice("far", 2);
    if (far) vf_assume_lt(a, 1e-15);
    else vf_assume_lt(1e-15, a);
    g->GetField(P.t, P.X, E, B);
    if (far) {
        eq3(E, ThreeVector(0, 0, 0), 1e-20, "no field far from the pulse");
        eq3(B, ThreeVector(0, 0, 0), 1e-20, "no field far from the pulse");
        vf_reach("far");
        return;
    }
    // a beam with polarisation angle pol is the x-polarised beam turned rigidly about its axis:
    // the formulas apply in coordinates turned by pol
    double c = __builtin_cos(P.pol), s = __builtin_sin(P.pol);
    Salamin m(P);
    ThreeVector e(a * m.ex(), a * m.ey(), a * m.ez()), b(0, a * m.by(), a * m.bz());
    eq3(E, P.inv * ThreeVector(c * e[0] - s * e[1], s * e[0] + c * e[1], e[2]), 1, "E of the focusing field");
    eq3(B, P.inv * ThreeVector(c * b[0] - s * b[1], s * b[0] + c * b[1], b[2]), 1, "B of the focusing field");
    vf_reach("near");
}
extern "C" void q_again()
{
    Before<FocusingField> before([](const Pulse &P, const ThreeVector &E, const ThreeVector &B) {
        double a = P.A * __builtin_exp(P.envelope()), c = __builtin_cos(P.pol), s = __builtin_sin(P.pol);
        vf_assume_lt(1e-15, a);
        Salamin m(P);
        ThreeVector e(a * m.ex(), a * m.ey(), a * m.ez()), b(0, a * m.by(), a * m.bz());
        eq3(E, P.inv * ThreeVector(c * e[0] - s * e[1], s * e[0] + c * e[1], e[2]), 1, "E of the focusing field, whatever was asked before");
        eq3(B, P.inv * ThreeVector(c * b[0] - s * b[1], s * b[0] + c * b[1], b[2]), 1, "B of the focusing field, whatever was asked before");
    });
    vf_reach("again");
}
