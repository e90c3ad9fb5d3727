#include "pulse.h"
#include "GaussianEMField.hh"
static double amplitude(const Pulse &P)
{
    return P.A / __builtin_sqrt(P.spread()) * __builtin_exp(P.envelope()) * __builtin_cos(P.k * (P.t - P.t0 - P.z) - P.curved());
}
extern "C" void q_gaussian()
{
    Pulse P(true);
    ThreeVector E(7, -5, 3), B(2, 11, -13);
    GaussianEMField f(P.A, P.lam, P.tau, P.w0, P.pol, P.S, P.F);
    const EMField *g = &f;
    g->GetField(P.t, P.X, E, B);
    double w = amplitude(P), c = __builtin_cos(P.pol), s = __builtin_sin(P.pol);
    eq3(E, P.inv * ThreeVector(w * c, w * s, 0), 1, "E of the Gaussian pulse");
    eq3(B, P.inv * ThreeVector(-w * s, w * c, 0), 1, "B of the Gaussian pulse");
    vf_reach("gaussian");
}
// never above the peak; peak at the focus when the pulse arrives
extern "C" void q_peak()
{
    Pulse P(false);
    ThreeVector E(7, -5, 3), B(2, 11, -13);
    GaussianEMField f(P.A, P.lam, P.tau, P.w0, P.pol, P.S, P.F);
    f.GetField(P.D, P.F, E, B);
    vf_eqs(sq(E), P.A * P.A, 1, "peak amplitude at the focus when the pulse arrives");
    double z = vf_real("z");
    ThreeVector X(P.F[0], P.F[1], P.F[2] + z);
    f.GetField(P.D + z, X, E, B);
    vf_le(sq(E), P.A * P.A, "on axis never above the peak amplitude");
    vf_reach("peak");
}
extern "C" void q_again()
{
    Before<GaussianEMField> b([](const Pulse &P, const ThreeVector &E, const ThreeVector &B) {
        double w = amplitude(P), c = __builtin_cos(P.pol), s = __builtin_sin(P.pol);
        eq3(E, P.inv * ThreeVector(w * c, w * s, 0), 1, "E of the Gaussian pulse, whatever was asked before");
        eq3(B, P.inv * ThreeVector(-w * s, w * c, 0), 1, "B of the Gaussian pulse, whatever was asked before");
    });
    vf_reach("again");
}
