#include "vf.h"
#include "Numerics.hh"
#include <vector>

static double cubic(double x, const double *c) { return c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x; }

static void exact(int n)
{
    double a = vf_real("a"), b = vf_real("b");
    double c[4] = {vf_real("c0"), vf_real("c1"), vf_real("c2"), vf_real("c3")};
    std::vector<double> x(n), y(n), xr(n), yr(n), xs(n);
    double s = vf_real("shift");
    for (int i = 0; i < n; i++) {
        x[i] = a + (b - a) * i / (n - 1.0);
        y[i] = cubic(x[i], c);
        xr[n - 1 - i] = x[i];
        yr[n - 1 - i] = y[i];
        xs[i] = x[i] + s;
    }
    double I = Numerics::SimpsonsRule(x, y);
    auto F = [&](double t) { return c[0] * t + c[1] * t * t / 2 + c[2] * t * t * t / 3 + c[3] * t * t * t * t / 4; };
    double sc = 1;
    vf_log("I", I);
    vf_eqs(I, F(b) - F(a), sc, "cubic integrated exactly");
    vf_eqs(Numerics::SimpsonsRule(xr, yr), -I, sc, "reversed axis flips the sign");
    vf_eqs(Numerics::SimpsonsRule(xs, y), I, sc, "independent of the origin");
    vf_reach("exact");
}

static void linear(int n)
{
    double a = vf_real("a"), b = vf_real("b");
    double p = vf_real("p"), q = vf_real("q");
    std::vector<double> x(n), y(n), z(n), w(n);
    for (int i = 0; i < n; i++) {
        x[i] = a + (b - a) * i / (n - 1.0);
        y[i] = vf_real("y");
        z[i] = vf_real("z");
        w[i] = p * y[i] + q * z[i];
    }
    double I = Numerics::SimpsonsRule(x, y), J = Numerics::SimpsonsRule(x, z);
    vf_log("I", I);
    vf_eqs(Numerics::SimpsonsRule(x, w), p * I + q * J, 1, "linear in the integrand");
    // composite rule: sum of three-point rules
    double s = 0;
    for (int i = 0; i + 2 < n; i += 2) s += (x[i + 2] - x[i]) / 6 * (y[i] + 4 * y[i + 1] + y[i + 2]);
    vf_eqs(I, s, 1, "equals the composite three-point rule");
    vf_reach("linear");
}
extern "C" void q_exact() { exact(3 + 2 * vf_choice("n", vf_tier() ? 8 : 4)); }
extern "C" void q_linear() { linear(3 + 2 * vf_choice("n", vf_tier() ? 8 : 4)); }
// axes as long as those in use: odd numbers of points around powers of two and hundreds
extern "C" void q_large()
{
    static const int N[] = {11, 13, 17, 21, 33, 51, 65, 101, 129, 201, 257};
    int n = N[vf_choice("n", vf_tier() ? 11 : 9)];
    double a = vf_real("a"), h = vf_real("h"), c[4];
    for (int i = 0; i < 4; i++) c[i] = vf_real("c");
    std::vector<double> x(n), y(n);
    for (int i = 0; i < n; i++) { x[i] = a + h * i; y[i] = cubic(x[i], c); }
    double b = a + h * (n - 1);
    auto F = [&](double t) { return c[0] * t + c[1] * t * t / 2 + c[2] * t * t * t / 3 + c[3] * t * t * t * t / 4; };
    vf_eqs(Numerics::SimpsonsRule(x, y), F(b) - F(a), 1, "cubic integrated exactly");
    vf_reach("large");
}
