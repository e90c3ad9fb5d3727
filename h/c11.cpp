#include "vf.h"
#include "Numerics.hh"
#include <vector>
#include <cmath>

static int maxn() { return vf_tier() ? 7 : 4; }

// exact-size arrays: any access outside faults
struct Grid {
    int n; double *x, *y;
    Grid(int lo, int hi, bool data) {
        n = lo + vf_choice("n", hi - lo + 1);
        x = new double[n]; y = data ? new double[n] : 0;
        x[0] = vf_real("x0");
        for (int i = 1; i < n; i++) x[i] = x[i - 1] + vf_pos("gap");
        if (data) for (int i = 0; i < n; i++) y[i] = vf_real("y");
    }
    ~Grid() { delete[] x; delete[] y; }
};

static double line(const Grid &g, int i, double q)
{
    return g.y[i] + (g.y[i + 1] - g.y[i]) * (q - g.x[i]) / (g.x[i + 1] - g.x[i]);
}

extern "C" void q_interp_inside()
{
    Grid g(2, maxn(), true);
    int i = vf_choice("interval", g.n - 1);
    double q = vf_real("q");
    vf_assume_lt(g.x[i], q);
    vf_assume_lt(q, g.x[i + 1]);
    double r = Numerics::Interpolate1D(g.x, g.y, g.n, q);
    vf_eqs(r, line(g, i, q), 1e-3, "linear between neighbours");
    vf_log("r", r);
    vf_reach("inside");
}
extern "C" void q_interp_points()
{
    Grid g(2, maxn(), true);
    int i = vf_choice("point", g.n);
    double r = Numerics::Interpolate1D(g.x, g.y, g.n, g.x[i]);
    vf_eqs(r, g.y[i], 1e-3, "table points reproduced");
    vf_reach("point");
}
extern "C" void q_interp_below()
{
    Grid g(2, maxn(), true);
    double q = vf_real("q");
    vf_assume_lt(q, g.x[0]);
    double r = Numerics::Interpolate1D(g.x, g.y, g.n, q);
    vf_eqs(r, line(g, 0, q), 1e-3, "first segment continued below the table");
    vf_log("r", r);
    vf_reach("below");
}
extern "C" void q_interp_above()
{
    Grid g(2, maxn(), true);
    double q = vf_real("q");
    vf_assume_lt(g.x[g.n - 1], q);
    double r = Numerics::Interpolate1D(g.x, g.y, g.n, q);
    vf_eqs(r, line(g, g.n - 2, q), 1e-3, "last segment continued above the table");
    vf_log("r", r);
    vf_reach("above");
}
extern "C" void q_nearest()
{
    Grid g(2, maxn(), false);
    double q = vf_real("q");
    int k = Numerics::ArrayIndex(g.x, g.n, q);
    vf_assert(k >= 0 && k < g.n, "index is inside the grid");
    for (int i = 0; i < g.n; i++)
        vf_le((g.x[k] - q) * (g.x[k] - q), (g.x[i] - q) * (g.x[i] - q), "index has minimal distance");
    vf_reach("nearest");
}
extern "C" void q_bracket()
{
    Grid g(2, maxn(), false);
    double q = vf_real("q");
    vf_assume_lt(g.x[0], q);
    vf_exit_ok(1);
    int k = -7; double f = -7;
    int above = vf_choice("above", 2);
    if (above) vf_assume_lt(g.x[g.n - 1], q); else vf_assume_lt(q, g.x[g.n - 1]);
    if (!above) vf_exit_ok(0);
    if (above) vf_reach("above");
    Numerics::ClosestPoints(g.x, g.n, q, k, f);
    vf_assert(!above, "a query above the table is refused");
    vf_assert(k >= 0 && k + 1 < g.n, "interval is inside the table");
    vf_le(g.x[k], q, "interval contains the query");
    vf_le(q, g.x[k + 1], "interval contains the query");
    vf_eqs(f * (g.x[k + 1] - g.x[k]), q - g.x[k], 1e-3, "fraction is the position inside the interval");
    vf_reach("inside");
}
extern "C" void q_bracket_points()
{
    Grid g(2, maxn(), false);
    int i = vf_choice("point", g.n);
    double q = g.x[i];
    int k = -7; double f = -7;
    Numerics::ClosestPoints(g.x, g.n, q, k, f);
    vf_assert(k >= 0 && k + 1 < g.n, "interval is inside the table");
    vf_eqs(g.x[k] + f * (g.x[k + 1] - g.x[k]), q, 1e-3, "table point bracketed exactly");
    vf_reach("point");
}
// arrays that were asked before, with other contents at the time, or other arrays before: nothing of it is remembered
extern "C" void q_again()
{
    int n = 2 + vf_choice("n", vf_tier() ? 3 : 2), first = vf_choice("first", 3), second = vf_choice("second", 3), same = vf_choice("same storage", 2);
    double x[4], y[4], a[4], b[4], *X = same ? x : a, *Y = same ? y : b, q0 = vf_real("q0"), q = vf_real("q"), f = -7;
    int k = -7;
    X[0] = vf_real("x0");
    for (int i = 1; i < n; i++) X[i] = X[i - 1] + vf_pos("gap");
    for (int i = 0; i < n; i++) Y[i] = vf_real("y");
    if (first == 0) Numerics::Interpolate1D(X, Y, n, q0);
    else if (first == 1) Numerics::ArrayIndex(X, n, q0);
    else {
        vf_assume_lt(X[0], q0);
        vf_assume_lt(q0, X[n - 1]);
        Numerics::ClosestPoints(X, n, q0, k, f);
    }
    x[0] = vf_real("x0");
    for (int i = 1; i < n; i++) x[i] = x[i - 1] + vf_pos("gap");
    for (int i = 0; i < n; i++) y[i] = vf_real("y");
    int i = vf_choice("interval", n - 1);
    vf_assume_lt(x[i], q);
    vf_assume_lt(q, x[i + 1]);
    if (second == 0) vf_eqs(Numerics::Interpolate1D(x, y, n, q), y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]), 1e-3, "linear between neighbours, whatever was asked before");
    else if (second == 1) {
        k = Numerics::ArrayIndex(x, n, q);
        vf_assert(k == i || k == i + 1, "nearest point, whatever was asked before");
        for (int j = i; j < i + 2; j++) vf_le((x[k] - q) * (x[k] - q), (x[j] - q) * (x[j] - q), "nearest point, whatever was asked before");
    } else {
        Numerics::ClosestPoints(x, n, q, k, f);
        vf_assert(k == i, "interval that holds the query, whatever was asked before");
        vf_eqs(f * (x[i + 1] - x[i]), q - x[i], 1e-3, "fraction is the position inside the interval, whatever was asked before");
    }
    vf_reach("again");
}
// tables of the sizes in use and around powers of two: abscissae of uneven spacing, any query in the first, middle, last and outer intervals
static int SIZE[] = {5, 8, 9, 17, 33, 65, 100, 129, 257};
extern "C" void q_large()
{
    int n = SIZE[vf_choice("n", vf_tier() ? 9 : 8)], part = vf_choice("part", 7), what = vf_choice("what", 3);
    double *x = new double[n], *y = new double[n], q = vf_real("q");
    for (int i = 0; i < n; i++) { x[i] = i * 0.5 + (i % 3) * 0.125 - 3; y[i] = (i * i % 7) * 0.25 - i; }
    int at[7] = {0, 1, n / 2 - 1, n / 2, n - 3, n - 2, n / 4}, i = at[part], d = vf_choice("beside", 2);
    if (d) {
        // outside, at the end nearer to the interval
        if (part != 0 && part != 5) { vf_reach("beside"); delete[] x; delete[] y; return; }
        if (part) vf_assume_lt(x[n - 1], q); else vf_assume_lt(q, x[0]);
    } else {
        vf_assume_lt(x[i], q);
        vf_assume_lt(q, x[i + 1]);
    }
    if (what == 0) {
        double r = Numerics::Interpolate1D(x, y, n, q);
        vf_eqs(r, y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]), 1e-3, "linear between neighbours");
    } else if (what == 1) {
        int k = Numerics::ArrayIndex(x, n, q);
        vf_assert(k >= 0 && k < n, "index is inside the grid");
        for (int j = i ? i - 1 : 0; j <= i + 2 && j < n; j++) vf_le((x[k] - q) * (x[k] - q), (x[j] - q) * (x[j] - q), "index has minimal distance");
    } else if (!d) {
        int k = -7; double f = -7;
        Numerics::ClosestPoints(x, n, q, k, f);
        vf_assert(k == i, "interval contains the query");
        vf_eqs(f * (x[i + 1] - x[i]), q - x[i], 1e-3, "fraction is the position inside the interval");
    }
    delete[] x; delete[] y;
    vf_reach("large");
}
