#include "vf.h"
#include "ThreeVector.hh"
#include "ThreeMatrix.hh"

static ThreeVector vec(const char *n) { double x = vf_real(n), y = vf_real(n), z = vf_real(n); return ThreeVector(x, y, z); }
static void eq(const ThreeVector &a, double x, double y, double z, const char *l)
{
    vf_eq(a[0], x, l); vf_eq(a[1], y, l); vf_eq(a[2], z, l);
}
static ThreeMatrix mat(const char *n)
{
    ThreeMatrix m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = vf_real(n);
    return m;
}
static double mag(double x, double y, double z) { return __builtin_sqrt(x * x + y * y + z * z); }

extern "C" void q_vector_arith()
{
    ThreeVector a = vec("a"), b = vec("b");
    double s = vf_real("s");
    eq(a + b, a[0] + b[0], a[1] + b[1], a[2] + b[2], "vector sum");
    eq(a - b, a[0] - b[0], a[1] - b[1], a[2] - b[2], "vector difference");
    eq(a * b, a[0] * b[0], a[1] * b[1], a[2] * b[2], "component product");
    eq(s + a, s + a[0], s + a[1], s + a[2], "scalar plus vector");
    eq(a + s, s + a[0], s + a[1], s + a[2], "vector plus scalar");
    eq(s - a, s - a[0], s - a[1], s - a[2], "scalar minus vector");
    eq(a - s, a[0] - s, a[1] - s, a[2] - s, "vector minus scalar");
    eq(s * a, s * a[0], s * a[1], s * a[2], "scalar times vector");
    eq(a * s, s * a[0], s * a[1], s * a[2], "vector times scalar");
    vf_eq(a.Dot(b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "dot product");
    ThreeVector c = a.Cross(b);
    eq(c, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], "cross product");
    vf_eqs(c.Dot(a), 0, c.Mag() * a.Mag() + 1, "cross product perpendicular");
    vf_eq(a.Mag2(), a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "squared magnitude");
    vf_eq(a.Mag(), mag(a[0], a[1], a[2]), "magnitude");
    ThreeVector d;
    eq(d, 0, 0, 0, "default is zero");
    d = a;
    eq(d, a[0], a[1], a[2], "assignment");
    d = d;
    eq(d, a[0], a[1], a[2], "self assignment");
    ThreeVector e(b);
    e[1] = s;
    eq(e, b[0], s, b[2], "copy and element access");
    vf_reach("arith");
}
extern "C" void q_vector_div()
{
    ThreeVector a = vec("a"), b = vec("b");
    double s = vf_real("s");
    vf_assume_ne(s, 0);
    for (int i = 0; i < 3; i++) vf_assume_ne(b[i], 0);
    eq(a / b, a[0] / b[0], a[1] / b[1], a[2] / b[2], "component quotient");
    eq(a / s, a[0] / s, a[1] / s, a[2] / s, "vector over scalar");
    eq(s / b, s / b[0], s / b[1], s / b[2], "scalar over vector");
    vf_reach("div");
}
extern "C" void q_norm()
{
    ThreeVector a = vec("a"), p = vec("p");
    vf_assume_ne(a.Dot(a), 0);
    double m = mag(a[0], a[1], a[2]);
    eq(a.Norm(), a[0] / m, a[1] / m, a[2] / m, "normalised vector");
    vf_eq(a.Norm().Mag(), 1, "unit length");
    // direction from p to p + a
    eq(p.Direction(p + a), a[0] / m, a[1] / m, a[2] / m, "direction is the unit vector between the points");
    vf_reach("norm");
}
extern "C" void q_matrix()
{
    ThreeMatrix a = mat("a"), b = mat("b");
    ThreeVector v = vec("v");
    double s = vf_real("s");
    ThreeMatrix sum = a + b, pr = a * b, sc = a * s, cp(a);
    ThreeVector w = a * v;
    for (int i = 0; i < 3; i++) {
        double t = 0;
        for (int j = 0; j < 3; j++) {
            vf_eq(sum[i][j], a[i][j] + b[i][j], "matrix sum");
            vf_eq(sc[i][j], a[i][j] * s, "matrix times scalar");
            vf_eq(cp[i][j], a[i][j], "matrix copy");
            double p = 0;
            for (int k = 0; k < 3; k++) p += a[i][k] * b[k][j];
            vf_eqs(pr[i][j], p, 1, "matrix product");
            t += a[i][j] * v[j];
        }
        vf_eqs(w[i], t, 1, "matrix times vector");
    }
    double det = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
               + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    vf_eqs(a.Determinant(), det, 1, "determinant");
    ThreeMatrix z;
    for (int i = 0; i < 9; i++) vf_eq(z[i / 3][i % 3], 0, "default matrix is zero");
    z = b;
    z.Ideneity();
    for (int i = 0; i < 9; i++) vf_eq(z[i / 3][i % 3], i % 4 == 0, "identity replaces every element");
    z = b;
    z.Zeros();
    for (int i = 0; i < 9; i++) vf_eq(z[i / 3][i % 3], 0, "zeros replaces every element");
    vf_reach("matrix");
}
extern "C" void q_inverse()
{
    ThreeMatrix a = mat("a");
    vf_assume_ne(a.Determinant(), 0);
    ThreeMatrix inv = a.Inverse(), l = inv * a, r = a * inv;
    for (int i = 0; i < 9; i++) {
        vf_eqs(l[i / 3][i % 3], i % 4 == 0, 1, "inverse times matrix");
        vf_eqs(r[i / 3][i % 3], i % 4 == 0, 1, "matrix times inverse");
    }
    vf_reach("inverse");
}

static void rotation(const ThreeVector &a, const ThreeVector &b)
{
    ThreeMatrix R = a.RotateToAxis(b);
    ThreeVector to = R * a.Norm(), n = b.Norm();
    for (int i = 0; i < 3; i++) vf_eqs(to[i], n[i], 1, "rotates the first direction onto the second");
    for (int i = 0; i < 3; i++)
        for (int j = i; j < 3; j++) {
            double p = 0;
            for (int k = 0; k < 3; k++) p += R[k][i] * R[k][j];
            vf_eqs(p, i == j, 1, "rotation matrix is orthogonal");
        }
    vf_eqs(R.Determinant(), 1, 1, "rotation matrix has determinant one");
    ThreeMatrix I = R.Inverse();
    ThreeVector back = I * n, f = a.Norm();
    for (int i = 0; i < 3; i++) vf_eqs(back[i], f[i], 1, "inverse rotates back");
}
// rational directions: every unit vector except -z, times any length
static ThreeVector dir(const char *n, bool len)
{
    double u = vf_real(n), v = vf_real(n), k = len ? vf_pos(n) : 1;
    return k * ThreeVector(2 * u, 2 * v, 1 - u * u - v * v);
}
static ThreeVector axis(int i)
{
    ThreeVector a;
    a[i / 2] = i % 2 ? -1 : 1;
    return a;
}
extern "C" void q_rotate_z()
{
    ThreeVector a = dir("a", true), b(0, 0, vf_pos("len"));
    int swap = vf_choice("swap", 2);
    vf_assume_lt(-0.99999999, a[2] / a.Mag());
    if (swap) rotation(b, a); else rotation(a, b);
    vf_reach("general to z");
}
extern "C" void q_rotate_axis()
{
    int i = vf_choice("axis", 6);
    ThreeVector a = dir("a", false), b = axis(i);
    // away from parallel and opposite, which are separate cases
    double c = a.Dot(b) * a.Dot(b), m = a.Dot(a) * b.Dot(b);
    vf_assume_lt(c, m * 0.9999);
    rotation(a, b);
    vf_reach("general to axis");
}
extern "C" void q_rotate_opposite()
{
    ThreeVector a = vf_choice("kind", 2) ? axis(vf_choice("axis", 6)) : dir("a", false);
    double k = vf_pos("k");
    ThreeVector b = (vf_choice("sign", 2) ? -k : k) * a;
    rotation(a, b);
    vf_reach("parallel or opposite");
}
extern "C" void q_rotate_near_opposite()
{
    // just off the opposite direction, on either side of any tolerance
    int i = vf_choice("axis", 6), w = 1 + vf_choice("tilted towards", 2);
    double u = vf_range("u", -1e-3, 1e-3);
    ThreeVector b = axis(i), a = -(1 - u * u) * b;
    a[(i / 2 + w) % 3] = 2 * u;
    rotation(a, b);
    vf_reach("nearly opposite");
}
extern "C" void t_rotate_general()
{
    ThreeVector a = dir("a", false), b;
    double u = vf_real("u");
    int k = vf_choice("plane", 3);
    b[k] = 2 * u; b[(k + 1) % 3] = 1 - u * u;
    rotation(a, b);
    vf_reach("general");
}
// operands that were used before with another partner or other contents: nothing of it is remembered
extern "C" void q_again()
{
    int who = vf_choice("first", 4), i = vf_choice("axis", 2), k = vf_choice("other axis", 2), what = vf_choice("what", 2);
    if (what == 0) {
        double u = vf_real("u"), c = 1 - u * u, s = 2 * u;
        ThreeVector a, d, b = axis(2 * i), e = axis(2 * ((i + 1 + k) % 3));
        a[0] = c; a[1] = s;
        if (i == 0) { a[0] = 0; a[2] = c; }
        // away from parallel and opposite
        vf_assume_lt(a.Dot(b) * a.Dot(b), a.Dot(a) * 0.9999);
        d[2 - 2 * i] = 3; d[1] = 4;
        // the same first, the same second, neither, or the same object with other contents
        if (who == 0) a.RotateToAxis(e);
        else if (who == 1) d.RotateToAxis(b);
        else if (who == 2) e.RotateToAxis(d);
        else { ThreeVector keep = a; a = d; a.RotateToAxis(b); a.Mag(); a.Norm(); a = keep; }
        rotation(a, b);
        vf_reach("rotation");
    } else {
        ThreeMatrix m, o = mat("m");
        for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) m[x][y] = x == y ? 2 + x : x * y + 1 + x;
        if (who < 2) o.Ideneity();
        ThreeMatrix keep = o;
        vf_assume_ne(o.Determinant(), 0);
        if (who % 2) m.Inverse();
        else { o = m; o.Inverse(); o.Determinant(); o = keep; }
        if (who < 2) for (int j = 0; j < 3; j++) o[j][(j + 1 + k) % 3] = vf_real("off");
        vf_assume_ne(o.Determinant(), 0);
        ThreeMatrix l = o.Inverse() * o;
        for (int j = 0; j < 9; j++) vf_eqs(l[j / 3][j % 3], j % 4 == 0, 1, "inverse times matrix, whatever was inverted before");
        vf_reach("inverse");
    }
}
