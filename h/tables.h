// emission tables with arbitrary entries, and what the documented formulas make of them
#pragma once
#include <string>
#include <cstdlib>
#include "vf.h"
#define SQRT3 1.7320508075688772935
static const double ALPHA = 0.0072973525664, PI_ = 3.14159265359;

static inline void tput(std::string &s, double v) { s += vf_num(v); s += "\n"; }
static inline double interp(const double *x, const double *y, int n, double q)
{
    int i = 0;
    while (i + 2 < n && x[i + 1] < q) i++;
    return y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (q - x[i]);
}
struct EmTables {
    int nh, ne, nc;
    double hx[8], hy[8], lo, hi, cmin[8], d[8][8];
    // concrete axes, arbitrary h values and arbitrary increasing quantiles
    EmTables(int h = 2, int e = 2, int c = 2) : nh(h), ne(e), nc(c), lo(-3), hi(0)
    {
        for (int i = 0; i < nh; i++) { hx[i] = -4 + 6. * i / (nh - 1); hy[i] = vf_real("h"); }
        for (int i = 0; i < ne; i++) {
            cmin[i] = 1e-8 * (i + 1);
            d[i][0] = 0;
            for (int j = 1; j < nc; j++) { double g = vf_pos("gap"); d[i][j] = d[i][j - 1] + g; }
            vf_assume_le(d[i][nc - 1], 1);
        }
    }
    void write(const char *dir = "tab") const
    {
        std::string D(dir), s = std::to_string(nh) + "\n";
        for (int i = 0; i < nh; i++) { s += vf_num(hx[i]); s += " "; s += vf_num(hy[i]); s += "\n"; }
        vf_file((D + "/hsokolov.table").c_str(), s.c_str());
        s = std::to_string(ne) + " " + std::to_string(nc) + " ";
        tput(s, lo);
        tput(s, hi);
        for (int i = 0; i < ne; i++) for (int j = 0; j < nc; j++) tput(s, d[i][j]);
        vf_file((D + "/ksi_sokolov.table").c_str(), s.c_str());
        s = "";
        for (int i = 0; i < ne; i++) tput(s, cmin[i]);
        vf_file((D + "/chimin.table").c_str(), s.c_str());
        vf_setenv("QED_TABLES_PATH", dir);
    }
    double logh(double eta) const { return interp(hx, hy, nh, __builtin_log10(eta)); }
    double eaxis(int i) const { return lo + i * (hi - lo) / (ne - 1); }
    double logchi(int i, double u) const
    {
        double ax[8], l = __builtin_log10(cmin[i]);
        for (int j = 0; j < nc; j++) ax[j] = l + j * (eaxis(i) - __builtin_log10(2.) - l) / (nc - 1);
        return interp(d[i], ax, nc, u);
    }
    // away from the inner nodes, where two formulas meet in one value
    void generic(double eta, double u) const
    {
        for (int i = 0; i < ne; i++) for (int j = 1; j + 1 < nc; j++) vf_assume_ne(u, d[i][j]);
        for (int i = 1; i + 1 < ne; i++) vf_assume_ne(__builtin_log10(eta), eaxis(i));
        for (int i = 1; i + 1 < nh; i++) vf_assume_ne(__builtin_log10(eta), hx[i]);
    }
    // energy fraction parameter drawn for eta and the variate u
    double chi(double eta, double u) const
    {
        double q = __builtin_log10(eta);
        int i = 0;
        while (i + 2 < ne && eaxis(i + 1) < q) i++;
        double f = (q - eaxis(i)) / (eaxis(i + 1) - eaxis(i));
        return __builtin_pow(10., (1 - f) * logchi(i, u) + f * logchi(i + 1, u));
    }
    // emission probability of one step
    double dtau(double dt, double eta, double gamma) const
    {
        return dt * SQRT3 * ALPHA * eta * __builtin_pow(10., logh(eta)) / (2 * PI_ * gamma);
    }
};

// pair production tables
struct BwTables {
    int nt, n;
    double tx[8], ty[8], cx[8], fx[8], d[8][8];
    BwTables(int t = 2, int m = 2) : nt(t), n(m)
    {
        for (int i = 0; i < nt; i++) { tx[i] = -4 + 6. * i / (nt - 1); ty[i] = vf_real("T"); }
        for (int i = 0; i < n; i++) {
            cx[i] = -3 + 4. * i / (n - 1);
            fx[i] = (i + 1.) / n;
            d[i][0] = 0;
            for (int j = 1; j < n; j++) { double g = vf_pos("gap"); d[i][j] = d[i][j - 1] + g; }
            vf_assume_le(d[i][n - 1], 1);
        }
    }
    void write(const char *dir = "tab") const
    {
        std::string D(dir), s = std::to_string(nt) + "\n";
        for (int i = 0; i < nt; i++) { s += vf_num(tx[i]); s += " "; s += vf_num(ty[i]); s += "\n"; }
        vf_file((D + "/pairprod.table").c_str(), s.c_str());
        s = std::to_string(n) + "\n";
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tput(s, d[i][j]);
        vf_file((D + "/e_split.table").c_str(), s.c_str());
        s = "";
        for (int i = 0; i < n; i++) tput(s, fx[i]);
        vf_file((D + "/epsilon.table").c_str(), s.c_str());
        s = "";
        for (int i = 0; i < n; i++) tput(s, cx[i]);
        vf_file((D + "/log_chi.table").c_str(), s.c_str());
        vf_setenv("QED_TABLES_PATH", dir);
    }
    double dtau(double dt, double chi, double energy) const
    {
        return dt * ALPHA * chi * __builtin_pow(10., interp(tx, ty, nt, __builtin_log10(chi))) / energy;
    }
    void generic(double chi, double u) const
    {
        for (int i = 0; i < n; i++) for (int j = 1; j + 1 < n; j++) vf_assume_ne(u, d[i][j]);
        for (int i = 1; i + 1 < n; i++) vf_assume_ne(__builtin_log10(chi), cx[i]);
        for (int i = 1; i + 1 < nt; i++) vf_assume_ne(__builtin_log10(chi), tx[i]);
    }
    double split(double chi, double u) const
    {
        double q = __builtin_log10(chi);
        int i = 0;
        while (i + 2 < n && cx[i + 1] < q) i++;
        double f = (q - cx[i]) / (cx[i + 1] - cx[i]);
        return (1 - f) * interp(d[i], fx, n, u) + f * interp(d[i + 1], fx, n, u);
    }
};
