#include "vf.h"
#include "UnitsSystem.hh"
#include <string>
#include <cstdlib>
#include <cstdio>
// SI values written independently of the code (CODATA)
static const double c = 2.99792458e8, me = 9.10938356e-31, qe = 1.60217662e-19, eS = 1.3232855e18;
static const double pi = 3.14159265358979324, alpha = 1 / 137.035999;

static void near(double a, double b, double rel, const char *l)
{
    vf_lt(__builtin_fabs(a - b), rel * __builtin_fabs(b), l);
}
static UnitsSystem *mk() { return new UnitsSystem(vf_choice("name", 2) ? "si" : "SI"); }

extern "C" void q_scales()
{
    UnitsSystem *u = mk();
    near(u->RefEField(), eS, 1e-4, "unit of electric field is the critical field");
    near(u->RefBField() * c, eS, 1e-4, "unit of magnetic field");
    near(u->RefMomentum(), me * c, 1e-6, "electron mass and speed of light are one: momentum");
    near(u->RefEnergy(), me * c * c, 1e-6, "electron mass and speed of light are one: energy");
    near(u->RefLength() / u->RefTime(), c, 1e-9, "speed of light is one");
    near(u->RefTime() * u->RefFrequency(), 1, 1e-12, "time is the inverse of frequency");
    near(u->RefMomentum() * c, u->RefEnergy(), 1e-9, "momentum c = energy");
    near(u->RefBField() * c, u->RefEField(), 1e-9, "E = c B");
    near(qe * u->RefEField() * u->RefLength(), u->RefEnergy(), 1e-9, "charge field length = energy");
    near(qe * u->RefEField() * u->RefTime(), u->RefMomentum(), 1e-9, "charge field time = momentum");
    near(u->G4Time() * u->RefTime(), 1e-9, 1e-9, "Geant time is ns");
    near(u->G4Length() * u->RefLength(), 1e-3, 1e-9, "Geant length is mm");
    near(u->G4Energy() * u->RefEnergy(), 1e6 * qe, 1e-9, "Geant energy is MeV");
    near(UnitsSystem::pi, pi, 1e-9, "pi");
    near(UnitsSystem::e, 2.718281828459045, 1e-9, "e");
    near(UnitsSystem::alpha, alpha, 1e-6, "fine structure constant");
    near(UnitsSystem::SI_c, c, 1e-9, "SI c");
    near(UnitsSystem::SI_me, me, 1e-6, "SI electron mass");
    near(UnitsSystem::SI_qe, qe, 1e-6, "SI electron charge");
    near(UnitsSystem::SI_hBar, 1.0545718e-34, 1e-6, "SI hbar");
    near(UnitsSystem::SI_lComp, 2.4263102367e-12, 1e-6, "SI Compton wavelength");
    near(UnitsSystem::SI_eps0, 8.854187817e-12, 1e-6, "SI eps0");
    near(UnitsSystem::SI_eSchw, me * me * c * c * c / (qe * 1.0545718e-34), 1e-4, "critical field from the constants");
    vf_log("time", u->RefTime() * 1e21);
    delete u;
    vf_reach("scales");
}
// conversion round trips and coherence for every value
extern "C" void q_roundtrip()
{
    UnitsSystem *u = mk();
    double t = vf_real("t"), E = vf_real("E"), v = vf_real("v"), q = vf_real("q");
    double s[7] = {u->RefTime(), u->RefLength(), u->RefEnergy(), u->RefMomentum(), u->RefEField(), u->RefBField(), u->RefFrequency()};
    for (int i = 0; i < 7; i++) {
        vf_lt(0, s[i], "scale is positive");
        vf_eq((q / s[i]) * s[i], q, "to code units and back");
    }
    // x = v t in SI is x = (v/c) t in code units; dp = q E t; W = q E x
    double x = v * t;
    vf_eqs((x / u->RefLength()) * 1.0, (v / c) * (t / u->RefTime()), 1e-20, "path length in code units");
    vf_eqs((qe * E * t) / u->RefMomentum(), (E / u->RefEField()) * (t / u->RefTime()), 1e-20, "impulse in code units");
    vf_eqs((qe * E * x) / u->RefEnergy(), (E / u->RefEField()) * (x / u->RefLength()), 1e-20, "work in code units");
    vf_eqs((qe * v * (q / c) * t) / u->RefMomentum(), (v / c) * ((q / c) / u->RefBField()) * (t / u->RefTime()), 1e-20, "magnetic impulse in code units");
    delete u;
    vf_reach("roundtrip");
}
// every name of up to 3 characters other than SI and si is refused
extern "C" void q_unknown()
{
    char b[4] = {0, 0, 0, 0};
    static const char al[] = "SIsi aA1.";
    int n = vf_choice("len", 4);
    for (int i = 0; i < n; i++) b[i] = al[vf_choice("char", 9)];
    std::string s(b);
    bool ok = s == "SI" || s == "si";
    vf_exit_ok(!ok);
    UnitsSystem u(s);
    vf_assert(ok, "unknown unit system is refused");
    vf_reach("known");
}
// which exit status
extern "C" void q_names()
{
    static const char *bad[] = {"", "None", "Si", "sI", "cgs", "CGS", "natural", "SI ", "SIsi", "S", "geant4"};
    vf_exit_ok(1);
    UnitsSystem u(bad[vf_choice("name", 11)]);
    vf_assert(0, "unknown unit system is refused");
}
