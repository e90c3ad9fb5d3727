PRELUDE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
static bool same(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static void check(bool ok, const char *what) { if (!ok) { std::fprintf(stderr, "broken: %s\\n", what); std::exit(1); } }
'''
GROUPS = dict(
    inc=['Source/Tools', 'Source/Particles', 'Source/Physics/Fields/EMField', 'Source/Physics/Fields', 'Source/Physics/ParticlePushers', 'Source/Physics/Processes',
         'Source/IO/Input', 'Source/IO/Output', 'Source/Physics/Fields'],
    tools=['Tools/MCTools.cpp', 'Tools/Numerics.cpp', 'Tools/UnitsSystem.cpp'],
    particles=['Particles/%s.cpp' % x for x in ('Particle', 'Lepton', 'Photon', 'ParticleList')],
    source=['Particles/SourceGenerator.cpp'],
    fields=['Physics/Fields/EMField/%s.cpp' % x for x in ('StaticEMField', 'PlaneEMField', 'GaussianEMField', 'FocusingField')],
    pushers=['Physics/ParticlePushers/%s.cpp' % x for x in ('ParticlePusher', 'LorentzPusher', 'LandauPusher', 'ModifiedLandauPusher')],
    processes=['Physics/Processes/%s.cpp' % x for x in ('PhotonEmission', 'StochasticEmission', 'ContinuousEmission', 'NonLinearBreitWheeler')],
)
PHYS = ['tools', 'particles', 'fields', 'pushers', 'processes']
TABLES = 'export QED_TABLES_PATH="$PWD/Tables"'
SEEDS = {}


def seed(i, prop, groups, edits, needs, breaks, demo, **k):
    SEEDS[i] = dict(prop=prop, groups=groups, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)


NUM = 'Tools/Numerics.cpp'
seed('c11-nearest-last', 'C11', ['tools'],
     [(NUM, 'if (lowIndex < sampleSize - 1)\n\t{\n\t\tif (', 'if (lowIndex + 2 < sampleSize)\n\t{\n\t\tif (')],
     'a query in the last interval of the grid that is nearer to its lower end', 'ArrayIndex returns the last point although the one before is nearer',
     '''#include "Numerics.hh"
int main()
{
    double x[4] = {0, 1, 2, 4};
    check(Numerics::ArrayIndex(x, 4, 2.2) == 2, "nearest point of 2.2");
    check(Numerics::ArrayIndex(x, 4, 3.7) == 3, "nearest point of 3.7");
    check(Numerics::ArrayIndex(x, 4, 0.9) == 1, "nearest point of 0.9");
}
''')
seed('c11-below', 'C11', ['tools'],
     [(NUM, '/ (samplePoints[1] - samplePoints[0]));', '/ (samplePoints[sampleSize-1] - samplePoints[0]) * (sampleSize - 1));')],
     'a query below a table whose points are unevenly spaced', 'the extrapolation below the table does not continue the first segment',
     '''#include "Numerics.hh"
int main()
{
    double x[3] = {0, 1, 5}, y[3] = {2, 4, 7};
    check(same(Numerics::Interpolate1D(x, y, 3, -1), 0), "first segment continued below the table");
    check(same(Numerics::Interpolate1D(x, y, 3, 3), 5.5), "inside");
}
''')
seed('c25-reversed', 'C25', ['tools'],
     [(NUM, 'double deltaX = (axis.back() - axis[0]) / (axis.size() - 1.0);', 'double deltaX = std::abs(axis.back() - axis[0]) / (axis.size() - 1.0);')],
     'an axis that runs downwards', 'the integral over a reversed axis has the wrong sign',
     '''#include "Numerics.hh"
int main()
{
    std::vector<double> up, down, fu, fd;
    for (int i = 0; i < 5; i++) {
        double x = 1 + 0.5 * i, y = 3 - 0.5 * i;
        up.push_back(x); fu.push_back(x * x * x);
        down.push_back(y); fd.push_back(y * y * y);
    }
    check(same(Numerics::SimpsonsRule(up, fu), 20), "cubic");
    check(same(Numerics::SimpsonsRule(down, fd), -20), "reversed cubic");
}
''')
seed('c25-weights', 'C25', ['tools'],
     [(NUM, 'for (unsigned int i = 2; i < integrand.size() - 2; i += 2)', 'for (unsigned int i = 2; i + 3 < integrand.size(); i += 2)'),
      (NUM, 'integral += integrand.back();', 'if (integrand.size() > 5) integral += 2.0 * integrand[integrand.size() - 3];\n\tintegral += integrand.back();')],
     'an axis of exactly five points', 'the middle ordinate of five is left out',
     '''#include "Numerics.hh"
int main()
{
    for (int n = 3; n <= 9; n += 2) {
        std::vector<double> x, f;
        for (int i = 0; i < n; i++) { x.push_back(i / (n - 1.)); f.push_back(1 + x[i] * x[i]); }
        check(same(Numerics::SimpsonsRule(x, f), 4. / 3), "quadratic");
    }
}
''')
seed('c05-inverse', 'C05', ['tools'],
     [('Tools/ThreeMatrix.hh', 'inverse.m_data[5] = m_data[2] * m_data[3] - m_data[0] * m_data[5];', 'inverse.m_data[5] = m_data[1] * m_data[6] - m_data[0] * m_data[7];'),
      ('Tools/ThreeMatrix.hh', 'inverse.m_data[7] = m_data[1] * m_data[6] - m_data[0] * m_data[7];', 'inverse.m_data[7] = m_data[2] * m_data[3] - m_data[0] * m_data[5];')],
     'a matrix that is not symmetric in its last two rows and columns', 'the inverse has two elements exchanged',
     '''#include "ThreeVector.hh"
int main()
{
    ThreeMatrix m;
    double v[3][3] = {{2, 1, 0}, {0, 3, 1}, {1, 5, 4}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = v[i][j];
    ThreeMatrix p = m * m.Inverse();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) check(same(p[i][j], i == j), "M times its inverse");
}
''')
seed('c05-antiparallel', 'C05', ['tools'],
     [('Tools/ThreeVector.hh', '<= 1e-10)', '< -1e-10)')],
     'rotating a vector onto its opposite', 'the rotation is not a number for opposite vectors',
     '''#include "ThreeVector.hh"
int main()
{
    ThreeVector a(0, 0, 2), b(0, 0, -1);
    ThreeVector c = a.RotateToAxis(b) * a;
    check(same(c[0], 0) && same(c[1], 0) && same(c[2], -2), "opposite vectors");
    ThreeVector d = ThreeVector(1, 0, 0).RotateToAxis(ThreeVector(0, 1, 0)) * ThreeVector(1, 0, 0);
    check(same(d[1], 1), "right angle");
}
''')
UN = 'Tools/UnitsSystem.cpp'
seed('c02-bfield', 'C02', ['tools'],
     [('Tools/UnitsSystem.cpp', 'ref_bField   = SI_eSchw / SI_c;', 'ref_bField   = SI_eSchw / 3.0e8;')],
     'comparing the magnetic with the electric scale', 'E = c B holds only to 0.07 percent',
     '''#include "UnitsSystem.hh"
int main()
{
    UnitsSystem u("SI");
    check(std::fabs(u.RefMomentum() * 2.99792458e8 / u.RefEnergy() - 1) < 1e-6, "momentum c = energy");
    check(std::fabs(u.RefBField() * 2.99792458e8 / u.RefEField() - 1) < 1e-6, "E = c B");
}
''')
seed('c02-alias', 'C02', ['tools'],
     [('Tools/UnitsSystem.cpp', 'if (units == "SI" || units == "si")', 'if (units == "SI" || units.find("si") == 0)')],
     'an unknown unit system whose name starts with si', 'an unknown name is accepted',
     '''#include "UnitsSystem.hh"
#include <sys/wait.h>
#include <unistd.h>
static bool refused(const char *n)
{
    pid_t p = fork();
    if (!p) { UnitsSystem u(n); _exit(77); }
    int s; waitpid(p, &s, 0);
    return !(WIFEXITED(s) && WEXITSTATUS(s) == 77);
}
int main()
{
    check(!refused("si") && !refused("SI"), "known names");
    check(refused("simple") && refused("cgs") && refused("sin"), "unknown names");
}
''')
FIELD = '''#include "EMField.hh"
#include "ThreeVector.hh"
typedef std::function<void(double, const ThreeVector &, ThreeVector &, ThreeVector &)> Fn;
struct F : EMField {
    Fn f;
    F(Fn g) : f(g) {}
    void GetField(double t, const ThreeVector &x, ThreeVector &e, ThreeVector &b) const { e = ThreeVector(); b = ThreeVector(); f(t, x, e, b); }
};
'''
PP = 'Physics/ParticlePushers/ParticlePusher.cpp'
seed('c06-stage3', 'C06', PHYS,
     [(PP, 'part->GetPosition() + posK2 * m_dt / 2.0,', 'part->GetPosition() + posK1 * m_dt / 2.0,')],
     'a field that varies across the distance between the second and third stage points', 'the third Runge-Kutta stage samples the field at the second stage point',
     FIELD + '''#include "LorentzPusher.hh"
#include "Lepton.hh"
static double end(int n)
{
    F f([](double, const ThreeVector &x, ThreeVector &e, ThreeVector &) { e[0] = -x[0]; });
    LorentzPusher p(&f, 1.0 / n);
    Lepton l(1, 1, ThreeVector(1, 0, 0), ThreeVector(0, 0, 0.1), 1, 0, false);
    for (int i = 0; i < n; i++) p.PushParticle(&l);
    return l.GetPosition()[0];
}
int main()
{
    double exact = end(4000), a = std::fabs(end(10) - exact), b = std::fabs(end(20) - exact);
    std::printf("%g %g %g\\n", a, b, a / b);
    check(a / b > 10, "error falls with the fourth power of the step");
}
''')
seed('c06-dead-photon', 'C06', PHYS,
     [(PP, 'if (part->IsAlive() == false) return;', 'if (part->IsAlive() == false && part->GetMass() != 0) return;')],
     'pushing a photon after it was killed', 'a dead photon goes on moving',
     FIELD + '''#include "LorentzPusher.hh"
#include "Photon.hh"
#include "Lepton.hh"
int main()
{
    F f([](double, const ThreeVector &, ThreeVector &, ThreeVector &) {});
    LorentzPusher p(&f, 0.5);
    Photon g(ThreeVector(1, 2, 3), ThreeVector(0, 0, 4), 1, 0, false);
    Lepton l(1, 1, ThreeVector(1, 2, 3), ThreeVector(0, 0, 4), 1, 0, false);
    p.PushParticle(&g);
    check(same(g.GetPosition()[2], 3.5), "live photon moves");
    g.Kill(); l.Kill();
    p.PushParticle(&g); p.PushParticle(&l);
    check(same(g.GetPosition()[2], 3.5) && same(g.GetTime(), 0.5), "dead photon stays");
    check(same(l.GetPosition()[2], 3) && same(l.GetTime(), 0), "dead lepton stays");
}
''')
KICK = FIELD + '''#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "Lepton.hh"
// force on a particle, from a short push
static ThreeVector force(bool mod, double q, ThreeVector p, ThreeVector E, ThreeVector B)
{
    double dt = 1e-7;
    F f([=](double, const ThreeVector &, ThreeVector &e, ThreeVector &b) { e = E; b = B; });
    Lepton l(1, q, ThreeVector(0, 0, 0), p, 1, 0, false);
    if (mod) { ModifiedLandauPusher k(&f, dt); k.PushParticle(&l); }
    else { LandauPusher k(&f, dt); k.PushParticle(&l); }
    return (l.GetMomentum() - p) / dt;
}
'''
seed('c07-parallel', 'C07', PHYS,
     [('Physics/ParticlePushers/LandauPusher.cpp', '/ (gamma * gamma)) * gamma;', '/ gamma) * gamma;')],
     'an electric field component along the motion', 'the drag counts the longitudinal field gamma times too much',
     KICK + '''int main()
{
    // longitudinal field only: eta = E whatever gamma
    ThreeVector f = force(false, 1, ThreeVector(0, 0, 10), ThreeVector(0, 0, 50), ThreeVector(0, 0, 0));
    check(same(50 - f[2], 2. / 3 * 0.0072973525664 * 2500, 1e-3), "drag in a longitudinal field");
}
''')
seed('c07-slow', 'C07', PHYS,
     [('Physics/ParticlePushers/ModifiedLandauPusher.cpp', 'beta * partDir.Cross(Bfield)', 'partDir.Cross(Bfield)')],
     'a slow particle in a magnetic field', 'eta of the modified pusher ignores the speed in the magnetic part',
     KICK + '''int main()
{
    ThreeVector p(0, 0, 0.1), B(40, 0, 0);
    double eta = 0.1 * 40, g = std::pow(1 + 4.8 * (1 + eta) * std::log(1 + 1.7 * eta) + 2.44 * eta * eta, -2. / 3);
    ThreeVector f = force(true, -1, p, ThreeVector(0, 0, 0), B);
    check(same(-f[2], 2. / 3 * 0.0072973525664 * eta * eta * g, 1e-3), "drag of a slow particle");
}
''')
EM = '''#include "StochasticEmission.hh"
#include "ContinuousEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "MCTools.hh"
#include "Photon.hh"
'''
SE = 'Physics/Processes/StochasticEmission.cpp'
seed('c08-depth-cut', 'C08', PHYS,
     [(SE, '            partList->AddParticle(photon);\n        }\n        part->InitOpticalDepth();', '            partList->AddParticle(photon);\n            part->InitOpticalDepth();\n        }')],
     'an emission that is not recorded (below the cut or not sampled), followed by further steps', 'after an unrecorded emission the emitter keeps its spent optical depth and emits in every step',
     FIELD + EM + '''int main()
{
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 1e-4; });
    StochasticEmission s(&f, 1, 1, 1e30, false);
    for (int i = 0; i < 20; i++) {
        ParticleList l("l");
        Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000), 1, 0, false);
        e.UpdateOpticalDepth(e.GetOpticalDepth() + 1);
        s.Interact(&e, &l);
        check(e.GetOpticalDepth() >= 0, "fresh optical depth after an emission");
    }
}
''', pre=TABLES)
seed('c08-classical-rate', 'C08', PHYS,
     [(SE, 'if (eta < 1.0e-12)', 'if (eta < 1.0e-3)')],
     'eta between 1e-12 and 1e-3', 'the rate uses the classical constant instead of the table',
     FIELD + EM + '''#include "Numerics.hh"
int main()
{
    double E = 1e-6, p = 300;
    F f([=](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = E; });
    std::ifstream t(std::string(getenv("QED_TABLES_PATH")) + "/hsokolov.table");
    int n; t >> n;
    std::vector<double> x(n), y(n);
    for (int i = 0; i < n; i++) t >> x[i] >> y[i];
    double gamma = std::sqrt(1 + p * p), eta = gamma * E, h = std::pow(10, Numerics::Interpolate1D(&x[0], &y[0], n, std::log10(eta)));
    StochasticEmission s(&f, 2, 1, 0, false);
    ParticleList l("l");
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, p), 1, 0, false);
    e.UpdateOpticalDepth(e.GetOpticalDepth() - 1e-3);
    double d = e.GetOpticalDepth();
    s.Interact(&e, &l);
    double r = 2 * std::sqrt(3) * 0.0072973525664 * eta * h / (gamma * 2 * M_PI);
    check(std::fabs((d - e.GetOpticalDepth()) / r - 1) < 1e-6, "emission rate at small eta");
}
''', pre=TABLES)
CE = 'Physics/Processes/ContinuousEmission.cpp'
seed('c09-cut', 'C09', PHYS,
     [(CE, 'if (gammaE > m_eMin)', 'if (gammaE * part->GetBeta() > m_eMin && m_eMin >= 0.0 && (m_classical || chi > m_eMin * eta / (2.0 * part->GetEnergy()) * 1.05))')],
     'a photon within a few percent above the energy cut, in the semiclassical mode', 'photons just above the cut are not recorded',
     FIELD + EM + '''int main()
{
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 1e-3; });
    int bad = 0;
    for (int i = 0; i < 300; i++) {
        Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000), 1, 0, false);
        ParticleList a("a"), b("b");
        MCTools::SetSeed(i);
        ContinuousEmission c(&f, 1, false, 1, 0, false);
        c.Interact(&e, &a);
        if (a.GetNPart() != 1) continue;
        double en = a.GetParticle(0)->GetEnergy();
        MCTools::SetSeed(i);
        ContinuousEmission d(&f, 1, false, 1, en * 0.98, false);
        d.Interact(&e, &b);
        if (b.GetNPart() != 1) bad++;
        if (i > 5) break;
    }
    check(bad == 0, "photon above the cut");
}
''', pre=TABLES)
seed('c09-sampled-weight', 'C09', PHYS,
     [(CE, '    double eta = CalculateEta(part);', '    if (m_sampleFrac < 1.0 && m_eMin > 0.0 && MCTools::RandDouble(0, 1) > m_sampleFrac) return;\n    double eta = CalculateEta(part);')],
     'a sampling fraction below one together with an energy cut', 'the step is sampled twice, so that the expected weight is too small',
     FIELD + EM + '''int main()
{
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 1e-3; });
    ContinuousEmission c(&f, 1, false, 0.5, 1e-300, false);
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000), 1, 0, false);
    ParticleList l("l");
    for (int i = 0; i < 4000; i++) c.Interact(&e, &l);
    check(l.GetNPart() > 1800 && l.GetNPart() < 2200, "half of the steps are sampled");
}
''', pre=TABLES)
BW = 'Physics/Processes/NonLinearBreitWheeler.cpp'
seed('c10-longitudinal', 'C10', PHYS,
     [(BW, 'ThreeVector ePerp = eField - ePara;', 'ThreeVector ePerp = bField.Mag2() > 0.0 ? eField - ePara : eField;')],
     'a photon in a purely electric field with a component along its direction', 'the longitudinal electric field makes photons decay',
     FIELD + EM + '''int main()
{
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e = ThreeVector(0, 0, 3); });
    NonLinearBreitWheeler b(&f, 1, false);
    Photon g(ThreeVector(0, 0, 0), ThreeVector(0, 0, 100), 1, 0, false);
    ParticleList l("l");
    double d = g.GetOpticalDepth();
    b.Interact(&g, &l);
    check(g.IsAlive() && l.GetNPart() == 0 && g.GetOpticalDepth() == d, "no decay in a longitudinal field");
}
''', pre=TABLES)
seed('c10-weight', 'C10', PHYS,
     [(BW, '''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            part->GetWeight(), part->GetTime(), m_track);''', '''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            positron->GetWeight(), positron->GetTime() + (m_track ? m_dt : 0.0), m_track);''')],
     'tracking switched on', 'the electron of a pair starts one step late when tracks are stored',
     FIELD + EM + '''int main()
{
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e = ThreeVector(0.1, 0, 0); });
    for (int k = 0; k < 2; k++) {
        NonLinearBreitWheeler b(&f, 0.5, k);
        Photon g(ThreeVector(0, 0, 0), ThreeVector(0, 0, 100), 1, 2.0, k);
        ParticleList l("l");
        g.UpdateOpticalDepth(g.GetOpticalDepth());
        b.Interact(&g, &l);
        check(l.GetNPart() == 2, "decay");
        check(l.GetParticle(0)->GetTime() == 2 && l.GetParticle(1)->GetTime() == 2, "time of the pair");
    }
}
''', pre=TABLES)
OM = 'IO/Output/OutputManager.cpp'
GROUPS['output'] = ['IO/Output/%s.cpp' % x for x in ('HDF5Output', 'Histogram', 'OutputManager')]
OUT = ['tools', 'particles', 'fields', 'output']
H5 = dict(pre='export ASAN_OPTIONS=detect_leaks=0', cflags='-fsanitize=address -g -I/usr/include/hdf5/serial', libs='-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_serial_cpp -lhdf5_serial')
READ = '''#include "OutputManager.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "StaticEMField.hh"
static std::vector<double> get(const char *n, std::vector<hsize_t> *shape = NULL)
{
    try {
        H5::Exception::dontPrint();
        H5::H5File f("o.h5", H5F_ACC_RDONLY);
        H5::DataSet d = f.openDataSet(n);
        H5::DataSpace s = d.getSpace();
        hsize_t dim[4] = {1, 1, 1, 1};
        int r = s.getSimpleExtentDims(dim);
        std::vector<double> v(s.getSimpleExtentNpoints());
        if (v.size()) d.read(v.data(), H5::PredType::NATIVE_DOUBLE);
        if (shape) shape->assign(dim, dim + r);
        return v;
    } catch (...) { std::fprintf(stderr, "broken: no readable %s\\n", n); std::exit(1); }
}
'''
seed('c17-grid', 'C17', OUT,
     [(OM, '(i*yAxis.size()*zAxis.size()) + (j*zAxis.size()) + k', '(i*yAxis.size() + j)*xAxis.size() + k')],
     'a field grid whose x and z axes differ in length', 'field samples are stored at the wrong place of the block',
     READ + '''class F: public EMField {
public:
    void GetField(double t, const ThreeVector &x, ThreeVector &e, ThreeVector &b) const { e = x; b = 2.0 * x; }
};
int main()
{
    {
        OutputManager o("o.h5");
        F f;
        std::vector<double> t(1, 0.0), x(1, 5.0), y(2), z(3);
        y[0] = 1; y[1] = 2; z[0] = 7; z[1] = 8; z[2] = 9;
        o.OutEMField(&f, t, x, y, z);
    }
    std::vector<double> v = get("Fields/0/E2"), w = get("Fields/0/B1");
    double a[6] = {7, 8, 9, 7, 8, 9}, b[6] = {2, 2, 2, 4, 4, 4};
    for (int i = 0; i < 6; i++) check(v[i] == a[i] && w[i] == b[i], "field sample");
}
''', **H5)
seed('c17-shared-flag', 'C17', OUT,
     [(OM, 'm_singlePartBool = true;', 'm_singlePartBool = m_partListBool = true;')],
     'a single particle written before a particle list', 'the group of the lists is never created and the write fails',
     READ + '''int main()
{
    Lepton a(1, -1, ThreeVector(1, 2, 3), ThreeVector(4, 5, 6), 1, 0, true);
    a.UpdateTrack(ThreeVector(1, 2, 3), ThreeVector(4, 5, 6));
    ParticleList l("l");
    l.AddParticle(new Photon(ThreeVector(1, 2, 3), ThreeVector(0, 0, 6)));
    try {
        OutputManager o("o.h5");
        o.SingleParticle(&a, "one");
        o.ListProperties(&l, "set");
    } catch (...) { check(false, "particle list after a single particle"); }
    std::vector<double> v = get("Particles/ParticleList/l/set");
    check(v.size() == 5 && v[1] == 6 && v[4] == 3, "list row");
}
''', **H5)
seed('c17-list-units', 'C17', OUT,
     [(OM, 'momBuff[3*i+j] = part->GetMomHist()[i][j] * momentum;', 'momBuff[3*i+j] = part->GetMomHist()[i][j] * length;')],
     'a list of tracked particles written with a unit system', 'momenta of the list are scaled by the unit of length',
     READ + '''int main()
{
    UnitsSystem u("SI");
    ParticleList l("l");
    Particle *p = new Lepton(1, -1, ThreeVector(1, 2, 3), ThreeVector(4, 5, 6), 1, 0, true);
    p->UpdateTrack(ThreeVector(1, 2, 3), ThreeVector(4, 5, 6));
    l.AddParticle(p);
    { OutputManager o("o.h5", &u); o.ListTracks(&l, "t"); }
    std::vector<double> v = get("Particles/ParticleList/t/0/Momentum"), x = get("Particles/ParticleList/t/0/Position");
    for (int i = 0; i < 3; i++) {
        check(std::fabs(v[i] / (u.RefMomentum() * (4 + i)) - 1) < 1e-12, "momentum");
        check(std::fabs(x[i] / (u.RefLength() * (1 + i)) - 1) < 1e-12, "position");
    }
}
''', **H5)
MPIH = '''// in-process stand-in for MPI: rank 0 runs last, messages wait in a queue; a wildcard receive prefers the lowest rank
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vector>
typedef int MPI_Comm; typedef int MPI_Datatype;
#define MPI_COMM_WORLD 0
#define MPI_ANY_SOURCE -1
#define MPI_DOUBLE 8
#define MPI_INT 4
struct MPI_Status { int from; size_t n; };
namespace fake {
struct Msg { int from, tag, epoch; std::vector<char> b; };
inline int &rank() { static int r; return r; }
inline int &size() { static int r; return r; }
inline int *epoch() { static int e[8]; return e; }
inline std::vector<Msg> &q() { static std::vector<Msg> v; return v; }
inline size_t at(int from, int tag)
{
    for (int s = 1; s < size(); s++) for (size_t i = 0; i < q().size(); i++)
        if (q()[i].from == s && (from < 0 || from == s) && q()[i].tag == tag && q()[i].epoch <= epoch()[0]) return i;
    std::fprintf(stderr, "broken: waits for ever\\n");
    std::exit(1);
}
}
inline int MPI_Comm_rank(int, int *r) { *r = fake::rank(); return 0; }
inline int MPI_Comm_size(int, int *n) { *n = fake::size(); return 0; }
inline int MPI_Barrier(int) { fake::epoch()[fake::rank()]++; return 0; }
inline int MPI_Send(const void *b, int n, int t, int, int tag, int)
{
    fake::Msg m; m.from = fake::rank(); m.tag = tag; m.epoch = fake::epoch()[fake::rank()];
    m.b.assign((const char *)b, (const char *)b + n * t);
    fake::q().push_back(m);
    return 0;
}
inline int MPI_Probe(int from, int tag, int, MPI_Status *s) { size_t i = fake::at(from, tag); s->from = fake::q()[i].from; s->n = fake::q()[i].b.size(); return 0; }
inline int MPI_Get_count(MPI_Status *s, int t, int *n) { *n = s->n / t; return 0; }
inline int MPI_Recv(void *b, int n, int t, int from, int tag, int, MPI_Status *s)
{
    size_t i = fake::at(from, tag);
    if (fake::q()[i].b.size() > (size_t)n * t) { std::fprintf(stderr, "broken: message truncated\\n"); std::exit(1); }
    if (fake::q()[i].b.size()) std::memcpy(b, fake::q()[i].b.data(), fake::q()[i].b.size());
    fake::q().erase(fake::q().begin() + i);
    return 0;
}
'''
MPI = dict(pre=H5['pre'], cflags='-DUSEMPI -I"$here" ' + H5['cflags'], libs=H5['libs'], extra={'mpi.h': MPIH})
seed('c18-barrier', 'C18', OUT,
     [(OM, '    // Wait for everyone to finish\n    MPI_Barrier(MPI_COMM_WORLD);', '    // Sends return as soon as the buffer can be reused')],
     'two histograms and a process that is faster than another', 'counts of one histogram are added to another',
     READ + '''int main()
{
    fake::size() = 3;
    for (int r = 2; r >= 0; r--) {
        fake::rank() = r;
        OutputManager o("o.h5");
        for (int k = 0; k < 2; k++) {
            Histogram h(k ? "b" : "a", "Electron", "Energy", 0, 0, 1, 2);
            h.GetBinValues()[0] = 10 * k + r;
            o.OutputHistMPI(&h);
        }
    }
    std::vector<double> a = get("Histograms/a/BinValues"), b = get("Histograms/b/BinValues");
    check(a[0] == 3 && b[0] == 33, "sums");
}
''', **MPI)
EVENTS = '''static void event(OutputManager &o, int electrons, int positrons, int photons, double tag)
{
    ParticleList l("e", 20);
    l.AddParticle(new Lepton(1, -1, ThreeVector(0, 0, 0), ThreeVector(tag, 0, 0)));
    o.InitSource(1);
    o.StoreSource(&l, 0, true);
    l.GetParticle(0)->Kill();
    for (int i = 0; i < electrons; i++) l.AddParticle(new Lepton(1, -1, ThreeVector(0, 0, i), ThreeVector(tag, 0, 0)));
    for (int i = 0; i < positrons; i++) l.AddParticle(new Lepton(1, 1, ThreeVector(0, 0, i), ThreeVector(tag, 0, 0)));
    for (int i = 0; i < photons; i++) l.AddParticle(new Photon(ThreeVector(0, 0, i), ThreeVector(tag, 0, 0)));
    o.StoreSource(&l, 0, false);
}
static void rows(const char *n, int rank0, int rank1)
{
    std::vector<double> v = get(n);
    check(v.size() == 8u * (rank0 + rank1), n);
    for (int i = 0; i < rank0 + rank1; i++) check(v[8*i+2] == (i < rank0 ? 1 : 2) && v[8*i+7] == (i < rank0 ? i : i - rank0), n);
}
'''
seed('c18-buffer', 'C18', OUT,
     [(OM, 'double* procPositronBuff = new double [positronArraysize[i]];', 'double* procPositronBuff = new double [electronArraysize[i]];')],
     'a process that holds more positrons than electrons', 'positrons of that process are received into a buffer too small for them',
     READ + EVENTS + '''int main()
{
    fake::size() = 2;
    for (int r = 1; r >= 0; r--) {
        fake::rank() = r;
        OutputManager o("o.h5");
        event(o, 1, r ? 3 : 1, 1, r + 1);
        o.OutputEventsMPI(true, false);
    }
    rows("Particles/ParticleSource/Positrons", 1, 3);
    rows("Particles/ParticleSource/Electrons", 1, 1);
}
''', **MPI)
seed('c18-root-empty', 'C18', OUT,
     [(OM, 'if (totalphotonSize > 0)', 'if (totalPhotons > 0)')],
     'photons on another process and none on the root process', 'the photons of the other processes are not written',
     READ + EVENTS + '''int main()
{
    fake::size() = 2;
    for (int r = 1; r >= 0; r--) {
        fake::rank() = r;
        OutputManager o("o.h5");
        event(o, 1, 1, r ? 2 : 0, r + 1);
        o.OutputEventsMPI(true, false);
    }
    rows("Particles/ParticleSource/Photons", 0, 2);
}
''', **MPI)
exec(open(__import__('os').path.join(__import__('os').path.dirname(__file__), 'seed_defs2.py')).read())
