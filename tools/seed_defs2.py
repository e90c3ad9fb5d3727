"""more planted bugs (exec'd by seed_defs.py)"""
GROUPS['input'] = ['IO/Input/%s.cpp' % x for x in ('FileParser', 'INIReader', 'ini')]
FP = 'IO/Input/FileParser.cpp'
DECK = '''#include "FileParser.hh"
static void deck(const std::string &body)
{
    std::ofstream f("d.ini");
    f << "[General]\\nunits = SI\\ntime_step = 1e-16\\ntime_end = 1e-14\\n" << body;
}
'''
seed('c01-tenth', 'C01', ['tools', 'input'],
     [(FP, 'std::string partField = "Particle" + std::to_string(i);', 'std::string partField = "Particle"; partField += char(\'0\' + i % 10);')],
     'a deck with ten particle sections in a row', 'the tenth source of a deck is never read',
     DECK + '''int main()
{
    for (int n = 1; n <= 12; n++) {
        std::string b;
        for (int i = 1; i <= n; i++) b += "[Particle" + std::to_string(i) + "]\\nnumber_particles = " + std::to_string(i + 1) + "\\n";
        deck(b);
        FileParser p("d.ini", false);
        std::vector<ParticleParameters> v = p.GetParticle();
        check((int)v.size() == n, "every numbered particle section is read");
        for (int i = 0; i < n; i++) check((int)v[i].Number == i + 2, "number of particles");
    }
}
''')
seed('c01-linear-upper', 'C01', ['tools', 'input'],
     [(FP, 'source.Energy2 = m_reader->GetReal(partField, "energy_sig", 0) / m_units->RefEnergy();',
       'source.Energy2 = m_reader->GetReal(partField, "energy_sig", source.Distro == "linear" ? m_reader->GetReal(partField, "energy_mean", 0) : 0) / m_units->RefEnergy();')],
     'a linear energy distribution whose second energy is left out', 'the default of the second energy is not the documented one',
     DECK + '''int main()
{
    deck("[Particle1]\\nenergy_mean = 1e-13\\nenergy_distribution = linear\\n[Particle2]\\nenergy_mean = 1e-13\\n");
    FileParser p("d.ini", false);
    check(p.GetParticle()[1].Energy2 == 0, "default of a mono source");
    check(p.GetParticle()[0].Energy2 == 0, "default of a linear source");
}
''')
seed('c01-focus-duration', 'C01', ['tools', 'input'],
     [(FP, '''         } else if (m_field.Type == "focusing")
         {
            m_field.MaxE = m_reader->GetReal("Field", "e_max", 0) / m_units->RefEField();
            m_field.Wavelength = m_reader->GetReal("Field", "wavelength", 1) / m_units->RefLength();
            m_field.Duration = m_reader->GetReal("Field", "duration", 1) / m_units->RefTime();''',
       '''         } else if (m_field.Type == "focusing")
         {
            m_field.MaxE = m_reader->GetReal("Field", "e_max", 0) / m_units->RefEField();
            m_field.Wavelength = m_reader->GetReal("Field", "wavelength", 1) / m_units->RefLength();
            m_field.Duration = m_reader->GetReal("Field", "duration", 1e-15) / m_units->RefTime();''')],
     'a focusing field without a duration', 'the default pulse duration of a focusing field is not the documented one',
     DECK + '''int main()
{
    double d[2];
    for (int i = 0; i < 2; i++) {
        deck(std::string("[Field]\\nfield_type = ") + (i ? "focusing" : "gaussian") + "\\n");
        FileParser p("d.ini", false);
        d[i] = p.GetField().Duration;
    }
    check(d[0] == d[1], "default duration");
}
''')
INI = 'IO/Input/ini.cpp'
INID = '''#include "ini.hh"
static std::string got;
static int take(void *, const char *s, const char *n, const char *v) { got += std::string(s) + "." + n + "=" + v + ";"; return std::string(v) != "bad"; }
static int parse(const std::string &t) { got = ""; return ini_parse_string(t.c_str(), take, NULL); }
'''
seed('c03-bom', 'C03', ['tools', 'input'],
     [(INI, 'if (lineno == 1 && (unsigned char)start[0] == 0xEF &&', 'if ((unsigned char)start[0] == 0xEF &&')],
     'a later line that starts with the bytes of a byte order mark', 'three bytes of a later line are dropped',
     INID + '''int main()
{
    check(parse("\\xEF\\xBB\\xBF[a]\\nx=1\\n") == 0 && got == "a.x=1;", "mark at the start");
    check(parse("[a]\\nx=1\\n\\xEF\\xBB\\xBFy=2\\n") == 0 && got == "a.x=1;a.\\xEF\\xBB\\xBFy=2;", "mark later on");
}
''')
seed('c03-continuation', 'C03', ['tools', 'input'],
     [(INI, "                strncpy0(section, start + 1, sizeof(section));\n                *prev_name = '\\0';", "                strncpy0(section, start + 1, sizeof(section));")],
     'an indented line right after a section header that follows a pair', 'the indented pair is taken for a continuation of the last value of the section before',
     INID + '''int main()
{
    check(parse("[a]\\nx=1\\n 2\\n") == 0 && got == "a.x=1;a.x=2;", "continuation");
    check(parse("[a]\\nx=1\\n[b]\\n  y=2\\n") == 0 && got == "a.x=1;b.y=2;", "indented pair after a header");
}
''')
seed('c03-last-error', 'C03', ['tools', 'input'],
     [(INI, "            else if (!error) {\n                /* No ']' found on section line */\n                error = lineno;", "            else {\n                /* No ']' found on section line */\n                error = lineno;")],
     'a bad line followed by an unterminated section header', 'the reported line is not the first bad one',
     INID + '''int main()
{
    check(parse("[a]\\nx\\ny=2\\n") == 2 && got == "a.y=2;", "bad pair");
    check(parse("[a]\\nx=bad\\n[b\\ny=2\\n") == 2, "first bad line");
}
''')
RD = 'IO/Input/INIReader.cpp'
READER = '''#include "INIReader.hh"
static INIReader *file(const std::string &t) { { std::ofstream f("f.ini"); f << t; } return new INIReader("f.ini"); }
'''
seed('c04-case', 'C04', ['tools', 'input'],
     [(RD, '    std::transform(key.begin(), key.end(), key.begin(), ::tolower);\n    return key;', '    std::transform(key.begin() + section.size(), key.end(), key.begin() + section.size(), ::tolower);\n    return key;')],
     'a section written in another case than it is asked for', 'section names are no longer case-insensitive',
     READER + '''int main()
{
    INIReader *r = file("[General]\\nTime_Step = 2\\n[FIELD]\\ne = 3\\n");
    check(r->GetReal("General", "time_step", 0) == 2, "key in another case");
    check(r->GetReal("Field", "E", 0) == 3, "section in another case");
}
''')
seed('c04-hex', 'C04', ['tools', 'input'],
     [(RD, 'long n = strtol(value, &end, 0);', 'long n = strtol(value, &end, value[0] == \'0\' && value[1] == \'x\' ? 16 : 10);')],
     'an integer in hexadecimal with a sign or a capital X', 'hexadecimal integers other than 0x... are read as zero',
     READER + '''int main()
{
    INIReader *r = file("[a]\\nx = 0x1f\\ny = 0X1F\\nz = -0x10\\nw = 12\\n");
    check(r->GetInteger("a", "x", 7) == 31 && r->GetInteger("a", "w", 7) == 12, "plain");
    check(r->GetInteger("a", "y", 7) == 31, "capital X");
    check(r->GetInteger("a", "z", 7) == -16, "negative hexadecimal");
}
''')
seed('c04-sections', 'C04', ['tools', 'input'],
     [(RD, 'if (std::find(sec_beg, sec_end, section) == reader->_sections.end())', 'if (sec_beg == sec_end || *(sec_end - 1) != section)')],
     'a section that is opened again after another one', 'the section is listed twice',
     READER + '''int main()
{
    INIReader *r = file("[a]\\nx = 1\\ny = 2\\n[b]\\nx = 1\\n[a]\\nz = 2\\n");
    check(r->GetReal("a", "z", 0) == 2, "value of a reopened section");
    check(r->GetSections().size() == 2, "sections are listed once");
}
''')
PE = 'Physics/Processes/PhotonEmission.cpp'
TD = FIELD + EM + '''#include "Numerics.hh"
static std::ifstream *table(const char *n) { return new std::ifstream(std::string(getenv("QED_TABLES_PATH")) + "/" + n); }
'''
seed('c12-axis', 'C12', PHYS,
     [(PE, 'double deltaEta = (logMaxEta - logMinEta) / (m_phEn_etaLength - 1.0);', 'double deltaEta = (logMaxEta - logMinEta) / m_phEn_etaLength;')],
     'an eta near the upper end of the table', 'the rows of the photon energy table are attached to the wrong eta, so that a drawn photon can have more than the energy of its emitter',
     TD + '''struct P : PhotonEmission {
    P(EMField *f) : PhotonEmission(f, 1, 1, 0, false) {}
    void Interact(Particle *, ParticleList *) const {}
    double draw(double eta) const { return CalculateChi(eta); }
};
int main()
{
    F f([](double, const ThreeVector &, ThreeVector &, ThreeVector &) {});
    P p(&f);
    std::ifstream *t = table("ksi_sokolov.table");
    int n, m; double lo, hi;
    *t >> n >> m >> lo >> hi;
    double eta = std::pow(10, lo + (hi - lo) * (n - 1.5) / (n - 1.)), top = 0;
    for (int i = 0; i < 200000; i++) top = std::max(top, p.draw(eta) * 2 / eta);
    std::printf("%g\\n", top);
    check(top > 0.7 && top <= 1 + 1e-9, "largest photon energy over that of the emitter");
}
''', pre=TABLES)
seed('c12-row', 'C12', PHYS,
     [(PE, '''    double highValue = Numerics::Interpolate1D(m_phEn_dataTable[lowIndex+1],
        m_phEn_chiAxis[lowIndex+1], m_phEn_chiLength, rand);''', '''    double highValue = Numerics::Interpolate1D(m_phEn_dataTable[lowIndex+1],
        m_phEn_chiAxis[lowIndex], m_phEn_chiLength, rand);''')],
     'an eta between two rows of the photon energy table', 'the upper row is read with the axis of the lower one, so that photon energies come out too small',
     TD + '''struct P : PhotonEmission {
    P(EMField *f) : PhotonEmission(f, 1, 1, 0, false) {}
    void Interact(Particle *, ParticleList *) const {}
    double draw(double eta) const { return CalculateChi(eta); }
};
int main()
{
    F f([](double, const ThreeVector &, ThreeVector &, ThreeVector &) {});
    P p(&f);
    std::ifstream *t = table("ksi_sokolov.table");
    int n, m; double lo, hi;
    *t >> n >> m >> lo >> hi;
    double d = (hi - lo) / (n - 1), a[2] = {0, 0};
    for (int k = 0; k < 2; k++) {
        double eta = std::pow(10, lo + d * (n / 2 + (k ? 0.95 : 0.05)));
        MCTools::SetSeed(5);
        for (int i = 0; i < 20000; i++) a[k] += std::log10(p.draw(eta)) / 20000;
    }
    std::printf("%g %g %g\\n", a[0], a[1], d);
    check(std::fabs((a[1] - a[0]) / d - 1.8) < 0.4, "mean energy grows with eta");
}
''', pre=TABLES)
seed('c12-missing', 'C12', PHYS,
     [(BW, '    if (!epsilonFile)\n', '    if (!epsilonFile && !fractFile)\n')],
     'a table directory without epsilon.table', 'a missing table is not reported and the run goes on with an empty axis',
     FIELD + EM + '''#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
int main()
{
    F f([](double, const ThreeVector &, ThreeVector &, ThreeVector &) {});
    std::string from = getenv("QED_TABLES_PATH");
    const char *names[4] = {"pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"};
    for (int miss = -1; miss < 4; miss++) {
        std::string dir = "t" + std::to_string(miss + 1);
        mkdir(dir.c_str(), 0700);
        for (int i = 0; i < 4; i++) if (i != miss && symlink((from + "/" + names[i]).c_str(), (dir + "/" + names[i]).c_str())) return 2;
        pid_t p = fork();
        if (!p) { setenv("QED_TABLES_PATH", dir.c_str(), 1); NonLinearBreitWheeler *b = new NonLinearBreitWheeler(&f, 1, false); (void)b; _exit(77); }
        int s; waitpid(p, &s, 0);
        bool built = WIFEXITED(s) && WEXITSTATUS(s) == 77;
        check(built == (miss < 0), "a missing table stops the program");
    }
}
''', pre=TABLES)
PL = 'Physics/Fields/EMField/PlaneEMField.cpp'
FLD = '''#include "PlaneEMField.hh"
#include "StaticEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
static ThreeVector E(const EMField &f, double t, ThreeVector x) { ThreeVector e, b; f.GetField(t, x, e, b); return e; }
static ThreeVector B(const EMField &f, double t, ThreeVector x) { ThreeVector e, b; f.GetField(t, x, e, b); return b; }
'''
seed('c13-early', 'C13', ['tools', 'fields'],
     [(PL, 'double E0 = m_maxE * std::cos((position_p[2] - time) * m_waveNum);', 'double E0 = m_maxE * std::cos((position_p[2] - std::abs(time)) * m_waveNum);')],
     'a particle whose clock is still negative', 'before time zero the wave runs backwards',
     FLD + '''int main()
{
    PlaneEMField f(2, 5, 0.3, ThreeVector(0, 0, 1));
    check(same(E(f, 3, ThreeVector(0, 0, 4))[0], E(f, 2, ThreeVector(0, 0, 3))[0]), "runs at c");
    check(same(E(f, -1, ThreeVector(0, 0, 0.5))[0], E(f, 0, ThreeVector(0, 0, 1.5))[0]), "runs at c before time zero");
}
''')
seed('c13-magnetic-sign', 'C13', ['tools', 'fields'],
     [(PL, 'eField[1] = E0 * std::sin(m_polAngle);', 'eField[1] = E0 * std::sqrt(1.0 - std::cos(m_polAngle) * std::cos(m_polAngle));')],
     'a polarisation angle below zero or above pi', 'E and B are no longer perpendicular for negative polarisation angles',
     FLD + '''int main()
{
    double a[3] = {0.7, 3.5, -0.7};
    for (int i = 0; i < 3; i++) {
        PlaneEMField f(2, 5, a[i], ThreeVector(0, 0, 1));
        check(same(E(f, 1, ThreeVector(0, 0, 1)).Dot(B(f, 1, ThreeVector(0, 0, 1))), 0), "E perpendicular to B");
    }
}
''')
GA = 'Physics/Fields/EMField/GaussianEMField.cpp'
seed('c14-arrival', 'C14', ['tools', 'fields'],
     [(GA, '* (m_waist / beamWaist) ', '* (m_waist / (position_p[2] > rayleigh ? m_waist * (position_p[2] / rayleigh) : beamWaist)) ')],
     'a place further behind the focus than the Rayleigh length', 'the amplitude jumps behind one Rayleigh length',
     FLD + '''int main()
{
    double w = 2, k = 2 * M_PI / 1.0, zr = k * w * w / 2;
    GaussianEMField f(3, 1, 50, w, 0, ThreeVector(0, 0, -100), ThreeVector(0, 0, 0));
    for (int i = -3; i <= 3; i++) {
        double z = i * 0.5 * zr;
        z = std::floor(z);
        check(same(E(f, z + 100, ThreeVector(0, 0, z))[0], 3 / std::sqrt(1 + z * z / zr / zr), 1e-6), "amplitude on axis at the peak of the pulse");
    }
}
''')
seed('c14-front', 'C14', ['tools', 'fields'],
     [(GA, '\t\t\t\t\t\t\t* (time - t0 - position_p[2]) / (m_tau * m_tau));', '\t\t\t\t\t\t\t* (time - t0 - position_p[2]) / (m_tau * m_tau) * (time < 0 ? 1.0 + r2 / (m_waist * m_waist) : 1.0));')],
     'an observer off the axis before time zero', 'the envelope depends on the absolute time',
     FLD + '''int main()
{
    GaussianEMField a(3, 1, 5, 2, 0.4, ThreeVector(0, 0, -3), ThreeVector(0, 0, 0)), b(3, 1, 5, 2, 0.4, ThreeVector(0, 0, -1), ThreeVector(0, 0, 0));
    ThreeVector x(1, 0.5, -0.5);
    // starting two closer, everything happens two earlier
    check(same(E(a, 4, x)[0], E(b, 2, x)[0]), "shifted start");
    check(same(E(a, 1, x)[0], E(b, -1, x)[0]), "shifted start before time zero");
}
''')
FO = 'Physics/Fields/EMField/FocusingField.cpp'
seed('c15-second-order', 'C15', ['tools', 'fields'],
     [(FO, '+ rho2 * rho2 * rho2 * rho2 * S[6] / 32.0));\n    eField[1]', '+ rho2 * rho2 * rho2 * rho2 * S[5] / 32.0));\n    eField[1]')],
     'a point far from the axis, where the fourth-order term of E matters', 'the highest term of the transverse electric field has the wrong phase and decay',
     FLD + '''int main()
{
    // at z = 0 in the middle of the pulse on a crest of S7: E and B share the highest term
    double w = 1, lam = 2, k = 2 * M_PI / lam, zr = k * w * w / 2, e = w / zr, y = 1.6, r = y * y / w / w;
    FocusingField f(5, lam, 40, w, 0, ThreeVector(0, 0, -10), ThreeVector(0, 0, 0));
    double z = 0.5 * zr, t = 10 + z, W = std::sqrt(1 + 0.25), g = std::atan(0.5), cur = z + zr * zr / z, ph = k * (t - 10 - z - y * y / (2 * cur)), S[8];
    for (int n = 1; n <= 7; n++) S[n] = std::pow(1 / W, n) * std::sin(ph + n * g);
    double want = 5 * std::exp(-y * y / (W * W)) * (S[1] + e * e * (-r * r * S[4] / 4) + e * e * e * e * (S[3] / 8 - r * S[4] / 4 - r * r * S[5] / 16 - r * r * r * S[6] / 8 + r * r * r * r * S[7] / 32));
    double got = E(f, t, ThreeVector(0, y, z))[0];
    std::printf("%g %g\\n", got, want);
    check(same(got, want, 1e-7), "transverse field off the axis");
}
''')
seed('c15-cut', 'C15', ['tools', 'fields'],
     [(FO, 'if (E_0 < 1.0e-15)', 'if (E_0 < 1.0e-15 || rho2 > 16.0)')],
     'a point more than four waists from the axis, far from the focus', 'the field is cut off although the beam is wide there',
     FLD + '''int main()
{
    FocusingField f(5, 1, 40, 1, 0, ThreeVector(0, 0, -10), ThreeVector(0, 0, 0));
    bool any = false;
    for (int i = 0; i < 8; i++) any |= E(f, 30 + 0.125 * i, ThreeVector(5, 0, 20)).Mag() > 0.01;
    check(any, "field in the spread beam");
}
''')
HI = 'IO/Output/Histogram.cpp'
HIST = '''#include "Histogram.hh"
#include "Lepton.hh"
#include "Photon.hh"
'''
seed('c16-single-py', 'C16', ['tools', 'particles', 'output'],
     [(HI, 'double yPos = part->GetMomentum()[1];', 'double yPos = part->GetEnergy() * part->GetDirection()[1];')],
     'a histogram of py filled with single slow leptons', 'the energy times the direction is binned instead of the momentum',
     HIST + '''int main()
{
    Histogram h("h", "Electron", "py", 0, -4, 4, 9), g("g", "Electron", "pz", 0, -4, 4, 9);
    Lepton a(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0.6, 0.6)), b(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0.4, 0.1));
    h.AppParticle(&a); g.AppParticle(&a); h.AppParticle(&b); g.AppParticle(&b);
    check(same(g.GetBinValues()[5], 1) && same(g.GetBinValues()[4], 1), "pz");
    check(same(h.GetBinValues()[5], 1) && same(h.GetBinValues()[4], 1), "py");
}
''', **H5)
seed('c16-merge', 'C16', ['tools', 'particles', 'output'],
     [(HI, '\t\tm_binCentres[m_nBins-1] == hist->m_binCentres[m_nBins-1])', '\t\tm_binCentres[m_nBins/2] - m_binCentres[m_nBins/2] == hist->m_binCentres[m_nBins/2] - hist->m_binCentres[m_nBins/2])')],
     'merging two histograms with the same minimum and number of bins but different maxima', 'incompatible histograms are added up',
     HIST + '''int main()
{
    Histogram a("a", "Electron", "x", 0, 0, 4, 5), *b = new Histogram("b", "Electron", "x", 0, 0, 8, 5), *c = new Histogram("c", "Electron", "x", 0, 0, 4, 5);
    Lepton p(1, -1, ThreeVector(2.1, 0, 0), ThreeVector(0, 0.6, 0.6));
    a.AppParticle(&p); b->AppParticle(&p); c->AppParticle(&p);
    a.Merge(b);
    check(a.GetBinValues()[1] == 0 && a.GetBinValues()[2] == 1, "incompatible histograms");
    a.Merge(c);
    check(a.GetBinValues()[2] == 2, "compatible histograms");
}
''', **H5)
LE = 'Particles/Lepton.cpp'
seed('c19-mass', 'C19', ['tools', 'particles'],
     [(LE, 'return std::sqrt(1.0 + m_momentum.Mag2() / (m_mass * m_mass));', 'return std::sqrt(1.0 + m_momentum.Mag2() / m_mass);')],
     'a lepton heavier than the electron', 'gamma and energy of a heavy lepton are wrong',
     '''#include "Lepton.hh"
int main()
{
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 4)), m(4, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 0));
    check(same(e.GetEnergy(), std::sqrt(26)), "electron");
    check(same(m.GetEnergy(), 5) && same(m.GetGamma(), 1.25) && same(m.GetBeta(), 0.6), "heavy lepton");
}
''')
seed('c19-history', 'C19', ['tools', 'particles'],
     [('Particles/Particle.cpp', '\t\tm_momHistory.push_back(momentum);', '\t\tif (m_momHistory.empty() || momentum.Mag2() > 0.0) m_momHistory.push_back(momentum);')],
     'a tracked particle that comes to rest', 'the momentum history misses the samples at rest',
     '''#include "Lepton.hh"
int main()
{
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 4), 1, 0, true);
    for (int i = 0; i < 4; i++) { e.UpdateTime(1); e.UpdateTrack(ThreeVector(0, 0, i), ThreeVector(0, 0, 3 - i)); }
    check(e.GetPosHist().size() == 4 && e.GetMomHist().size() == 4 && e.GetTimeHist().size() == 4 && e.GetGammaHist().size() == 4, "length of the histories");
}
''')
seed('c19-depth', 'C19', ['tools', 'particles'],
     [('Particles/Particle.cpp', '\tm_opticalDepth -= dtau;', '\tm_opticalDepth = m_opticalDepth > dtau ? m_opticalDepth - dtau : -1e-12;')],
     'a step that takes more than what is left of the optical depth', 'the optical depth does not fall by what is subtracted',
     '''#include "Lepton.hh"
int main()
{
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 4));
    double d = e.GetOpticalDepth();
    e.UpdateOpticalDepth(d / 2);
    check(same(e.GetOpticalDepth(), d / 2), "half");
    e.UpdateOpticalDepth(d);
    check(same(e.GetOpticalDepth(), -d / 2), "more than is left");
}
''')
SG = 'Particles/SourceGenerator.cpp'
SRCD = '''#include "SourceGenerator.hh"
#include "Particle.hh"
#include "MCTools.hh"
'''
seed('c20-exhausted', 'C20', ['tools', 'particles', 'source'],
     [(SG, 'if (m_partCount == m_nPart)', 'if (m_partCount > m_nPart)')],
     'one more event than the source has particles', 'a source hands out one event too many, with values from behind its samples',
     SRCD + '''#include <sys/wait.h>
#include <unistd.h>
int main()
{
    pid_t p = fork();
    if (!p) {
        SourceGenerator g("Photon", "mono", 2, 5, 0, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
        for (int i = 0; i < 3; i++) g.GenerateList();
        _exit(77);
    }
    int s; waitpid(p, &s, 0);
    check(WIFEXITED(s) && WEXITSTATUS(s) != 77, "a third event of a source of two");
}
''')
seed('c20-duration-axis', 'C20', ['tools', 'particles', 'source'],
     [(SG, 'partPosition = m_rotaion * partPosition + m_position;', 'partPosition = partPosition[0] == 0.0 && partPosition[1] == 0.0 ? partPosition + m_position : m_rotaion * partPosition + m_position;')],
     'a duration spread without a radius, for a source that does not move along z', 'the duration spread lies along z instead of along the direction',
     SRCD + '''int main()
{
    SourceGenerator g("Electron", "mono", 20, 5, 0, 0, 3, 0, ThreeVector(1, 2, 3), ThreeVector(1, 0, 0));
    for (int i = 0; i < 20; i++) {
        ParticleList *l = g.GenerateList();
        ThreeVector x = l->GetParticle(0)->GetPosition();
        check(same(x[1], 2) && same(x[2], 3), "spread along the direction only");
        g.FreeSources(l);
    }
}
''')
seed('c20-linear', 'C20', ['tools', 'particles', 'source'],
     [(SG, 'm_energy = MCTools::SampleUniform(energy1, energy2, nPart);\n    } else if', 'm_energy = MCTools::SampleUniform(energy1, energy1 + energy2, nPart);\n    } else if')],
     'a linear energy distribution', 'the second energy is taken as a width instead of the upper bound',
     SRCD + '''int main()
{
    SourceGenerator g("Electron", "linear", 200, 5, 6, 0, 0, 0, ThreeVector(1, 2, 3), ThreeVector(1, 0, 0));
    for (int i = 0; i < 200; i++) {
        ParticleList *l = g.GenerateList();
        double e = l->GetParticle(0)->GetEnergy();
        check(e > 5 - 1e-9 && e < 6 + 1e-9, "energy within its bounds");
        g.FreeSources(l);
    }
}
''')
PLI = 'Particles/ParticleList.cpp'
seed('c21-full', 'C21', ['tools', 'particles'],
     [(PLI, 'if (m_particleNumber < m_maxParticles)', 'if (m_particleNumber <= m_maxParticles - 1)')],
     'a list of capacity zero', 'adding to a list without room writes outside of it',
     '''#include "ParticleList.hh"
#include "Photon.hh"
int main()
{
    ParticleList l("l", 1);
    Photon *a = new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)), *b = new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 2));
    l.AddParticle(a); l.AddParticle(b);
    check(l.GetNPart() == 1 && l.GetParticle(0) == a, "full list");
    ParticleList z("z", 0);
    z.AddParticle(b);
    check(z.GetNPart() == 0, "list without room");
    delete b;
}
''', cflags='-fsanitize=address')
seed('c21-dead', 'C21', ['tools', 'particles'],
     [(PLI, '\t\tdelete m_particleList[i];', '\t\tif (m_particleList[i]->IsAlive() || m_particleList[i]->GetCharge() != 0) delete m_particleList[i];')],
     'a list that holds a photon that was killed', 'dead photons are never freed',
     '''#include "ParticleList.hh"
#include "Photon.hh"
static int freed;
struct P : Photon { P() : Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)) {} ~P() { freed++; } };
int main()
{
    {
        ParticleList l("l", 5);
        for (int i = 0; i < 3; i++) l.AddParticle(new P);
        l.GetParticle(1)->Kill();
    }
    check(freed == 3, "every particle is freed");
}
''')
MC = 'Tools/MCTools.cpp'
seed('c24-poisson', 'C24', ['tools'],
     [(MC, '    std::poisson_distribution<unsigned int> dist(mean);\n', '    if (mean >= 30.0) return (unsigned int)std::max(0.0, RandNorm(mean, std::sqrt(mean)));\n    std::poisson_distribution<unsigned int> dist(mean);\n')],
     'a mean of thirty or more', 'the mean of a Poisson draw is half too small, because the normal approximation is cut to whole numbers',
     '''#include "MCTools.hh"
int main()
{
    double m[2] = {5, 40};
    for (int k = 0; k < 2; k++) {
        double s = 0;
        for (int i = 0; i < 200000; i++) s += MCTools::RandPoisson(m[k]) / 200000.0;
        check(std::fabs(s - m[k]) < 0.2, "mean of a Poisson draw");
    }
}
''')
seed('c24-static', 'C24', ['tools'],
     [(MC, '    std::normal_distribution<double> normDist(mean, sig); ', '    static std::normal_distribution<double> normDist(mean, sig); ')],
     'a second vector of normal samples with another mean or width', 'every later vector of samples has the mean and width of the first',
     '''#include "MCTools.hh"
int main()
{
    double want[3] = {0, 100, -50};
    for (int k = 0; k < 3; k++) {
        std::vector<double> v = MCTools::SampleNorm(want[k], 1, 1000);
        double m = 0;
        for (size_t i = 0; i < v.size(); i++) m += v[i] / v.size();
        check(v.size() == 1000 && std::fabs(m - want[k]) < 1, "mean of normal samples");
    }
}
''')
QC = 'Exec/QEDCASC.cpp'
GROUPS['none'] = []
ALLS = ['tools', 'particles', 'source', 'fields', 'pushers', 'processes', 'input', 'output']
RUN = dict(pre='export ASAN_OPTIONS=detect_leaks=0\n' + TABLES, inc=['Source'], cflags='-I/usr/include/hdf5/serial', libs=H5['libs'])
MAIN = READ.replace('#include "Lepton.hh"\n#include "Photon.hh"\n', '') + '''#define main qed_main
#include "Exec/QEDCASC.cpp"
#undef main
#include <sys/wait.h>
#include <unistd.h>
static int run(const std::string &body, const char *name = "d.ini", bool quiet = true)
{
    if (body.size()) { std::ofstream f(name); f << body; }
    std::fflush(NULL);
    pid_t p = fork();
    if (!p) {
        if (quiet && (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr))) _exit(99);
        std::string a(name);
        char a0[] = "QEDCASC", *av[] = {a0, &a[0], NULL};
        int r = qed_main(2, av);
        _exit(r);
    }
    int s; waitpid(p, &s, 0);
    return WIFEXITED(s) ? WEXITSTATUS(s) : 128 + WTERMSIG(s);
}
static const std::string GEN = "[General]\\nunits = SI\\nfile_name = o.h5\\n", FIELD0 = "[Field]\\nfield_type = static\\n", QUANTUM = "[Physics]\\nradiation_model = quantum\\n";
'''
seed('c22-hist-final', 'C22', ALLS,
     [(QC, 'for (unsigned int k = histCount; k < histograms.size(); k++)', 'for (unsigned int k = histCount; k < histograms.size() && (k == histCount || histograms[k]->GetTime() > histograms[k-1]->GetTime()); k++)')],
     'two histograms of the same time, at or after the end of the run', 'the second histogram of the same final time stays empty',
     MAIN + '''int main()
{
    std::string h;
    for (int i = 1; i < 3; i++) h += "[Histogram" + std::to_string(i) + "]\\nname = h" + std::to_string(i) + "\\nparticle = Electron\\ntype = z\\ntime = 1\\nbins = 5\\nmin_bin = -1e9\\nmax_bin = 1e9\\n";
    check(run(GEN + "time_step = 1e-16\\ntime_end = 1e-15\\n" + FIELD0 + QUANTUM + "[Particle1]\\nenergy_mean = 1e-12\\nnumber_particles = 3\\n" + h) == 0, "the run");
    std::vector<double> a = get("Histograms/h1/BinValues"), b = get("Histograms/h2/BinValues");
    double s = 0, t = 0;
    for (size_t i = 0; i < a.size(); i++) { s += a[i]; t += b[i]; }
    check(s == 3 && t == 3, "both histograms hold every particle");
}
''', **RUN)
seed('c22-model-cut', 'C22', ALLS,
     [(QC, '''            inGeneral.timeStep, false, inPhysics.SampleFraction,
            inPhysics.MinEnergy, inGeneral.tracking);''', '''            inGeneral.timeStep, false, inPhysics.MinEnergy,
            inPhysics.SampleFraction, inGeneral.tracking);''')],
     'the semiclassical model with a sample fraction or a minimum energy', 'sample fraction and minimum energy are exchanged in the semiclassical model',
     MAIN + '''static int photons(const char *model, const char *more)
{
    check(run(GEN + "time_step = 1e-18\\ntime_end = 4e-17\\n[Field]\\nfield_type = static\\ne_field = 5e15 0 0\\n[Physics]\\nradiation_model = " + model + "\\n" + more +
        "[Particle1]\\nenergy_mean = 1e-10\\noutput = true\\n") == 0, "the run");
    std::vector<hsize_t> s;
    H5::Exception::dontPrint();
    try { H5::H5File f("o.h5", H5F_ACC_RDONLY); f.openDataSet("Particles/ParticleSource/Photons"); } catch (...) { return 0; }
    get("Particles/ParticleSource/Photons", &s);
    return s[0];
}
int main()
{
    check(photons("classical", "min_energy = 1e-30\\n") > 30 && photons("semiclassical", "min_energy = 1e-30\\n") > 30, "a photon in every step");
    check(photons("classical", "min_energy = 1\\n") == 0 && photons("semiclassical", "min_energy = 1\\n") == 0, "no photon above a joule");
}
''', **RUN)
seed('c22-waist', 'C22', ALLS,
     [(QC, '''        field = new FocusingField(inField.MaxE, inField.Wavelength,
            inField.Duration, inField.Waist, inField.Polerisation,''', '''        field = new FocusingField(inField.MaxE, inField.Wavelength,
            inField.Waist, inField.Duration, inField.Polerisation,''')],
     'a focusing field whose duration differs from its waist', 'duration and waist of the focusing field are exchanged',
     MAIN + '''int main()
{
    // far ahead of a short pulse nothing happens, in a long one the particle is deflected
    for (int k = 0; k < 2; k++) {
        check(run(GEN + "time_step = 1e-16\\ntime_end = 1e-14\\n[Field]\\nfield_type = focusing\\ne_max = 1e13\\nwavelength = 1e-6\\nwaist = 3e-6\\nduration = " + (k ? "1e-12" : "1e-15") +
            "\\nstart = 0 0 -1e-4\\nfocus = 0 0 0\\n" + QUANTUM + "[Particle1]\\nenergy_mean = 1e-12\\nposition = 0 0 1e-7\\ndirection = 0 0 -1\\noutput = true\\n") == 0, "the run");
        std::vector<double> e = get("Particles/ParticleSource/Electrons");
        std::printf("%g %g\\n", e[2], e[3]);
        check((e[2] != 0) == (k == 1), "a short pulse does not reach the particle");
    }
}
''', **RUN)
seed('c26-model', 'C26', ALLS,
     [(QC, '''                  << "\\"" << std::endl;
        return 1; ''', '''                  << "\\"" << std::endl;
        return inPhysics.Physics.empty() ? 0 : 1; ''')],
     'a deck without a radiation model', 'a deck without a radiation model ends with status zero although nothing was run',
     MAIN + '''int main()
{
    check(run(GEN + "time_step = 1e-16\\ntime_end = 1e-16\\n" + FIELD0 + QUANTUM + "[Particle1]\\nenergy_mean = 1e-12\\n") == 0, "a good deck");
    check(run(GEN + "time_step = 1e-16\\ntime_end = 1e-16\\n" + FIELD0 + "[Physics]\\nradiation_model = newton\\n[Particle1]\\nenergy_mean = 1e-12\\n") != 0, "an unknown model");
    check(run(GEN + "time_step = 1e-16\\ntime_end = 1e-16\\n" + FIELD0 + "[Particle1]\\nenergy_mean = 1e-12\\n") != 0, "no model");
}
''', **RUN)
seed('c26-help', 'C26', ALLS,
     [(QC, 'if (argument == "-h")', 'if (argument.find("-h") == 0)'),
      (QC, '            std::cout << "This is how to use the code\\n";\n            return 1;', '            std::cout << "This is how to use the code\\n";\n            return argument.size() == 2;')],
     'an argument that starts with -h but is longer', 'an unknown option is taken for the help option and ends with status zero',
     MAIN + '''int main()
{
    check(run("", "-h") != 0, "help");
    check(run("", "-x") != 0 && run("", "deck.txt") != 0, "unknown arguments");
    check(run("", "-hx") != 0 && run("", "-help") != 0, "arguments that start with -h");
}
''', **RUN)
RM = 'Python/RunManager.cpp'
PYR = dict(pre=TABLES, inc=['Source/Python'], cflags='-I"$here"', extra={'pybind11/' + n: open('/verif/rt/common/pybind11/' + n).read() for n in ('pybind11.h', 'stl.h', 'numpy.h')})
PYT = '''#include "RunManager.cpp"
static void setup(RunManager &m, const char *kind, double e, ThreeVector pos)
{
    m.setTime(1e-16, 1e-15);
    m.setField("gaussian", 1e5, 1e-6, 1e-15, 2e-6, 0, ThreeVector(0, 0, 1), ThreeVector(0, 0, 0));
    m.setPhysics("quantum");
    m.setGenerator(kind, "mono", e, 0, 0, 0, 0, pos, ThreeVector(0, 0, -1));
}
'''
ALLP = ['tools', 'particles', 'source', 'fields', 'pushers', 'processes']
seed('c23-positron-rows', 'C23', ALLP,
     [(RM, '''                m_positron_P_X[tid].push_back(event->GetParticle(j)->GetPosition()[2]
                    * m_units->RefLength());''', '''                m_positron_P_X[tid].push_back(event->GetParticle(j)->GetPosition()[2]
                    * m_units->RefTime());''')],
     'a run that returns positrons', 'the third coordinate of positrons comes back in the wrong unit',
     PYT + '''int main()
{
    const char *k[2] = {"electron", "positron"};
    for (int i = 0; i < 2; i++) {
        RunManager m;
        setup(m, k[i], 1e-12, ThreeVector(1, 2, 3));
        m.beamOn(2);
        py::array_t<double> a = i ? m.getPositrons() : m.getElectrons();
        check(a.shape(0) == 2 && a.shape(1) == 7, "rows");
        for (int j = 0; j < 3; j++) check(std::fabs(a.at(1, 3 + j) - (j + 1)) < 1e-3, "position");
    }
}
''', **PYR)
seed('c23-stale', 'C23', ALLP,
     [(RM, '    m_photon_P_X = std::vector<std::vector<double>>(threads);', '    m_photon_P_X.resize(threads);')],
     'a second run of the same object after one that returned photons', 'the photons of the run before are returned again',
     PYT + '''int main()
{
    RunManager m;
    setup(m, "photon", 1e-12, ThreeVector(1, 2, 3));
    m.beamOn(2);
    check(m.getPhotons().shape(0) == 2, "first run");
    m.beamOn(3);
    check(m.getInput().shape(0) == 3 && m.getPhotons().shape(0) == 3, "second run");
    setup(m, "electron", 1e-12, ThreeVector(1, 2, 3));
    m.beamOn(1);
    check(m.getElectrons().shape(0) == 1 && m.getPhotons().shape(0) == 0, "third run");
}
''', **PYR)
seed('c23-refused-generator', 'C23', ALLP,
     [(RM, '''        m_physSet = false;
        std::cerr << "Error: Unkown physics type.''', '''        m_physSet = m_physSet && m_pusher != nullptr;
        std::cerr << "Error: Unkown physics type.''')],
     'an invalid model set after a successful run', 'the run goes ahead with the model of the run before instead of being refused',
     PYT + '''int main()
{
    for (int k = 0; k < 2; k++) {
        RunManager m;
        setup(m, "electron", 1e-12, ThreeVector(1, 2, 3));
        if (k) m.beamOn(1);
        m.setPhysics("newton");
        m.beamOn(5);
        check(m.getElectrons().shape(0) != 5, "a run with an unknown model is refused");
    }
}
''', **PYR)
# ------------------------------------------------------------------------------------------------------------------- C27
THR = '''#!/bin/sh
# run in the repository: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export QED_TABLES_PATH="$PWD/Tables"
flags="-std=gnu++11 -O0 -w -DUSEOPENMP -fopenmp -fsanitize=thread -pthread -isystem $here %s"
list="%s"
k=0
for f in "$here/demo.cpp" $list; do
    k=$((k+1))
    clang++ $flags -c "$f" -o "$tmp/$k.o" 2> "$tmp/$k.err" &
done
wait
g++ -std=gnu++11 -O1 -w -pthread -c "$here/threads.cpp" -o "$tmp/t.o" || exit 2
g++ -pthread "$tmp"/*.o -o "$tmp/demo" -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=__cxa_guard_release %s -ldl || { cat "$tmp"/*.err; exit 2; }
cd "$tmp" && timeout 250 ./demo
'''


def thr(groups, inc, libs, more=''):
    incs = ' '.join('-I$PWD/%s' % x for x in GROUPS['inc'] + inc) + more
    srcs = ' '.join('$PWD/Source/%s' % x for g in groups for x in GROUPS[g])
    ex = {n: open('/verif/tools/thr/' + n).read() for n in ('threads.cpp', 'omp.h', 'all.h')}
    if 'Source/Python' in inc:
        ex.update(PYR['extra'])
    return dict(sh=THR % (incs, srcs, libs), extra=ex)


TPY = thr(ALLP, ['Source/Python'], '')
TMAIN = thr(ALLS, ['Source'], H5['libs'], ' -I/usr/include/hdf5/serial')
TRUN = '''#include "all.h"
#include "RunManager.cpp"
static void run(const char *model, const char *field, const char *kind, bool pairs, int events, int steps, RunManager &m)
{
    m.setTime(1e-15, (steps - 0.5) * 1e-15);
    m.setField(field, 1e14, 1e-6, 1e-14, 2e-6, 0.5, ThreeVector(0, 0, -1e-6), ThreeVector(0, 0, 0));
    m.setPhysics(model);
    m.usePairProduction(pairs);
    m.setGenerator(kind, "gaussian", 1e-10, 1e-12, 1e-7, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, -1));
    m.beamOn(events, 2);
}
'''
seed('c27-slot', 'C27', ALLP,
     [(RM, '''            m_input_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[%d]
                * m_units->RefMomentum());''' % k, '''            m_input_P_X[i %% m_input_P_X.size()].push_back(event->GetParticle(j)->GetMomentum()[%d]
                * m_units->RefMomentum());''' % k) for k in range(3)] +
     [(RM, '''            m_input_P_X[tid].push_back(event->GetParticle(j)->GetPosition()[%d]
                * m_units->RefLength());''' % k, '''            m_input_P_X[i %% m_input_P_X.size()].push_back(event->GetParticle(j)->GetPosition()[%d]
                * m_units->RefLength());''' % k) for k in range(3)],
     'two threads and at least three events', 'input rows are kept by event instead of by thread, so that two threads fill the same list',
     TRUN + '''static void go()
{
    RunManager m;
    run("quantum", "gaussian", "photon", false, 3, 1, m);
    check(m.getInput().shape(0) == 3 && m.getPhotons().shape(0) == 3, "every event once");
}
int main() { schedules(go); }
''', **TPY)
seed('c27-rk4-buffer', 'C27', ALLP,
     [('Physics/ParticlePushers/ParticlePusher.cpp', '        ThreeVector posK1, posK2, posK3, posK4;\n        ThreeVector momK1, momK2, momK3, momK4;\n',
       '        static ThreeVector posK1, posK2, posK3, posK4;\n        static ThreeVector momK1, momK2, momK3, momK4;\n')],
     'charged particles in two threads', 'the intermediate stages of a push are shared by all threads',
     TRUN + '''static void go()
{
    RunManager m;
    run("quantum", "gaussian", "electron", false, 2, 2, m);
    check(m.getElectrons().shape(0) == 2, "every event once");
}
int main() { schedules(go); }
''', **TPY)
seed('c27-chi-scratch', 'C27', ALLP,
     [(BW, '''double NonLinearBreitWheeler::CalculateSplit(double chi) const
{
    double rand = MCTools::RandDouble(0, 1);
    int lowIndex;
    double frac;''', '''double NonLinearBreitWheeler::CalculateSplit(double chi) const
{
    double rand = MCTools::RandDouble(0, 1);
    static int lowIndex;
    static double frac;''')],
     'pairs created in two threads', 'the table index of a pair being created is shared by all threads',
     TRUN + '''#include "StaticEMField.hh"
#include "Photon.hh"
static void go()
{
    // photons in a strong field decay at once
    StaticEMField f(ThreeVector(0.001, 0, 0), ThreeVector(0, 0.001, 0));
    NonLinearBreitWheeler bw(&f, 1e9);
    omp_set_num_threads(2);
    #pragma omp parallel for
    for (int i = 0; i < 2; i++) {
        ParticleList l("l", 10);
        Photon *p = new Photon(1000. * (i + 1), ThreeVector(0, 0, 0), ThreeVector(0, 0, -1));
        l.AddParticle(p);
        bw.Interact(p, &l);
        vf_assert(l.GetNPart() == 3, "the photon decays");
        double e = l.GetParticle(1)->GetEnergy() + l.GetParticle(2)->GetEnergy();
        vf_assert(std::fabs(e - 1000. * (i + 1)) < 1e-3, "energy");
    }
}
int main() { schedules(go); }
''', **TPY)
seed('c27-plane-cache', 'C27', ALLS,
     [(PL, '''    ThreeVector position_p = m_rotaion * position;
    double E0 = m_maxE * std::cos((position_p[2] - time) * m_waveNum);
''', '''    // particles are often probed twice at one place
    static double lastPhase = 0, lastCos = 1;
    ThreeVector position_p = m_rotaion * position;
    double phase = (position_p[2] - time) * m_waveNum;
    if (phase != lastPhase)
    {
        lastPhase = phase;
        lastCos = std::cos(phase);
    }
    double E0 = m_maxE * lastCos;
''')],
     'a plane wave and two threads', 'the last phase and its cosine are remembered for all threads together',
     '''#include "all.h"
''' + MAIN + '''static void go()
{
    PlaneEMField f(0.01, 2, 0.3, ThreeVector(0, 0, 1));
    LorentzPusher p(&f, 0.1);
    omp_set_num_threads(2);
    #pragma omp parallel for
    for (int i = 0; i < 2; i++) {
        Lepton e(1.0, -1.0, ThreeVector(0, 0, i), ThreeVector(0, 0, -10. - i));
        for (int k = 0; k < 3; k++) p.PushParticle(&e);
    }
}
int main() { schedules(go); }
''', **TMAIN)
seed('c27-row', 'C27', ALLS,
     [('IO/Output/OutputManager.cpp', '''        double* dataBuff = new double[8];
        dataBuff[0] = eventID;''', '''        static double row[8];
        double* dataBuff = row;
        dataBuff[0] = eventID;'''),
      ('IO/Output/OutputManager.cpp', '''        m_primaryEvent[eventID] = dataBuff;''', '''        m_primaryEvent[eventID] = new double[8];
        for (unsigned int i = 0; i < 8; i++) m_primaryEvent[eventID][i] = row[i];''')],
     'two threads that store their first rows at the same time', 'primary rows are put together in one row shared by all threads',
     '''#include "all.h"
''' + MAIN + '''static void go()
{
    OutputManager *o = new OutputManager("o.h5");
    o->InitSource(2);
    omp_set_num_threads(2);
    #pragma omp parallel for
    for (int i = 0; i < 2; i++) {
        ParticleList l("l", 10);
        l.AddParticle(new Photon(10. + i, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)));
        o->StoreSource(&l, i, true);
        o->StoreSource(&l, i, false);
    }
    o->OutputEvents(true, false);
    delete o;
    std::vector<double> a = get("Particles/ParticleSource/Primary");
    for (int i = 0; i < 2; i++) check(a[8 * i] == i && a[8 * i + 1] == 10. + i, "rows carry their number");
}
int main() { schedules(go); }
''', **TMAIN)
SUMM = DECK + '''#include <sstream>
static std::string summary()
{
    std::ifstream f("input-check.txt");
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static int count(const std::string &t, const std::string &w)
{
    int n = 0;
    for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) n++;
    return n;
}
'''
seed('c28-append', 'C28', ['tools', 'input'],
     [(FP, 'm_checkFile.open("./input-check.txt");', 'm_checkFile.open("./input-check.txt", std::ios::app);')],
     'a second run in the same directory', 'the summary of a run is appended to that of the run before',
     SUMM + '''int main()
{
    for (int k = 0; k < 2; k++) {
        deck(k ? "[Particle1]\\nname = second\\n" : "[Particle1]\\nname = first\\n");
        { FileParser p("d.ini", true); }
        std::string s = summary();
        check(count(s, "General") == 1 && count(s, "Particle 1") == 1, "every section once");
        check(count(s, k ? "second" : "first") == 1 && count(s, k ? "first" : "second") == 0, "the sources of this run");
    }
}
''')
seed('c28-direction', 'C28', ['tools', 'input'],
     [(FP, '''                m_checkFile << "Direction  = [" << source.Direction[0] << " "
                            << source.Direction[1] << " " << source.Direction[2] << "]\\n";''',
       '''                const ThreeVector& dir = m_particles.front().Direction;
                m_checkFile << "Direction  = [" << dir[0] << " "
                            << dir[1] << " " << dir[2] << "]\\n";''')],
     'two sources with different directions', 'every source is listed with the direction of the first',
     SUMM + '''int main()
{
    deck("[Particle1]\\ndirection = 1 2 3\\n[Particle2]\\ndirection = 4 5 6\\n");
    { FileParser p("d.ini", true); }
    std::string s = summary();
    check(count(s, "1 2 3") == 1, "direction of the first source");
    check(count(s, "4 5 6") == 1, "direction of the second source");
}
''')
seed('c28-stale-field', 'C28', ['tools', 'input'],
     [(FP, '''                m_checkFile << "Field type  = " << m_field.Type << "\\n";
                m_checkFile << "Wavelength  = " << m_field.Wavelength << "\\n";''', '''                m_checkFile << "Field type  = " << m_field.Type << "\\n";
                m_checkFile << "Wavelength  = " << m_field.Wavelength * m_units->RefLength() / m_units->RefTime() << "\\n";''')],
     'a plane wave in SI units', 'the wavelength of a plane wave is not in the units of the run',
     SUMM + '''#include "UnitsSystem.hh"
int main()
{
    UnitsSystem u("SI");
    std::ostringstream w;
    w << 1e-6 / u.RefLength();
    deck("[Field]\\nfield_type = plane\\nwavelength = 1e-6\\ne_max = 1e10\\n");
    { FileParser p("d.ini", true); }
    check(count(summary(), "= " + w.str() + "\\n") == 1, "wavelength");
}
''')
seed('c09-classical-reference', 'C09', PHYS,
     [(CE, '        chi = CalculateChi(chiMin) * (eta / chiMin)  * (eta / chiMin);',
       '        chi = CalculateChi(std::pow(10.0, m_h_etaAxis[0])) * (eta / chiMin) * (eta / chiMin);')],
     'the classical mode', 'photon energies of the classical mode are off by a constant factor, still proportional to eta',
     FIELD + EM + '''#include <fstream>
#include <sys/stat.h>
int main()
{
    // tables in which every row obeys the classical law chi = 1e-8 eta^2 10^(10.7 u / g)
    mkdir("tab", 0755);
    double b = 8 - std::log10(2.), g = 0.999, len[2] = {b + 3, b};
    std::ofstream("tab/hsokolov.table") << "2\\n-4 0.7193\\n2 0.7193\\n";
    { std::ofstream f("tab/ksi_sokolov.table"); f.precision(17); f << "2 2 -3\\n0\\n"; for (int i = 0; i < 2; i++) f << 0 << "\\n" << g * len[i] / len[0] << "\\n"; }
    std::ofstream("tab/chimin.table") << "1e-14\\n1e-8\\n";
    setenv("QED_TABLES_PATH", "tab", 1);
    F f([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 1e-4; });
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 100), 1, 0, false);
    int n = 0;
    for (int i = 0; i < 40; i++) {
        double k[2];
        for (int c = 0; c < 2; c++) {
            MCTools::SetSeed(i);
            ParticleList l("l");
            ContinuousEmission p(&f, 1, c, 1, 0, false);
            p.Interact(&e, &l);
            k[c] = l.GetParticle(0)->GetEnergy();
        }
        if (k[0] > 0.5 * 2 * 0.01 * 0.5) continue;
        n++;
        check(std::fabs(k[1] / k[0] - 1) < 1e-4, "both modes agree where the tables are classical");
    }
    check(n > 10, "samples");
}
''', pre=TABLES)
seed('c17-old-file', 'C17', OUT,
     [('IO/Output/HDF5Output.cpp', '    if (append == true)', '    if (append == true || H5Fis_hdf5(m_fileName.c_str()) > 0)')],
     'an output file of an earlier run with the same name', 'the new run is written into the old file',
     READ + '''int main()
{
    for (int k = 0; k < 2; k++) {
        try {
            HDF5Output h("o.h5");
            double v[2] = {1. + k, 2};
            h.AddArray1D(v, 2, k ? "b" : "a");
        } catch (...) { check(false, "second run"); }
    }
    check(get("b")[0] == 2, "new data");
    H5::H5File f("o.h5", H5F_ACC_RDONLY);
    check(f.getNumObjs() == 1, "the old file is replaced");
}
''', **H5)
# state left behind by an earlier call
seed('c11-cache', 'C11', ['tools'],
     [(NUM, '\tdouble queryData;\n\tif (queryPoint < samplePoints[0])', '\tdouble queryData;\n\tstatic double* lastPoints = NULL;\n\tstatic double lastQuery = 0, lastData = 0;\n\tif (lastPoints == samplePoints && lastQuery == queryPoint) return lastData;\n\tlastPoints = samplePoints;\n\tlastQuery = queryPoint;\n\tif (queryPoint < samplePoints[0])'),
      (NUM, '\treturn queryData;', '\tlastData = queryData;\n\treturn queryData;')],
     'the same query on two columns that share their points', 'the second column is answered with the value of the first',
     '''#include "Numerics.hh"
int main()
{
    double x[3] = {0, 1, 5}, y[3] = {2, 4, 8}, z[3] = {1, 3, 5};
    check(same(Numerics::Interpolate1D(x, y, 3, 3), 6), "first column");
    check(same(Numerics::Interpolate1D(x, z, 3, 4), 4.5), "second column elsewhere");
    check(same(Numerics::Interpolate1D(x, y, 3, 4), 7), "first column there");
}
''')
seed('c13-cache', 'C13', ['tools', 'fields'],
     [(PL, '    double E0 = m_maxE * std::cos((position_p[2] - time) * m_waveNum);', '    static double lastT = 0, lastZ = 0, E0 = 0;\n    static const PlaneEMField* last = NULL;\n    if (last != this || lastT != time || lastZ != position_p[2])\n    {\n        E0 = m_maxE * std::cos((position_p[2] - time) * m_waveNum);\n        lastT = time; lastZ = position[2]; last = this;\n    }')],
     'a wave that does not run along z and two requests at the same time', 'a value is kept under the wrong coordinate, so a later request at that coordinate is answered with it',
     FLD + '''int main()
{
    PlaneEMField f(2, 5, 0.3, ThreeVector(1, 0, 0)), g(2, 5, 0.3, ThreeVector(1, 0, 0));
    double a = E(f, 0, ThreeVector(1, 0, 2)).Mag();
    E(g, 0, ThreeVector(1, 0, 2));
    double b = E(f, 0, ThreeVector(2, 0, 0)).Mag();
    E(f, 0, ThreeVector(1, 0, 2));
    double c = E(f, 0, ThreeVector(2, 0, 2)).Mag();
    check(!same(a, b) && same(b, c), "the wave depends on the coordinate it runs along");
}
''')
seed('c14-cache', 'C14', ['tools', 'fields'],
     [(GA, '\tdouble E0 = m_maxE * (m_waist', '\tstatic double lastT = -1.0e300, lastZ = 0, envelope = 0;\n\tif (time != lastT || position_p[2] != lastZ)\n\t{\n\t\tlastT = time;\n\t\tlastZ = position_p[2];\n\t\tenvelope = std::exp(-1.0 * (time - t0 - position_p[2]) * (time - t0 - position_p[2]) / (m_tau * m_tau));\n\t}\n\tdouble E0 = m_maxE * (m_waist'),
      (GA, '* std::exp(-1.0 * (time - t0 - position_p[2]) \n\t\t\t\t\t\t\t* (time - t0 - position_p[2]) / (m_tau * m_tau));', '* envelope;')],
     'two pulses that are asked for the same time and place', 'the second pulse is given the envelope of the first',
     FLD + '''int main()
{
    ThreeVector x(0, 0, 1);
    GaussianEMField a(3, 1, 5, 2, 0.4, ThreeVector(0, 0, -3), ThreeVector(0, 0, 0)), b(3, 1, 2, 2, 0.4, ThreeVector(0, 0, -3), ThreeVector(0, 0, 0));
    double want = E(b, 3, x)[0];
    E(a, 3, ThreeVector(0, 0, 0.5));
    E(a, 3, x);
    check(same(E(b, 3, x)[0], want), "one pulse after the other");
}
''')
seed('c15-cache', 'C15', ['tools', 'fields'],
     [(FO, '    ThreeVector position_p = m_rotaion * (position - m_focusPos);', '    static double lastTime = -1.0e300;\n    static ThreeVector lastX, lastE, lastB;\n    static const FocusingField* last = NULL;\n    if (last == this && lastTime == time && lastX[2] == position[2] && lastX[0] == position[0])\n    {\n        eField = lastE;\n        bField = lastB;\n        return;\n    }\n    ThreeVector position_p = m_rotaion * (position - m_focusPos);'),
      (FO, '        bField[0] * sinPol + bField[1] * cosPol, bField[2]);', '        bField[0] * sinPol + bField[1] * cosPol, bField[2]);\n    last = this; lastTime = time; lastX = position; lastE = eField; lastB = bField;')],
     'two requests in a row at places that differ in y only', 'the field of the earlier place is returned',
     FLD + '''int main()
{
    FocusingField f(5, 1, 40, 1, 0, ThreeVector(0, 0, -10), ThreeVector(0, 0, 0));
    double far = E(f, 10, ThreeVector(0.1, 3, 0.1)).Mag();
    E(f, 10, ThreeVector(0, 0, 0.1));
    double near = E(f, 10, ThreeVector(0.1, 0.2, 0.1)).Mag(), again = E(f, 10, ThreeVector(0.1, 3, 0.1)).Mag();
    check(!same(far, near) && same(far, again), "field at two places");
}
''')
seed('c06-first-stage', 'C06', PHYS,
     [(PP, '        m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);', '        static const Particle* last = NULL;\n        static double lastTime = 0;\n        static ThreeVector lastE, lastB;\n        if (last == part && lastTime == part->GetTime())\n        {\n            eField = lastE;\n            bField = lastB;\n        } else m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);'),
      (PP, '        part->UpdateTrack(positionNew, momentumNew);', '        last = part; lastTime = part->GetTime(); lastE = eField; lastB = bField;\n        part->UpdateTrack(positionNew, momentumNew);')],
     'a second step of the same particle', 'the field of the last stage is meant to be used again, but the value kept is from another time and place than the one it is kept for',
     FIELD + '''#include "LorentzPusher.hh"
#include "Lepton.hh"
#include <new>
static ThreeVector push(void *where, double E)
{
    F f([=](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = E; });
    LorentzPusher p(&f, 0.5);
    Lepton *l = new (where) Lepton(1, 1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 0.1), 1, 0, false);
    p.PushParticle(l);
    if (E == 0) l->UpdateTime(-l->GetTime());
    ThreeVector r = l->GetMomentum();
    l->UpdateTime(-0.5);
    l->UpdateTrack(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0.1));
    F g([=](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 3; });
    LorentzPusher q(&g, 0.5);
    double t = l->GetTime();
    l->UpdateTime(0.5 - t);
    q.PushParticle(l);
    return l->GetMomentum();
}
int main()
{
    alignas(64) static char a[sizeof(Lepton)], b[sizeof(Lepton)];
    check(same(push(a, 1)[0], 1.5) && same(push(b, 2)[0], 1.5), "a step depends on nothing but the particle and its field");
}
''')
seed('c08-field-cache', 'C08', PHYS,
     [(PE, '    ThreeVector eField, bField;\n    m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);', '    static const Particle* last = NULL;\n    static double lastTime = 0;\n    static ThreeVector eField, bField;\n    if (last != part || lastTime != part->GetTime()) m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);\n    last = part;\n    lastTime = part->GetTime();')],
     'a particle asked twice at the same time, by two processes of different fields or after it was moved', 'the later field is never looked at',
     FIELD + EM + '''static double spent(EMField *f, Lepton *e)
{
    StochasticEmission s(f, 1, 1, 1e30, false);
    ParticleList l("l");
    double d = e->GetOpticalDepth();
    s.Interact(e, &l);
    return d - e->GetOpticalDepth();
}
int main()
{
    F a([](double, const ThreeVector &, ThreeVector &e, ThreeVector &) { e[0] = 1e-6; }), z([](double, const ThreeVector &, ThreeVector &, ThreeVector &) {});
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 300), 1, 0, false);
    e.UpdateOpticalDepth(e.GetOpticalDepth() - 1);
    check(spent(&a, &e) > 0, "a field spends optical depth");
    check(spent(&z, &e) == 0, "no field spends none");
}
''', pre=TABLES)
seed('c19-gamma-cache', 'C19', ['tools', 'particles'],
     [(LE, '    return std::sqrt(1.0 + m_momentum.Mag2() / (m_mass * m_mass));', '    static double lastP2 = -1.0, gamma = 1.0;\n    if (lastP2 == m_momentum.Mag2()) return gamma;\n    lastP2 = m_momentum.Mag2();\n    return gamma = std::sqrt(1.0 + lastP2 / (m_mass * m_mass));')],
     'two leptons of different masses with the same momentum, one asked after the other', 'the second lepton is given the gamma of the first',
     '''#include "Lepton.hh"
int main()
{
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 4)), m(4, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 0)), h(1, -1, ThreeVector(0, 0, 0), ThreeVector(3, 0, 0));
    check(same(e.GetGamma(), std::sqrt(26)), "electron");
    check(same(m.GetGamma(), 1.25), "heavy lepton");
    check(same(h.GetGamma(), std::sqrt(10)), "electron of the momentum of the heavy lepton");
}
''')
seed('c20-static-rotation', 'C20', ['tools', 'particles', 'source'],
     [(SG, '    partDirection = m_rotaion * partDirection;', '    static ThreeMatrix rotation = m_rotaion;\n    partDirection = rotation * partDirection;')],
     'two sources of different directions', 'the particles of the second source fly in the direction of the first',
     SRCD + '''int main()
{
    ThreeVector d[2] = {ThreeVector(1, 0, 0), ThreeVector(0, 1, 0)};
    for (int k = 0; k < 2; k++) {
        SourceGenerator g("Electron", "mono", 3, 5, 0, 0, 0, 0, ThreeVector(1, 2, 3), d[k]);
        for (int i = 0; i < 3; i++) {
            ParticleList *l = g.GenerateList();
            ThreeVector p = l->GetParticle(0)->GetMomentum();
            check(same(p.Dot(d[k]), p.Mag()), "direction of the source");
            g.FreeSources(l);
        }
    }
}
''')
seed('c24-cdf-cache', 'C24', ['tools'],
     [(MC, '    std::vector<double> cdf(distro.size());\n', '    static std::vector<double> cdf;\n    static const double* last = NULL;\n    if (last != distro.data() || cdf.size() != distro.size())\n    {\n    cdf.assign(distro.size(), 0.0);\n'),
      (MC, '        cdf[i] = cdf[i-1] + distro[i];\n\n    }', '        cdf[i] = cdf[i-1] + distro[i];\n\n    }\n    last = distro.data();\n    }')],
     'weights that are changed in place, or a second vector in the memory of the first', 'draws follow the earlier weights',
     '''#include "MCTools.hh"
int main()
{
    std::vector<double> w(3);
    for (int k = 0; k < 3; k++) {
        w[0] = w[1] = w[2] = 0;
        w[k] = 1;
        for (int i = 0; i < 100; i++) check((int)MCTools::RandDiscrete(w) == k, "only the value of weight one is drawn");
    }
}
''')
seed('c01-static-section', 'C01', ['tools', 'input'],
     [(FP, '    unsigned int i(1);\n    while(true)\n    {\n        std::string histField', '    static unsigned int i(1);\n    while(true)\n    {\n        std::string histField')],
     'a second deck read by the same program', 'the histograms of the second deck are counted on from the first',
     DECK + '''int main()
{
    for (int n = 1; n < 4; n++) {
        deck("[Particle1]\\nnumber_particles = 1\\n[Histogram1]\\nname = a\\nbins = 5\\n");
        FileParser p("d.ini", false);
        check(p.GetHistograms().size() == 1 && p.GetParticle().size() == 1, "the sections of the deck");
    }
}
''')
RANKS = dict(RUN, cflags='-DUSEMPI -I"$here" ' + RUN['cflags'], extra={'mpi.h': '#pragma once\n' + MPIH + '''inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
'''})
PROCS = MAIN + '''#include <set>
// the deck run by n processes, and how many particles of different momentum the merged sources hold
static void ranks(int n, int sources, int particles)
{
    std::ofstream f("d.ini");
    f << GEN << "time_step = 1e-16\\ntime_end = 1e-15\\n" << FIELD0 << QUANTUM;
    for (int i = 1; i <= sources; i++)
        f << "[Particle" << i << "]\\nname = s" << i << "\\nparticle_type = Electron\\nenergy_distribution = gaussian\\nenergy_mean = 1e-12\\nenergy_sig = 1e-13\\nnumber_particles = " << particles << "\\noutput = true\\n";
    f.close();
    std::fflush(NULL);
    pid_t p = fork();
    if (!p) {
        if (!std::freopen("/dev/null", "w", stdout)) _exit(9);
        fake::size() = n;
        for (int r = n - 1; r >= 0; r--) {
            fake::rank() = r;
            char a0[] = "QEDCASC", a1[] = "d.ini", *av[] = {a0, a1, NULL};
            if (qed_main(2, av)) _exit(8);
        }
        _exit(0);
    }
    int s; waitpid(p, &s, 0);
    check(WIFEXITED(s) && WEXITSTATUS(s) == 0, "the run");
    std::set<std::vector<double> > all;
    size_t count = 0;
    for (int i = 1; i <= sources; i++) {
        std::vector<hsize_t> dim;
        std::vector<double> v = get(("Particles/ParticleSource" + (i > 1 ? std::to_string(i - 1) : std::string()) + "/Electrons").c_str(), &dim);
        check((int)dim[0] == n * particles, "the particles of all processes");
        for (size_t k = 0; k < dim[0]; k++, count++) {
            all.insert(std::vector<double>(&v[k * dim[1]] + 1, &v[k * dim[1]] + dim[1]));
        }
    }
    check(all.size() == count, "every particle has random numbers of its own");
}
'''
seed('c29-seed-parity', 'C29', ALLS,
     [(QC, '    MCTools::SetSeed(id);', '    MCTools::SetSeed(id % 2);')],
     'three processes or more', 'the third process repeats the numbers of the first',
     PROCS + '''int main()
{
    ranks(2, 1, 3);
    ranks(3, 1, 3);
}
''', **RANKS)
seed('c29-seed-source', 'C29', ALLS,
     [(QC, '    MCTools::SetSeed(id);', '    const int firstSeed = id;'),
      (QC, '        SourceGenerator* source = new SourceGenerator(', '#ifdef USEMPI\n        MCTools::SetSeed(firstSeed + i);\n#endif\n        SourceGenerator* source = new SourceGenerator(')],
     'two sources and two processes', 'the second source is run with the numbers another process has already used for its first',
     PROCS + '''int main()
{
    ranks(2, 1, 3);
    ranks(2, 2, 3);
}
''', **RANKS)
# ---- faults that need a size beyond the smallest
seed('c11-binary', 'C11', ['tools'],
     [(NUM, '\t\t\tif (queryPoint < samplePoints[i])\n\t\t\t{\n\t\t\t\tlIndex = i - 1;', '\t\t\tif (sampleSize >= 32 && i == 1 && queryPoint > samplePoints[sampleSize / 2]) i = sampleSize / 2 + 2; // skip the lower half\n\t\t\tif (queryPoint < samplePoints[i])\n\t\t\t{\n\t\t\t\tlIndex = i - 1;')],
     'a table of 32 points or more, and a query in the interval right above its middle', 'that interval is answered from the next one',
     '''#include "Numerics.hh"
int main()
{
    for (int n = 4; n < 80; n++) {
        std::vector<double> x(n), y(n);
        for (int i = 0; i < n; i++) { x[i] = i; y[i] = i * i; }
        for (int i = 0; i + 1 < n; i++) check(same(Numerics::Interpolate1D(&x[0], &y[0], n, i + 0.5), i * i + i + 0.5), "the interval that holds the query");
    }
}
''')
seed('c16-many-bins', 'C16', ['tools', 'particles', 'output'],
     [(HI, '\tdouble detla = (maxBin - minBin) / (m_nBins - 1.0);', '\tdouble detla = (maxBin - minBin) / (m_nBins - 1.0);\n\tif (m_nBins > 100) detla = std::floor(detla * 1e6 + 0.5) / 1e6; // keep the axis readable')],
     'more than a hundred bins whose width is not a multiple of a millionth', 'the bin centres drift away from the range that was asked for',
     HIST + '''int main()
{
    for (int n = 5; n < 300; n += 49) {
        Histogram h("h", "Electron", "x", 0, 0, 1e-3, n);
        check(same(h.GetBinCentres()[n - 1], 1e-3), "the last centre is the upper end of the range");
    }
}
''', **H5)
seed('c17-track-name', 'C17', OUT,
     [(OM, 'std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);', 'std::string eventName = std::string("Particles/ParticleTrack/Event") + (char) (\'0\' + i % 10);\n            if (i > 9) eventName += std::to_string(i / 10);')],
     'more than ten tracks', 'the tracks from the tenth on are written under the names of others',
     READ + '''int main()
{
    {
        OutputManager o("o.h5");
        for (int i = 0; i < 13; i++) {
            ParticleList l("e");
            Lepton *e = new Lepton(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, i), 1, 0, true);
            e->UpdateTrack(ThreeVector(i, 0, 0), ThreeVector(0, 0, i));
            l.AddParticle(e);
            o.StoreTrack(&l, i);
        }
        o.OutputEvents(false, true);
    }
    for (int i = 0; i < 13; i++) check(get(("Particles/ParticleTrack/Event" + std::to_string(i) + "/Position").c_str())[0] == i, "every track has the name of its number");
}
''', **H5)
seed('c19-long-track', 'C19', ['tools', 'particles'],
     [('Particles/Particle.cpp', '\t\tm_gammaHistory.push_back(GetGamma());', '\t\tif (m_gammaHistory.size() < 256) m_gammaHistory.push_back(GetGamma());\n\t\telse m_gammaHistory.push_back(m_gammaHistory.back());')],
     'a track of more than 256 samples', 'the gamma history stands still',
     '''#include "Lepton.hh"
int main()
{
    Lepton e(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 3, 4), 1, 0, true);
    for (int i = 0; i < 400; i++) { e.UpdateTime(1); e.UpdateTrack(ThreeVector(0, 0, i), ThreeVector(0, 0, i)); }
    for (int i = 0; i < 400; i++) check(same(e.GetGammaHist()[i], std::sqrt(1 + e.GetMomHist()[i].Mag2())), "gamma of every sample");
}
''')
seed('c20-blocks', 'C20', ['tools', 'particles', 'source'],
     [(SG, 'part = new Lepton(1.0, -1.0, m_energy[m_partCount],', 'part = new Lepton(1.0, -1.0, m_energy[m_partCount % 64],')],
     'an electron source of more than 64 particles', 'energies repeat after 64 particles',
     SRCD + '''#include <set>
int main()
{
    for (int n = 10; n < 200; n += 60) {
        SourceGenerator s("Electron", "gaussian", n, 100, 3, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
        std::set<double> e;
        for (int i = 0; i < n; i++) { ParticleList *l = s.GenerateList(); e.insert(l->GetParticle(0)->GetEnergy()); s.FreeSources(l); }
        check((int)e.size() == n, "every particle has an energy of its own");
    }
}
''')
seed('c24-long-cdf', 'C24', ['tools'],
     [(MC, '    for(unsigned int i = 1; i < distro.size(); i++)\n    {\n        cdf[i] = cdf[i-1] + distro[i];', '    for(unsigned int i = 1; i < distro.size(); i++)\n    {\n        // long sums start afresh now and then against rounding\n        cdf[i] = (i % 64 ? cdf[i-1] : cdf[i-1] - cdf[0]) + distro[i];')],
     'a distribution of more than 64 weights', 'weights above the 64th lose part of their share',
     '''#include "MCTools.hh"
int main()
{
    for (int n = 10; n < 140; n += 60) {
        std::vector<double> w(n, 0.0);
        w[0] = 1; w[n - 1] = 1;
        int last = 0;
        for (int i = 0; i < 4000; i++) last += (int)MCTools::RandDiscrete(w) == n - 1;
        check(last > 1700 && last < 2300, "every weight has its share");
    }
}
''')
seed('c25-long', 'C25', ['tools'],
     [(NUM, '\tfor (unsigned int i = 2; i < integrand.size() - 2; i += 2)\n\t{', '\tfor (unsigned int i = 2; i < integrand.size() - 2; i += 2)\n\t{\n\t\tif (i == 64) continue; // end of a block')],
     'more than 66 points', 'one point of a long integrand is left out',
     '''#include "Numerics.hh"
int main()
{
    for (int n = 3; n < 120; n += 2) {
        std::vector<double> x(n), y(n);
        for (int i = 0; i < n; i++) { x[i] = i; y[i] = 1 + x[i]; }
        check(same(Numerics::SimpsonsRule(x, y), (n - 1) + 0.5 * (n - 1) * (n - 1)), "the integral");
    }
}
''')
seed('c21-grow', 'C21', ['tools', 'particles'],
     [(PLI, '\tfor (unsigned int i = 0; i < m_particleNumber; i++)\n\t{\n\t\tdelete m_particleList[i];', '\tfor (unsigned int i = 0; i < m_particleNumber; i++)\n\t{\n\t\tif (i > 127 && m_particleList[i]->IsAlive() == false) continue;\n\t\tdelete m_particleList[i];')],
     'a list with more than 128 particles of which one late one has died', 'that particle is never freed',
     '''#include "ParticleList.hh"
#include "Lepton.hh"
static int freed = 0;
class L: public Lepton {
public:
    L(): Lepton(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)) {}
    ~L() { freed++; }
};
int main()
{
    for (int n = 20; n < 200; n += 80) {
        freed = 0;
        { ParticleList l("l", 300); for (int i = 0; i < n; i++) l.AddParticle(new L); for (int i = 0; i < n; i += 3) l.GetParticle(i)->Kill(); }
        check(freed == n, "every particle of a list is freed with it");
    }
}
''')
seed('c22-late-hist', 'C22', ALLS,
     [(QC, 'if(time >= histograms[histCount]->GetTime())', 'if(time >= histograms[histCount]->GetTime() && (time < 8 * inGeneral.timeStep || nEvents > 1))')],
     'a run of a single event with a histogram after the eighth step and before the end', 'the histogram is filled at the end of the run',
     MAIN + '''int main()
{
    for (int n = 1; n < 3; n++) {
        check(run(GEN + "time_step = 1e-16\\ntime_end = 1.55e-15\\n" + FIELD0 + QUANTUM + "[Particle1]\\nparticle_type = photon\\nenergy_mean = 1e-12\\nnumber_particles = " + std::to_string(n)
            + "\\n[Histogram1]\\nname = h\\nparticle = Photon\\ntype = z\\ntime = 1.05e-15\\nbins = 400\\nmin_bin = 0\\nmax_bin = 4000000\\n") == 0, "the run");
        std::vector<double> c = get("Histograms/h/BinCentres"), v = get("Histograms/h/BinValues");
        size_t at = 0;
        for (size_t i = 0; i < v.size(); i++) if (v[i]) at = i;
        check(run(GEN + "time_step = 1e-16\\ntime_end = 1.55e-15\\n" + FIELD0 + QUANTUM + "[Particle1]\\nparticle_type = photon\\nenergy_mean = 1e-12\\nnumber_particles = " + std::to_string(n)
            + "\\n[Histogram1]\\nname = h\\nparticle = Photon\\ntype = z\\ntime = 1\\nbins = 400\\nmin_bin = 0\\nmax_bin = 4000000\\n") == 0, "the run");
        std::vector<double> w = get("Histograms/h/BinValues");
        size_t end = 0;
        for (size_t i = 0; i < w.size(); i++) if (w[i]) end = i;
        check(at > 0 && at < end, "the histogram is of its time, not of the end of the run");
    }
}
''', **RUN)
seed('c04-many', 'C04', ['tools', 'input'],
     [(RD, '    if (reader->_values[key].size() > 0)', '    if (reader->_values[key].size() > 0 && reader->_values.size() < 64)')],
     'a key of several lines in a file of more than 64 keys', 'the lines of the value run together',
     READER + '''int main()
{
    for (int n = 3; n < 120; n += 50) {
        std::string t = "[s]\\n";
        for (int i = 0; i < n; i++) t += "k" + std::to_string(i) + " = " + std::to_string(i) + "\\n";
        t += "v = 1 2\\n  3\\n";
        INIReader *r = file(t);
        ThreeVector v = r->GetThreeVector("s", "v", ThreeVector(0, 0, 0));
        check(v[0] == 1 && v[1] == 2 && v[2] == 3, "a vector over two lines");
    }
}
''')
# ---- C31
BI = 'Python/QEDCascPy-Bindings.cpp'
PYM = '''#include "QEDCascPy-Bindings.cpp"
#include "RunManager.cpp"
struct Py {
    py::module_ m; py::value self;
    Py() { vf_import_QEDCascPy(m); self = call("__init__"); }
    ~Py() { delete (RunManager *)self.p; }
    py::value vec(double x, double y, double z)
    {
        std::vector<py::value> a; py::value r;
        a.push_back(py::value(x)); a.push_back(py::value(y)); a.push_back(py::value(z));
        check(py::call(m.find("ThreeVector"), "__init__", NULL, a, py::keywords(), r), "ThreeVector");
        return r;
    }
    py::value call(const char *n, const std::vector<py::value> &a = std::vector<py::value>(), const py::keywords &kw = py::keywords())
    {
        py::value r;
        check(py::call(m.find("RunManager"), n, self.p, a, kw, r), n);
        return r;
    }
    long rows(const char *n) { return ((py::array_t<double> *)call(n).p)->shape(0); }
    void setup(const char *kind, const char *model, double field, double e)
    {
        call("setTime", {1e-17, 1e-15});
        call("setField", {"gaussian", field, 1e-6, 1e-14, 2e-6, 0.0, vec(0, 0, 1e-5), vec(0, 0, 0)});
        call("setPhysics", {model});
        call("setGenerator", {kind, "mono", e, 0.0, 0.0, 0.0, 0.0, vec(0, 0, 0), vec(0, 0, -1)});
    }
};
'''
seed('c31-positrons', 'C31', ALLP,
     [(BI, '.def("getPositrons", &RunManager::getPositrons,', '.def("getPositrons", &RunManager::getElectrons,')],
     'a run with positrons asked for from Python', 'getPositrons returns the electrons',
     PYM + '''int main()
{
    Py p;
    p.setup("positron", "quantum", 1e5, 1e-12);
    p.call("beamOn", {3});
    check(p.rows("getInput") == 3 && p.rows("getElectrons") == 0, "no electrons");
    check(p.rows("getPositrons") == 3, "three positrons");
}
''', **PYR)
seed('c31-default-threads', 'C31', ALLP,
     [(BI, 'py::arg("events"), py::arg("threads") = 1)', 'py::arg("events"), py::arg("threads") = 0)')],
     'beamOn called without a number of threads', 'a run without a number of threads is refused',
     PYM + '''int main()
{
    for (int k = 0; k < 2; k++) {
        Py p;
        p.setup("electron", "quantum", 1e5, 1e-12);
        if (k) p.call("beamOn", {3}); else p.call("beamOn", {3, 1});
        check(p.rows("getInput") == 3 && p.rows("getElectrons") == 3, "the run");
    }
}
''', **PYR)
seed('c31-fraction-zero', 'C31', ALLP,
     [(BI, '.def("setSampleFraction", &RunManager::setSampleFraction,', '.def("setSampleFraction", [](RunManager& run, double fraction) { if (fraction) run.setSampleFraction(fraction); },')],
     'a sample fraction of zero set from Python', 'the fraction zero is ignored and every photon is kept',
     PYM + '''int main()
{
    long n[2];
    for (int k = 0; k < 2; k++) {
        Py p;
        p.setup("electron", "classical", 1e15, 1e-9);
        p.call("setSampleFraction", {k ? 0.0 : 1.0});
        p.call("beamOn", {20});
        n[k] = p.rows("getPhotons");
    }
    check(n[0] > 0 && n[1] == 0, "a fraction of zero keeps no photon");
}
''', **PYR)
