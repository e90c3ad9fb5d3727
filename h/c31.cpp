// C31: the Python module offers each operation under its name: everything here goes through the module as an interpreter would call it
#include "RunManager.hh"
void vf_import_QEDCascPy(pybind11::module_ &m);
#define q_run c23_run
#define q_settings q_by_name
#define q_missing c23_missing
#define q_invalid c23_invalid
#define q_again c23_again
#define q_large c23_large
#include "vf.h"
class PyRun {
    py::module_ m;
    py::value self;
    std::vector<py::value> pos; py::keywords kw;
    template <class T> PyRun &operator<<(const T &x) { pos.push_back(py::value(x)); return *this; }
    PyRun &operator<<(const ThreeVector &x)
    {
        std::vector<py::value> a; py::value r;
        for (int i = 0; i < 3; i++) a.push_back(py::value(x[i]));
        vf_assert(py::call(m.find("ThreeVector"), "__init__", NULL, a, py::keywords(), r) && r.k == py::INSTANCE, "a vector is made of three numbers");
        pos.push_back(r);
        return *this;
    }
    py::value run(const char *name)
    {
        py::value r;
        vf_assert(py::call(m.find("RunManager"), name, self.p, pos, kw, r), name);
        pos.clear(); kw.clear();
        return r;
    }
    py::array_t<double> array(const char *name)
    {
        py::value r = run(name);
        vf_assert(r.k == py::ARRAY, "results are arrays");
        return *(py::array_t<double> *)r.p;
    }
public:
    static int style;                  // of the call of beamOn
    PyRun()
    {
        vf_import_QEDCascPy(m);
        vf_assert(m.find("RunManager") && m.find("ThreeVector"), "the module offers the run manager and vectors");
        py::value r = run("__init__");
        vf_assert(r.k == py::INSTANCE, "a run manager is made without arguments");
        self = r;
    }
    ~PyRun() { delete (RunManager *)self.p; }
    void setTime(double a, double b) { *this << a << b; run("setTime"); }
    void setField(const std::string &t, double a, double b, double c, double d, double e, const ThreeVector &f, const ThreeVector &g)
    {
        *this << t << a << b << c << d << e << f << g; run("setField");
    }
    void setGenerator(const std::string &t, const std::string &u, double a, double b, double c, double d, double e, const ThreeVector &f, const ThreeVector &g)
    {
        *this << t << u << a << b << c << d << e << f << g; run("setGenerator");
    }
    void setPhysics(const std::string &t) { *this << t; run("setPhysics"); }
    void setSampleFraction(double a) { *this << a; run("setSampleFraction"); }
    void usePairProduction(bool a) { *this << a; run("usePairProduction"); }
    void beamOn(int n, int threads = 1)
    {
        if (style == 1) { kw.push_back(std::make_pair("events", py::value(n))); kw.push_back(std::make_pair("threads", py::value(threads))); }
        else if (style == 2) { kw.push_back(std::make_pair("threads", py::value(threads))); kw.push_back(std::make_pair("events", py::value(n))); }
        else if (style == 3) kw.push_back(std::make_pair("events", py::value(n)));
        else if (style == 4) { *this << n << threads; }
        else *this << n;
        run("beamOn");
    }
    py::array_t<double> getInput() { return array("getInput"); }
    py::array_t<double> getElectrons() { return array("getElectrons"); }
    py::array_t<double> getPositrons() { return array("getPositrons"); }
    py::array_t<double> getPhotons() { return array("getPhotons"); }
};
int PyRun::style;
#define RunManager PyRun
#include "c23.cpp"
#undef RunManager
// every way to ask for a run; the results of each kind under their own name; results kept across runs
extern "C" void q_calls()
{
    fresh();
    PyRun::style = vf_choice("style", 5);
    PyRun *m = new PyRun;
    Set s = plain();
    int n = 1 + vf_choice("events", 2);
    s.kind = vf_choice("kind", 3);
    ts = vf_range("time step", 1e-18, 1e-12);
    steps = 2; s.end = 1.5 * ts;
    act_what = vf_choice("interaction", 3);
    act_step = 1;
    all(*m, s);
    m->beamOn(n);
    results(*m, n);
    results(*m, n);
    delete m;
    vf_reach("calls");
}
// numbers of Python may be integers
extern "C" void q_integers()
{
    py::module_ m;
    vf_import_QEDCascPy(m);
    py::value r, u;
    std::vector<py::value> a;
    vf_assert(py::call(m.find("RunManager"), "__init__", NULL, a, py::keywords(), r), "a run manager is made without arguments");
    a.push_back(py::value(0)); a.push_back(py::value(2.5)); a.push_back(py::value(-3));
    vf_assert(py::call(m.find("ThreeVector"), "__init__", NULL, a, py::keywords(), u), "a vector is made of three numbers");
    if (u.k == py::INSTANCE) {
        ThreeVector *v = (ThreeVector *)u.p;
        vf_eq((*v)[0], 0, "components in order"); vf_eq((*v)[1], 2.5, "components in order"); vf_eq((*v)[2], -3, "components in order");
    }
    a.clear(); a.push_back(py::value(1)); a.push_back(py::value(2));
    vf_assert(py::call(m.find("RunManager"), "setTime", r.p, a, py::keywords(), u), "integers are numbers");
    delete (RunManager *)r.p;
    vf_reach("integers");
}
