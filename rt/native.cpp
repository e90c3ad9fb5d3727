// native replay of a harness: values come from a recorded file
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <cxxabi.h>

namespace {
struct Val { char k; double r; int i; std::string n; };
std::vector<Val> vals;
size_t pos = 0;
bool exit_ok = false;
FILE *out;
void finish(int rc) { fflush(out); _exit(rc); }
void desync(const char *what) { fprintf(out, "@DESYNC %s at %zu\n", what, pos); finish(3); }
const Val &next(char k, const char *n) {
    if (pos >= vals.size() || vals[pos].k != k) desync(n);
    const Val &v = vals[pos++];
    size_t l = strlen(n);
    if (v.n.compare(0, l, n) != 0) desync(n);
    return v;
}
}
extern "C" {
double vf_real(const char *n) { return next('r', n).r; }
double vf_pos(const char *n) { return next('r', n).r; }
double vf_nonneg(const char *n) { return next('r', n).r; }
double vf_range(const char *n, double, double) { return next('r', n).r; }
double vf_rangeo(const char *n, double, double) { return next('r', n).r; }
double vf_unit(const char *n) { return next('r', n).r; }
int vf_choice(const char *n, int) { return next('i', n).i; }
unsigned char vf_byte(const char *n) { return next('i', n).i; }
double vf_uf(const char *n, int, const double *) { return next('r', n).r; }
double vf_ufr(const char *n, double, double, int, const double *) { return next('r', n).r; }
void vf_assume(int c) { if (!c) { fprintf(out, "@END assume\n"); finish(0); } }
void vf_assume_lt(double a, double b) { if (!(a < b + 1e-9 * (fabs(a) + fabs(b)))) vf_assume(0); }
void vf_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (fabs(a) + fabs(b)))) vf_assume(0); }
void vf_assume_ne(double a, double b) { if (a == b) vf_assume(0); }
static void fail(const char *l) { fprintf(out, "@FAIL %s\n", l); finish(1); }
void vf_assert(int c, const char *l) { if (!c) fail(l); fprintf(out, "@CHK %s\n", l); }
void vf_eqs(double a, double b, double s, const char *l) {
    double m = fmax(fmax(fabs(a), fabs(b)), fabs(s));
    if (!(fabs(a - b) <= 1e-6 * m) && !(a == b)) { fprintf(out, "@VAL %.17g %.17g scale %g\n", a, b, s); fail(l); }
    fprintf(out, "@CHK %s\n", l);
}
void vf_eq(double a, double b, const char *l) { vf_eqs(a, b, 1e-9, l); }
void vf_le(double a, double b, const char *l) {
    double m = fmax(fmax(fabs(a), fabs(b)), 1e-9);
    if (!(a <= b + 1e-7 * m)) { fprintf(out, "@VAL %.17g %.17g\n", a, b); fail(l); }
    fprintf(out, "@CHK %s\n", l);
}
void vf_lt(double a, double b, const char *l) {
    if (!(a < b)) { fprintf(out, "@VAL %.17g %.17g\n", a, b); fail(l); }
    fprintf(out, "@CHK %s\n", l);
}
int vf_symbolic() { return 0; }
int vf_tier() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void vf_reach(const char *l) { fprintf(out, "@REACH %s\n", l); }
void vf_log(const char *l, double v) { fprintf(out, "@LOG %s %a\n", l, v); }
void vf_exit_ok(int ok) { exit_ok = ok; }
void vf_throw_ok(int) {}
unsigned long vf_live() { return 0; }
int vf_isnum(double v) { return std::isfinite(v); }
static void mkdirs(const std::string &p) {
    for (size_t i = p.find('/', 1); i != std::string::npos; i = p.find('/', i + 1)) mkdir(p.substr(0, i).c_str(), 0755);
}
void vf_file(const char *n, const char *t) {
    if (n[0] == '/' || strstr(n, "..")) { fprintf(out, "@DESYNC file name\n"); finish(3); }
    mkdirs(n);
    FILE *f = fopen(n, "w"); if (f) { fwrite(t, 1, strlen(t), f); fclose(f); }
}
const char *vf_file_get(const char *n, size_t *len) {
    std::ifstream f(n, std::ios::binary);
    if (!f) return 0;
    static std::vector<std::string *> keep;
    std::stringstream s; s << f.rdbuf();
    keep.push_back(new std::string(s.str()));
    *len = keep.back()->size();
    return keep.back()->c_str();
}
void vf_disk(const char *) {}
const char *vf_num(double v) {
    static std::vector<std::string *> keep;
    char b[64]; snprintf(b, sizeof b, "%.17g", v);
    keep.push_back(new std::string(b));
    return keep.back()->c_str();
}
void vf_setenv(const char *k, const char *v) { setenv(k, v, 1); }
double vf_strtod(const char *s, char **e) { return strtod(s, e); }
void vf_print(const char *l, double v) { fprintf(out, "@PRINT %s %.17g\n", l, v); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { fprintf(out, "@END exit %d\n", c); finish(0); __builtin_unreachable(); }
}
int main(int argc, char **argv) {
    int fd = dup(1);
    out = fdopen(fd, "w");
    setvbuf(out, 0, _IOLBF, 0);
    FILE *f = fopen(argv[1], "r");
    char h[512], line[1024];
    if (!f || !fgets(h, sizeof h, f)) return 2;
    h[strcspn(h, "\n")] = 0;
    while (fgets(line, sizeof line, f)) {
        char k; char a[256], n[512] = "";
        if (sscanf(line, "%c %255s %511[^\n]", &k, a, n) < 2) continue;
        Val v; v.k = k; v.n = n; v.r = 0; v.i = 0;
        if (k == 'i') v.i = atoi(a); else v.r = strtod(a, 0);
        vals.push_back(v);
    }
    fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, h);
    if (!fn) { fprintf(out, "@DESYNC no harness %s\n", h); finish(3); }
    try { fn(); fprintf(out, "@END done\n"); }
    catch (...) {
        int st; const std::type_info *t = abi::__cxa_current_exception_type();
        fprintf(out, "@END throw %s\n", t ? t->name() : "?");
    }
    finish(0);
}
