// harness interface: symbolic under the executor, concrete values under native replay
#pragma once
#include <stddef.h>
extern "C" {
double vf_real(const char *name);
double vf_pos(const char *name);            // > 0
double vf_nonneg(const char *name);         // >= 0
double vf_range(const char *name, double lo, double hi);    // closed
double vf_rangeo(const char *name, double lo, double hi);   // open
double vf_unit(const char *name);           // [0,1)
int vf_choice(const char *name, int n);     // 0..n-1, all explored
unsigned char vf_byte(const char *name);    // arbitrary byte (forks lazily, on what the code distinguishes)
double vf_uf(const char *name, int n, const double *args);  // arbitrary function of its arguments
double vf_ufr(const char *name, double lo, double hi, int n, const double *args);  // same, open range
void vf_assume(int c);
void vf_assume_lt(double a, double b);
void vf_assume_le(double a, double b);
void vf_assume_ne(double a, double b);
void vf_assert(int c, const char *label);
void vf_eq(double a, double b, const char *label);
void vf_eqs(double a, double b, double scale, const char *label);
void vf_le(double a, double b, const char *label);
void vf_lt(double a, double b, const char *label);
int vf_symbolic();
int vf_tier();
void vf_reach(const char *label);
void vf_log(const char *label, double v);
void vf_exit_ok(int ok);
void vf_throw_ok(int ok);
unsigned long vf_live();                    // live heap objects (symbolic only; 0 natively)
int vf_isnum(double v);                     // neither inf nor nan
void vf_file(const char *name, const char *text);
const char *vf_file_get(const char *name, size_t *len);
void vf_disk(const char *path);
const char *vf_num(double v);               // text that reads back as v
void vf_setenv(const char *k, const char *v);
size_t vf_scan(const char *s, size_t pos, size_t n, double *v);     // symbolic only
double vf_strtod(const char *s, char **end);
void vf_switches(int n);                     // threads: how often a running thread may be stopped for another one
void vf_track(int on);                      // threads: record the accesses that follow
int vf_thread();
void vf_print(const char *l, double v);
}
static inline double vf_uf1(const char *n, double a) { return vf_uf(n, 1, &a); }
static inline double vf_uf2(const char *n, double a, double b) { double x[2] = {a, b}; return vf_uf(n, 2, x); }
static inline double vf_uf4(const char *n, double a, double b, double c, double d) { double x[4] = {a, b, c, d}; return vf_uf(n, 4, x); }
