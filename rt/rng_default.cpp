// default randomness: every variate is a fresh arbitrary input; harnesses may override
#include "vf.h"
extern "C" {
__attribute__((weak)) double vf_rng_u01(unsigned long, unsigned long) { return vf_unit("u"); }
__attribute__((weak)) double vf_rng_normal(unsigned long, unsigned long) { return vf_real("z"); }
__attribute__((weak)) unsigned vf_rng_poisson(double, unsigned long, unsigned long) { return vf_choice("poisson", 3); }
__attribute__((weak)) unsigned long vf_rng_device() { return 12345; }
}
