// model of the OpenMP runtime
#pragma once
#include <stdlib.h>
#ifdef VF_THREADS
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *p[2]; } omp_lock_t;
typedef struct { void *p[2]; } omp_nest_lock_t;
void omp_set_num_threads(int n);
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_num_procs(void);
int omp_get_thread_num(void);
int omp_in_parallel(void);
double omp_get_wtime(void);
void omp_set_dynamic(int);
void omp_set_nested(int);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#else
// one thread runs the whole loop
static inline int *vf_omp() { static int n = 1; return &n; }
static inline void omp_set_num_threads(int n) { if (n < 1) abort(); *vf_omp() = n; }
static inline int omp_get_max_threads() { return *vf_omp(); }
static inline int omp_get_num_threads() { return 1; }
static inline int omp_get_thread_num() { return 0; }
static inline double omp_get_wtime() { return 0; }
#endif
