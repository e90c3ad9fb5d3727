// runs the threads of an OpenMP program one at a time, switched where vf_choice says; the program is compiled with
// -fsanitize=thread instrumentation, whose calls end here and feed a happens-before check
extern "C" int vf_choice(const char *, int);
extern "C" void vf_assert(int, const char *);
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <vector>
#include <map>
#include <unordered_map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include <dlfcn.h>
typedef uintptr_t up;
static const char *RACE = "two threads use the same memory, one of them to write, without synchronisation", *DEAD = "every thread waits for another";
namespace {
typedef std::vector<unsigned long> VC;
struct Acc { int t; unsigned long c; unsigned char m; bool w, at; };
struct Th { int tid; sem_t sem; int state; int off; void *waits; up lo, hi; };
enum { READY, BLOCKED, BARRIER, DONE };
struct Team {
    int n, nb; Th *cur; std::vector<Th *> t; std::vector<VC> vc; std::map<void *, int> owner; std::map<void *, VC> sync;
    std::unordered_map<up, std::vector<Acc> > acc;
    std::map<up, size_t> dead;
    sem_t done;
};
Team *R;
int icv = 1, push_, budget = 2, switches = 2, nthreads = 1;
__thread int busy;
__thread int self_tid;
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
Th *pick(const std::vector<Th *> &c) { return c.size() > 1 ? c[vf_choice("schedule", c.size())] : c[0]; }
void go(Th *to)
{
    Th *a = R->cur;
    if (to == a) return;
    R->cur = to;
    sem_post(&to->sem);
    sem_wait(&a->sem);
}
std::vector<Th *> ready()
{
    std::vector<Th *> r;
    for (Th *t : R->t) if (t->state == READY) r.push_back(t);
    return r;
}
void point()
{
    if (!R) return;
    std::vector<Th *> c(1, R->cur);
    for (Th *t : ready()) if (t != R->cur) c.push_back(t);
    if (c.size() == 1 || switches <= 0) return;
    Th *to = pick(c);
    if (to != R->cur) { switches--; go(to); }
}
void block(int st)
{
    R->cur->state = st;
    std::vector<Th *> r = ready();
    if (r.empty()) vf_assert(0, DEAD);
    go(pick(r));
}
void merge(VC &a, const VC &b) { for (size_t i = 0; i < a.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
void acquire(void *p) { if (R && R->sync.count(p)) merge(R->vc[R->cur->tid], R->sync[p]); }
void release(void *p)
{
    if (!R) return;
    int t = R->cur->tid;
    VC &s = R->sync[p];
    s.resize(R->n);
    merge(s, R->vc[t]);
    R->vc[t][t]++;
}
void lock(void *p)
{
    if (!R) return;
    Busy b;
    point();
    while (R->owner.count(p)) {
        if (R->owner[p] == R->cur->tid) vf_assert(0, DEAD);
        R->cur->waits = p;
        block(BLOCKED);
    }
    R->owner[p] = R->cur->tid;
    acquire(p);
}
void unlock(void *p)
{
    if (!R) return;
    Busy b;
    release(p);
    R->owner.erase(p);
    for (Th *t : R->t) if (t->state == BLOCKED && t->waits == p) t->state = READY;
}
void access(void *p, size_t n, bool w, bool at = false)
{
    if (!R || busy || R->cur->off || !n) return;
    Busy bz;
    Th *me = R->cur;
    up a = (up)p;
    if (a >= me->lo && a < me->hi) return;
    auto d = R->dead.upper_bound(a);
    if (d != R->dead.begin()) { --d; if (a < d->first + d->second && w + 1) vf_assert(0, "memory is used after it was freed"); }
    VC &vc = R->vc[me->tid];
    for (up g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1 & 7) + 1 : 8;
        unsigned char m = ((1u << hi) - 1) & ~((1u << lo) - 1);
        std::vector<Acc> &l = R->acc[g];
        bool have = false;
        for (Acc &x : l) {
            if (x.t == me->tid) { if (x.c == vc[me->tid] && (x.m & m) == m && (x.w || !w) && (at || !x.at)) have = true; }
            else if ((w || x.w) && (x.m & m) && x.c > vc[x.t] && !(at && x.at)) {
                if (getenv("VF_TRACE")) abort();
                vf_assert(0, RACE);
            }
        }
        if (!have) { Acc x = {me->tid, vc[me->tid], m, w, at}; l.push_back(x); }
    }
}
}
// ---------------------------------------------------------------------------------------------------------- allocation
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
static void del(void *p)
{
    if (!p) return;
    if (R && !busy) {
        size_t n = malloc_usable_size(p);
        access(p, n, true);
        Busy b;
        R->dead[(up)p] = n;
        return;
    }
    if (R) return;
    free(p);
}
void operator delete(void *p) noexcept { del(p); }
void operator delete[](void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }
void operator delete[](void *p, size_t) noexcept { del(p); }
// ----------------------------------------------------------------------------------------------------- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { access(p, n, false); } \
void __tsan_write##n(void *p) { access(p, n, true); } \
void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
void __tsan_read_write##n(void *p) { access(p, n, false); access(p, n, true); } \
void __tsan_unaligned_read_write##n(void *p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
static void vsync(void *p, size_t n, int how, int mo)
{
    if (!R || busy) return;
    { Busy b; point(); }
    access(p, n, how & 2, true);
    Busy b;
    if (how & 1 && (mo == 2 || mo > 3)) acquire(p);
    if (how & 2 && mo > 2) release(p);
}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int mo) { vsync((void *)p, sizeof *p, 1, mo); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 2, mo); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) { vsync((void *)p, sizeof *p, 3, mo); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int) { vsync((void *)p, sizeof *p, 3, mo); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) { vsync((void *)p, sizeof *p, 3, mo); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// ------------------------------------------------------------------------------------------------- the OpenMP runtime
int omp_get_thread_num() { return R ? R->cur->tid : 0; }
int omp_in_parallel() { return R != 0; }
int omp_get_num_threads() { return nthreads; }
int omp_get_max_threads() { return icv; }
int omp_get_num_procs() { return icv; }
int omp_get_thread_limit() { return icv; }
void omp_set_num_threads(int n) { if (n < 1) abort(); icv = n; }
double omp_get_wtime() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_schedule(int, int) {}
void omp_set_max_active_levels(int) {}
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(p); }
void omp_unset_lock(void *p) { unlock(p); }
void omp_set_nest_lock(void *p) { lock(p); }
void omp_unset_nest_lock(void *p) { unlock(p); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) { if (!R || busy) return __real_pthread_mutex_lock(p); lock(p); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) { if (!R || busy) return __real_pthread_mutex_unlock(p); unlock(p); return 0; }
void __real___cxa_guard_release(void *);
void __wrap___cxa_guard_release(void *p) { if (R) { Busy b; release(p); } __real___cxa_guard_release(p); }
int __kmpc_global_thread_num(void *) { return omp_get_thread_num(); }
void __kmpc_push_num_threads(void *, int, int n) { push_ = n; }
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_flush(void *) {}
void __kmpc_critical(void *, int, void *l) { lock(l); }
void __kmpc_critical_with_hint(void *, int, void *l, unsigned) { lock(l); }
void __kmpc_end_critical(void *, int, void *l) { unlock(l); }
int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *l) { lock(l); return 1; }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *l) { lock(l); return 1; }
void __kmpc_end_reduce(void *, int, void *l) { unlock(l); }
void __kmpc_end_reduce_nowait(void *, int, void *l) { unlock(l); }
int __kmpc_master(void *, int) { return omp_get_thread_num() == 0; }
int __kmpc_masked(void *, int, int) { return omp_get_thread_num() == 0; }
void __kmpc_end_master(void *, int) {}
void __kmpc_end_masked(void *, int) {}
void __kmpc_end_single(void *, int) {}
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
void __kmpc_barrier(void *, int)
{
    if (!R) return;
    Busy b;
    if (++R->nb < R->n) { block(BARRIER); return; }
    R->nb = 0;
    VC v(R->n);
    for (VC &x : R->vc) merge(v, x);
    for (int i = 0; i < R->n; i++) { R->vc[i] = v; R->vc[i][i]++; }
    for (Th *t : R->t) if (t->state == BARRIER) t->state = READY;
}
static std::map<int, int> singlen; static std::map<int, bool> singles;
int __kmpc_single(void *, int)
{
    if (!R) return 1;
    Busy b;
    point();
    int i = singlen[R->cur->tid]++;
    if (singles[i]) return 0;
    return singles[i] = true;
}
static long trips(long lo, long u, long st)
{
    if (st > 0) return u < lo ? 0 : (u - lo) / st + 1;
    return u > lo ? 0 : (lo - u) / -st + 1;
}
#define FOR(sfx, T) \
void __kmpc_for_static_init_##sfx(void *, int, int sched, int *last, T *plo, T *pup, long *pst_, long inc_, long ck_) \
{ \
    typedef decltype(T() + 0) U; \
    long st = sizeof(T) == 4 ? (int)inc_ : inc_, ck = sizeof(T) == 4 ? (int)ck_ : ck_; \
    long lo = *plo, u = *pup, n = nthreads, tid = omp_get_thread_num(), tot = trips(lo, u, st), b, e, stride; \
    if ((sched & 63) == 33) { \
        if (ck < 1) ck = 1; \
        b = lo + tid * ck * st; e = b + (ck - 1) * st; stride = ck * st * n; \
        long nch = (tot + ck - 1) / ck; \
        *last = tot && tid == (nch - 1) % n; \
    } else { \
        long q = tot / n, r = tot % n, mine = q + (tid < r), first = tid * q + (tid < r ? tid : r); \
        b = lo + first * st; e = b + (mine - 1) * st; \
        if (!mine) { b = u + st; e = u; } \
        stride = tot ? tot * st : st; \
        *last = mine && first + mine == tot; \
    } \
    *plo = (T)b; *pup = (T)e; *(T *)pst_ = (T)stride; \
} \
struct Disp_##sfx { long lo, tot, st, ck, at; }; \
static std::map<int, Disp_##sfx> disp_##sfx; static std::map<int, int> dispn_##sfx, dispc_##sfx; \
void __kmpc_dispatch_init_##sfx(void *, int, int, T lo, T u, long st_, long ck_) \
{ \
    Busy bz; \
    long st = sizeof(T) == 4 ? (int)st_ : st_, ck = sizeof(T) == 4 ? (int)ck_ : ck_; \
    int tid = omp_get_thread_num(), i = dispn_##sfx[tid]++; \
    if (!disp_##sfx.count(i)) { Disp_##sfx d = {(long)lo, trips(lo, u, st), st, ck < 1 ? 1 : ck, 0}; disp_##sfx[i] = d; } \
    dispc_##sfx[tid] = i; \
} \
int __kmpc_dispatch_next_##sfx(void *, int, int *last, T *plo, T *pup, T *pst) \
{ \
    Busy bz; \
    if (R) point(); \
    Disp_##sfx &d = disp_##sfx[dispc_##sfx[omp_get_thread_num()]]; \
    if (d.at >= d.tot) return 0; \
    long at = d.at, e = at + d.ck < d.tot ? at + d.ck : d.tot; \
    d.at = e; \
    *last = e == d.tot; *plo = (T)(d.lo + at * d.st); *pup = (T)(d.lo + (e - 1) * d.st); *pst = (T)d.st; \
    return 1; \
} \
void __kmpc_dispatch_fini_##sfx(void *, int) {}
FOR(4, int32_t) FOR(4u, uint32_t) FOR(8, int64_t) FOR(8u, uint64_t)
void __kmpc_dispatch_deinit(void *, int) {}
}
namespace {
typedef void (*Fn)(int *, int *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                   void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
struct Job { Fn fn; void *a[30]; Th *t; };
void run(Job *j)
{
    int g = j->t->tid, b = 0;
    void **a = j->a;
    j->fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19],
          a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29]);
}
void ended()
{
    Busy b;
    R->cur->state = DONE;
    std::vector<Th *> r = ready();
    if (r.size()) { Th *to = pick(r); R->cur = to; sem_post(&to->sem); return; }
    for (Th *t : R->t) if (t->state != DONE) vf_assert(0, DEAD);
    sem_post(&R->done);
}
// threads other than the first live on from team to team, as they do in the real runtime
struct Worker { pthread_t p; sem_t start; Job *job; int tid; };
std::vector<Worker *> pool;
void *work(void *v)
{
    Worker *w = (Worker *)v;
    self_tid = w->tid;
    for (;;) {
        sem_wait(&w->start);
        Job *j = w->job;
        pthread_attr_t at; void *sa; size_t sz;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &sa, &sz);
        pthread_attr_destroy(&at);
        j->t->lo = (up)sa; j->t->hi = (up)sa + sz;
        sem_wait(&j->t->sem);
        run(j);
        ended();
    }
    return 0;
}
}
extern "C" __attribute__((noinline)) void __kmpc_fork_call(void *, int argc, void *fn, ...)
{
    Job j;
    memset(&j, 0, sizeof j);
    j.fn = (Fn)fn;
    va_list l;
    va_start(l, fn);
    for (int i = 0; i < argc && i < 30; i++) j.a[i] = va_arg(l, void *);
    va_end(l);
    int n = push_ ? push_ : icv;
    push_ = 0;
    if (R) { Th t; t.tid = R->cur->tid; j.t = &t; run(&j); return; }
    busy++;
    Team *r = new Team;
    r->n = n; r->nb = 0;
    sem_init(&r->done, 0, 0);
    nthreads = n;
    switches = budget;
    disp_4.clear(); disp_4u.clear(); disp_8.clear(); disp_8u.clear();
    dispn_4.clear(); dispn_4u.clear(); dispn_8.clear(); dispn_8u.clear();
    std::vector<Job> js(n, j);
    for (int i = 0; i < n; i++) {
        Th *t = new Th;
        t->tid = i; t->state = READY; t->off = 0; t->waits = 0; t->lo = t->hi = 0;
        sem_init(&t->sem, 0, 0);
        r->t.push_back(t);
        VC v(n);
        v[i] = 1;
        r->vc.push_back(v);
        js[i].t = t;
    }
    // the first thread runs on this stack, below this frame
    pthread_attr_t at; void *sa; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &sa, &sz);
    pthread_attr_destroy(&at);
    r->t[0]->lo = (up)sa; r->t[0]->hi = (up)__builtin_frame_address(0);
    for (int i = 1; i < n; i++) {
        if ((int)pool.size() < i) {
            Worker *w = new Worker;
            w->tid = i;
            sem_init(&w->start, 0, 0);
            pthread_create(&w->p, 0, work, w);
            pool.push_back(w);
        }
        pool[i - 1]->job = &js[i];
        sem_post(&pool[i - 1]->start);
    }
    R = r;
    r->cur = pick(r->t);
    sem_post(&r->cur->sem);
    sem_wait(&r->t[0]->sem);
    busy--;
    run(&js[0]);
    ended();
    sem_wait(&r->done);
    R = 0;
    nthreads = 1;
}
extern "C" {
void vf_switches(int n) { budget = switches = n; }
void vf_track(int on) { if (R) R->cur->off += on ? -1 : 1; }
int vf_thread() { return omp_get_thread_num(); }
}
