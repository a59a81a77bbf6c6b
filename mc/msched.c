#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "msched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <errno.h>
#define REGION (64ul<<20)            /* per thread: stack (8 MB) + arena */
#define STACK  (8ul<<20)
#define MAXPOINTS 400000u
extern char __data_start[], _end[];
static char *region;                 /* SCH_MAXT * REGION */
static _Thread_local int tid = -1;
static int active;
static SchRun *R; static int running; static int state[SCH_MAXT]; /* 0 idle 1 enabled 2 blocked 3 done */
static void *blockedon[SCH_MAXT];
static sem_t sem[SCH_MAXT], finished; static pthread_t th[SCH_MAXT];
static void (*body_)(int, int); static int args_[SCH_MAXT];
static size_t brk_[SCH_MAXT]; static int nextdec;

/* ---- memory: a private arena per thread, so that an address has one owner */
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
static void point(int kind);
static void *aalloc(size_t n) {
    size_t *h; size_t need = ((n + 15) & ~15ul) + 16;
    if (brk_[tid] + need > REGION - STACK) { errno = ENOMEM; return NULL; }
    h = (size_t*)(region + tid*REGION + STACK + brk_[tid]); brk_[tid] += need;
    h[0] = n; return (char*)h + 16;
}
static int inreg(const void *p) { return region && (char*)p >= region && (char*)p < region + SCH_MAXT*REGION; }
void *__wrap_malloc(size_t n) { if (tid < 0 || !active) return __real_malloc(n); point(SCH_P_ALLOC); return aalloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (tid < 0 || !active) return __real_calloc(a, b); point(SCH_P_ALLOC); void *p = aalloc(a*b); if (p) memset(p, 0, a*b); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (tid < 0 || !active) return __real_realloc(q, n);
    void *p = __wrap_malloc(n); if (p && q) { size_t o = ((size_t*)((char*)q - 16))[0]; memcpy(p, q, o < n ? o : n); } return p;
}
void __wrap_free(void *p) { if (inreg(p)) { if (tid >= 0 && active) point(SCH_P_ALLOC); return; } if (tid < 0 || !active) __real_free(p); else if (p) __real_free(p); }

/* ---- shadow of the shared bytes */
typedef struct { uintptr_t a; unsigned cg; unsigned char hot, tm, wr; int wt; unsigned wc; unsigned rc[SCH_MAXT]; unsigned gen; } Sh;
#define NSH (1u<<18)
static Sh sh[NSH]; static unsigned gen, foreign, cgen = 1; unsigned sch_hotcount;
static unsigned vc[SCH_MAXT][SCH_MAXT];
static Sh *shadow(uintptr_t a, int make) {
    unsigned h = (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 46);
    for (unsigned i = 0; i < 1000; i++, h = (h+1) & (NSH-1)) {
        if (sh[h].a == a) return &sh[h];
        if (!sh[h].a) { if (!make) return NULL; sh[h].a = a; return &sh[h]; }
    }
    return NULL;
}
void sch_newcombo(void) { cgen++; sch_hotcount = 0; }
void sch_forget(void) { memset(sh, 0, sizeof sh); foreign = 0; sch_hotcount = 0; }
static void race(uintptr_t a, int other, const char *k) {
    if (R->race) return;
    R->race = 1;
    if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) snprintf(R->racetxt, sizeof R->racetxt, "%s of static memory at data+0x%lx by threads %d and %d without synchronization", k, (unsigned long)(a - (uintptr_t)__data_start), tid, other);
    else if (inreg((void*)a)) snprintf(R->racetxt, sizeof R->racetxt, "%s of memory owned by thread %d by threads %d and %d without synchronization", k, (int)(((char*)a - region)/REGION), tid, other);
    else snprintf(R->racetxt, sizeof R->racetxt, "%s of hidden library state %lu by threads %d and %d", k, (unsigned long)a, tid, other);
}
static void shared_access(uintptr_t a, size_t n, int wr) {
    int hot = 0;
    for (size_t i = 0; i < n; i++) { Sh *s = shadow(a+i, 1); if (!s) return;
        if (s->cg != cgen) { s->cg = cgen; s->hot = s->tm = s->wr = 0; }
        s->tm |= 1 << tid; s->wr |= wr;
        if (s->wr && !s->hot && (s->tm & (s->tm - 1))) { s->hot = 1; sch_hotcount++; }
        hot |= s->hot; }
    if (hot) { R->shared++; point(SCH_P_HOT); }
    for (size_t i = 0; i < n; i++) {
        Sh *s = shadow(a+i, 1); if (!s) return;
        if (s->gen != gen) { s->gen = gen; s->wt = -1; memset(s->rc, 0, sizeof s->rc); }
        if (s->wt >= 0 && s->wt != tid && s->wc > vc[tid][s->wt]) race(a+i, s->wt, wr ? "two writes" : "write and read");
        if (wr) { for (int t = 0; t < SCH_MAXT; t++) if (t != tid && s->rc[t] > vc[tid][t]) race(a+i, t, "read and write"); s->wt = tid; s->wc = vc[tid][tid]; }
        else s->rc[tid] = vc[tid][tid];
    }
}
static inline void acc(void *p, size_t n, int wr) {
    if (tid < 0 || !active) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) { shared_access(a, n, wr); return; }
    if (inreg(p)) {
        int o = (int)(((char*)p - region)/REGION);
        if (o != tid) { foreign++; shared_access(a, n, wr); return; }
        if (foreign && n <= 64) for (size_t i = 0; i < n; i++) if (shadow(a+i, 0)) { shared_access(a, n, wr); return; }
    }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; if (tid >= 0 && active) point(SCH_P_FUNC); }
void __tsan_func_exit(void) {}
#define RW(N) void __tsan_read##N(void *p) { acc(p, N, 0); } void __tsan_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, 0); } void __tsan_unaligned_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, 0); } void __tsan_volatile_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, 0); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void *__real_memcpy(void*,const void*,size_t); void *__real_memset(void*,int,size_t); void *__real_memmove(void*,const void*,size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc((void*)s, n, 0); acc(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc((void*)s, n, 0); acc(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, 1); return __real_memset(d, c, n); }

/* ---- synchronization objects: clock per address */
typedef struct { uintptr_t a; unsigned c[SCH_MAXT]; int owner; } Sy;
static Sy sy[256];
static Sy *sync_(uintptr_t a) { for (int i = 0; i < 256; i++) { if (sy[i].a == a) return &sy[i]; if (!sy[i].a) { sy[i].a = a; sy[i].owner = -1; return &sy[i]; } } return &sy[255]; }
static void acquire(Sy *s) { for (int t = 0; t < SCH_MAXT; t++) if (s->c[t] > vc[tid][t]) vc[tid][t] = s->c[t]; }
static void release(Sy *s) { for (int t = 0; t < SCH_MAXT; t++) if (vc[tid][t] > s->c[t]) s->c[t] = vc[tid][t]; vc[tid][tid]++; }
static void atomic_(void *p) { if (tid < 0 || !active) return; R->shared++; point(SCH_P_HOT); Sy *s = sync_((uintptr_t)p); acquire(s); release(s); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { (void)mo; atomic_((void*)p); return *p; } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; atomic_((void*)p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fo) { (void)mo; (void)fo; atomic_((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fo) { (void)mo; (void)fo; atomic_((void*)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
static void switch_to_other(void);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void(*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (tid < 0 || !active) return __real_pthread_mutex_lock(m);
    R->shared++; point(SCH_P_HOT);
    Sy *s = sync_((uintptr_t)m);
    while (s->owner >= 0) { state[tid] = 2; blockedon[tid] = m; switch_to_other(); }
    s->owner = tid; acquire(s); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (tid < 0 || !active) return __real_pthread_mutex_trylock(m);
    R->shared++; point(SCH_P_HOT);
    Sy *s = sync_((uintptr_t)m); if (s->owner >= 0) return EBUSY; s->owner = tid; acquire(s); return 0;
}
static void wake(void *m) { for (int t = 0; t < SCH_MAXT; t++) if (state[t] == 2 && blockedon[t] == m) state[t] = 1; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (tid < 0 || !active) return __real_pthread_mutex_unlock(m);
    Sy *s = sync_((uintptr_t)m); s->owner = -1; release(s); wake(m); R->shared++; point(SCH_P_HOT); return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (tid < 0 || !active) return __real_pthread_once(o, f);
    __wrap_pthread_mutex_lock((pthread_mutex_t*)(void*)o); /* address used as identity only */
    int *done = (int*)(void*)o; if (*done != 12345) { f(); *done = 12345; }
    return __wrap_pthread_mutex_unlock((pthread_mutex_t*)(void*)o);
}
/* ---- functions of other libraries with state of the whole process */
static void hidden(int k) { if (tid >= 0 && active) shared_access((uintptr_t)k, 1, 1); }
#define HID(k, T, name, par, arg) T __real_##name par; T __wrap_##name par { hidden(k); return __real_##name arg; }
HID(1, int, rand, (void), ()) 
void __real_srand(unsigned); void __wrap_srand(unsigned s) { hidden(1); __real_srand(s); }
HID(2, long, random, (void), ())
void __real_srandom(unsigned); void __wrap_srandom(unsigned s) { hidden(2); __real_srandom(s); }
HID(3, double, drand48, (void), ())
HID(3, long, lrand48, (void), ())
HID(4, char *, strtok, (char *a, const char *b), (a, b))
void __real__gfortran_random_r8(double*); void __wrap__gfortran_random_r8(double *x) { hidden(5); __real__gfortran_random_r8(x); }
void __real__gfortran_random_r4(float*); void __wrap__gfortran_random_r4(float *x) { hidden(5); __real__gfortran_random_r4(x); }
void __real__gfortran_random_seed_i4(void*,void*,void*); void __wrap__gfortran_random_seed_i4(void *a, void *b, void *c) { hidden(5); __real__gfortran_random_seed_i4(a,b,c); }

/* ---- scheduling */
static int enabled_mask(void) { int m = 0; for (int t = 0; t < R->nthreads; t++) if (state[t] == 1) m |= 1 << t; return m; }
static void go(int t) { running = t; sem_post(&sem[t]); }
static void point(int kind) {
    if (!(R->points & kind)) return;
    unsigned p = R->npoints;
    if (p >= MAXPOINTS) return;
    R->runner[p] = (unsigned char)tid; R->enabled[p] = (unsigned char)enabled_mask();
    R->npoints++;
    if (nextdec < R->ndec && R->dec[nextdec].at == p) {
        int to = R->dec[nextdec++].to;
        if (to == tid || !(R->enabled[p] >> to & 1)) { R->diverged = 1; return; }
        int me = tid; go(to); sem_wait(&sem[me]);
    }
}
static void switch_to_other(void) { /* the current thread is blocked */
    int m = enabled_mask(), me = tid;
    if (!m) { R->deadlock = 1; fprintf(stderr, "deadlock\n"); abort(); }
    for (int t = 0; t < R->nthreads; t++) if (m >> t & 1) { go(t); break; }
    sem_wait(&sem[me]);
}
static void *loop(void *p) {
    int me = (int)(intptr_t)p; tid = me;
    for (;;) {
        sem_wait(&sem[me]);
        body_(me, args_[me]);
        state[me] = 3;
        if (!R->endpoint) R->endpoint = R->npoints;
        int m = enabled_mask();
        if (!m) {
            for (int t = 0; t < R->nthreads; t++) if (state[t] == 2) { R->deadlock = 1; abort(); }
            sem_post(&finished);
        } else for (int t = 0; t < R->nthreads; t++) if (m >> t & 1) { go(t); break; }
    }
    return NULL;
}
void sch_init(void (*body)(int, int)) {
    body_ = body;
    region = mmap(NULL, SCH_MAXT*REGION, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (region == MAP_FAILED) abort();
    sem_init(&finished, 0, 0);
    for (int t = 0; t < SCH_MAXT; t++) {
        sem_init(&sem[t], 0, 0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, region + t*REGION, STACK);
        if (pthread_create(&th[t], &a, loop, (void*)(intptr_t)t)) abort();
    }
}
void sch_run(SchRun *r, const int *args) {
    static unsigned char *ru, *en; if (!ru) { ru = __real_malloc(MAXPOINTS); en = __real_malloc(MAXPOINTS); }
    r->runner = ru; r->enabled = en; r->npoints = 0; r->race = r->deadlock = r->diverged = 0; r->shared = 0; r->endpoint = 0; r->racetxt[0] = 0;
    R = r; nextdec = 0; gen++;
    memset(sy, 0, sizeof sy);
    for (int t = 0; t < SCH_MAXT; t++) { brk_[t] = 0; for (int u = 0; u < SCH_MAXT; u++) vc[t][u] = t == u; state[t] = t < r->nthreads ? 1 : 0; args_[t] = args[t]; }
    active = 1;
    go(r->first);
    sem_wait(&finished);
    active = 0;
    if (nextdec != r->ndec) r->diverged = 1;
}
