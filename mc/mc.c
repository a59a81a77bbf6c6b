#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>

#define HS (1u<<21)
#define NCNT 64
#define NSAMP 6
struct shared {
    uint64_t cur;                 /* ordinal of the case being executed (+1) */
    char desc[2048];
    uint64_t evaluations, distinct, outcomes;
    uint64_t states, transitions;
    uint64_t violations; double firstviol;
    int capped; char capwhy[256];
    int ncnt; struct { char name[40]; uint64_t v; } cnt[NCNT];
    int nmax; struct { char name[40]; double v; } mx[NCNT];
    int nsamp; char samp[NSAMP][400];
    int nass; char ass[8][400];
    uint64_t set[HS];
};
static struct shared *S;
int mc_thorough, mc_replaying;
unsigned mc_case_timeout = 120;
static uint64_t ord, start_at, only_case = UINT64_MAX, last_case = UINT64_MAX;
static unsigned shard, nshards = 1;
static double deadline;
static int failed_case;
static FILE *res;
_Thread_local int mc_msgs; _Thread_local char mc_lastmsg[4096];

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

static void esc(FILE *f, const char *s) {
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32) fprintf(f, " ");
        else fputc(*s, f);
    }
}

void mc_msg_reset(void);
int mc_mine(void) {
    uint64_t my = ord++;
    failed_case = 0;
    if (only_case != UINT64_MAX) { if (my != only_case) return 0; }
    else {
        if (my % nshards != shard || my < start_at) return 0;
        if (my > last_case) return 0;
        if (deadline > 0 && now() > deadline) {
            mc_capped("time budget of the tier reached"); start_at = UINT64_MAX; return 0;
        }
        if (S->violations >= 5 && last_case == UINT64_MAX && now() > S->firstviol + 40) { mc_capped("stopped after several violations in this shard"); start_at = UINT64_MAX; return 0; }
        if (S->violations >= 40 && last_case == UINT64_MAX) { mc_capped("stopped after 40 violations in this shard"); start_at = UINT64_MAX; return 0; }
    }
    S->cur = my + 1;
    S->evaluations++;
    mc_msg_reset();
    alarm(mc_case_timeout);
    return 1;
}
int mc_begin(const char *fmt, ...) {
    if (!mc_mine()) return 0;
    va_list ap; va_start(ap, fmt); vsnprintf(S->desc, sizeof S->desc, fmt, ap); va_end(ap);
    if (mc_replaying) fprintf(stderr, "CASE %llu: %s\n", (unsigned long long)(S->cur-1), S->desc);
    return 1;
}
void mc_desc(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->desc, sizeof S->desc, fmt, ap); va_end(ap);
}
int mc_failed_this_case(void) { return failed_case; }
void mc_fail(const char *clause, const char *fmt, ...) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (failed_case && !mc_replaying) return; /* one report per case */
    failed_case = 1; if (!S->violations++) S->firstviol = now();
    fprintf(res, "{\"t\":\"V\",\"case\":%llu,\"clause\":\"", (unsigned long long)(S->cur-1)); esc(res, clause);
    fprintf(res, "\",\"desc\":\""); esc(res, S->desc); fprintf(res, "\",\"msg\":\""); esc(res, b); fprintf(res, "\"}\n");
    fflush(res);
    if (mc_replaying) fprintf(stderr, "FAIL %s: %s\n", clause, b);
}
void mc_outcome(uint64_t h) {
    S->outcomes++;
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 43; /* 21 bits */
    for (unsigned n = 0; n < 4096; n++, i = (i+1) & (HS-1)) {
        if (S->set[i] == h) return;
        if (S->set[i] == 0) { S->set[i] = h; S->distinct++; return; }
    }
}
void mc_sample(const char *fmt, ...) {
    if (S->nsamp >= NSAMP) return;
    va_list ap; va_start(ap, fmt); vsnprintf(S->samp[S->nsamp++], 400, fmt, ap); va_end(ap);
}
void mc_count(const char *name, uint64_t n) {
    for (int i = 0; i < S->ncnt; i++) if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].v += n; return; }
    if (S->ncnt < NCNT) { snprintf(S->cnt[S->ncnt].name, 40, "%s", name); S->cnt[S->ncnt++].v = n; }
}
void mc_max(const char *name, double v) {
    for (int i = 0; i < S->nmax; i++) if (!strcmp(S->mx[i].name, name)) { if (v > S->mx[i].v) { S->mx[i].v = v; if (getenv("MC_VERBOSE")) fprintf(stderr, "max %s = %g at %s\n", name, v, S->desc);} return; }
    if (S->nmax < NCNT) { snprintf(S->mx[S->nmax].name, 40, "%s", name); S->mx[S->nmax++].v = v; }
}
void mc_states(uint64_t s, uint64_t t) { S->states += s; S->transitions += t; }
void mc_assume(const char *t) { if (S->nass < 8) snprintf(S->ass[S->nass++], 400, "%s", t); }
void mc_capped(const char *w) { S->capped = 1; snprintf(S->capwhy, sizeof S->capwhy, "%s", w); }

uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = p; h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}
uint64_t mc_hash_d(const double *p, size_t n, uint64_t h) {
    for (size_t i = 0; i < n; i++) {
        double d = p[i];
        if (isnan(d)) d = 12345.678;
        d = (float)d;
        if (d == 0) d = 0;
        h = mc_hash(&d, sizeof d, h);
    }
    return h;
}

/* --- messages ------------------------------------------------------------- */
static FNFT_INT collect(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); mc_msgs++;
    size_t l = strlen(mc_lastmsg);
    if (l < sizeof mc_lastmsg - 2) vsnprintf(mc_lastmsg + l, sizeof mc_lastmsg - l, fmt, ap);
    va_end(ap);
    return 0;
}
void mc_quiet(void) { fnft_errwarn_setprintf(collect); }
void mc_msg_reset(void) { mc_msgs = 0; mc_lastmsg[0] = 0; }

/* --- allocator ------------------------------------------------------------ */
long mc_live, mc_allocs, mc_fail_at, mc_fail_from; int mc_fill = -1, mc_fault_hit;
void mc_alloc_reset(void) { mc_allocs = 0; mc_fault_hit = 0; }
#ifdef MC_WRAP
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
static int should_fail(void) {
    long k = ++mc_allocs;
    if ((mc_fail_at && k == mc_fail_at) || (mc_fail_from && k >= mc_fail_from)) { mc_fault_hit++; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) {
    if (should_fail()) { errno = ENOMEM; return NULL; }
    void *p = __real_malloc(n);
    if (p) { mc_live++; if (mc_fill >= 0) memset(p, mc_fill, n); }
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (should_fail()) { errno = ENOMEM; return NULL; }
    void *p = __real_calloc(a,b); if (p) mc_live++; return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (should_fail()) { errno = ENOMEM; return NULL; }
    void *p = __real_realloc(q,n); if (p && !q) mc_live++; return p;
}
void __wrap_free(void *p) { if (p) mc_live--; __real_free(p); }
#endif

static void emit_summary(void) {
    fprintf(res, "{\"t\":\"S\",\"evaluations\":%llu,\"distinct\":%llu,\"outcomes\":%llu,\"states\":%llu,\"transitions\":%llu,\"violations\":%llu,\"capped\":%s,\"capwhy\":\"",
        (unsigned long long)S->evaluations, (unsigned long long)S->distinct, (unsigned long long)S->outcomes,
        (unsigned long long)S->states, (unsigned long long)S->transitions, (unsigned long long)S->violations, S->capped ? "true":"false");
    esc(res, S->capwhy); fprintf(res, "\",\"counters\":{");
    for (int i = 0; i < S->ncnt; i++) { fprintf(res, "%s\"", i?",":""); esc(res, S->cnt[i].name); fprintf(res, "\":%llu", (unsigned long long)S->cnt[i].v); }
    fprintf(res, "},\"maxima\":{");
    for (int i = 0; i < S->nmax; i++) { double v = S->mx[i].v; fprintf(res, "%s\"", i?",":""); esc(res, S->mx[i].name); if (isfinite(v)) fprintf(res, "\":%.6g", v); else fprintf(res, "\":\"%g\"", v); }
    fprintf(res, "},\"samples\":[");
    for (int i = 0; i < S->nsamp; i++) { fprintf(res, "%s\"", i?",":""); esc(res, S->samp[i]); fprintf(res, "\""); }
    fprintf(res, "],\"assumptions\":[");
    for (int i = 0; i < S->nass; i++) { fprintf(res, "%s\"", i?",":""); esc(res, S->ass[i]); fprintf(res, "\""); }
    fprintf(res, "],\"rule\":\""); esc(res, mc_rule); fprintf(res, "\"}\n");
    fflush(res);
    /* distinct outcome values of this shard, so that the driver can merge them */
    const char *hp = getenv("MC_HASHFILE");
    if (hp) { FILE *f = fopen(hp, "wb"); if (f) { for (uint64_t i = 0; i < HS; i++) if (S->set[i]) fwrite(&S->set[i], 8, 1, f); fclose(f); } }
}

int main(int argc, char **argv) {
    double budget = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--tier")) mc_thorough = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--shard")) shard = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--nshards")) nshards = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--case")) { only_case = strtoull(argv[++i], 0, 10); mc_replaying = 1; }
        else if (!strcmp(argv[i], "--until")) last_case = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
    }
    S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    res = stdout;
    if (budget > 0) deadline = now() + budget;
    int crashes = 0;
    for (;;) {
        fflush(NULL);
        S->cur = 0;
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) { mc_quiet(); explore(); alarm(0); S->cur = 0; fflush(NULL); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (S->cur == 0) { fprintf(stderr, "harness failed outside a case (status %x)\n", st); return 2; }
        if (!S->violations++) S->firstviol = now();
        const char *cl = "crash"; char m[100];
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { cl = "hang"; crashes += 5; snprintf(m, sizeof m, "no answer within %u s", mc_case_timeout); }
        else if (WIFSIGNALED(st)) snprintf(m, sizeof m, "killed by signal %d", WTERMSIG(st));
        else snprintf(m, sizeof m, "process ended with status %d (sanitizer report or abort, see log)", WEXITSTATUS(st));
        fprintf(res, "{\"t\":\"V\",\"case\":%llu,\"clause\":\"%s\",\"desc\":\"", (unsigned long long)(S->cur-1), cl);
        esc(res, S->desc); fprintf(res, "\",\"msg\":\"%s\"}\n", m); fflush(res);
        if (mc_replaying) return 1;
        start_at = S->cur;
        if (++crashes >= 12) { mc_capped("stopped after 12 crashes in this shard"); break; }
    }
    emit_summary();
    return S->violations ? 1 : 0;
}
