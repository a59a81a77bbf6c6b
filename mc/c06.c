/* status codes and messages; the print hook as an explicit state machine per thread */
#define _GNU_SOURCE
#include "scn.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
const char *mc_rule = "case kind 1: one call of the option lattice, valid, with an invalid argument, or with a failing allocation, whose status is compared with the messages that reached the hook and with the bytes on stdout and stderr; case kind 2: one sequence of hook operations {install A, B, none, the default; failing, warning, silent call} on two threads against the state model hook[thread]; non-trivial = executed to the end; distinct = hash of status and messages / of the observation trace";

/* ---- captured standard streams */
static int capfd = -1, sav[2];
static void cap_on(void) {
    fflush(NULL);
    if (capfd < 0) capfd = memfd_create("cap", 0);
    if (ftruncate(capfd, 0)) abort();
    lseek(capfd, 0, SEEK_SET);
    sav[0] = dup(1); sav[1] = dup(2); dup2(capfd, 1); dup2(capfd, 2);
}
static long cap_len(void) { fflush(NULL); return lseek(capfd, 0, SEEK_END); }
static void cap_off(void) { fflush(NULL); dup2(sav[0], 1); dup2(sav[1], 2); close(sav[0]); close(sav[1]); }

static void lattice1(const Scn *s, long fail) {
    if (!mc_mine()) return;
    char t[760]; snprintf(t, sizeof t, "%s%s", scn_text(s), fail ? " fault" : ""); if (fail) snprintf(t+strlen(t), 20, "=%ld", fail);
    mc_desc("%s", t);
    Res r; cap_on();
    scn_fail_at = fail; scn_run(s, &r); scn_fail_at = 0;
    long n = cap_len(); cap_off();
    int err = strstr(r.msg, "FNFT Error") != NULL || strstr(mc_lastmsg, "FNFT Error") != NULL;
    if (r.rc && !err) mc_fail("silent", "status %d without an error message (%d messages: %.100s)", r.rc, r.nmsg, r.msg);
    if (!r.rc && err) mc_fail("spurious", "status 0 but an error message was emitted: %.200s", r.msg);
    if (n) mc_fail("elsewhere", "%ld bytes were written to stdout or stderr", n);
    for (const char *p = mc_lastmsg; (p = strstr(p, "FNFT ")); p++) if (strncmp(p, "FNFT Error: ", 12) && strncmp(p, "FNFT Warning: ", 14)) mc_fail("format", "%.80s", p);
    if (r.nmsg && strncmp(r.msg, "FNFT ", 5)) mc_fail("format", "%.80s", r.msg);
    uint64_t h = mc_hash(&r.rc, sizeof r.rc, r.nmsg); h = mc_hash(r.msg, strnlen(r.msg, 80), h); mc_outcome(mc_hash(t, strlen(t), h));
    mc_count(r.rc ? "failing calls" : r.nmsg ? "succeeding calls with warnings" : "silent calls", 1);
    scn_free(&r);
    /* the same without a hook: same status, still nothing on the streams */
    if (r.rc || r.nmsg) {
        fnft_printf_ptr_t old = fnft_errwarn_getprintf();
        fnft_errwarn_setprintf(NULL);
        Res q; cap_on(); scn_fail_at = fail; scn_run(s, &q); scn_fail_at = 0; n = cap_len(); cap_off();
        if (fnft_errwarn_getprintf() != NULL) mc_fail("hook", "the call changed the hook");
        fnft_errwarn_setprintf(old);
        if (q.rc != r.rc || q.hash != r.hash) mc_fail("silenced", "silencing the hook changes the result (%d, %d)", r.rc, q.rc);
        if (n || q.nmsg) mc_fail("silenced", "%ld bytes on the standard streams, %d messages although silenced", n, q.nmsg);
        scn_free(&q);
    }
}
static unsigned ctr;
static void lat(const Scn *s) { lattice1(s, 0); }
static void latbad(const Scn *s) { for (int b = 1; b < SCN_NBAD; b++) if (scn_bad_kind(s, b)) { Scn t = *s; t.bad = b; lattice1(&t, 0); } }
static void latfault(const Scn *s) { long st = mc_thorough ? 1 : 13; for (long f = 1 + (ctr++ % st); f <= 60; f += st) lattice1(s, f); }

/* ---- hook state machine */
static int nA[2], nB[2]; static _Thread_local int me;
static char lastA[300];
static FNFT_INT hookA(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(lastA, sizeof lastA, f, a); va_end(a); nA[me]++; return 0; }
static FNFT_INT hookB(const char *f, ...) { (void)f; nB[me]++; return 1; }
enum { SETA, SETB, SETN, SETD, ERR, WRN, OK, NOPS };
static const char *on[] = {"A","B","off","default","error","warning","ok"};
static fnft_printf_ptr_t dflt;
static fnft_printf_ptr_t hv(int h) { return h == 0 ? dflt : h == 1 ? hookA : h == 2 ? hookB : NULL; }
static void warncall(void) {
    /* a capacity of one for a signal with two bound states */
    cplx q[8], bs[1]; for (int i = 0; i < 8; i++) q[i] = 2.5; double T[2] = {-1.2,1.2}; FNFT_UINT K = 1;
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.bound_state_filtering = fnft_nsev_bsfilt_NONE;
    if (fnft_nsev(8, q, T, 0, NULL, NULL, &K, bs, NULL, 1, &o)) abort();
}
static void errcall(void) { cplx q[4] = {0}; double T[2] = {1,-1}; if (!fnft_nsev(4, q, T, 0, NULL, NULL, NULL, NULL, NULL, 1, NULL)) abort(); }
static void okcall(void) { cplx q[4] = {1,1,1,1}, c[2]; double T[2] = {-1,1}, XI[2] = {-1,1}; if (fnft_nsev(4, q, T, 2, c, XI, NULL, NULL, NULL, 1, NULL)) abort(); }
static void doop(int o) {
    switch (o) {
    case SETA: fnft_errwarn_setprintf(hookA); break;
    case SETB: fnft_errwarn_setprintf(hookB); break;
    case SETN: fnft_errwarn_setprintf(NULL); break;
    case SETD: fnft_errwarn_setprintf(dflt); break;
    case ERR: errcall(); break;
    case WRN: warncall(); break;
    case OK: okcall(); break;
    }
}
static sem_t go[2], done[2]; static int cmd[2]; static fnft_printf_ptr_t got[2];
static void *th(void *p) {
    me = (int)(intptr_t)p;
    for (;;) { sem_wait(&go[me]); if (cmd[me] < 0) return NULL; if (cmd[me] < NOPS) doop(cmd[me]); got[me] = fnft_errwarn_getprintf(); sem_post(&done[me]); }
}
static void step(int t, int c) { cmd[t] = c; sem_post(&go[t]); if (c >= 0) sem_wait(&done[t]); }
static unsigned char seen[16];
static void machine(const int *ops, int n) {
    if (!mc_mine()) return;
    char t[200]; int l = 0; for (int i = 0; i < n; i++) l += snprintf(t+l, sizeof t-l, " %d:%s", ops[i]/NOPS, on[ops[i]%NOPS]);
    mc_desc("hook operations (thread:operation)%s", t);
    pthread_t th_[2]; int hook[2] = {0,0};
    memset(nA, 0, sizeof nA); memset(nB, 0, sizeof nB);
    cap_on();
    for (int i = 0; i < 2; i++) { sem_init(&go[i], 0, 0); sem_init(&done[i], 0, 0); pthread_create(&th_[i], NULL, th, (void*)(intptr_t)i); }
    int eA[2] = {0}, eB[2] = {0}; long bytes = 0; uint64_t h = 7; char why[200] = "";
    for (int i = 0; i < 2; i++) { step(i, NOPS); if (got[i] != dflt && !*why) snprintf(why, sizeof why, "a new thread does not start with the default hook"); }
    for (int i = 0; i < n; i++) {
        int tt = ops[i]/NOPS, o = ops[i]%NOPS;
        seen[hook[0]*4+hook[1]] = 1;
        lastA[0] = 0;
        step(tt, o);
        if (o <= SETD) hook[tt] = o == SETA ? 1 : o == SETB ? 2 : o == SETN ? 3 : 0;
        int speaks = o == ERR || o == WRN;
        if (speaks && hook[tt] == 1) { if (nA[tt] == eA[tt] && !*why) snprintf(why, sizeof why, "step %d: hook A of the thread was not called", i); eA[tt] = nA[tt];
            if (!strstr(lastA, o == ERR ? "FNFT Error: " : "FNFT Warning: ") && !*why) snprintf(why, sizeof why, "step %d: wrong message %.60s", i, lastA); }
        if (speaks && hook[tt] == 2) { if (nB[tt] == eB[tt] && !*why) snprintf(why, sizeof why, "step %d: hook B of the thread was not called", i); eB[tt] = nB[tt]; }
        for (int j = 0; j < 2; j++) if ((nA[j] != eA[j] || nB[j] != eB[j]) && !*why) snprintf(why, sizeof why, "step %d: a hook was called that must not be (thread %d)", i, j);
        long b = cap_len();
        if (speaks && hook[tt] == 0) { if (b == bytes && !*why) snprintf(why, sizeof why, "step %d: the default hook printed nothing", i); }
        else if (b != bytes && !*why) snprintf(why, sizeof why, "step %d: output on the standard streams although the default hook is not used", i);
        bytes = b;
        if (got[tt] != hv(hook[tt]) && !*why) snprintf(why, sizeof why, "step %d: getprintf does not return the installed hook", i);
        int ob[6] = {nA[0],nA[1],nB[0],nB[1],(int)b,hook[0]*4+hook[1]}; h = mc_hash(ob, sizeof ob, h);
    }
    for (int i = 0; i < 2; i++) { step(i, -1); pthread_join(th_[i], NULL); sem_destroy(&go[i]); sem_destroy(&done[i]); }
    cap_off();
    if (*why) mc_fail("hook", "%s", why);
    mc_outcome(h); mc_states(0, n); mc_count("hook operation sequences", 1);
}
static void seqs(int *ops, int n, int depth) {
    if (n) machine(ops, n);
    if (n == depth) return;
    for (int o = 0; o < 2*NOPS; o++) { ops[n] = o; seqs(ops, n+1, depth); }
}
static fnft_printf_ptr_t tmp0; static void *getd(void *p) { (void)p; tmp0 = fnft_errwarn_getprintf(); return NULL; }
void explore(void) {
    mc_case_timeout = 60;
    pthread_t t; pthread_create(&t, NULL, getd, NULL); pthread_join(t, NULL); dflt = tmp0;
    int ops[6]; seqs(ops, 0, mc_thorough ? 5 : 4);
    int n = 0; for (int i = 0; i < 16; i++) n += seen[i]; mc_states(n, 0);
    scn_each(mc_thorough ? 2 : 1, ~0u, lat);
    scn_each(mc_thorough ? 1 : 0, ~0u, latbad);
    scn_each(0, ~0u, latfault);
}
