/* concurrent calls on separate data do not influence each other */
#include "scn.h"
#include "msched.h"
const char *mc_rule = "one case = one combination of two or three calls executed by threads under a controlled scheduler; all schedules with up to the stated number of preemptions at the stated kinds of points are executed (points: accesses to written shared memory; and, in the dense part, every function entry, allocation and release); every thread must return what it returns alone and no two unsynchronized accesses to shared memory may conflict; non-trivial = all schedules executed; distinct = hash of combination and results";
#define PMAX 6000
static struct { Scn s; } pool[PMAX]; static unsigned np;
static uint64_t result[SCH_MAXT]; static int seq2[SCH_MAXT];
static FNFT_INT hookC(const char *f, ...) { (void)f; mc_msgs += 1000; return 0; }
static uint64_t call(int i) {
    Res r; scn_run(&pool[i].s, &r); uint64_t h = mc_hash(&r.nmsg, sizeof r.nmsg, r.hash); h = mc_hash(&r.untouched, sizeof(int), h); scn_free(&r); return h;
}
static void body(int tid, int arg) {
    /* even threads use the collecting hook, odd ones their own */
    if (tid & 1) fnft_errwarn_setprintf(hookC); else mc_quiet();
    uint64_t h = call(arg);
    if (seq2[tid] >= 0) h = h*31 + call(seq2[tid]);
    result[tid] = h;
}
static uint64_t solo(int i, int tid) {
    /* executed on thread 'tid' alone */
    int a[SCH_MAXT] = {0,0,0}; (void)tid;
    static uint64_t memo[2][PMAX];
    if (memo[tid&1][i]) return memo[tid&1][i];
    SchRun r; memset(&r, 0, sizeof r); int sv[SCH_MAXT]; memcpy(sv, seq2, sizeof sv); for (int t = 0; t < SCH_MAXT; t++) seq2[t] = -1;
    if (tid & 1) { /* needs two threads: the other one does the same call, one after the other */ r.nthreads = 2; r.first = 1; a[0] = a[1] = i; }
    else { r.nthreads = 1; a[0] = i; }
    sch_run(&r, a); memcpy(seq2, sv, sizeof sv);
    return memo[tid&1][i] = result[tid&1];
}
static uint64_t nsched, nsteps;
static int run1(SchRun *r, const int *a) {
    sch_run(r, a); nsched++; nsteps += r->npoints;
    if (r->diverged) { mc_fail("replay", "the schedule could not be repeated: %d decisions", r->ndec); return 0; }
    if (r->race) { mc_fail("data race", "%s (schedule with %d preemptions)", r->racetxt, r->ndec); return 0; }
    for (int t = 0; t < r->nthreads; t++) {
        uint64_t w = solo(a[t], t); if (seq2[t] >= 0) w = w*31 + solo(seq2[t], t);
        if (result[t] != w) { mc_fail("result", "thread %d returned something else than alone; schedule: start with %d, %d preemptions%s%.0u", t, r->first, r->ndec, r->ndec ? ", first at point " : "", r->ndec ? r->dec[0].at : 0); return 0; }
    }
    return 1;
}
static SchDec dec[8]; static uint64_t cap;
/* all schedules extending dec[0..k) with at most b preemptions */
static int extend(int T, int first, unsigned points, const int *a, int k, int b) {
    SchRun r; memset(&r, 0, sizeof r); r.nthreads = T; r.first = first; r.points = points; r.dec = dec; r.ndec = k;
    unsigned hot = sch_hotcount;
    if (!run1(&r, a)) return 0;
    if (k == b) return 1;
    if (nsched > cap) { mc_capped("schedules per combination"); return 1; }
    unsigned n = r.npoints; unsigned char *en = malloc(n + 1), *ru = malloc(n + 1); memcpy(en, r.enabled, n); memcpy(ru, r.runner, n);
    int ok = 1;
    for (unsigned p = k ? dec[k-1].at + 1 : 0; p < n && ok; p++) for (int t = 0; t < T && ok; t++) if (t != ru[p] && en[p] >> t & 1) {
        dec[k].at = p; dec[k].to = t; ok = extend(T, first, points, a, k+1, b);
        if (sch_hotcount != hot) { /* a schedule discovered further shared memory: start over with the larger set of points */ free(en); free(ru); return ok ? 2 : 0; }
    }
    free(en); free(ru); return ok;
}
/* what: points and number of preemptions; lim: give up points when there are too many of them in one execution */
static void explore_combo(int T, const int *a, unsigned points, int b, unsigned lim, const char *what) {
    if (!mc_mine()) return;
    char t0[300]; snprintf(t0, sizeof t0, "%.280s", scn_text(&pool[a[0]].s)); char t1[300]; snprintf(t1, sizeof t1, "%.280s", scn_text(&pool[a[1]].s));
    mc_desc("%s, %d threads, up to %d preemptions: [%s] || [%s]%s%s", what, T, b, t0, t1, T > 2 ? " || " : "", T > 2 ? scn_text(&pool[a[2]].s) : "");
    nsched = nsteps = 0;
    for (int t = 0; t < T; t++) { solo(a[t], t); if (seq2[t] >= 0) solo(seq2[t], t); }
    sch_newcombo();
    if (lim) {
        for (;;) {
            SchRun r; memset(&r, 0, sizeof r); r.nthreads = T; r.points = points; sch_run(&r, a);
            if (r.npoints <= lim) break;
            if (points & SCH_P_FUNC) { points &= ~SCH_P_FUNC; mc_count("combinations without function entries (too many)", 1); continue; }
            if (b > 1) { b = 1; lim = lim*lim/2; mc_count("combinations with one preemption only (too many points)", 1); continue; }
            if (points & SCH_P_ALLOC) { points &= ~SCH_P_ALLOC; continue; }
            break;
        }
    }
    for (int first = 0; first < T; first++) {
        int r = 2; for (int it = 0; it < 20 && r == 2; it++) r = extend(T, first, points, a, 0, b);
        if (!r) break;
    }
    mc_states(nsched, nsteps); mc_count("schedules", nsched); mc_count("shared bytes written", sch_hotcount);
    uint64_t h = T; for (int t = 0; t < T; t++) h = mc_hash(&result[t], 8, h); mc_outcome(h);
}
static unsigned ctr;
static void collect(const Scn *s) {
    ctr++;
    if (np >= PMAX) return;
    pool[np].s = *s;
    if (ctr % 6 == 0) pool[np].s.bad = 1 + ctr % (SCN_NBAD-1);
    np++;
}
void explore(void) {
    mc_case_timeout = 200;
    for (int t = 0; t < SCH_MAXT; t++) seq2[t] = -1;
    scn_each(0, ~0u, collect);
    sch_init(body);
    cap = mc_thorough ? 4000000 : 200000;
    unsigned n0 = np;
    #define PICK(i, P) ((int)((uint64_t)(i)*n0/(P) + ((i)*17)%(n0/(P))))
    /* conflicts: every pair of a large pool, all schedules with up to two preemptions at accesses to written shared memory */
    unsigned P = mc_thorough ? 1500 : 420;
    for (unsigned i = 0; i < P; i++) for (unsigned j = i; j < P; j++) { int a[3] = {PICK(i, P), PICK(j, P), 0}; explore_combo(2, a, SCH_P_HOT, 2, 0, "shared memory"); }
    /* three threads, and two calls per thread */
    unsigned Q = mc_thorough ? 40 : 20;
    for (unsigned i = 0; i < Q; i++) for (unsigned j = i; j < Q; j++) for (unsigned k = j; k < Q; k++) { int a[3] = {PICK(i, Q), PICK(j, Q), PICK(k, Q)}; explore_combo(3, a, SCH_P_HOT, 2, 0, "shared memory"); }
    for (unsigned i = 0; i < Q; i++) for (unsigned j = i; j < Q; j++) { int a[3] = {PICK(i, Q), PICK(j, Q), 0}; seq2[0] = PICK((i+3)%Q, Q); seq2[1] = PICK((j+5)%Q, Q); explore_combo(2, a, SCH_P_HOT, 2, 0, "two calls each"); seq2[0] = seq2[1] = -1; }
    /* dense: one preemption anywhere */
    unsigned E = mc_thorough ? 40 : 16;
    for (unsigned i = 0; i < E; i++) for (unsigned j = i; j < E; j++) { int a[3] = {PICK(i, E), PICK(j, E), 0}; explore_combo(2, a, SCH_P_HOT | SCH_P_ALLOC | SCH_P_FUNC, 1, mc_thorough ? 12000 : 1500, "every function entry and allocation"); }
    /* two preemptions at allocations */
    unsigned F = mc_thorough ? 20 : 6;
    for (unsigned i = 0; i < F; i++) for (unsigned j = i; j < F; j++) { int a[3] = {PICK(i, F), PICK(j, F), 0}; explore_combo(2, a, SCH_P_HOT | SCH_P_ALLOC, 2, mc_thorough ? 600 : 120, "allocations"); }
}
