/* results depend only on the arguments: histories and memory contents */
#include "scn.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
const char *mc_rule = "case kind 1: one call of the option lattice executed with four different contents of fresh heap memory, of the stack and of the output arrays, which must give identical bits; case kind 2: one sequence of calls (valid, rejected, out of memory) from a pool, executed in a fresh process, where every call must give the bits it gives as the first call of a process; non-trivial = call succeeded / sequence executed; distinct = hash of the results";
static __attribute__((noinline)) void stackfill(int byte) {
    volatile char b[400000]; memset((char*)b, byte, sizeof b);
    __asm__ volatile("" :: "r"(b) : "memory");
}
static void mem(const Scn *s) {
    if (!mc_mine()) return;
    mc_desc("memory contents: %s", scn_text(s));
    static const int F[4][3] = {{0x00,0x00,0x00},{0xFF,0xFF,0xFF},{0x41,0x5A,0x3F},{0xC0,0x11,0x01}};
    Res r0;
    for (int i = 0; i < 4; i++) {
        Res r; 
        mc_fill = F[i][0]; scn_fillbyte = F[i][1]; stackfill(F[i][2]);
        scn_run(s, &r);
        mc_fill = -1;
        if (i == 0) { r0 = r; continue; }
        if (r.rc != r0.rc) mc_fail("memory", "status %d with one filling of unused memory, %d with another", r0.rc, r.rc);
        else if (r.hash != r0.hash) {
            int w = -1; size_t k = 0; for (int j = 0; j < 3 && w < 0; j++) for (k = 0; k < r.len[j] && j < 3; k++) if (memcmp(&r.out[j][k], &r0.out[j][k], sizeof(cplx))) { w = j; break; }
            mc_fail("memory", "outputs depend on the previous contents of memory: K %u %u, first difference in output %d at %zu: %g%+gi vs %g%+gi", r0.K, r.K, w, k, w >= 0 ? creal(r0.out[w][k]) : 0, w >= 0 ? cimag(r0.out[w][k]) : 0, w >= 0 ? creal(r.out[w][k]) : 0, w >= 0 ? cimag(r.out[w][k]) : 0);
        }
        scn_free(&r);
    }
    if (r0.rc == 0) mc_outcome(r0.hash);
    mc_count("memory filling cases", 1);
    scn_free(&r0);
}
/* ---- histories ---- */
#define PMAX 4000
static struct { Scn s; long fail; } pool[PMAX]; static unsigned np, ctr;
static void collect(const Scn *s) {
    if (np < PMAX) { pool[np].s = *s; pool[np].fail = 0; ctr++;
        if (ctr % 7 == 0) pool[np].s.bad = 1 + ctr % (SCN_NBAD-1);
        if (ctr % 11 == 0) pool[np].fail = 3 + ctr % 40;
        np++; }
}
static uint64_t op(unsigned i) {
    Res r; scn_fail_at = pool[i].fail;
    scn_run(&pool[i].s, &r); scn_fail_at = 0;
    uint64_t h = mc_hash(&r.nmsg, sizeof r.nmsg, r.hash); scn_free(&r);
    return h ? h : 1;
}
static uint64_t *shm; /* [0..3]: results of the current sequence, [8+i]: baselines */
static int run_seq(const unsigned *q, int n) {
    for (int i = 0; i < n; i++) shm[i] = 0;
    pid_t p = fork();
    if (p == 0) { for (int i = 0; i < n; i++) shm[i] = op(q[i]); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static uint64_t baseline(unsigned i) {
    if (!shm[8+i]) { uint64_t sv[4]; memcpy(sv, shm, sizeof sv); if (!run_seq(&i, 1)) shm[0] = 2; shm[8+i] = shm[0]; memcpy(shm, sv, sizeof sv); }
    return shm[8+i];
}
static void seq(const unsigned *q, int n) {
    if (!mc_mine()) return;
    int ok = run_seq(q, n);
    mc_desc("history of %d calls: #%u, #%u, #%u, #%u", n, q[0], n > 1 ? q[1] : 0, n > 2 ? q[2] : 0, n > 3 ? q[3] : 0);
    if (!ok) { mc_fail("crash", "the sequence crashed; last: %s", scn_text(&pool[q[n-1]].s)); return; }
    uint64_t h = n;
    for (int i = 0; i < n; i++) {
        uint64_t b = baseline(q[i]);
        if (shm[i] != b) { char t[700]; snprintf(t, sizeof t, "%s", scn_text(&pool[q[i]].s)); mc_fail("history", "call %d of the sequence gives a different result than in a fresh process: [%s] after [%s]", i+1, t, i ? scn_text(&pool[q[i-1]].s) : "nothing"); return; }
        h = mc_hash(&shm[i], 8, h);
    }
    mc_outcome(h); mc_count("call sequences", 1); mc_states(n, n);
}
static unsigned want[8], tcount[8];
static void pick1(const Scn *s) { unsigned k = tcount[s->type]++; (void)k; collect(s); }
void explore(void) {
    mc_case_timeout = 60;
    shm = mmap(NULL, (8+PMAX)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    (void)want;
    /* pool: evenly thinned small lattice */
    scn_each(0, ~0u, pick1);
    unsigned n0 = np, P2 = mc_thorough ? 700 : 180, P3 = mc_thorough ? 64 : 20, P4 = mc_thorough ? 18 : 0;
    unsigned q[4];
    #define PICK(i, P) ((unsigned)((uint64_t)(i)*n0/(P) + ((i)*13)%(n0/(P))))
    for (unsigned a = 0; a < P2; a++) for (unsigned b = 0; b < P2; b++) { q[0] = PICK(a, P2); q[1] = PICK(b, P2); seq(q, 2); }
    for (unsigned a = 0; a < P3; a++) for (unsigned b = 0; b < P3; b++) for (unsigned c = 0; c < P3; c++) { q[0] = PICK(a, P3); q[1] = PICK(b, P3); q[2] = PICK(c, P3); seq(q, 3); }
    for (unsigned a = 0; a < P4; a++) for (unsigned b = 0; b < P4; b++) for (unsigned c = 0; c < P4; c++) for (unsigned d = 0; d < P4; d++) { q[0] = PICK(a, P4); q[1] = PICK(b, P4); q[2] = PICK(c, P4); q[3] = PICK(d, P4); seq(q, 4); }
    scn_each(mc_thorough ? 2 : 1, ~0u, mem);
}
