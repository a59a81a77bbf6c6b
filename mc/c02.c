/* every allocation of every scenario fails once / fails from there on */
#include "scn.h"
const char *mc_rule = "one case = one call of the option lattice; within it, for every index k of the allocations the call makes: allocation k fails, and all allocations from k on fail, each followed by an undisturbed repetition of the call; non-trivial = at least one allocation was made to fail; distinct = hash of outputs, number of allocations and status codes seen";
static const Scn *cur;
static uint64_t faults;
static void go(const Scn *s) {
    if (!mc_mine()) return;
    mc_desc("%s", scn_text(s));
    Res r0; scn_run(s, &r0);
    long n = r0.allocs;
    if (n > (mc_thorough ? 4000 : 300)) { mc_count("calls with too many allocations", 1); scn_free(&r0); return; } uint64_t h = r0.hash ^ (uint64_t)n; int k0 = mc_thorough ? 1 : 1;
    long step = 1; (void)k0;
    for (int mode = 0; mode < 2 && !mc_failed_this_case(); mode++) for (long k = 1; k <= n && !mc_failed_this_case(); k += step) {
        mc_desc("%s, allocation %ld of %ld fails%s", scn_text(s), k, n, mode ? " and all later ones" : "");
        Res r;
        if (mode) scn_fail_from = k; else scn_fail_at = k;
        mc_fault_hit = 0;
        scn_run(s, &r);
        scn_fail_from = scn_fail_at = 0;
        if (!mc_fault_hit) { mc_fail("nondeterministic", "allocation %ld was not reached again", k); scn_free(&r); break; }
        faults++;
        if (r.leak) mc_fail("leak", "%ld blocks still allocated (rc=%d) %.200s", r.leak, r.rc, r.msg);
        if (r.guard_broken) mc_fail("guard", "memory outside of the arrays was written (mask %d)", r.guard_broken);
        if (r.in_changed || r.opts_changed) mc_fail("inputs", "inputs or options changed");
        if (r.rc == 0 && r.hash != r0.hash) mc_fail("silent", "the call reported success but its outputs differ from the undisturbed call (K=%u, undisturbed rc=%d K=%u)", r.K, r0.rc, r0.K);
        h = mc_hash(&r.rc, sizeof r.rc, h);
        scn_free(&r);
        if (mode == 0 || k == 1) {
            Res r2; scn_run(s, &r2);
            if (r2.hash != r0.hash) mc_fail("aftermath", "the next, undisturbed call gives a different result: rc %d, was %d", r2.rc, r0.rc);
            if (r2.allocs != n) mc_fail("aftermath", "the next, undisturbed call makes %ld allocations, before %ld", r2.allocs, n);
            scn_free(&r2);
        }
    }
    if (n) mc_outcome(h);
    mc_count("injected faults", faults); faults = 0;
    scn_free(&r0);
}
static unsigned cnt;
static void thin(const Scn *s) { /* quick tier: a fixed residue class of the medium lattice */
    if (cnt++ % 29 == 7) go(s);
}
void explore(void) {
    (void)cur;
    mc_case_timeout = 200;
    scn_each(mc_thorough ? 1 : 0, ~0u, go);
    if (!mc_thorough) scn_each(1, ~0u, thin);
}
