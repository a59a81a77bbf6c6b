/* every call of the option lattice, valid or invalid, releases what it allocated */
#include "scn.h"
const char *mc_rule = "one case = one public API call of the option lattice (all option combinations, lengths, output subsets, and each of 34 single-argument corruptions on a sub-lattice); live heap blocks are counted by a wrapped allocator; non-trivial = the call allocated memory; distinct = hash of outputs, status and number of allocations";
static void one(const Scn *s) {
    if (!mc_mine()) return;
    mc_desc("%s", scn_text(s));
    Res r; scn_run(s, &r);
    if (r.leak) mc_fail("leak", "%ld heap blocks still live after the call (rc=%d) %.200s", r.leak, r.rc, r.msg);
    if (r.allocs) { uint64_t h = r.hash ^ (uint64_t)r.allocs*0x9E3779B97F4A7C15ull; mc_outcome(h); }
    mc_count(r.rc ? "calls returning an error" : "calls succeeding", 1);
    scn_free(&r);
}
static void bad(const Scn *s) {
    for (int b = 1; b < SCN_NBAD; b++) { Scn t = *s; t.bad = b; one(&t); }
}
void explore(void) {
    mc_case_timeout = 60;
    scn_each(mc_thorough ? 2 : 1, ~0u, one);
    scn_each(mc_thorough ? 1 : 0, ~0u, bad);
}
