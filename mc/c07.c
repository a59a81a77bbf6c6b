/* invalid arguments are rejected, nothing is written */
#include "scn.h"
const char *mc_rule = "one case = one base call of the option lattice with one or two of its arguments or option values replaced by an invalid one; non-trivial = a documented precondition is violated by the replacement; distinct = hash of call, replacement and status";
static int rank(const Scn *s, int b) {
    int k = scn_bad_kind(s, b);
    return k;
}
static void one(const Scn *s, int k1, int k2) {
    if (!k1 && !k2) return;
    if (!mc_mine()) return;
    mc_desc("%s", scn_text(s));
    Res r; scn_run(s, &r);
    if (r.rc == 0) mc_fail("accepted", "the call returned success although a precondition is violated");
    else if ((k1 == 1 || k2 == 1) && !r.untouched) mc_fail("written", "the call was rejected (rc=%d) after output arrays had been changed", r.rc);
    if (r.guard_broken) mc_fail("guard", "memory outside of the arrays was written (mask %d)", r.guard_broken);
    if (r.leak) mc_fail("leak", "%ld blocks still allocated after rejection", r.leak);
    if (r.in_changed || r.opts_changed) mc_fail("inputs", "inputs (mask %d) or options (%d) changed", r.in_changed, r.opts_changed);
    const char *t = scn_text(s);
    uint64_t h = mc_hash(t, strlen(t), r.rc); mc_outcome(h);
    scn_free(&r);
}
static int pairs;
static void bad(const Scn *s) {
    for (int b = 1; b < SCN_NBAD; b++) {
        Scn t = *s; t.bad = b;
        one(&t, rank(s, b), 0);
        if (pairs) for (int c = b+1; c < SCN_NBAD; c++) {
            /* replacements of the same argument exclude each other */
            static const int grp[SCN_NBAD] = {0,1,1,3,4,4,4,7,7,7,10,10,10,13,14,15,16,17,18,19,1,21,22,16,3,25,26,7,21,29,29,21,32,10,16,4,1,19,7};
            if (grp[b] == grp[c]) continue;
            if (b == 27 || c == 27) continue; /* flips the sign, changes what the other one means */
            if ((c == 34 || c == 25) && b == 19) continue;
            if (c == 36 && (b == 29 || b == 30)) continue; /* the lengths may agree again */
            t.bad2 = c;
            one(&t, rank(s, b), rank(s, c));
        }
        /* an unknown kind of residues matters once there are bound states */
        if (b == 18 && !s->nullopts && (s->type == NSEV || s->type == KDVV) && s->bs && s->nc) {
            if (!mc_mine()) continue;
            Scn u = *s; Res r0; scn_run(&u, &r0);
            u.bad = 18; mc_desc("%s", scn_text(&u));
            Res r; scn_run(&u, &r);
            if (r0.rc == 0 && r0.K > 0 && r.rc == 0) mc_fail("accepted", "unknown discspec_type accepted although there are %u bound states", r0.K);
            if (r.leak || r.guard_broken) mc_fail("leak", "leak %ld guard %d", r.leak, r.guard_broken);
            if (r0.K) mc_outcome(r0.hash ^ 18);
            scn_free(&r0); scn_free(&r);
        }
    }
}
void explore(void) {
    mc_case_timeout = 60;
    pairs = 1; scn_each(mc_thorough ? 1 : 0, ~0u, bad);
    pairs = 0; scn_each(mc_thorough ? 2 : 1, ~0u, bad);
}
