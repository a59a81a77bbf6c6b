/* memory safety of every call of the option lattice, exact-size arrays, under
 * address + undefined-behaviour sanitizers */
#include "scn.h"
const char *mc_rule = "one case = one public API call (transform, options, lengths, presence of outputs, capacities, signal); arrays have exactly the documented length; executed under AddressSanitizer and UBSan; non-trivial = the call succeeded; distinct = hash of all outputs";
static void go(const Scn *s) {
    if (!mc_mine()) return;
    mc_desc("%s", scn_text(s));
    Res r; scn_run(s, &r);
    if (r.rc == 0) mc_outcome(r.hash);
    mc_count(r.rc ? "calls returning an error" : "calls succeeding", 1);
    scn_free(&r);
}
void explore(void) {
    scn_exact = 1;
    mc_case_timeout = 60;
    scn_each(mc_thorough ? 2 : 1, ~0u, go);
}
