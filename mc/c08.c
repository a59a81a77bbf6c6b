/* counts and capacities */
#include "scn.h"
const char *mc_rule = "one case = one call of the option lattice that returns lists, repeated with every capacity from 0 to one more than the number n of entries found with ample capacity (thinned for n>8: 0..4, n-2..n+1 and n/2), or a call with a continuous spectrum executed with two prior contents of the output; non-trivial = the call with ample capacity succeeded; distinct = hash of its result";
static int subset(const cplx *a, unsigned na, const cplx *b, unsigned nb, double tol) {
    for (unsigned i = 0; i < na; i++) { int f = 0; for (unsigned j = 0; j < nb; j++) if (cabs(a[i]-b[j]) <= tol*(1+cabs(b[j])) || (!isfinite(cabs(a[i])) && !isfinite(cabs(b[j])))) f = 1; if (!f) return 0; }
    return 1;
}
static void list(const Scn *s0, int which) {
    /* which: 1 = bound states / main spectrum, 0 = auxiliary spectrum */
    Scn s = *s0; unsigned ample = 80, maxk = 0;
    if (s.type == NSEV) maxk = fnft_nsev_max_K(s.D, s.nullopts ? NULL : &s.o.v);
    if (s.type == MANV) maxk = fnft_manakovv_max_K(s.D, s.nullopts ? NULL : &s.o.m);
    if (s.type == NSEV || s.type == MANV) ample = 2*maxk + 10;
    if (s.type == NSEP) ample = 700*s.D;
    if (s.type == NSEP) { if (s.bs) s.K = ample; if (s.cs) s.Maux = ample; } else s.K = ample;
    Res r0; scn_run(&s, &r0);
    if (r0.rc) { mc_count("rejected", 1); scn_free(&r0); return; }
    unsigned n = which ? r0.K : r0.Maux; int oi = which ? 1 : 0;
    mc_outcome(r0.hash);
    if (r0.guard_broken) mc_fail("guard", "memory outside of the arrays written (mask %d)", r0.guard_broken);
    if (n > ample) { mc_fail("count", "reported %u entries, capacity %u", n, ample); scn_free(&r0); return; }
    if ((s.type == NSEV || s.type == MANV) && n > maxk) mc_fail("max_K", "%u bound states found, max_K promises at most %u", n, maxk);
    for (unsigned i = 0; i < n; i++) { const double *d = (const double*)&r0.out[oi][i]; double f; memset(&f, scn_fillbyte, sizeof f); if (!memcmp(&d[0], &f, 8) && !memcmp(&d[1], &f, 8)) { mc_fail("count", "%u entries reported but entry %u was not written", n, i); break; } }
    if (which && s.nc && r0.out[2]) {
        unsigned m = !s.nullopts && (s.type == NSEV ? s.o.v.discspec_type == fnft_nsev_dstype_BOTH : s.o.k.discspec_type == fnft_kdvv_dstype_BOTH) ? 2*n : n;
        for (unsigned i = 0; i < m; i++) { const double *d = (const double*)&r0.out[2][i]; double f; memset(&f, scn_fillbyte, sizeof f); if (!memcmp(&d[0], &f, 8) && !memcmp(&d[1], &f, 8)) { mc_fail("count", "norming constant/residue entry %u of %u was not written", i, m); break; } }
    }
    int sub = !s.nullopts ? (s.type == NSEV ? s.o.v.bound_state_localization == fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE : s.type == NSEP ? s.o.p.localization != fnft_nsep_loc_GRIDSEARCH : 0) : 1;
    for (unsigned c = 0; c <= n+1; c++) {
        if (n > 8 && c > 4 && c < n-2 && c != n/2) continue;
        Scn t = s; if (which) t.K = c; else t.Maux = c;
        Res r; mc_msg_reset(); scn_run(&t, &r);
        unsigned m = which ? r.K : r.Maux;
        mc_count("capacities tried", 1);
        if (r.guard_broken) mc_fail("guard", "capacity %u of %u: memory outside of the arrays written (mask %d)", c, n, r.guard_broken);
        if (r.leak) mc_fail("leak", "capacity %u: %ld blocks", c, r.leak);
        if (r.rc) {
            if (c >= n) mc_fail("capacity", "capacity %u suffices for %u entries but the call failed with %d: %.150s", c, n, r.rc, r.msg);
            mc_count("capacity too small: error", 1);
        } else {
            if (m > c) mc_fail("capacity", "%u entries reported for a capacity of %u", m, c);
            else if (c >= n) {
                if (m != n) mc_fail("capacity", "capacity %u: %u entries, but %u with ample capacity", c, m, n);
                else if (scn_dist(r.out[oi], r0.out[oi], n) > 1e-9 && !(n && !isfinite(cabs(r0.out[oi][0])))) {
                    int bad = 0; for (unsigned i = 0; i < n; i++) if (cabs(r.out[oi][i]-r0.out[oi][i]) > 1e-9*(1+cabs(r0.out[oi][i]))) bad = 1;
                    if (bad) mc_fail("capacity", "capacity %u changes the entries", c);
                }
            } else {
                if (!sub && m != c) mc_fail("as many as possible", "%u entries for capacity %u although there are %u", m, c, n);
                if (!sub && c && !strstr(r.msg, "FNFT Warning")) mc_fail("warning", "%u of %u entries returned without a warning", m, n);
                int rich = !s.nullopts && ((s.type == NSEV && s.o.v.richardson_extrapolation_flag) || (s.type == KDVV && s.o.k.richardson_extrapolation_flag)); /* the second approximation starts from the list that was kept */
                if (!rich && !subset(r.out[oi], m, r0.out[oi], n, sub ? 1e-4 : 1e-8) && !sub) mc_fail("entries", "capacity %u: the list contains an entry that is not in the full list", c);
                mc_count("capacity too small: truncated", 1);
            }
        }
        scn_free(&r);
    }
    scn_free(&r0);
}
static void cont(const Scn *s) {
    Res r; scn_run(s, &r);
    if (r.rc == 0) {
        mc_outcome(r.hash);
        if (r.guard_broken) mc_fail("guard", "memory outside of the arrays written (mask %d)", r.guard_broken);
        double f; memset(&f, scn_fillbyte, sizeof f);
        for (size_t i = 0; i < r.len[0]; i++) { const double *d = (const double*)&r.out[0][i]; if (!memcmp(&d[0], &f, 8) || !memcmp(&d[1], &f, 8)) { mc_fail("continuous", "entry %zu of %zu was not written", i, r.len[0]); break; } }
        mc_count("continuous spectra", 1);
    }
    scn_free(&r);
}
static void cb(const Scn *s0) {
    Scn s = *s0;
    if (s.type > MANV) return;
    int newton = !s.nullopts && (s.type == NSEV ? s.o.v.bound_state_localization == fnft_nsev_bsloc_NEWTON : s.type == KDVV ? s.o.k.bound_state_localization == fnft_kdvv_bsloc_NEWTON : s.type == NSEP ? s.o.p.localization == fnft_nsep_loc_NEWTON : 0);
    if (s.type == NSEP) {
        if (newton) return;
        if (s.bs) { if (mc_mine()) { mc_desc("main spectrum: %s", scn_text(&s)); list(&s, 1); } }
        if (s.cs && s.sig%6 != 4) /* zero signal: every point is in the auxiliary spectrum */ { if (mc_mine()) { mc_desc("auxiliary spectrum: %s", scn_text(&s)); list(&s, 0); } }
        return;
    }
    if (s.bs && !newton && !(s.kappa == -1 && s.type != KDVV)) { if (mc_mine()) { mc_desc("bound states: %s", scn_text(&s)); list(&s, 1); } }
    else if (s.cs || s.bs) { if (mc_mine()) { mc_desc("%s", scn_text(&s));
        if (s.cs) cont(&s);
        if (s.bs) { Res r; scn_run(&s, &r);
            if (r.rc == 0 && r.K > s.K) mc_fail("count", "%u entries, capacity %u", r.K, s.K);
            if (r.rc == 0 && s.kappa == -1 && s.type != KDVV && r.K) mc_fail("count", "%u bound states for a defocusing signal", r.K);
            if (r.guard_broken) mc_fail("guard", "mask %d", r.guard_broken);
            if (r.rc == 0 && r.K <= s.K) for (unsigned i = 0; i < r.K; i++) { double f; memset(&f, scn_fillbyte, sizeof f); if (!memcmp(&r.out[1][i], &f, 8)) mc_fail("count", "entry %u not written", i); }
            if (r.rc == 0) mc_outcome(r.hash); scn_free(&r); } } }
}
void explore(void) { mc_case_timeout = 100; scn_each(mc_thorough ? 2 : 1, ~0u, cb); }
