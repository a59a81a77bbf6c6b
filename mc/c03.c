/* inputs, option structures and library defaults stay as they are; omitted
 * options mean the defaults */
#include "scn.h"
const char *mc_rule = "one case = one public API call of the option lattice (valid, and with each of 34 single-argument corruptions on a sub-lattice) with byte comparison of inputs, options and the five default option getters before and after; calls without options are compared with calls passing a snapshot of the defaults taken at process start; non-trivial = the call ran past validation; distinct = hash of outputs";
static struct { fnft_nsev_opts_t v; fnft_nsep_opts_t p; fnft_kdvv_opts_t k; fnft_manakovv_opts_t m; fnft_nsev_inverse_opts_t i; } def0, def1;
static void snap(void *p) {
    /* field-wise into zeroed memory, so that padding does not matter */
    memset(p, 0, sizeof def0);
    __typeof__(def0) *d = p;
    fnft_nsev_opts_t v = fnft_nsev_default_opts(); fnft_nsep_opts_t q = fnft_nsep_default_opts(); fnft_kdvv_opts_t k = fnft_kdvv_default_opts(); fnft_manakovv_opts_t m = fnft_manakovv_default_opts(); fnft_nsev_inverse_opts_t i = fnft_nsev_inverse_default_opts();
#define C(a, b, f) d->a.f = b.f
    C(v,v,bound_state_filtering); memcpy(d->v.bounding_box, v.bounding_box, sizeof v.bounding_box); C(v,v,bound_state_localization); C(v,v,niter); C(v,v,tol); C(v,v,Dsub); C(v,v,discspec_type); C(v,v,contspec_type); C(v,v,normalization_flag); C(v,v,discretization); C(v,v,richardson_extrapolation_flag);
    C(p,q,localization); C(p,q,filtering); memcpy(d->p.bounding_box, q.bounding_box, sizeof q.bounding_box); C(p,q,max_evals); C(p,q,discretization); C(p,q,normalization_flag); C(p,q,floquet_range[0]); C(p,q,floquet_range[1]); C(p,q,points_per_spine); C(p,q,Dsub); C(p,q,tol);
    C(k,k,bound_state_localization); C(k,k,niter); C(k,k,discspec_type); C(k,k,contspec_type); C(k,k,normalization_flag); C(k,k,discretization); C(k,k,richardson_extrapolation_flag); C(k,k,grid_spacing);
    C(m,m,bound_state_filtering); C(m,m,bound_state_localization); C(m,m,niter); C(m,m,Dsub); C(m,m,discspec_type); C(m,m,contspec_type); C(m,m,normalization_flag); C(m,m,discretization); C(m,m,richardson_extrapolation_flag);
    C(i,i,discretization); C(i,i,contspec_type); C(i,i,contspec_inversion_method); C(i,i,discspec_type); C(i,i,max_iter); C(i,i,oversampling_factor);
}
static void one(const Scn *s) {
    if (!mc_mine()) return;
    mc_desc("%s", scn_text(s));
    Res r; scn_run(s, &r);
    if (r.in_changed) mc_fail("inputs", "input arrays changed, mask %d (1 signal, 2 T, 4 XI, 8 discrete spectrum), rc=%d", r.in_changed, r.rc);
    if (r.opts_changed) mc_fail("options", "the option structure of the caller was changed, rc=%d", r.rc);
    snap(&def1);
    if (memcmp(&def0, &def1, sizeof def0)) mc_fail("defaults", "the default options were changed by the call, rc=%d", r.rc);
    if (s->nullopts && !s->bad) {
        Scn t = *s; t.nullopts = 0;
        /* the snapshot, not the current defaults */
        switch (t.type) { case NSEV: t.o.v = def0.v; break; case NSEP: t.o.p = def0.p; break; case KDVV: t.o.k = def0.k; break; case MANV: t.o.m = def0.m; break; case INV: t.o.i = def0.i; break; }
        Res r2; scn_run(&t, &r2);
        if (!scn_same(&r, &r2)) mc_fail("nullopts", "omitting the options differs from passing the defaults: rc %d and %d, K %u and %u", r.rc, r2.rc, r.K, r2.K);
        scn_free(&r2);
    }
    if (r.allocs || r.rc == 0) mc_outcome(r.hash);
    mc_count(r.rc ? "calls returning an error" : "calls succeeding", 1);
    scn_free(&r);
}
static void bad(const Scn *s) {
    for (int b = 1; b < SCN_NBAD; b++) { Scn t = *s; t.bad = b; one(&t); }
}
/* the documented defaults (header comments) */
#define DOC(c) do { if (!(c)) mc_fail("documented-default", "%s", #c); } while (0)
void explore(void) {
    mc_case_timeout = 60;
    snap(&def0);
    if (mc_begin("documented defaults")) {
        DOC(def0.v.bound_state_filtering == fnft_nsev_bsfilt_FULL); DOC(def0.v.bound_state_localization == fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE);
        DOC(def0.v.niter == 100); DOC(def0.v.tol == -1); DOC(def0.v.discspec_type == fnft_nsev_dstype_NORMING_CONSTANTS); DOC(def0.v.contspec_type == fnft_nsev_cstype_REFLECTION_COEFFICIENT);
        DOC(def0.v.normalization_flag == 1); DOC(def0.v.discretization == fnft_nse_discretization_2SPLIT4B); DOC(def0.v.richardson_extrapolation_flag == 0);
        DOC(def0.k.bound_state_localization == fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE); DOC(def0.k.niter == 10);
        DOC(def0.k.discspec_type == fnft_kdvv_dstype_NORMING_CONSTANTS); DOC(def0.k.contspec_type == fnft_kdvv_cstype_REFLECTION_COEFFICIENT); DOC(def0.k.normalization_flag == 1);
        DOC(def0.k.discretization == fnft_kdv_discretization_2SPLIT4B); DOC(def0.k.richardson_extrapolation_flag == 0);
        DOC(def0.m.contspec_type == fnft_manakovv_cstype_REFLECTION_COEFFICIENT); DOC(def0.m.normalization_flag == 1); DOC(def0.m.richardson_extrapolation_flag == 0);
        DOC(def0.m.discretization == fnft_manakov_discretization_2SPLIT4B);
        DOC(def0.i.discretization == fnft_nse_discretization_2SPLIT2A); DOC(def0.i.contspec_type == fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT);
        DOC(def0.i.contspec_inversion_method == fnft_nsev_inverse_csmethod_DEFAULT); DOC(def0.i.discspec_type == fnft_nsev_inverse_dstype_NORMING_CONSTANTS); DOC(def0.i.max_iter == 100); DOC(def0.i.oversampling_factor == 8);
        mc_outcome(1);
    }
    scn_each(mc_thorough ? 2 : 1, ~0u, one);
    scn_each(mc_thorough ? 1 : 0, ~0u, bad);
}
