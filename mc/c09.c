/* several spectra at once = each alone; representations consistent */
#include "scn.h"
const char *mc_rule = "one case = one option setting of the lattice with all outputs requested in the combined representation, compared with every proper subset of outputs and every single representation; non-trivial = the full call succeeded; distinct = hash of its result";
static int close_(cplx a, cplx b, double tol) { if (memcmp(&a, &b, sizeof a) == 0) return 1; if (!isfinite(cabs(a)) || !isfinite(cabs(b))) return !isfinite(cabs(a)) && !isfinite(cabs(b)); return cabs(a-b) <= tol*(1+cabs(b)); }
static int cmp(const cplx *a, const cplx *b, size_t n, double tol) { for (size_t i = 0; i < n; i++) if (!close_(a[i], b[i], tol)) return (int)i+1; return 0; }
static void setcst(Scn *s, int c) { if (s->type == NSEV) s->o.v.contspec_type = c; if (s->type == KDVV) s->o.k.contspec_type = c; if (s->type == MANV) s->o.m.contspec_type = c; }
static void setds(Scn *s, int c) { if (s->type == NSEV) s->o.v.discspec_type = c; if (s->type == KDVV) s->o.k.discspec_type = c; }
static void vkm(const Scn *s0) {
    Scn f = *s0; f.cs = f.bs = 1; f.nc = s0->type != MANV; f.nok = f.noxi = 0;
    if (f.M < 2) f.M = 3;
    setcst(&f, 2); setds(&f, 2);
    if (f.type == KDVV && f.xi == 0 && f.M == 2) f.M = 3;
    Res F; scn_run(&f, &F);
    if (F.rc) {
        mc_count("full call rejected", 1);
        scn_free(&F); return;
    }
    mc_outcome(F.hash);
    unsigned M = f.M, nb = f.type == MANV ? 2 : 1; /* number of b's */
    const double tol = 1e-10;
    /* continuous parts */
    for (int cst = 0; cst < 3; cst++) for (int sub = 0; sub < 3; sub++) {
        Scn t = f; setcst(&t, cst); if (sub == 0) { t.bs = t.nc = 0; t.nok = 1; } if (sub == 1) t.nc = 0;
        Res r; scn_run(&t, &r); int w = 0;
        if (r.rc) mc_fail("subset", "continuous spectrum of type %d with outputs %d: status %d, full call succeeds: %.120s", cst, sub, r.rc, r.msg);
        else {
            if (cst == 0) w = cmp(r.out[0], F.out[0], (size_t)nb*M, tol);
            if (cst == 1) w = cmp(r.out[0], F.out[0] + (size_t)nb*M, (size_t)(nb+1)*M, tol);
            if (cst == 2) w = cmp(r.out[0], F.out[0], (size_t)(2*nb+1)*M, tol);
            if (w) { cplx x = r.out[0][w-1], y = F.out[0][w-1 + (cst == 1 ? nb*M : 0)]; mc_fail("contspec", "type %d, outputs %d: entry %d is %.15g%+.15gi, in the combined call %.15g%+.15gi", cst, sub, w-1, creal(x), cimag(x), creal(y), cimag(y)); }
            if (sub && (r.K != F.K || cmp(r.out[1], F.out[1], F.K, tol))) mc_fail("bound states", "list differs when the continuous spectrum has type %d (%u and %u entries)", cst, r.K, F.K);
        }
        scn_free(&r);
    }
    /* discrete parts */
    for (int ds = 0; ds < 3; ds++) for (int sub = 0; sub < 4; sub++) {
        if (f.type == MANV && ds) continue;
        Scn t = f; setds(&t, ds); if (sub & 1) { t.cs = 0; t.noxi = 1; } if (sub & 2) t.nc = 0;
        if (!(sub & 1) && (sub & 2)) continue;
        if ((sub & 2) && ds) continue;
        if (f.type == MANV) t.nc = 0;
        Res r; scn_run(&t, &r); int w = 0;
        if (r.rc) mc_fail("subset", "discrete spectrum of type %d with outputs %d: status %d, full call succeeds: %.120s", ds, sub, r.rc, r.msg);
        else if (r.K != F.K) mc_fail("bound states", "%u bound states (type %d, outputs %d), %u in the full call", r.K, ds, sub, F.K);
        else if ((w = cmp(r.out[1], F.out[1], F.K, tol))) mc_fail("bound states", "entry %d differs (type %d, outputs %d): %.15g%+.15gi, full call %.15g%+.15gi", w-1, ds, sub, creal(r.out[1][w-1]), cimag(r.out[1][w-1]), creal(F.out[1][w-1]), cimag(F.out[1][w-1]));
        else if (t.nc) {
            if (ds == 0) w = cmp(r.out[2], F.out[2], F.K, tol);
            if (ds == 1) w = cmp(r.out[2], F.out[2] + F.K, F.K, tol);
            if (ds == 2) w = cmp(r.out[2], F.out[2], 2*(size_t)F.K, tol);
            if (w) { cplx x = r.out[2][w-1], y = F.out[2][w-1+(ds == 1 ? F.K : 0)]; mc_fail("normconsts", "type %d, outputs %d, entry %d of %u: %.15g%+.15gi, in the combined call %.15g%+.15gi", ds, sub, w-1, F.K, creal(x), cimag(x), creal(y), cimag(y)); }
        }
        scn_free(&r);
    }
    scn_free(&F);
}
static void per(const Scn *s0) {
    Scn f = *s0; Res F; f.nok = 0; if (!f.K) f.K = 40; if (!f.Maux) f.Maux = 40; f.bs = f.cs = 1; scn_run(&f, &F);
    if (F.rc) { mc_count("full call rejected", 1); scn_free(&F); return; }
    mc_outcome(F.hash);
    unsigned mult = !f.nullopts && f.o.p.localization == fnft_nsep_loc_NEWTON ? 1 : 1; (void)mult;
    for (int sub = 0; sub < 2; sub++) {
        Scn t = f; if (sub) { t.cs = 0; } else t.bs = 0;
        Res r; scn_run(&t, &r);
        if (r.rc && !sub && strstr(r.msg, "Filtering of the auxiliary spectrum is not possible")) mc_count("filtered auxiliary spectrum alone is refused", 1);
        else if (r.rc) mc_fail("subset", "%s alone: status %d although both together succeed: %.120s", sub ? "main spectrum" : "auxiliary spectrum", r.rc, r.msg);
        else {
            unsigned n = sub ? r.K : r.Maux, m = sub ? F.K : F.Maux; int o = sub ? 1 : 0;
            if (n != m) mc_fail("periodic", "%s: %u points alone, %u together", sub ? "main" : "aux", n, m);
            else { size_t c = n < r.len[o] ? n : r.len[o]; int w = cmp(r.out[o], F.out[o], c, 1e-10); if (w) mc_fail("periodic", "%s: point %d differs", sub ? "main" : "aux", w-1); }
        }
        scn_free(&r);
    }
    scn_free(&F);
}
static char last[512]; static int have;
static void cb(const Scn *s) {
    if (s->type > MANV || s->nullopts) return;
    if (s->type == NSEP) { if (s->bs && s->cs && mc_mine()) { mc_desc("%s", scn_text(s)); per(s); } return; }
    /* one full call per setting of the remaining options */
    int cst = s->type == NSEV ? s->o.v.contspec_type : s->type == KDVV ? s->o.k.contspec_type : s->o.m.contspec_type;
    int ds = s->type == NSEV ? s->o.v.discspec_type : s->type == KDVV ? s->o.k.discspec_type : 0;
    if (!s->bs || !s->cs || (!s->nc && s->type != MANV) || (!mc_thorough && cst != ds && s->type != MANV)) return;
    if (s->type == MANV && cst && !mc_thorough) return;
    (void)last; (void)have;
    if (mc_mine()) { mc_desc("%s", scn_text(s)); vkm(s); }
}
void explore(void) { mc_case_timeout = 100; scn_each(mc_thorough ? 2 : 1, ~0u, cb); }
