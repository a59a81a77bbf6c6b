#include "scn.h"
#include "gen.h"
#include "ref.h"
int scn_exact = 0, scn_fillbyte = 0x5A; long scn_fail_at, scn_fail_from;
static const double Ts[][2] = {{-1,1},{-4,3.5},{0.3,1.9},{-2,2}};
static const double XIs[][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}};
const double *scn_T(const Scn *s) { return Ts[s->ti]; }
const double *scn_XI(const Scn *s) { return XIs[s->xi]; }
void scn_signal(const Scn *s, cplx *q) {
    const double *T = Ts[s->ti];
    unsigned n = s->D;
    int sig = s->sig;
    if (s->user_q) { memcpy(q, s->user_q, (s->type == MANV ? 2 : 1)*n*sizeof *q); return; }
    for (int c = 0; c < (s->type == MANV ? 2 : 1); c++, q += n, sig += 3) {
        if (sig%6 < 4) gen_shape(n, sig%6, T, q);
        else for (unsigned i = 0; i < n; i++) q[i] = sig%6 == 4 ? 0 : 1.1*cexp(_Complex_I*0.4);
        if (s->type == KDVV) for (unsigned i = 0; i < n; i++) q[i] = creal(q[i])*1.5;
        if (s->type == MANV) for (unsigned i = 0; i < n; i++) q[i] *= 0.9;
        if (s->type == NSEV && s->kappa == 1) for (unsigned i = 0; i < n; i++) q[i] *= 1.6;
    }
}
size_t scn_cslen(const Scn *s) {
    int t = s->type == NSEV ? s->o.v.contspec_type : s->type == KDVV ? s->o.k.contspec_type : s->type == MANV ? s->o.m.contspec_type : 0;
    if (s->nullopts) t = 0;
    if (s->type == NSEP) return s->Maux;
    if (s->type == MANV) return (size_t)s->M*(t == 0 ? 2 : t == 1 ? 3 : 5);
    return (size_t)s->M*(t == 0 ? 1 : t == 1 ? 2 : 3);
}
static size_t nclen(const Scn *s) {
    int t = s->type == NSEV ? s->o.v.discspec_type : s->type == KDVV ? s->o.k.discspec_type : 0;
    if (s->nullopts) t = 0;
    return (size_t)s->K*(t == 2 ? 2 : 1);
}
const char *scn_text(const Scn *s) {
    static char b[700]; int n = 0;
    static const char *tn[] = {"nsev","nsep","kdvv","manakovv","nsev_inverse","nsev_inverse_XI"};
    n += snprintf(b+n, sizeof b-n, "%s D=%u M=%u K=%u", tn[s->type], s->D, s->M, s->K);
    if (s->type == NSEP) n += snprintf(b+n, sizeof b-n, " Maux=%u phase=%g", s->Maux, s->phase);
    n += snprintf(b+n, sizeof b-n, " sig=%d T=%d XI=%d kappa=%d %s%s%s%s%s%s", s->sig, s->ti, s->xi, s->kappa, s->cs?" contspec/aux":"", s->bs?" boundstates/main":"", s->nc?" normconsts":"", s->nok?" nullcounter":"", s->noxi?" nullXI":"", s->nullopts?" nullopts":"");
    if (s->bad) n += snprintf(b+n, sizeof b-n, " bad=%d", s->bad);
    if (s->bad2) n += snprintf(b+n, sizeof b-n, "+%d", s->bad2);
    if (!s->nullopts) switch (s->type) {
    case NSEV: n += snprintf(b+n, sizeof b-n, " %s filt=%d loc=%d niter=%u tol=%g Dsub=%u ds=%d cst=%d norm=%d rich=%u", s->o.v.discretization >= 0 && s->o.v.discretization < N_NSE ? nse_name(s->o.v.discretization) : "?", s->o.v.bound_state_filtering, s->o.v.bound_state_localization, (unsigned)s->o.v.niter, s->o.v.tol, (unsigned)s->o.v.Dsub, s->o.v.discspec_type, s->o.v.contspec_type, s->o.v.normalization_flag, (unsigned)s->o.v.richardson_extrapolation_flag); break;
    case NSEP: n += snprintf(b+n, sizeof b-n, " %s filt=%d loc=%d evals=%u tol=%g Dsub=%u norm=%d pps=%u range=%g,%g", s->o.p.discretization >= 0 && s->o.p.discretization < N_NSE ? nse_name(s->o.p.discretization) : "?", s->o.p.filtering, s->o.p.localization, (unsigned)s->o.p.max_evals, s->o.p.tol, (unsigned)s->o.p.Dsub, s->o.p.normalization_flag, (unsigned)s->o.p.points_per_spine, s->o.p.floquet_range[0], s->o.p.floquet_range[1]); break;
    case KDVV: n += snprintf(b+n, sizeof b-n, " %s loc=%d niter=%u ds=%d cst=%d norm=%d rich=%u gs=%g", s->o.k.discretization >= 0 && s->o.k.discretization < N_KDV ? kdv_name(s->o.k.discretization) : "?", s->o.k.bound_state_localization, (unsigned)s->o.k.niter, s->o.k.discspec_type, s->o.k.contspec_type, s->o.k.normalization_flag, (unsigned)s->o.k.richardson_extrapolation_flag, s->o.k.grid_spacing); break;
    case MANV: n += snprintf(b+n, sizeof b-n, " %s filt=%d loc=%d Dsub=%u cst=%d norm=%d rich=%u", s->o.m.discretization >= 0 && s->o.m.discretization < N_MAN ? manakov_name(s->o.m.discretization) : "?", s->o.m.bound_state_filtering, s->o.m.bound_state_localization, (unsigned)s->o.m.Dsub, s->o.m.contspec_type, s->o.m.normalization_flag, (unsigned)s->o.m.richardson_extrapolation_flag); break;
    case INV: n += snprintf(b+n, sizeof b-n, " disc=%d cst=%d method=%d ds=%d iter=%u osf=%u", s->o.i.discretization, s->o.i.contspec_type, s->o.i.contspec_inversion_method, s->o.i.discspec_type, (unsigned)s->o.i.max_iter, (unsigned)s->o.i.oversampling_factor); break;
    case INVXI: n += snprintf(b+n, sizeof b-n, " disc=%d", s->o.i.discretization); break;
    }
    return b;
}
/* arrays: in exact mode plain malloc of the documented size, else guarded */
#define G (scn_exact ? 0 : SCN_GUARD)
static const cplx CANARY = 7.25e77 - 3.5e66*_Complex_I;
static cplx *arr(size_t n) {
    cplx *p = malloc((n + 2*G)*sizeof *p + (n + 2*G == 0));
    if (!p) abort();
    for (size_t i = 0; i < (size_t)G; i++) { p[i] = CANARY; p[G+n+i] = CANARY; }
    memset(p + G, scn_fillbyte, n*sizeof *p);
    return p + G;
}
static int arr_ok(const cplx *p, size_t n) {
    p -= G;
    for (size_t i = 0; i < (size_t)G; i++) if (memcmp(&p[i], &CANARY, sizeof *p) || memcmp(&p[G+n+i], &CANARY, sizeof *p)) return 0;
    return 1;
}
static void arr_free(cplx *p) { free(p - G); }
static int all_fill(const cplx *p, size_t n) { const unsigned char *c = (const void*)p; for (size_t i = 0; i < n*sizeof *p; i++) if (c[i] != (unsigned char)scn_fillbyte) return 0; return 1; }

double scn_dist(const cplx *a, const cplx *b, size_t n) {
    double m = 0;
    for (size_t i = 0; i < n; i++) { double d = cabs(a[i]-b[i]); if (!(d <= m)) m = d; if (isnan(m)) return INFINITY; }
    return m;
}
int scn_same(const Res *a, const Res *b) { return a->hash == b->hash; }
static uint64_t bits(const cplx *p, size_t n, uint64_t h) {
    const double *d = (const double*)p;
    for (size_t i = 0; i < 2*n; i++) { double v = d[i]; if (isnan(v)) v = 777; h = mc_hash(&v, sizeof v, h); }
    return h;
}
static const cplx guesses[] = {0.9*_Complex_I, 0.3+0.4*_Complex_I, -0.6+1.3*_Complex_I, 0.2*_Complex_I, 0.1-0.5*_Complex_I, 2.1*_Complex_I};

void scn_run(const Scn *s0, Res *r) {
    Scn sc = *s0, *s = &sc;
    memset(r, 0, sizeof *r);
    size_t nq = (s->type == MANV ? 2 : 1)*(size_t)s->D;
    double T[2] = {Ts[s->ti][0], Ts[s->ti][1]}, XI[2] = {XIs[s->xi][0], XIs[s->xi][1]};
    cplx *q = arr(nq), *q0 = malloc(nq*sizeof *q + 1), *out[3] = {0}, *in[3] = {0};
    size_t len[3] = {0};
    FNFT_UINT K = s->K, Ma = s->Maux;
    FNFT_UINT Dp = s->D, Mp = s->M; int kappa = s->kappa;
    Scn before = sc;
    int is_inv = s->type == INV;
    if (!is_inv && s->type != INVXI) scn_signal(s, q);
    if (s->type == INV) {
        if (!s->noxi) fnft_nsev_inverse_XI(s->D, T, s->M, XI, s->o.i.discretization);
        /* seed for USE_SEED_POTENTIAL */
        if (s->o.i.contspec_inversion_method == 3 && !s->nullopts) gen_shape(s->D, s->sig%4, T, q);
    }
    memcpy(q0, q, nq*sizeof *q);
    if (s->type <= MANV) {
        if (s->cs) { len[0] = scn_cslen(s); out[0] = arr(len[0]); }
        if (s->bs) {
            len[1] = s->K; 
            if (s->type == NSEP && s->o.p.localization == fnft_nsep_loc_NEWTON && !s->nullopts) len[1] = (size_t)s->K*s->o.p.points_per_spine;
            out[1] = arr(len[1]);
            int guess = (s->type == NSEV && s->o.v.bound_state_localization == fnft_nsev_bsloc_NEWTON) || (s->type == NSEP && s->o.p.localization == fnft_nsep_loc_NEWTON) ||
                        (s->type == KDVV && s->o.k.bound_state_localization == fnft_kdvv_bsloc_NEWTON);
            if (s->nullopts) guess = 0;
            if (guess) for (size_t i = 0; i < len[1]; i++) out[1][i] = s->type == KDVV ? _Complex_I*(0.2+0.45*(i%5)) : guesses[i%NELEM(guesses)];
        }
        if (s->nc) { len[2] = nclen(s); out[2] = arr(len[2]); }
        if (s->type == NSEP && s->cs && s->o.p.localization == fnft_nsep_loc_NEWTON && !s->nullopts)
            for (size_t i = 0; i < len[0]; i++) out[0][i] = guesses[(i+2)%NELEM(guesses)];
    } else if (s->type == INV) {
        len[0] = s->D; out[0] = q;
        if (s->cs) { in[0] = arr(s->M); for (unsigned i = 0; i < s->M; i++) { double x = -1.5 + 3.0*i/s->M; in[0][i] = 0.45*exp(-2*x*x)*cexp(_Complex_I*(0.3+x)); if (s->sig%3 == 1) in[0][i] *= 0.1; if (s->sig%3 == 2) in[0][i] = 0; } }
        in[1] = arr(s->K); in[2] = arr(s->K);
        for (unsigned i = 0; i < s->K; i++) { in[1][i] = 0.3*(i%3) - 0.2 + _Complex_I*(0.4 + 0.35*i); in[2][i] = (i & 1 ? -0.7 : 1.2)*cexp(_Complex_I*0.5*i); }
    }
    cplx *in0[3] = {0}; size_t inl[3] = {is_inv && s->cs ? s->M : 0, s->K, s->K};
    for (int j = 0; j < 3; j++) if (in[j]) { in0[j] = malloc(inl[j]*sizeof(cplx)+1); memcpy(in0[j], in[j], inl[j]*sizeof(cplx)); }
    double T0[2] = {T[0],T[1]}, X0[2] = {XI[0],XI[1]};
    /* invalid arguments */
    const cplx *qp = q, *q2p = q + s->D; const double *Tp = T, *XIp = XI; cplx *o0 = out[0], *o1 = out[1], *o2 = out[2];
    FNFT_UINT *Kp = s->nok ? NULL : &K, *Map = s->nok ? NULL : &Ma;
    if (s->noxi) XIp = NULL;
    const cplx *ibs = s->K || s->bs ? in[1] : NULL, *inc = s->K || s->bs ? in[2] : NULL;
    cplx *qout = q; double *XIout = XI;
    unsigned invK = s->K, sheet[1] = {0}, *sheetp = NULL; (void)sheet; FNFT_REAL *shp = NULL; FNFT_REAL sh1[1] = {0}; (void)sheetp;
    for (int bi = 0; bi < 2; bi++) switch ((bi ? s->bad2 : s->bad) >= 35 && !scn_bad_kind(s, bi ? s->bad2 : s->bad) ? 0 : bi ? s->bad2 : s->bad) {
    case 0: break;
    case 1: Dp = 0; break;
    case 2: Dp = 1; break;
    case 3: qp = NULL; qout = NULL; break;
    case 4: Tp = NULL; break;
    case 5: T[0] = T0[1]; T[1] = T0[0]; break;
    case 6: T[1] = T[0]; break;
    case 7: kappa = 0; break;
    case 8: kappa = 2; break;
    case 9: kappa = -2; break;
    case 10: XIp = NULL; XIout = NULL; break;
    case 11: XI[0] = X0[1]; XI[1] = X0[0]; break;
    case 12: XI[1] = XI[0]; break;
    case 13: Kp = NULL; break;
    case 14: q2p = NULL; break;
    case 15: Map = NULL; break;
    case 16: if (s->type == NSEV) sc.o.v.discretization = 1000; if (s->type == NSEP) sc.o.p.discretization = 1000; if (s->type == KDVV) sc.o.k.discretization = 1000; if (s->type == MANV) sc.o.m.discretization = 1000; if (s->type >= INV) sc.o.i.discretization = 1000; break;
    case 17: if (s->type == NSEV) sc.o.v.contspec_type = 17; if (s->type == KDVV) sc.o.k.contspec_type = 17; if (s->type == MANV) sc.o.m.contspec_type = 17; if (s->type == INV) sc.o.i.contspec_type = 17; break;
    case 18: if (s->type == NSEV) sc.o.v.discspec_type = 17; if (s->type == KDVV) sc.o.k.discspec_type = 17; if (s->type == INV) sc.o.i.discspec_type = 17; break;
    case 19: if (s->type == NSEV) sc.o.v.bound_state_localization = 17; if (s->type == NSEP) sc.o.p.localization = 17; if (s->type == KDVV) sc.o.k.bound_state_localization = 17; if (s->type == INV) sc.o.i.contspec_inversion_method = 17; break;
    case 20: Dp = s->D - 1; break;  /* not a power of two */
    case 21: ibs = NULL; break;
    case 22: inc = NULL; break;
    case 23: if (s->type == INV) sc.o.i.discretization = fnft_nse_discretization_4SPLIT4A; break;
    case 24: if (s->type == KDVV) q[0] += 0.25*_Complex_I; break;
    case 25: if (s->type == KDVV && out[1] && len[1]) out[1][len[1]-1] = s->sig & 1 ? 0.1+0.5*_Complex_I : -0.5*_Complex_I; break;
    case 26: if (s->type == NSEV) sc.o.v.bounding_box[s->sig & 3] = NAN; break;
    case 27: kappa = -kappa; break;
    case 28: if (in[1] && s->K) in[1][s->K-1] = conj(in[1][s->K-1]); break;
    case 29: if (s->type == INV) Mp = s->M + 1; break;
    case 30: if (s->type == INV) Mp = s->D/2; break;
    case 31: if (in[1] && s->K > 1) in[1][s->K-1] = in[1][0]; break;
    case 32: shp = sh1; break;
    case 33: XI[0] = 0; XI[1] = 1; break;
    case 34: if (s->type == NSEV) sc.o.v.discretization = fnft_nse_discretization_CF4_3; if (s->type == MANV) sc.o.m.discretization = fnft_manakov_discretization_BO; break;
    case 35: if (s->type == INV) T[1] += 0.25*(T[1]-T[0]); break; /* not symmetric */
    case 36: if (s->type == INV) Dp = s->D/2; break;
    case 37: if (s->type == INV) sc.o.i.contspec_inversion_method = 1 + s->sig % 3; break;
    case 38: kappa = 1; break;
    }
    Scn mid = sc; memcpy(q0, q, nq*sizeof *q);
    for (int j = 0; j < 3; j++) if (in[j]) memcpy(in0[j], in[j], inl[j]*sizeof(cplx));
    double Tm[2] = {T[0],T[1]}, XIm[2] = {XI[0],XI[1]};
    cplx *po[3] = {0}; for (int j = 0; j < 3; j++) if (out[j]) { po[j] = malloc(len[j]*sizeof(cplx)+1); memcpy(po[j], out[j], len[j]*sizeof(cplx)); }
    mc_msg_reset(); int m0 = mc_msgs;
    long l0 = mc_live; mc_allocs = 0; mc_fail_at = scn_fail_at; mc_fail_from = scn_fail_from;
    switch (s->type) {
    case NSEV: r->rc = fnft_nsev(Dp, qp, Tp, Mp, o0, XIp, Kp, o1, o2, kappa, s->nullopts ? NULL : &sc.o.v); break;
    case NSEP: r->rc = fnft_nsep(Dp, qp, Tp, s->phase, Kp, o1, Map, o0, shp, kappa, s->nullopts ? NULL : &sc.o.p); break;
    case KDVV: r->rc = fnft_kdvv(Dp, qp, Tp, Mp, o0, XIp, Kp, o1, o2, s->nullopts ? NULL : &sc.o.k); break;
    case MANV: r->rc = fnft_manakovv(Dp, qp, q2p, Tp, Mp, o0, XIp, Kp, o1, o2, kappa, s->nullopts ? NULL : &sc.o.m); break;
    case INV: r->rc = fnft_nsev_inverse(Mp, in[0], XIp, s->K, ibs, inc, Dp, qout, Tp, kappa, s->nullopts ? NULL : &sc.o.i); break;
    case INVXI: r->rc = fnft_nsev_inverse_XI(Dp, Tp, Mp, XIout, sc.o.i.discretization); break;
    }
    mc_fail_at = mc_fail_from = 0;
    r->allocs = mc_allocs; r->leak = mc_live - l0; r->nmsg = mc_msgs - m0;
    snprintf(r->msg, sizeof r->msg, "%.590s", mc_lastmsg);
    r->K = K; r->Maux = Ma;
    /* purity */
    if (s->type < INV && memcmp(q, q0, nq*sizeof *q)) r->in_changed |= 1;
    if (memcmp(T, Tm, sizeof T)) r->in_changed |= 2;
    if (s->type != INVXI && memcmp(XI, XIm, sizeof XI)) r->in_changed |= 4;
    for (int j = 1; j < 3; j++) if (in[j] && memcmp(in[j], in0[j], inl[j]*sizeof(cplx))) r->in_changed |= 8;
    if (memcmp(&sc.o, &mid.o, sizeof sc.o)) r->opts_changed = 1;
    for (int j = 0; j < 3; j++) {
        if (out[j] && !arr_ok(out[j], j == 0 && is_inv ? nq : len[j])) r->guard_broken |= 1 << j;
        if (in[j] && !arr_ok(in[j], inl[j])) r->guard_broken |= 8 << j;
    }
    if (!arr_ok(q, nq)) r->guard_broken |= 64;
    r->untouched = 1;
    for (int j = 0; j < 3; j++) if (out[j] && memcmp(out[j], po[j], len[j]*sizeof(cplx))) r->untouched = 0;
    if (s->type == INVXI && memcmp(XI, XIm, sizeof XI)) r->untouched = 0;
    memcpy(r->XI, XI, sizeof XI);
    (void)before; (void)invK;
    /* hand the outputs over */
    uint64_t h = mc_hash(&r->rc, sizeof r->rc, 1);
    for (int j = 0; j < 3; j++) if (out[j]) {
        r->out[j] = malloc(len[j]*sizeof(cplx)+1); memcpy(r->out[j], out[j], len[j]*sizeof(cplx)); r->len[j] = len[j];
    }
    if (r->rc == 0) {
        if (s->type < INV) {
            if (s->bs && !s->nok) { h = mc_hash(&r->K, sizeof r->K, h); size_t n = r->K <= len[1] ? r->K : len[1]; h = bits(r->out[1], n, h);
                if (s->nc) { h = bits(r->out[2], n < len[2] ? n : len[2], h); if (nclen(s) == 2*(size_t)s->K && 2*n <= len[2]) h = bits(r->out[2]+n, n, h); } }
            if (s->cs) { size_t n = len[0]; if (s->type == NSEP) { h = mc_hash(&r->Maux, sizeof r->Maux, h); if (r->Maux < n) n = r->Maux; } h = bits(r->out[0], n, h); }
        } else if (s->type == INV) h = bits(r->out[0], len[0], h);
        else h = mc_hash(XI, sizeof XI, h);
    }
    r->hash = h;
    for (int j = 0; j < 3; j++) { if (out[j] && !(is_inv && j == 0)) arr_free(out[j]); if (in[j]) arr_free(in[j]); free(in0[j]); free(po[j]); }
    arr_free(q); free(q0);
}
void scn_free(Res *r) { for (int j = 0; j < 3; j++) free(r->out[j]); }

static int pos_max(const Scn *s) { cplx *q = malloc(2*s->D*sizeof *q); scn_signal(s, q); double p = 0; for (unsigned i = 0; i < s->D; i++) p += creal(q[i]); free(q); return p > 1e-6; /* resampling keeps the mean */ }
int scn_bad_kind(const Scn *s, int bad) {
    int vkm = s->type == NSEV || s->type == KDVV || s->type == MANV, no = s->nullopts;
    int foc = s->kappa == 1;
    switch (bad) {
    case 1: case 2: case 4: case 5: case 6: return 1;
    case 3: return s->type != INVXI;
    case 7: case 8: case 9: return s->type != KDVV && s->type != INVXI;
    case 10: return vkm ? s->cs : s->type == INV ? s->cs && (no || s->o.i.contspec_type != 2) : s->type == INVXI;
    case 11: case 12: return vkm && s->cs;
    case 13: return s->type == NSEP || (vkm && s->bs);
    case 14: return s->type == MANV;
    case 15: return s->type == NSEP;
    case 16: return no ? 0 : 2;
    case 17: return !no && (vkm || s->type == INV) && s->cs ? 2 : 0;
    case 18: return 0; /* needs bound states, see c07.c */
    case 19: return no ? 0 : s->type == NSEV ? (s->bs && s->K && foc ? 2 : 0) : s->type == KDVV ? (s->bs && s->K && pos_max(s) ? 2 : 0) : s->type == NSEP ? 2 : s->type == INV ? (s->cs && s->o.i.contspec_type != 1 ? 2 : 0) : 0;
    case 20: return s->type == NSEP || s->type == INV;
    case 21: case 22: return s->type == INV && s->K;
    case 23: return s->type == INV && !no ? 2 : 0;
    case 24: return s->type == KDVV;
    case 25: return s->type == KDVV && s->bs && s->K && !no && s->o.k.bound_state_localization == fnft_kdvv_bsloc_NEWTON;
    case 26: return s->type == NSEV && s->bs && foc && !no && s->o.v.bound_state_filtering == fnft_nsev_bsfilt_MANUAL ? 2 : 0;
    case 27: return s->type == INV && s->K && foc;
    case 28: return s->type == INV && s->K;
    case 29: return s->type == INV && s->cs;
    case 30: return s->type == INV && s->cs;
    case 31: return s->type == INV && s->K > 1 && foc ? 2 : 0;
    case 32: return s->type == NSEP;
    case 33: return s->type == KDVV && s->cs;
    case 34: return no || !s->bs || !foc ? 0 : s->type == NSEV ? (s->o.v.bound_state_localization != fnft_nsev_bsloc_NEWTON ? 2 : 0) : s->type == MANV ? (s->o.m.bound_state_localization != fnft_manakovv_bsloc_NEWTON ? 2 : 0) : 0;
    case 35: return s->type == INV && s->cs && !no && s->o.i.contspec_type == fnft_nsev_inverse_cstype_B_OF_TAU ? 2 : 0;
    case 36: return s->type == INV && s->cs && !no && s->D >= 4 && (s->o.i.contspec_type == fnft_nsev_inverse_cstype_B_OF_TAU ||
                 (s->o.i.contspec_type == fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT && s->o.i.contspec_inversion_method == fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER)) && s->M == s->D ? 2 : 0;
    case 37: return s->type == INV && s->cs && !no && s->o.i.contspec_type == fnft_nsev_inverse_cstype_B_OF_TAU ? 2 : 0;
    case 38: return s->type == INV && s->cs && !s->K && !no && s->kappa == -1 && s->o.i.contspec_type == fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT && s->o.i.contspec_inversion_method == fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER ? 2 : 0;
    }
    return 0;
}
/* ---------------------------------------------------------------- lattice */
static const struct { int cs, bs, nc; } OUTS[] = {{1,0,0},{0,1,0},{0,1,1},{1,1,1},{1,1,0},{0,0,0}};
static unsigned rot;
static unsigned pick(unsigned n) { rot = rot*1664525u + 1013904223u; return (rot >> 16) % n; }

static void each_nsev(int lv, void (*cb)(const Scn *)) {
    static const unsigned D0[] = {8}, D1[] = {2,3,5,8}, D2[] = {2,3,4,5,6,7,8,13,16};
    const unsigned *Ds = lv == 0 ? D0 : lv == 1 ? D1 : D2; unsigned nD = lv == 0 ? 1 : lv == 1 ? NELEM(D1) : NELEM(D2);
    for (unsigned di = 0; di < nD; di++) for (int d = 0; d < N_NSE; d++) for (int loc = 0; loc < 3; loc++) for (int fi = 0; fi < 4; fi++)
    for (int ds = 0; ds < 3; ds++) for (int cst = 0; cst < 3; cst++) for (int ri = 0; ri < 2; ri++) for (unsigned ou = 0; ou < NELEM(OUTS); ou++) {
        int heavy = r_from_nse(d) >= R_5A && r_from_nse(d) <= R_8B && r_from_nse(d) != R_6B;
        if (lv == 0 && (heavy || ou != 3 || fi != 1 || cst != (d+ds)%3)) continue;
        if (heavy && Ds[di] > 5 && loc != 1) continue; /* very high polynomial degrees: eigenvalue runs on short signals only */
        if (ou == 0 && (loc || fi || ds)) continue;
        if (ou == 5 && (loc || fi || ds || cst)) continue;
        if (!OUTS[ou].cs && cst) continue;
        if (!OUTS[ou].nc && ds) continue;
        for (int kap = 1; kap >= -1; kap -= 2) {
            if (kap == -1 && OUTS[ou].bs && fi) continue;
            rot = (((di*31+d)*7+loc)*5+fi)*97 + ds*11 + cst*3 + ri + ou*1001 + kap;
            Scn s; memset(&s, 0, sizeof s);
            s.type = NSEV; s.D = Ds[di]; s.kappa = kap; s.cs = OUTS[ou].cs; s.bs = OUTS[ou].bs; s.nc = OUTS[ou].nc;
            s.sig = pick(6); s.ti = pick(4); s.xi = pick(3); s.M = 2 + pick(4);
            if (!s.cs) { s.noxi = pick(2); if (pick(2)) s.M = 0; }
            s.o.v = fnft_nsev_default_opts();
            s.o.v.discretization = d; s.o.v.bound_state_localization = loc; s.o.v.bound_state_filtering = fi;
            s.o.v.discspec_type = ds; s.o.v.contspec_type = cst; s.o.v.richardson_extrapolation_flag = ri;
            s.o.v.normalization_flag = pick(2); s.o.v.niter = (unsigned[]){10,0,1,40}[pick(4)]; s.o.v.tol = (double[]){-1,1e-8,0}[pick(3)];
            s.o.v.Dsub = (unsigned[]){0,2,0,s.D,3}[pick(5)];
            s.o.v.bounding_box[0] = -2; s.o.v.bounding_box[1] = 2; s.o.v.bounding_box[2] = pick(2) ? 0 : -1; s.o.v.bounding_box[3] = 3;
            if (!s.bs) s.nok = pick(2);
            if (s.bs) {
                unsigned mk = fnft_nsev_max_K(s.D, &s.o.v);
                if (loc == 1) s.K = (unsigned[]){0,1,3,5}[pick(4)];
                else s.K = (unsigned[]){mk,mk,mk,mk,1,0,2}[pick(lv == 0 ? 1 : 7)];
                if (lv == 0 && loc == 1) s.K = 3;
            }
            cb(&s);
        }
    }
}
static void each_nsep(int lv, void (*cb)(const Scn *)) {
    static const unsigned D0[] = {8}, D1[] = {2,4,8}, D2[] = {2,4,8,16};
    const unsigned *Ds = lv == 0 ? D0 : lv == 1 ? D1 : D2; unsigned nD = lv == 0 ? 1 : lv == 1 ? NELEM(D1) : NELEM(D2);
    for (unsigned di = 0; di < nD; di++) for (int d = 0; d < N_NSE; d++) for (int loc = 0; loc < 4; loc++) for (int fi = 0; fi < 3; fi++)
    for (int ou = 1; ou < 4; ou++) for (int pps = 1; pps < 4; pps++) for (int kap = 1; kap >= -1; kap -= 2) for (int ph = 0; ph < 2; ph++) {
        int heavy = r_from_nse(d) >= R_5A && r_from_nse(d) <= R_8B && r_from_nse(d) != R_6B;
        if (lv == 0 && (heavy || ou != 3 || fi != 2 || pps != 2 || ph)) continue;
        if (heavy && Ds[di] > 4) continue;
        if (lv < 2 && ph && pps == 1) continue;
        rot = (((di*31+d)*7+loc)*5+fi)*97 + ou*11 + pps*3 + ph + kap;
        Scn s; memset(&s, 0, sizeof s);
        s.type = NSEP; s.D = Ds[di]; s.kappa = kap; s.bs = ou & 1; s.cs = ou >> 1; s.phase = ph ? 0.7 : 0;
        s.sig = pick(6); s.ti = pick(4);
        s.o.p = fnft_nsep_default_opts();
        s.o.p.discretization = d; s.o.p.localization = loc; s.o.p.filtering = fi; s.o.p.points_per_spine = pps;
        s.o.p.floquet_range[0] = -1; s.o.p.floquet_range[1] = (double[]){1,0.5,-1}[pick(3)];
        s.o.p.normalization_flag = pick(2); s.o.p.max_evals = (unsigned[]){20,1,5}[pick(3)]; s.o.p.tol = pick(2) ? -1 : 1e-8;
        s.o.p.Dsub = (unsigned[]){0,2,s.D,4}[pick(4)];
        if (fi == 1 || loc == 2 || loc == 3) { if (fi == 1) { s.o.p.bounding_box[0] = -3; s.o.p.bounding_box[1] = 3; s.o.p.bounding_box[2] = -4; s.o.p.bounding_box[3] = 4; } }
        s.K = s.bs ? (unsigned[]){60,60,1,0,3}[pick(lv == 0 ? 1 : 5)] : 0;
        s.Maux = s.cs ? (unsigned[]){60,60,1,0,2}[pick(lv == 0 ? 1 : 5)] : 0;
        if (loc == 1) { s.K = s.bs ? 2 : 0; s.Maux = s.cs ? 2 : 0; }
        cb(&s);
    }
}
static void each_kdvv(int lv, void (*cb)(const Scn *)) {
    static const unsigned D0[] = {8}, D1[] = {2,3,5,8}, D2[] = {2,3,4,5,6,7,8,13,16};
    const unsigned *Ds = lv == 0 ? D0 : lv == 1 ? D1 : D2; unsigned nD = lv == 0 ? 1 : lv == 1 ? NELEM(D1) : NELEM(D2);
    for (unsigned di = 0; di < nD; di++) for (int d = 0; d < N_KDV; d++) for (int loc = 0; loc < 2; loc++)
    for (int ds = 0; ds < 3; ds++) for (int cst = 0; cst < 3; cst++) for (int ri = 0; ri < 2; ri++) for (unsigned ou = 0; ou < NELEM(OUTS); ou++) {
        if (lv == 0 && (ou != 3 || cst != (d+ds)%3 || (d%28 >= 8 && d%28 < 20))) continue;
        if (!OUTS[ou].bs && (loc || ds)) continue;
        if (!OUTS[ou].cs && cst) continue;
        if (!OUTS[ou].nc && ds) continue;
        rot = ((di*31+d)*7+loc)*97 + ds*11 + cst*3 + ri + ou*1001;
        Scn s; memset(&s, 0, sizeof s);
        s.type = KDVV; s.D = Ds[di]; s.kappa = 1; s.cs = OUTS[ou].cs; s.bs = OUTS[ou].bs; s.nc = OUTS[ou].nc;
        s.sig = pick(6); s.ti = pick(4); s.xi = pick(3); s.M = 2 + pick(4); if (s.xi == 0 && s.M == 2) s.M = 3;
        if (!s.cs) { s.noxi = pick(2); if (pick(2)) s.M = 0; }
        s.o.k = fnft_kdvv_default_opts();
        s.o.k.discretization = d; s.o.k.bound_state_localization = loc; s.o.k.discspec_type = ds; s.o.k.contspec_type = cst;
        s.o.k.richardson_extrapolation_flag = ri; s.o.k.normalization_flag = pick(2); s.o.k.niter = (unsigned[]){10,0,1,30}[pick(4)];
        s.o.k.grid_spacing = (double[]){0.1,0.03,0.4}[pick(3)];
        if (!s.bs) s.nok = pick(2);
        if (s.bs) s.K = loc == 0 ? (unsigned[]){3,0,1,5}[pick(lv == 0 ? 1 : 4)] : (unsigned[]){20,20,1,0,2}[pick(lv == 0 ? 1 : 5)];
        cb(&s);
    }
}
static void each_manv(int lv, void (*cb)(const Scn *)) {
    static const unsigned D0[] = {8}, D1[] = {2,3,4,7,8}, D2[] = {2,3,4,5,6,7,8,11,16};
    const unsigned *Ds = lv == 0 ? D0 : lv == 1 ? D1 : D2; unsigned nD = lv == 0 ? 1 : lv == 1 ? NELEM(D1) : NELEM(D2);
    for (unsigned di = 0; di < nD; di++) for (int d = 0; d < N_MAN; d++) for (int loc = 0; loc < 3; loc++) for (int fi = 0; fi < 3; fi++)
    for (int cst = 0; cst < 3; cst++) for (int ri = 0; ri < 2; ri++) for (int kap = 1; kap >= -1; kap -= 2) for (unsigned ou = 0; ou < NELEM(OUTS); ou++) {
        if (OUTS[ou].nc) continue;
        if (lv == 0 && (ou != 4 || cst != d%3 || fi != 2)) continue;
        if (!OUTS[ou].bs && (loc || fi)) continue;
        if (!OUTS[ou].cs && cst) continue;
        rot = (((di*31+d)*7+loc)*5+fi)*97 + cst*3 + ri + ou*1001 + kap;
        Scn s; memset(&s, 0, sizeof s);
        s.type = MANV; s.D = Ds[di]; s.kappa = kap; s.cs = OUTS[ou].cs; s.bs = OUTS[ou].bs;
        s.sig = pick(6); s.ti = pick(4); s.xi = pick(3); s.M = 2 + pick(4);
        if (!s.cs) { s.noxi = pick(2); if (pick(2)) s.M = 0; }
        s.o.m = fnft_manakovv_default_opts();
        s.o.m.discretization = d; s.o.m.bound_state_localization = loc; s.o.m.bound_state_filtering = fi; s.o.m.contspec_type = cst;
        s.o.m.richardson_extrapolation_flag = ri; s.o.m.normalization_flag = pick(2);
        s.o.m.Dsub = (unsigned[]){0,2,s.D,0,4}[pick(5)];
        if (!s.bs) s.nok = pick(2);
        if (s.bs) { unsigned mk = fnft_manakovv_max_K(s.D, &s.o.m); s.K = (unsigned[]){mk,mk,mk,mk,0,1,3}[pick(lv == 0 ? 1 : 7)]; }
        cb(&s);
    }
}
static void each_inv(int lv, void (*cb)(const Scn *)) {
    static const unsigned D0[] = {8}, D1[] = {2,4,8}, D2[] = {2,4,8,16,32};
    const unsigned *Ds = lv == 0 ? D0 : lv == 1 ? D1 : D2; unsigned nD = lv == 0 ? 1 : lv == 1 ? NELEM(D1) : NELEM(D2);
    static const int discs[] = {fnft_nse_discretization_2SPLIT2A, fnft_nse_discretization_2SPLIT2_MODAL, fnft_nse_discretization_2SPLIT4B};
    for (unsigned di = 0; di < nD; di++) for (unsigned d = 0; d < 3; d++) for (int cst = 0; cst < 3; cst++) for (int me = 0; me < 4; me++)
    for (int ds = 0; ds < 2; ds++) for (unsigned K = 0; K < 4; K++) for (int cs = 0; cs < 2; cs++) for (int mm = 0; mm < 3; mm++) for (int kap = 1; kap >= -1; kap -= 2) {
        if (d == 2 && (cst || ds || K > 1)) continue;
        if (lv == 0 && (d == 2 || mm == 2)) continue;
        rot = (((di*31+d)*7+cst)*5+me)*97 + ds*11 + K*3 + cs + mm*1001 + kap;
        Scn s; memset(&s, 0, sizeof s);
        s.type = INV; s.D = Ds[di]; s.kappa = kap; s.cs = cs; s.K = K; s.M = s.D << mm; s.sig = pick(6); s.ti = (int[]){0,3,1,2}[pick(4)];
        if (cst == 2) s.ti = pick(2) ? 0 : 3;
        s.o.i = fnft_nsev_inverse_default_opts();
        s.o.i.discretization = discs[d]; s.o.i.contspec_type = cst; s.o.i.contspec_inversion_method = me; s.o.i.discspec_type = ds;
        s.o.i.max_iter = (unsigned[]){100,1,5}[pick(3)]; s.o.i.oversampling_factor = (unsigned[]){8,1,2}[pick(3)];
        if (!cs) { s.noxi = pick(2); if (pick(2)) s.M = 0; }
        cb(&s);
        if (!K && me == 0 && !ds) { s.type = INVXI; s.noxi = 0; cb(&s); }
    }
}
/* calls without options */
void scn_each_null(int lv, void (*cb)(const Scn *)) {
    for (int t = 0; t < INVXI; t++) for (unsigned D = 2; D <= (lv ? 16 : 8); D *= 2) for (unsigned ou = 0; ou < NELEM(OUTS); ou++) for (int kap = 1; kap >= -1; kap -= 2) for (int sig = 0; sig < 6; sig++) {
        if (lv == 0 && (D != 8 || sig)) continue;
        if ((t == MANV || t == NSEP) && OUTS[ou].nc) continue;
        if (t == NSEP && !OUTS[ou].bs && !OUTS[ou].cs) continue;
        if (t == KDVV && kap == -1) continue;
        Scn s; memset(&s, 0, sizeof s);
        s.type = t; s.D = D; s.M = 4; s.K = t == INV ? 2*(OUTS[ou].bs) : 300; s.Maux = 60; s.kappa = kap; s.sig = sig; s.cs = OUTS[ou].cs; s.bs = OUTS[ou].bs; s.nc = OUTS[ou].nc; s.nullopts = 1;
        if (t == INV) s.M = 2*D;
        s.xi = 1;
        s.o.i.discretization = 0;
        switch (t) { case NSEV: s.o.v = fnft_nsev_default_opts(); break; case NSEP: s.o.p = fnft_nsep_default_opts(); break; case KDVV: s.o.k = fnft_kdvv_default_opts(); break; case MANV: s.o.m = fnft_manakovv_default_opts(); break; default: s.o.i = fnft_nsev_inverse_default_opts(); }
        cb(&s);
    }
}
static unsigned typemask_; static void (*cb_)(const Scn *);
static void filt(const Scn *s) { if (typemask_ >> s->type & 1) cb_(s); }
void scn_each(int lv, unsigned tm, void (*cb)(const Scn *)) {
    typemask_ = tm; cb_ = cb;
    scn_each_null(lv, filt);
    if (tm & 1u<<INV || tm & 1u<<INVXI) each_inv(lv, filt);
    if (tm & 1u<<MANV) each_manv(lv, filt);
    if (tm & 1u<<KDVV) each_kdvv(lv, filt);
    if (tm & 1u<<NSEP) each_nsep(lv, filt);
    if (tm & 1u<<NSEV) each_nsev(lv, filt);
}
