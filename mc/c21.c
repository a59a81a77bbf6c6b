/* Manakov bound states against the roots of the polynomial scattering coefficient of the long double reference */
#include "ref.h"
#include "gen.h"
#include <stdarg.h>
#define LI ((lcplx)_Complex_I)
#include "sp_poly.h"
const char *mc_rule = "one case = one two-component signal x discretization x filter x subsampling x capacity; the list returned without continuous spectrum is compared with all roots of the polynomial a of the subsampled signal (coefficients interpolated from the long double reference, roots in long double precision) filtered by the reference; then the same list must be returned bit for bit with every kind of continuous spectrum, extrapolation, normalization and norming constant array; smooth signals: the number of zeros is counted by the argument principle; distinct = hash of the list";
#define NUM(z) (double)creall(z), (double)cimagl(z)
static int nop(const char *f, ...) { return 0; }
enum { NONE, BASIC, FULL };
static const char *fname[] = {"NONE", "BASIC", "FULL"};
#define MAXK 2000
typedef struct { int d, filt, cs, M, rich, nf, nc; unsigned Dsub; } Cfg;
static int run(const Cfg *c, unsigned D, cplx *q1, cplx *q2, const double *T, int kappa, cplx *bs, size_t *K) {
    static const int fl[] = {fnft_manakovv_bsfilt_NONE, fnft_manakovv_bsfilt_BASIC, fnft_manakovv_bsfilt_FULL}, ct[] = {fnft_manakovv_cstype_REFLECTION_COEFFICIENT, fnft_manakovv_cstype_AB, fnft_manakovv_cstype_BOTH};
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); double XI[2] = {-1.3,1}; cplx con[64]; static cplx nc[2*MAXK];
    o.discretization = c->d; o.bound_state_localization = fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE; o.bound_state_filtering = fl[c->filt]; o.Dsub = c->Dsub;
    o.contspec_type = ct[c->cs]; o.richardson_extrapolation_flag = c->rich; o.normalization_flag = c->nf;
    return fnft_manakovv(D, q1, q2, T, c->M, c->M ? con : NULL, XI, K, bs, c->nc ? nc : NULL, kappa, &o);
}
static unsigned upsf(int d) { return fnft__manakov_discretization_upsampling_factor(d); }
static unsigned dgf(int d) { char t; rscheme s = sp_scheme('M', d, &t); return r_is_fast(s) ? (unsigned)fnft__manakov_discretization_degree(d)*upsf(d) : 0; }
static lreal perf(int d, lreal eps) { return strstr(manakov_name(d), "uzuki") || strstr(manakov_name(d), "UZUKI") ? eps/3 : 2*eps/dgf(d); }
static void check(Cfg *c, unsigned D, cplx *q1, cplx *q2, const double *T, int K0) {
    static cplx bs[MAXK], b2[MAXK]; size_t K = K0, K2; char ty; rscheme s = sp_scheme('M', c->d, &ty);
    for (int i = 0; i < MAXK; i++) bs[i] = NAN;
    int rc = run(c, D, q1, q2, T, 1, bs, &K);
    unsigned want = c->Dsub ? c->Dsub : (unsigned)(sqrt(D)*log2(D)); if (want > D) want = D;
    if (want < 2) want = 2;
    unsigned ns = lround((double)D/want), Ds = lround((double)D/ns); if (Ds < 2) Ds = 2; ns = lround((double)D/Ds); Ds = lround((double)D/ns);
    lreal es = ((lreal)T[1]-T[0])/(D-1)*ns;
    if (rc) { if (Ds > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }   /* two samples cannot be interpolated */
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    Prob p = {.type='M', .kappa=1, .s=s, .D=Ds, .Dfull=D, .nskip=ns, .eps=es, .q1=q1, .q2=q2}; r_prepare(&p);
    static Root rt[SP_MAXDEG]; static lcplx co[SP_MAXDEG+1]; unsigned deg = dgf(c->d)*Ds, n; if (deg >= SP_MAXDEG) { r_free(&p); return; }
    lreal per = perf(c->d, es); double gr = sp_poly(&p, deg, per, 0, 0, co); r_free(&p);
    n = sp_poly_roots(deg, co, per, gr, rt);
    char *hit = calloc(n+1, 1); unsigned unc = 0; for (unsigned i = 0; i < n; i++) unc += rt[i].unclear;
    int suz = !strcmp(manakov_name(c->d), "FTES4_suzuki"), lost = (c->filt == NONE || suz) && n < deg;   /* rounding errors instead of vanishing leading coefficients (FTES4_suzuki also: trailing ones) */
    for (size_t k = 0; k < K; k++) {
        double best = INFINITY; unsigned m = 0;
        if (lost && cimag(bs[k]) < 0) continue;
        if (c->filt != NONE && !(cimag(bs[k]) > 0)) { mc_fail("filter", "bound state %zu = %.12g%+.12gi does not satisfy filter %s", k, NUM(bs[k]), fname[c->filt]); goto end; }
        if (!(cabs(bs[k]) < INFINITY)) { if (c->filt != NONE) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi", k, NUM(bs[k])); goto end; } continue; }
        for (unsigned i = 0; i < n; i++) { double e = cabsl(rt[i].lam-bs[k]); if (e < best) { best = e; m = i; } }
        if (n && rt[m].unclear) { mc_count("ill-conditioned zeros skipped", 1); continue; }
        if (best > 0.01 && unc) { mc_count("ill-conditioned zeros skipped", 1); continue; }
        if (lost && suz && best > 0.01) { mc_count("rounding errors instead of coefficients", 1); continue; }
        double tol = n ? rt[m].tol : 0; mc_max("distance to zero", best/tol);
        if (!(best <= tol)) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi is %.3g away from the nearest zero %.12g%+.12gi (accuracy %.3g)", k, NUM(bs[k]), best, NUM(rt[m].lam), tol); goto end; }
        if (hit[m]) { mc_fail("distinct", "zero %.12g%+.12gi reported twice", NUM(rt[m].lam)); goto end; }
        hit[m] = 1; mc_count("zeros reported", 1);
    }
    if (K < (size_t)K0) for (unsigned i = 0; i < n; i++) if (!hit[i] && !rt[i].unclear && !(lost && cimagl(rt[i].lam) < 1e-6L) && (c->filt == NONE || cimagl(rt[i].lam) > rt[i].tol + 1e-9L)) { mc_fail("complete", "zero %.12g%+.12gi not reported (%zu reported)", NUM(rt[i].lam), K); goto end; }
    if (c->filt != NONE) for (size_t i = 0; i < K; i++) for (size_t j = 0; j < i; j++) if (cabs(bs[i]-bs[j]) < 1e-8) { mc_fail("distinct", "%zu and %zu coincide: %.15g%+.15gi", j, i, NUM(bs[i])); goto end; }
    /* other outputs and options that do not concern the bound states */
    for (int v = 0; v < 4; v++) {
        Cfg x = *c; x.cs = v%3; x.M = v ? 3 + v : 0; x.rich = (v == 2 || v == 3) && D > (sp_resamples(s) ? 5u : 2u); x.nf = !(v&1); x.nc = v != 1; K2 = K0; for (int i = 0; i < MAXK; i++) b2[i] = NAN;
        rc = run(&x, D, q1, q2, T, 1, b2, &K2);
        if (rc) { mc_fail("other outputs", "returned %d with continuous spectrum (variant %d)", rc, v); break; }
        int same = K2 == K; for (size_t i = 0; i < K && same; i++) same = !memcmp(&bs[i], &b2[i], sizeof *bs);
        /* the polynomial may be scaled by a power of two */
        if (!same && K2 == K) { same = 1; for (size_t i = 0; i < K && same; i++) { double e = INFINITY; int uncl = 0; for (size_t j = 0; j < K; j++) e = fmin(e, cabs(bs[i]-b2[j])); 
            for (unsigned r = 0; r < n; r++) if (cabsl(rt[r].lam-bs[i]) < 1e-2L && rt[r].unclear) uncl = 1;
            same = e <= 1e-7 || uncl || lost; } }
        if (!same) { mc_fail("other outputs", "%zu bound states alone, %zu with variant %d, or different values", K, K2, v); break; }
    }
end: free(hit);
}
static int count(const Prob *p, const double *T, const double *b) {
    lreal tot = 0, mn = INFINITY; int N = 600; lcplx prev = 0, co[5] = {b[0]+LI*b[2], b[1]+LI*b[2], b[1]+LI*b[3], b[0]+LI*b[3], b[0]+LI*b[2]};
    for (int e = 0; e < 4; e++) for (int k = 0; k < N; k++) { lcplx v = sp_a(p, T, co[e]+(co[e+1]-co[e])*k/N); if (prev != 0) { lreal dp = cargl(v/prev); if (fabsl(dp) > 1) return -1; tot += dp; } mn = fminl(mn, cabsl(v)); prev = v; }
    lcplx v = sp_a(p, T, co[0]); tot += cargl(v/prev); if (mn < 1e-3L) return -1;
    return lroundl(tot/(2*acosl(-1)));
}
static void shape(int d, unsigned D, unsigned Dsub, double A, double sh, double V) {
    static cplx q1[256], q2[256]; double T[2] = {-9+sh, 9+sh}; static cplx bs[MAXK]; size_t K = MAXK; char ty; rscheme s = sp_scheme('M', d, &ty);
    for (unsigned i = 0; i < D; i++) { double t = T[0] + (T[1]-T[0])*i/(D-1); q1[i] = 0.6*A/cosh(t-sh)*cexp(I*V*t); q2[i] = 0.8*I*A/cosh(t-sh)*cexp(I*V*t); }
    Cfg c = {.d=d, .filt=BASIC, .Dsub=Dsub, .M=4};
    int rc = run(&c, D, q1, q2, T, 1, bs, &K); if (rc) { mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    unsigned ns = lround((double)D/Dsub), Ds = lround((double)D/ns); lreal es = ((lreal)T[1]-T[0])/(D-1)*ns;
    double Te[2] = {T[0], T[0]+es*(Ds-1)}, box[4] = {-0.9-V/2, 0.9-V/2, 0.15, 6};
    Prob p = {.type='M', .kappa=1, .s=s, .D=Ds, .Dfull=D, .nskip=ns, .eps=es, .q1=q1, .q2=q2}; r_prepare(&p);
    int n = count(&p, Te, box), m = 0; if (n < 0) { mc_count("count not clear", 1); goto end; }
    mc_count("zeros counted by the argument principle", n);
    for (size_t k = 0; k < K; k++) if (creal(bs[k]) > box[0] && creal(bs[k]) < box[1] && cimag(bs[k]) > box[2] && cimag(bs[k]) < box[3]) {
        lcplx x = bs[k]; double e = cabsl(sp_a(&p, Te, x)/sp_da(&p, Te, x)), tol = 1e-7; mc_max("smooth signals: distance to zero", e/tol); m++;
        if (!(e <= tol)) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi is about %.3g away from a zero", k, NUM(x), e); goto end; }
    }
    if (m != n) mc_fail("complete", "%d bound states in the box, a has %d zeros there", m, n);
end: r_free(&p);
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}};
    cplx q1[256], q2[256]; fnft_errwarn_setprintf((void*)nop);
    for (int d = 0; d < N_MAN; d++) for (unsigned D = 3; D <= 12; D += 3) if (dgf(d) && strcmp(manakov_name(d), "FTES4_4B") && mc_begin("zero signal: %s D=%u", manakov_name(d), D)) {
        static cplx bs[MAXK]; size_t K = MAXK; Cfg cf = {.d=d, .filt=BASIC, .Dsub=D}; memset(q1, 0, sizeof q1); memset(q2, 0, sizeof q2);
        int rc = run(&cf, D, q1, q2, Ts[0], 1, bs, &K); mc_outcome(d*100+D);
        if (rc) mc_fail("status", "returned %d", rc); else if (K) mc_fail("genuine", "%zu bound states reported, the first is %.6g%+.6gi", K, NUM(bs[0]));
    }
    for (int d = 0; d < N_MAN; d++) {
        unsigned dg = dgf(d); if (!dg || !strcmp(manakov_name(d), "FTES4_4B")) continue;   /* FTES4_4B is announced but not implemented */
        for (unsigned D = 2; D <= (mc_thorough ? 5u : 4u); D++) for (uint64_t c = 1; c < gen_count(2*D, 4); c++) for (int f = 0; f < 3; f++) {
            if (dg*D > 72u && !mc_thorough) continue;
            if (!mc_thorough) { if (D == 4 ? (c*7+d+f)%257 : D == 3 ? (c*5+d+f)%29 : (c+d+f)%2) continue; }
            else if (D == 5 ? (c*7+d+f)%1021 : D == 4 ? (c*5+d+f)%31 : 0) continue;
            uint64_t h = gen_count(D, 4); gen_signal(D, 4, c%h, q1); gen_signal(D, 4, c/h, q2); for (unsigned i = 0; i < D; i++) q2[i] *= 0.7-0.3*I;
            const double *T = Ts[(c+f)%3];
            for (unsigned ds = 1; ds <= D; ds++) {
                if (ds < D && ds < (D+1)/2) continue;
                Cfg cf = {.d=d, .filt=f, .Dsub=ds};
                if (mc_begin("word: %s D=%u Dsub=%u code=%llu filter=%s", manakov_name(d), D, ds, (unsigned long long)c, fname[f])) check(&cf, D, q1, q2, T, c%5 ? MAXK : c%3 ? dg*D : 1 + c%4);
            }
            if (f == 1 && mc_begin("defocusing: %s D=%u code=%llu", manakov_name(d), D, (unsigned long long)c)) {
                Cfg cf = {.d=d, .filt=f, .Dsub=D, .M = c%2 ? 4 : 0}; cplx bs[64]; size_t K = 40; char ty; rscheme s = sp_scheme('M', d, &ty);
                int rc = run(&cf, D, q1, q2, T, -1, bs, &K);
                if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); } else if (K) mc_fail("defocusing", "%zu bound states reported", K);
                mc_outcome(1);
            }
        }
        for (unsigned D = 6; D <= (mc_thorough ? 33u : 17u); D += mc_thorough ? 1 : 3) for (int sh = 0; sh < GEN_SHAPES; sh++) for (int f = 1; f < 3; f++) {
            if (dg*D > (mc_thorough ? 460u : 140u)) continue;
            const double *T = Ts[(D+f)%3]; gen_shape(D, sh, T, q1); gen_shape(D, (sh+1)%GEN_SHAPES, T, q2); for (unsigned i = 0; i < D; i++) q1[i] *= 1.5, q2[i] *= -0.8*I;
            for (int k = 0; k < 4; k++) {
                Cfg cf = {.d=d, .filt=f, .Dsub = k == 0 ? D : k == 1 ? D/2 : k == 2 ? D/3+1 : 0};
                if (mc_begin("shape: %s D=%u Dsub=%u shape=%d filter=%s", manakov_name(d), D, cf.Dsub, sh, fname[f])) check(&cf, D, q1, q2, T, MAXK);
            }
        }
        for (unsigned D = 48; D <= (mc_thorough ? 144u : 80u); D += 32) for (int a = 0; a < 3; a++) for (int v = 0; v < 2; v++) {
            static const double A[] = {0.3, 1.2, 2.3};
            if (dg > (mc_thorough ? 16u : 8u)) continue;
            if (!mc_begin("pulse: %s D=%u A=%g v=%d", manakov_name(d), D, A[a], v)) continue;
            shape(d, D, v ? D/2 : D, A[a], v*1.5-0.4, v*0.6);
        }
    }
}
