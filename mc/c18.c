/* NSE bound states against the zeros of the long double reference */
#include "ref.h"
#include "gen.h"
#include <stdarg.h>
#define LI ((lcplx)_Complex_I)
#include "sp_poly.h"
const char *mc_rule = "one case = one signal x discretization x localization x filter (x list of initial guesses, number of iterations, tolerance); every reported bound state is compared with the zeros of the reference: all roots of the polynomial scattering coefficient for the eigenvalue method, the end points of the reference Newton iteration for the other methods; missing, additional, repeated and filtered ones are distinguished; distinct = hash of the lists";
#define NUM(z) (double)creall(z), (double)cimagl(z)
static int warned; static int wprintf_(const char *f, ...) { va_list ap; char b[400]; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (strstr(b, "above tolerance")) warned = 1; return 0; }
enum { NONE, BASIC, FULL, MANUAL };
static const char *fname[] = {"NONE", "BASIC", "FULL", "MANUAL"};
#define MAXK 2000
typedef struct { int d, loc, filt; unsigned niter, Dsub; double tol; double box[4]; } Cfg;
static int run(const Cfg *c, unsigned D, cplx *q, const double *T, int kappa, cplx *bs, size_t *K) {
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); double XI[2] = {-1,1};
    static const int fl[] = {fnft_nsev_bsfilt_NONE, fnft_nsev_bsfilt_BASIC, fnft_nsev_bsfilt_FULL, fnft_nsev_bsfilt_MANUAL};
    o.discretization = c->d; o.bound_state_localization = c->loc; o.bound_state_filtering = fl[c->filt]; o.niter = c->niter; o.Dsub = c->Dsub; o.tol = c->tol;
    if (c->tol > 1e-9) o.normalization_flag = 0;   /* otherwise |a| <= tol refers to a scaled a */
    if (c->filt == MANUAL) memcpy(o.bounding_box, c->box, sizeof c->box);
    warned = 0; fnft_errwarn_setprintf((void*)wprintf_);
    return fnft_nsev(D, q, T, 0, NULL, XI, K, bs, NULL, kappa, &o);
}
/* region of a filter; returns the signed distance to its border (positive inside), slack = width of the zone not judged */
typedef struct { double b[4], slack[4]; } Box;
static Box region(const Cfg *c, unsigned D, const cplx *q, lreal eps, rscheme s) {
    Box b = {{-INFINITY, INFINITY, 0, INFINITY}, {1e-9, 1e-9, 1e-9, 1e-9}};
    if (c->filt == NONE) b.b[2] = -INFINITY;
    if (c->filt == MANUAL) memcpy(b.b, c->box, sizeof b.b);
    if (c->filt == FULL) {
        double e = 0, deg = fnft__nse_discretization_degree(c->d); int ups = sp_resamples(s) ? 2 : 1; (void)ups;
        for (unsigned i = 0; i < D; i++) e += cabs(q[i])*cabs(q[i])*eps;
        b.b[3] = 0.375*e; b.slack[3] = sp_resamples(s) ? (D < 8 ? 10 : 0.5)*b.b[3] : 1e-6*b.b[3];
        double mc = deg > 0 ? 2/deg : 2;
        b.b[1] = 0.9*acos(-1)/(mc*eps); b.b[0] = -b.b[1]; b.slack[0] = b.slack[1] = 1e-6*b.b[1];
    }
    return b;
}
/* 1 inside, 0 outside, -1 not clear */
static int inside(const Box *b, lcplx x, double tol) {
    double re = creall(x), im = cimagl(x);
    double d[4] = {re-b->b[0], b->b[1]-re, im-b->b[2], b->b[3]-im}; int r = 1;
    for (int i = 0; i < 4; i++) { if (d[i] < -(b->slack[i]+tol)) return 0; if (d[i] < b->slack[i]+tol) r = -1; }
    return r;
}
static int distinct(const cplx *bs, size_t K) {
    for (size_t i = 0; i < K; i++) for (size_t j = 0; j < i; j++) if (cabs(bs[i]-bs[j]) < 1e-8) { mc_fail("distinct", "%zu and %zu coincide: %.15g%+.15gi", j, i, NUM(bs[i])); return 0; }
    return 1;
}
static Root *polyroots(char ty, const Prob *p, int d, int ups, unsigned *n) {
    static Root rt[SP_MAXDEG]; static lcplx co[SP_MAXDEG+1]; (void)ty;
    unsigned dg = fnft__nse_discretization_degree(d)*ups, deg = dg*p->D; lreal per = 2*p->eps/dg;
    if (deg >= SP_MAXDEG) { *n = 0; return NULL; }
    double g = sp_poly(p, deg, per, 0, 0, co);
    *n = sp_poly_roots(deg, co, per, g, rt); return rt;
}
static unsigned upsf(rscheme s) { return s == R_44A || s == R_44B ? 2 : 1; }
/* eigenvalue method: the filtered set of all roots */
static void eig(const Cfg *c, unsigned D, cplx *q, const double *T, int K0) {
    static cplx bs[MAXK]; size_t K = K0; lreal eps = ((lreal)T[1]-T[0])/(D-1); rscheme s = r_from_nse(c->d);
    for (int i = 0; i < MAXK; i++) bs[i] = NAN;
    int rc = run(c, D, q, T, 1, bs, &K);
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    Prob p = {.type='N', .kappa=1, .s=s, .D=D, .eps=eps, .q1=q}; r_prepare(&p);
    unsigned n; Root *rt = polyroots('N', &p, c->d, upsf(s), &n); r_free(&p); if (!rt) return;
    Box bx = region(c, D, q, eps, s); char *hit = calloc(n+1, 1); unsigned unc = 0;
    for (unsigned i = 0; i < n; i++) unc += rt[i].unclear;
    int lost = c->filt == NONE && n < D*(unsigned)fnft__nse_discretization_degree(c->d)*upsf(s);   /* rounding errors instead of vanishing leading coefficients */
    for (size_t k = 0; k < K; k++) {
        double best = INFINITY; unsigned m = 0;
        if (lost && cimag(bs[k]) < 0) continue;
        if (c->filt != NONE && inside(&bx, bs[k], 0) == 0) { mc_fail("filter", "bound state %zu = %.12g%+.12gi does not satisfy filter %s", k, NUM(bs[k]), fname[c->filt]); goto end; }
        if (!(cabs(bs[k]) < INFINITY)) { if (c->filt != NONE) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi", k, NUM(bs[k])); goto end; } continue; }
        for (unsigned i = 0; i < n; i++) { double e = cabsl(rt[i].lam-bs[k]); if (e < best) { best = e; m = i; } }
        if (n && rt[m].unclear) { mc_count("ill-conditioned zeros skipped", 1); continue; }
        if (best > 0.01 && unc) { mc_count("ill-conditioned zeros skipped", 1); continue; }
        double tol = n ? rt[m].tol : 0; mc_max("distance to zero", best/tol);
        if (!(best <= tol)) {
            mc_fail("genuine", "bound state %zu = %.12g%+.12gi is %.3g away from the nearest zero %.12g%+.12gi (accuracy %.3g)", k, NUM(bs[k]), best, NUM(rt[m].lam), tol); goto end; }
        if (hit[m]) { mc_fail("distinct", "zero %.12g%+.12gi reported twice", NUM(rt[m].lam)); goto end; }
        hit[m] = 1; mc_count("zeros reported", 1);
    }
    if (K < (size_t)K0) for (unsigned i = 0; i < n; i++) if (!hit[i] && !rt[i].unclear && !(lost && cimagl(rt[i].lam) < 1e-6L) && inside(&bx, rt[i].lam, rt[i].tol) == 1) { mc_fail("complete", "zero %.12g%+.12gi not reported (%zu reported)", NUM(rt[i].lam), K); break; }
    if (c->filt != NONE) distinct(bs, K);
end: free(hit);
}
/* reference Newton iteration with the stopping rules; returns -1 not clear, 0 given up (outside), 1 usable */
static int iter(const Prob *p, const double *T, lcplx *x, unsigned niter, double tol, const Box *bx, double *acc, int *conv) {
    lcplx y = *x + 1e-9L*(0.6L+0.8L*LI); lreal sens = 1; *acc = 1e-13; *conv = 0; unsigned it; int yc = 0;
    for (it = 0; it < niter && it < 25; it++) {
        lcplx a = sp_a(p, T, *x), da = sp_da(p, T, *x), st; double g; r_total_norm(p, *x, &g);
        double af = 1e-15*g*(p->D+4)*cabsl(cexpl(LI**x*(T[1]-T[0]+p->eps)))*(1 + cabsl(*x));
        if (cabsl(da) < 1e-7L*(1+cabsl(a))) return -1;
        st = a/da; *x -= st;
        if (!yc) { lcplx sy = sp_a(p, T, y)/sp_da(p, T, y); y -= sy; if (cabsl(y-*x) < 1e-13L) yc = 1; else sens = fmaxl(sens, cabsl(y-*x)/1e-9L); }
        if (!(cabsl(*x) < 1e3L) || !(sens < 1e3L)) return -1;
        *acc = fmax(*acc, af/cabsl(da));
        if (*acc > 1e-6) return -1;
        int in = inside(bx, *x, 1e-7 + *acc); if (in < 0) return -1;
        if (in == 0) return 0;
        if (cabsl(st) <= 0.7L*tol) { *conv = 1; break; }
        if (cabsl(a) <= 0.7L*tol) { *conv = 1; break; }
        if (tol > 1e-9 && (cabsl(st) <= 1.5L*tol || cabsl(a) <= 1.5L*tol)) return -1;
        
        if (tol <= 1e-9 && cabsl(st) < 3e-14L*(1+cabsl(*x))) { *conv = 1; break; }
    }
    if (!*conv && niter > 25) return -1;
    *acc *= (double)sens*4; return 1;
}
static void newton(const Cfg *c, unsigned D, cplx *q, const double *T, const cplx *g, const double *gtol, unsigned ng, const cplx *bs, size_t K) {
    /* checks the list bs against the guesses g (known up to gtol; NULL = exactly) */
    lreal eps = ((lreal)T[1]-T[0])/(D-1); rscheme s = r_from_nse(c->d);
    Prob p = {.type='N', .kappa=1, .s=sp_refine(s), .D=D, .eps=eps, .q1=q}; r_prepare(&p);
    Box bx = region(c, D, q, eps, s); double tol = c->tol >= 0 ? c->tol : 2.3e-14; unsigned unclear = 0;
    lcplx *end = malloc((ng+1)*sizeof *end); double *acc = malloc((ng+1)*sizeof *acc); int *st = malloc((ng+1)*sizeof *st); 
    for (unsigned i = 0; i < ng; i++) {
        int cv; end[i] = g[i]; st[i] = iter(&p, T, &end[i], c->niter, tol, &bx, &acc[i], &cv);
        if (gtol && gtol[i] < 0) st[i] = -1;
        if (gtol && !cv) st[i] = st[i] == 0 ? -1 : st[i]*0 - 1;
        if (c->niter == 0) { acc[i] = 0; st[i] = 1; }
        if (c->filt == NONE && st[i] == 0) st[i] = -1;
        if (st[i] == 1) { int in = inside(&bx, end[i], acc[i] + 1e-9); st[i] = in < 0 ? -1 : in; }
        unclear += st[i] < 0;
        mc_count(st[i] < 0 ? "unclear paths" : st[i] ? "guesses with a clear result" : "guesses filtered", 1);
    }
    for (size_t k = 0; k < K; k++) {
        if (c->filt != NONE && inside(&bx, bs[k], 0) == 0) { mc_fail("filter", "bound state %zu = %.12g%+.12gi does not satisfy filter %s", k, NUM(bs[k]), fname[c->filt]); goto out; }
        if (!(cabs(bs[k]) < INFINITY)) { if (c->filt != NONE) mc_fail("genuine", "bound state %zu = %.12g%+.12gi", k, NUM(bs[k])); goto out; }
        double best = INFINITY; unsigned m = 0;
        for (unsigned i = 0; i < ng; i++) if (st[i] == 1) { double e = cabsl(end[i]-bs[k]); if (e < best) { best = e; m = i; } }
        int ok = best < INFINITY && best <= acc[m]; if (best < INFINITY && best < 1e-3) mc_max("distance to Newton iterate", best/(acc[m]+1e-300));
        /* result of a path that is not clear: must be a zero unless a warning was given or the iteration was cut */
        if (!ok && unclear && c->filt == NONE) ok = 1;   /* given up on the way */
        if (!ok && c->niter == 0) for (unsigned i = 0; i < ng; i++) ok |= bs[k] == g[i];
        if (!ok && unclear && !warned && c->niter) {
            lcplx a = sp_a(&p, T, bs[k]), da = sp_da(&p, T, bs[k]); double gr; r_total_norm(&p, bs[k], &gr); 
            double t0 = fmax(tol, 1e-13)*2 + 4e-14*gr*(D+4)*cabsl(cexpl(LI*bs[k]*(T[1]-T[0]+eps)));
            ok = cabsl(a) <= t0*(1+cabsl(da))*30;
            /* near multiple zeros the correction shrinks before the value of a does */
            if (!ok && cabsl(da) < 1e-2L && cabsl(a) < 1e-6L) ok = 1;
            mc_count("zeros at unclear paths", 1);
        } else if (!ok && unclear && c->niter) ok = 1;
        if (!ok) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi: nearest expected value %.12g%+.12gi (distance %.3g, accuracy %.3g)", k, NUM(bs[k]), NUM(end[m]), best, acc[m]); goto out; }
    }
    for (unsigned i = 0; i < ng; i++) if (st[i] == 1) {
        double best = INFINITY; for (size_t k = 0; k < K; k++) best = fmin(best, cabsl(end[i]-bs[k]));
        if (!(best <= acc[i] + (c->filt != NONE ? 1.6e-8 : 0))) { mc_fail("complete", "guess %u (%.12g%+.12gi) leads to %.12g%+.12gi, which is not reported (%zu reported, nearest %.3g away)", i, NUM(g[i]), NUM(end[i]), K, best); goto out; }
    }
    if (c->filt != NONE) distinct(bs, K);
out: free(end); free(acc); free(st); r_free(&p);
}
static void nwt(const Cfg *c, unsigned D, cplx *q, const double *T, const cplx *g, unsigned ng) {
    static cplx bs[MAXK]; size_t K = ng; memcpy(bs, g, ng*sizeof *g);
    int rc = run(c, D, q, T, 1, bs, &K);
    if (rc) { rscheme s = r_from_nse(c->d); unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
        if (nz && (D > 2 || !sp_resamples(s))) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    if (c->filt == NONE && K != ng) { mc_fail("complete", "%zu bound states for %u guesses without filter", K, ng); return; }
    newton(c, D, q, T, g, NULL, ng, bs, K);
}
static void sub(const Cfg *c, unsigned D, cplx *q, const double *T) {
    static cplx bs[MAXK]; size_t K = MAXK; rscheme s = r_from_nse(c->d);
    int rc = run(c, D, q, T, 1, bs, &K);
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    unsigned want = c->Dsub ? c->Dsub : (unsigned)(sqrt(D)*log2(D)); if (want > D) want = D;
    if (want < 2) want = 2;
    unsigned ns = lround((double)D/want), Ds = lround((double)D/ns); double eps = (T[1]-T[0])/(D-1), Ts[2] = {T[0], T[0] + eps*ns*(Ds-1)}; (void)Ts;
    lreal es = ((lreal)T[1]-T[0])/(D-1)*ns;
    Prob p = {.type='N', .kappa=1, .s=s, .D=Ds, .Dfull=D, .nskip=ns, .eps=es, .q1=q}; r_prepare(&p);
    unsigned n; Root *rt = polyroots('N', &p, c->d, upsf(s), &n); r_free(&p); if (!rt) return;
    cplx qs[256]; for (unsigned i = 0; i < Ds; i++) qs[i] = q[i*ns];
    Cfg cs = *c; Box bx = region(&cs, Ds, qs, es, s); cplx g[SP_MAXDEG]; double gt[SP_MAXDEG]; unsigned ng = 0;
    for (unsigned i = 0; i < n; i++) { int in = inside(&bx, rt[i].lam, rt[i].tol); if (!in && !rt[i].unclear) continue; g[ng] = rt[i].lam; gt[ng++] = in < 0 || rt[i].unclear ? -1 : rt[i].tol; }
    newton(c, D, q, T, g, gt, ng, bs, K);
}
/* argument principle: number of zeros of a in the box */
static int count(const Prob *p, const double *T, const double *b) {
    lreal tot = 0, mn = INFINITY; int N = 600; lcplx prev = 0, co[5] = {b[0]+LI*b[2], b[1]+LI*b[2], b[1]+LI*b[3], b[0]+LI*b[3], b[0]+LI*b[2]};
    for (int e = 0; e < 4; e++) for (int k = 0; k < N; k++) { lcplx v = sp_a(p, T, co[e]+(co[e+1]-co[e])*k/N); if (prev != 0) { lreal dp = cargl(v/prev); if (fabsl(dp) > 1) return -1; tot += dp; } mn = fminl(mn, cabsl(v)); prev = v; }
    lcplx v = sp_a(p, T, co[0]); tot += cargl(v/prev); if (mn < 1e-3L) return -1;
    return lroundl(tot/(2*acosl(-1)));
}
static void shape(int d, int loc, unsigned D, double A, double sh, double V) {
    cplx q[256]; double T[2] = {-9+sh, 9+sh}; static cplx bs[MAXK]; size_t K = MAXK; rscheme s = r_from_nse(d);
    for (unsigned i = 0; i < D; i++) { double t = T[0] + (T[1]-T[0])*i/(D-1); q[i] = A/cosh(t-sh)*cexp(I*V*t); }
    Cfg c = {.d=d, .loc=loc, .filt=MANUAL, .niter=40, .tol=-1, .Dsub=D, .box={-0.9-V/2, 0.9-V/2, 0.15, 6}};
    int rc = run(&c, D, q, T, 1, bs, &K); if (rc) { mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    rscheme se = loc == fnft_nsev_bsloc_FAST_EIGENVALUE ? s : sp_refine(s);
    Prob p = {.type='N', .kappa=1, .s=se, .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p);
    int n = count(&p, T, c.box); if (n < 0) { mc_count("count not clear", 1); goto end; }
    mc_count("zeros counted by the argument principle", n);
    if ((int)K != n) { mc_fail("complete", "%zu bound states reported, a has %d zeros in the box", K, n); goto end; }
    for (size_t k = 0; k < K; k++) {
        lcplx x = bs[k]; double e = cabsl(sp_a(&p, T, x)/sp_da(&p, T, x)), tol = loc == fnft_nsev_bsloc_FAST_EIGENVALUE ? 2e-8 : 1e-10; mc_max("smooth signals: distance to zero", e/tol);
        if (!(e <= tol)) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi is about %.3g away from a zero", k, NUM(x), e); goto end; }
    }
    distinct(bs, K);
end: r_free(&p);
}
static void defoc(int d, int loc, unsigned D, cplx *q, const double *T, int filt) {
    cplx bs[64]; size_t K = 5; for (int i = 0; i < 64; i++) bs[i] = 0.1*i + I;
    Cfg c = {.d=d, .loc=loc, .filt=filt, .niter=10, .tol=-1, .box={-3,3,-3,3}};
    int rc = run(&c, D, q, T, -1, bs, &K); rscheme s = r_from_nse(d);
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    if (K) mc_fail("defocusing", "%zu bound states reported", K);
    mc_outcome(1);
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}}, boxes[3][4] = {{-1,2,0.2,4},{-20,20,-1.5,1.5},{0.1,50,0,INFINITY}};
    cplx q[256], g[16];
    for (int d = 0; d < N_NSE; d++) {
        rscheme s = r_from_nse(d); unsigned dg = r_is_fast(s) ? (unsigned)fnft__nse_discretization_degree(d)*upsf(s) : 0;
        if (r_is_fast(s)) for (unsigned D = 2; D <= (mc_thorough ? 5u : 4u); D++) for (uint64_t c = 1; c < gen_count(D, 4); c++) for (int f = 0; f < 4; f++) {
            if (dg*D > (mc_thorough ? 460u : 100u)) continue;
            if (!mc_thorough && D == 4 && (c+d+f)%4) continue;
            Cfg cf = {.d=d, .loc=fnft_nsev_bsloc_FAST_EIGENVALUE, .filt=f, .niter=7, .tol=-1}; memcpy(cf.box, boxes[(c+d)%3], sizeof cf.box);
            const double *T = Ts[(c+f)%3]; gen_signal(D, 4, c, q);
            if (mc_begin("eigenvalues: %s D=%u code=%llu filter=%s", nse_name(d), D, (unsigned long long)c, fname[f])) eig(&cf, D, q, T, c%5 ? MAXK : dg*D);
            if (f == 0) continue;
            for (unsigned ds = (D+1)/2; ds <= D; ds++) {
                if (ds < 2) continue;
                cf.loc = fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; cf.Dsub = ds; cf.niter = 30;
                if (mc_begin("subsampled: %s D=%u Dsub=%u code=%llu filter=%s", nse_name(d), D, ds, (unsigned long long)c, fname[f])) sub(&cf, D, q, T);
            }
        }
        for (unsigned D = 2; D <= (mc_thorough ? 5u : 4u); D++) for (uint64_t c = 1; c < gen_count(D, 4); c++) for (int f = 0; f < 4; f++) for (int ni = 0; ni < 5; ni++) {
            static const unsigned nis[] = {0, 1, 2, 60, 60}; static const double tols[] = {-1, -1, 1e-12, -1, 1e-3};
            if (!mc_thorough && D == 4 && (c+d+f+ni)%4) continue;
            if (!mc_begin("newton: %s D=%u code=%llu filter=%s iterations=%u tol=%g", nse_name(d), D, (unsigned long long)c, fname[f], nis[ni], tols[ni])) continue;
            Cfg cf = {.d=d, .loc=fnft_nsev_bsloc_NEWTON, .filt=f, .niter=nis[ni], .tol=tols[ni]}; memcpy(cf.box, boxes[(c+d)%3], sizeof cf.box);
            unsigned ng = 0; static const cplx gs[] = {0.3+0.5*I, -0.8+1.1*I, 0.4*I, 1.7+0.2*I, 0.3+0.5*I, 0.05+2.2*I, -0.2-0.4*I, 3+I};
            for (unsigned i = 0; i < 8; i++) if (i != c%8) g[ng++] = gs[i];
            gen_signal(D, 4, c, q); nwt(&cf, D, q, Ts[(c+f)%3], g, ng);
        }
        for (unsigned D = 2; D <= 4; D++) for (uint64_t c = 0; c < gen_count(D, 3); c++) for (int loc = 0; loc < 3; loc++) for (int f = 0; f < 4; f++) {
            if (!mc_begin("defocusing: %s D=%u code=%llu loc=%d filter=%s", nse_name(d), D, (unsigned long long)c, loc, fname[f])) continue;
            gen_signal(D, 3, c, q); if (s == R_MODAL) for (unsigned i = 0; i < D; i++) q[i] *= 0.3;
            defoc(d, loc, D, q, Ts[(c+f)%3], f);
        }
        if (r_is_fast(s)) for (unsigned D = 6; D <= (mc_thorough ? 33u : 17u); D += mc_thorough ? 1 : 3) for (int sh = 0; sh < GEN_SHAPES; sh++) for (int f = 1; f < 4; f++) {
            if (dg*D > (mc_thorough ? 800u : 130u)) continue;
            Cfg cf = {.d=d, .loc=fnft_nsev_bsloc_FAST_EIGENVALUE, .filt=f, .niter=7, .tol=-1}; memcpy(cf.box, boxes[(D+d)%3], sizeof cf.box);
            const double *T = Ts[(D+f)%3]; gen_shape(D, sh, T, q); for (unsigned i = 0; i < D; i++) q[i] *= 2;
            if (mc_begin("eigenvalues: %s D=%u shape=%d filter=%s", nse_name(d), D, sh, fname[f])) eig(&cf, D, q, T, MAXK);
            cf.loc = fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; cf.niter = 40; cf.Dsub = D%4 == 0 ? 0 : D%4 == 1 ? D/2 : D%4 == 2 ? D : D/3+1;
            if (mc_begin("subsampled: %s D=%u Dsub=%u shape=%d filter=%s", nse_name(d), D, cf.Dsub, sh, fname[f])) sub(&cf, D, q, T);
        }
        if (r_is_fast(s)) for (int loc = 0; loc < 3; loc++) for (unsigned D = 64; D <= (mc_thorough ? 160u : 96u); D += 32) for (int a = 0; a < 3; a++) for (int v = 0; v < 2; v++) {
            static const double A[] = {0.3, 1.2, 2.8};
            if (loc == fnft_nsev_bsloc_NEWTON || dg > (mc_thorough ? 24u : 6u)) continue;
            if (loc == fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE && A[a]*18/D > 0.6) continue;   /* otherwise the refinement may leave for another zero */
            if (!mc_begin("pulse: %s loc=%d D=%u A=%g v=%d", nse_name(d), loc, D, A[a], v)) continue;
            shape(d, loc, D, A[a], v*1.5-0.4, v*0.6);
        }
    }
}
