/* periodic NSE transform against the monodromy matrix of the long double reference */
#include "ref.h"
#include "gen.h"
#include <stdarg.h>
#define LI ((lcplx)_Complex_I)
#include "sp_poly.h"
const char *mc_rule = "one case = one period of a signal x discretization x sign x localization x filter x subsampling x Floquet values x phase shift x number of refinement steps; without refinement the spectra are compared with all roots of the polynomial trace minus Floquet value and of the polynomial upper right element (coefficients interpolated from the long double reference, roots in long double precision); with refinement every root is followed through the Newton iteration on the reference and every reported point must satisfy its equation; grid searches: every point near a root, every isolated real root found; plane waves: closed form; distinct = hash of both lists";
#define NUM(z) (double)creall(z), (double)cimagl(z)
static int warned; static int wprintf_(const char *f, ...) { va_list ap; char b[400]; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (strstr(b, "did not converge")) warned = 1; return 0; }
enum { NONE, AUTO, MANUAL }; enum { SUB, NEWT, GRID, MIX };
static const char *fname[] = {"NONE", "AUTO", "MANUAL"}, *lname[] = {"SUBSAMPLE", "NEWTON", "GRIDSEARCH", "MIXED"};
#define MAXK 2400
typedef struct { int d, loc, filt, kappa; unsigned ev, Dsub, pps; double tol, box[4], fl[2], phase; int nf; } Cfg;
static cplx mn[MAXK], ax[MAXK];
static int run(const Cfg *c, unsigned D, cplx *q, const double *T, size_t *K, size_t *M, int nomain, int noaux) {
    static const int fl[] = {fnft_nsep_filt_NONE, fnft_nsep_filt_AUTO, fnft_nsep_filt_MANUAL}, lo[] = {fnft_nsep_loc_SUBSAMPLE_AND_REFINE, fnft_nsep_loc_NEWTON, fnft_nsep_loc_GRIDSEARCH, fnft_nsep_loc_MIXED};
    fnft_nsep_opts_t o = fnft_nsep_default_opts();
    o.discretization = c->d; o.localization = lo[c->loc]; o.filtering = fl[c->filt]; o.max_evals = c->ev; o.Dsub = c->Dsub; o.points_per_spine = c->pps; o.tol = c->tol; o.normalization_flag = c->nf;
    memcpy(o.floquet_range, c->fl, sizeof c->fl); if (c->filt == MANUAL) memcpy(o.bounding_box, c->box, sizeof c->box);
    warned = 0; fnft_errwarn_setprintf((void*)wprintf_);
    return fnft_nsep(D, q, T, c->phase, K, nomain ? NULL : mn, M, noaux ? NULL : ax, NULL, c->kappa, &o);
}
static unsigned upsf(rscheme s) { return s == R_44A || s == R_44B ? 2 : 1; }
static unsigned dgf(int d) { return (unsigned)fnft__nse_discretization_degree(d)*upsf(r_from_nse(d)); }
/* f = trace - 2 floquet, or the upper right element if aux */
static lcplx fv(const Prob *p, lcplx x, int aux, lreal fl, double *g) { double gg; Mat M = r_total_norm(p, x, &gg); if (g) *g = gg; return aux ? M.a[0][1] : M.a[0][0] + M.a[1][1] - 2*fl; }
static lcplx dfv(const Prob *p, lcplx x, int aux, lreal L) { lreal rho = 0.02L/L; lcplx d = 0; const int N = 12; for (int k = 0; k < N; k++) { lcplx u = cexpl(2*acosl(-1)*LI*k/N); d += fv(p, x+rho*u, aux, 0, NULL)/(u*rho*N); } return d; }
typedef struct { double b[4], slack; } Box;
static int inside(const Box *b, lcplx x, double tol) {
    double re = creall(x), im = cimagl(x), d[4] = {re-b->b[0], b->b[1]-re, im-b->b[2], b->b[3]-im}; int r = 1; tol += b->slack;
    for (int i = 0; i < 4; i++) { if (d[i] < -tol) return 0; if (d[i] < tol) r = -1; }
    return r;
}
static Box region(const Cfg *c, lreal eps, double shift) {
    Box b = {{-INFINITY, INFINITY, -INFINITY, INFINITY}, 1e-9}; double deg = fnft__nse_discretization_degree(c->d), mc = deg > 0 ? 2/deg : 1;
    if (c->filt == MANUAL) { memcpy(b.b, c->box, sizeof b.b); b.b[0] -= shift; b.b[1] -= shift; }
    if (c->filt == AUTO) { b.b[1] = 0.9*acos(-1)/(mc*eps); b.b[0] = -b.b[1]; b.b[3] = log(10)/(mc*eps); b.b[2] = -b.b[3]; b.slack = 1e-9*(1+b.b[1]); }
    return b;
}
/* the mixed method leaves a strip around the real axis to the grid search */
static double height(const Box *b, const Cfg *c, lreal eps) { double h = b->b[3]-b->b[2]; return h < INFINITY ? h : 2*log(10)/(2/(double)fnft__nse_discretization_degree(c->d)*eps); }
/* follows the refinement on the reference; returns 1 clear, 0 left the box, -1 not clear */
static int follow(const Prob *p, lreal L, lcplx *x, int aux, lreal fl, unsigned ev, double tol, const Box *bx, double *acc) {
    *acc = 1e-13; if (ev == 0) return 1;
    lcplx y = *x + 1e-9L*(0.6L+0.8L*LI); lreal sens = 1; double g;
    lcplx f = fv(p, *x, aux, fl, &g), df = dfv(p, *x, aux, L); unsigned n = aux ? 0 : 1;
    for (unsigned it = 0; it < 60; it++) {
        if (n > ev || (aux && n >= ev)) break;
        double ef = 4e-15*(p->D+4)*g*(1+(double)(cabsl(*x)*L)/4);
        if (!(cabsl(df) > 1e-6L)) return -1;
        *acc = fmax(*acc, ef/(double)cabsl(df)); if (*acc > 1e-6) return -1;
        lcplx inc = f/df; unsigned m = 1; lcplx nf, ndf;
        if (aux) { n++; }
        else {
            lcplx f1 = fv(p, *x-inc, 0, fl, NULL); n++; double a1 = cabsl(f1);
            if (a1 > 0.2*tol && a1 < 5*tol) return -1;
            if (a1 >= tol) { lcplx f2 = fv(p, *x-2*inc, 0, fl, NULL); n++; double a2 = cabsl(f2); if (fabs(a1-a2) < 1e-4*fmax(a1, a2) || fmax(a1, a2) < 1e3*ef) return -1; if (a2 < a1) m = 2; }
        }
        lcplx fy = fv(p, y, aux, fl, NULL), dfy = dfv(p, y, aux, L); y -= m*fy/dfy;
        *x -= m*inc; sens = fmaxl(sens, cabsl(y-*x)/1e-9L); if (!(sens < 1e3L)) return -1;
        if (cabsl(*x) > 1e4L) return -1;
        nf = fv(p, *x, aux, fl, &g); ndf = dfv(p, *x, aux, L);
        double s1 = m*cabsl(inc), s2 = cabsl(f);
        if ((s1 > 0.2*tol && s1 < 5*tol && s2 > 0.2*tol) || (s2 > 0.2*tol && s2 < 5*tol && s1 > 0.2*tol)) return -1;
        if (s1 <= tol || s2 <= tol) { if (!aux) { if (!(cabsl(ndf) > 1e-6L)) return -1; *x -= nf/ndf; *acc = fmax(*acc, ef/(double)cabsl(ndf)); } break; }
        int in = inside(bx, *x, 1e-6); if (in < 0) return -1; if (in == 0) return 0;
        f = nf; df = ndf; if (it == 59) return -1;
    }
    if (!aux && cabsl(dfv(p, *x, 0, L)) < 0.05L) return -1;   /* near a double root: judged by the residual */
    *acc *= (double)sens*40; return 1;
}
typedef struct { lcplx lam; double tol; int st, aux, hit; lreal fl; } Exp;   /* st: 1 must be reported, -1 not clear */
/* upper right element: half-integer powers of z for some splittings */
static double poly12(const Prob *p, unsigned deg, lreal per, lcplx *co) {
    unsigned N = deg+1; lcplx *v = malloc(N*sizeof *v); double g, gm = 0; const lreal pi = acosl(-1);
    for (int half = 0; half < 2; half++) {
        for (unsigned k = 0; k < N; k++) { lreal th = 2*pi*k/N; if (k > N/2) th -= 2*pi; v[k] = r_total_norm(p, th/per, &g).a[0][1]*cexpl(LI*th*(lreal)(deg-half)/2); if (g > gm) gm = g; }
        for (unsigned j = 0; j < N; j++) { lcplx t = 0; for (unsigned k = 0; k < N; k++) t += v[k]*cexpl(-2*pi*LI*(lreal)((uint64_t)j*k % N)/N); co[N-1-j] = t/N; }
        lreal th = 0.37L; lcplx y = 0, z = cexpl(LI*th); for (unsigned j = 0; j < N; j++) y = y*z + co[j];
        if (cabsl(y - r_total_norm(p, th/per, &g).a[0][1]*cexpl(LI*th*(lreal)(deg-half)/2)) < 1e-12L*gm) { free(v); return gm; }
    }
    free(v); mc_fail("oracle", "the upper right element is no polynomial"); return gm;
}
static unsigned rootsof(const Prob *p, unsigned dg, lreal per, int aux, lreal fl, Root *rt) {
    static lcplx c1[SP_MAXDEG+1], c2[SP_MAXDEG+1]; unsigned deg = dg*p->D; double g;
    if (aux) { g = poly12(p, deg, per, c1); }
    else { g = sp_poly(p, deg, per, 0, 0, c1); sp_poly(p, deg, per, 1, 1, c2); for (unsigned i = 0; i <= deg; i++) c1[i] += c2[i]; c1[deg/2] -= 2*fl; }
    unsigned nr = sp_poly_roots(deg, c1, per, g, rt);
    for (unsigned i = 0; i < nr; i++) { rt[i].tol *= dg > 8 ? 1000 : dg > 3 ? 100 : 20; if (!(rt[i].tol < 1e-3)) rt[i].unclear = 1; }
    for (unsigned i = 0; i < nr; i++) for (unsigned j = 0; j < nr; j++) if (i != j && cabsl(rt[i].lam-rt[j].lam) < 3*rt[j].tol) rt[i].unclear = 1;
    return nr;
}
/* distance of the grid points in the lambda plane */
static double spacing(const Box *b, const Cfg *c, unsigned D, lreal L) { double per = 2*L/D/dgf(c->d), lo = fmax(b->b[0]*per, -acos(-1)), up = fmin(b->b[1]*per, acos(-1)); return (up-lo)/(32.0*dgf(c->d)*D-1)/per; }
static double near(const cplx *z, size_t K, lcplx x) { double b = INFINITY; for (size_t k = 0; k < K; k++) b = fmin(b, cabsl(z[k]-x)); return b; }
/* nonreal: only points with |Im| > tim are expected */
static void compare(const char *what, const Cfg *c, const Prob *pr, lreal L, double shift, const cplx *z, size_t K, Exp *ex, unsigned n, const Box *bx, int aux, double tim, double ring) {
    unsigned unc = 0; for (unsigned i = 0; i < n; i++) { unc += ex[i].st < 0; mc_count(ex[i].st < 0 ? "not clear" : "clear", 1); }
    for (size_t k = 0; k < K; k++) {
        lcplx x = (lcplx)z[k] - shift; double best = INFINITY; unsigned m = 0;
        if (!(cabsl(x) < INFINITY)) { if (c->filt != NONE) { mc_fail("genuine", "%s point %zu = %.12g%+.12gi", what, k, NUM(z[k])); return; } continue; }
        if (c->filt != NONE && inside(bx, x, 0) == 0) { mc_fail("filter", "%s point %zu = %.12g%+.12gi is outside the box", what, k, NUM(z[k])); return; }
        if (tim > 0 && fabsl(cimagl(x)) < tim*(1-1e-9)) continue;   /* found by the grid search */
        if (tim > 0 && fabsl(cimagl(x)) < 1.2*ring) { mc_count("points possibly found by the grid search", 1); continue; }
        for (unsigned i = 0; i < n; i++) if (ex[i].st >= 0 && !ex[i].hit) { double e = cabsl(ex[i].lam-x); if (e/ex[i].tol < best) { best = e/ex[i].tol; m = i; } }
        if (best <= 1) { mc_max("distance to expected point", best); ex[m].hit = 1; mc_count("points identified", 1); continue; }
        /* not one of the clear ones */
        if (unc && c->ev == 0) { mc_count("points of ill-conditioned zeros", 1); continue; }
        int ok = 0; double r = INFINITY;
        if (c->ev && !warned) for (unsigned i = 0; i < (aux ? 1 : c->pps); i++) {
            lreal fl = aux ? 0 : c->fl[0] + i*(c->fl[1]-c->fl[0])/(c->pps > 1 ? c->pps-1 : 1); double g; lcplx f = fv(pr, x, aux, fl, &g), df = dfv(pr, x, aux, L);
            double tol = (c->tol < 0 ? 1.5e-8 : c->tol)*4*(1+cabsl(df)) + 1e-13*(pr->D+4)*g*(1+cabsl(x)*L); r = fmin(r, (double)cabsl(f)/tol); ok |= cabsl(f) <= tol;
        }
        if (ok) { mc_max("residual", r); mc_count("residuals checked", 1); }
        if (!ok && unc && c->ev && (warned || c->filt == NONE)) ok = 1;
        if (!ok) { mc_fail("genuine", "%s point %zu = %.12g%+.12gi solves no equation (residual %.3g times the accuracy)", what, k, NUM(z[k]), r); return; }
    }
    for (unsigned i = 0; i < n; i++) if (ex[i].st == 1 && !ex[i].hit && !(near(z, K, ex[i].lam+shift) <= ex[i].tol)) { mc_fail("complete", "%s point %.12g%+.12gi (Floquet value %g) is not reported (%zu reported, nearest %.3g away, accuracy %.3g)", what, NUM(ex[i].lam+shift), (double)ex[i].fl, K, near(z, K, ex[i].lam+shift), ex[i].tol); return; }
}
static void tilt(const Cfg *c, unsigned D, const cplx *q, const double *T, lcplx *qt, cplx *qd) {
    lreal L = (lreal)T[1]-T[0], sh = (lreal)c->phase/(-2*L);
    for (unsigned i = 0; i < D; i++) { qt[i] = q[i]*cexpl(2*LI*sh*(T[0]+L*i/D)); qd[i] = qt[i]; }
}
static unsigned dsub(const Cfg *c, unsigned D) { unsigned Ds = c->Dsub ? (unsigned)pow(2, round(log2(c->Dsub))) : (unsigned)pow(2, ceil(0.5*log2(D*log2(D)*log2(D)))); if (Ds < 2) Ds = 2; if (Ds > D) Ds = D; return Ds; }
static void sub(const Cfg *c, unsigned D, cplx *q, const double *T) {
    size_t K = MAXK, M = MAXK; rscheme s = r_from_nse(c->d); lreal L = (lreal)T[1]-T[0]; double shift = c->phase/(-2*(T[1]-T[0]));
    for (int i = 0; i < MAXK; i++) mn[i] = ax[i] = NAN;
    unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
    int rc = run(c, D, q, T, &K, &M, 0, nz == 0);
    unsigned Ds = dsub(c, D), ns = D/Ds;
    unsigned nzs = 0; for (unsigned i = 0; i < D; i += ns) nzs += q[i] != 0;
    if (nz && !nzs) { mc_count("nothing left after subsampling", 1); return; }
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)mn, 2*K, mc_hash_d((double*)ax, 2*M, K)));
    lcplx qt[256]; cplx qd[256]; tilt(c, D, q, T, qt, qd);
    lreal es = L/D*ns; unsigned dg = dgf(c->d); lreal per = 2*es/dg; static Root rt[SP_MAXDEG]; static Exp ex[MAXK];
    if (dg*Ds >= SP_MAXDEG) return;
    Prob pf = {.type='N', .kappa=c->kappa, .s=s, .D=Ds, .Dfull=D, .nskip=ns, .eps=es, .q1=qd}, pr = {.type='N', .kappa=c->kappa, .s=sp_refine(s), .D=D, .eps=L/D, .q1=qd}; r_prepare(&pf); r_prepare(&pr);
    Box bx = region(c, es, shift); double tol = c->tol < 0 ? 1.4901161193847656e-8 : c->tol, tim = 0; int skip = c->loc == MIX;
    if (skip) tim = height(&bx, c, es)/(32.0*(D-1));
    for (int aux = 0; aux < 2; aux++) {
        if (aux ? nz == 0 : skip && c->kappa < 0) continue;
        unsigned n = 0, np = aux ? 1 : c->pps;
        for (unsigned v = 0; v < np; v++) {
            lreal fl = aux ? 0 : c->fl[0] + (lreal)v*(c->fl[1]-c->fl[0])/(c->pps > 1 ? c->pps-1 : 1);
            unsigned nr = rootsof(&pf, dg, per, aux, fl, rt); int lost = nr < dg*Ds;
            for (unsigned i = 0; i < nr && n < MAXK; i++) {
                if (fabsl(fabsl(cargl(rt[i].z)) - acosl(-1)) < 1e-6L && n < MAXK)   /* the other representative */
                    ex[n++] = (Exp){.lam=rt[i].lam - (cargl(rt[i].z) > 0 ? 1 : -1)*2*acosl(-1)/per, .tol=1, .st=-1, .fl=fl};
                int in = inside(&bx, rt[i].lam, rt[i].tol); if (in == 0) continue;
                Exp *e = &ex[n]; *e = (Exp){.lam=rt[i].lam, .tol=rt[i].tol, .st = in < 0 || rt[i].unclear ? -1 : 1, .aux=aux, .fl=fl};
                if (lost && c->filt == NONE) e->st = -1;
                double ai = fabsl(cimagl(e->lam));
                if (skip && !aux && e->st == 1) { if (ai < tim - e->tol - 1e-9) continue; if (ai < tim + e->tol + 1e-9) e->st = -1; }
                if (e->st == 1 && c->ev) {
                    double acc; int r = follow(&pr, L, &e->lam, aux, fl, c->ev, tol, &bx, &acc); double spread = rt[i].tol;
                    if (r == 0) continue;
                    if (r < 0) e->st = -1;
                    else { /* converged: the start does not matter; otherwise its error is passed on */
                        int in2 = inside(&bx, e->lam, 1e-6); if (in2 == 0) continue; if (in2 < 0) e->st = -1;
                        if (c->ev < 8) acc += spread*1e3; e->tol = acc + (aux ? 0.1*tol*(1 + 1/(double)cabsl(dfv(&pr, e->lam, 1, L))) : 0) + 1e-12; 
                        double ai2 = fabsl(cimagl(e->lam)); if (skip) { if (ai2 < tim - e->tol - 1e-9) continue; if (ai2 < tim + e->tol + 1e-9) e->st = -1; }
                    }
                } else if (skip) { if (ai < tim - e->tol - 1e-9 && e->st == 1) continue; if (ai < tim + e->tol + 1e-9) e->st = -1; }
                n++;
            }
            if (lost && n < MAXK)   /* rounding errors instead of vanishing leading coefficients */
                ex[n++] = (Exp){.lam=NAN, .tol=1, .st=-1, .fl=fl};
        }
        compare(aux ? "auxiliary" : "main", c, &pr, L, shift, aux ? ax : mn, aux ? M : K, ex, n, &bx, aux, tim, skip ? spacing(&bx, c, D, L) : 0);
        if (mc_failed_this_case()) break;
    }
    r_free(&pf); r_free(&pr);
}
/* grid search (also the real part of the mixed method): tim > 0: nonreal points are not judged here */
static void grid(const Cfg *c, unsigned D, cplx *q, const double *T) {
    size_t K = MAXK, M = MAXK; rscheme s = r_from_nse(c->d); lreal L = (lreal)T[1]-T[0], eps = L/D; double shift = c->phase/(-2*(T[1]-T[0]));
    unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
    int rc = run(c, D, q, T, &K, &M, 0, nz == 0);
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)mn, 2*K, mc_hash_d((double*)ax, 2*M, K)));
    lcplx qt[256]; cplx qd[256]; tilt(c, D, q, T, qt, qd); unsigned dg = dgf(c->d); lreal per = 2*eps/dg; static Root rt[2*SP_MAXDEG]; 
    if (2*dg*D >= SP_MAXDEG) return;
    Prob pf = {.type='N', .kappa=c->kappa, .s=s, .D=D, .eps=eps, .q1=qd}; r_prepare(&pf);
    unsigned ns = D/dsub(c, D); Box bx = region(c, eps, shift); double tim = c->loc == MIX ? height(&bx, c, eps*ns)/(32.0*(D-1)) : INFINITY;
    double lo = fmax(bx.b[0]*(double)per, -acos(-1)), up = fmin(bx.b[1]*(double)per, acos(-1)), h = (up-lo)/(32.0*dg*D-1), hl = h/(double)per;
    if (lo >= up) return;   /* the box lies beyond the sampling limit */
    for (int aux = 0; aux < 2; aux++) {
        if (aux && nz == 0) continue;
        unsigned nr = 0; const cplx *z = aux ? ax : mn; size_t N = aux ? M : K;
        if (aux) nr = rootsof(&pf, dg, per, 1, 0, rt); else { nr = rootsof(&pf, dg, per, 0, -1, rt); nr += rootsof(&pf, dg, per, 0, 1, rt+nr); }
        for (size_t k = 0; k < N; k++) {
            lcplx x = (lcplx)z[k]-shift; double best = INFINITY; unsigned m = 0;
            if (c->filt != NONE && inside(&bx, x, 0) == 0) { mc_fail("filter", "%s point %zu = %.12g%+.12gi is outside the box", aux ? "auxiliary" : "main", k, NUM(z[k])); goto end; }
            if (fabsl(cimagl(x)) > tim) continue;
            for (unsigned i = 0; i < nr; i++) { double e = cabsl(rt[i].lam-x); if (e < best) { best = e; m = i; } }
            if (nr && rt[m].unclear) { mc_max("unclear: distance in grid spacings", best/hl); if (best <= 3*hl + rt[m].tol) continue; }
            mc_max("distance in grid spacings", best/hl); mc_count("grid search points", 1);
            if (!(best <= 1.1*hl + rt[m].tol)) { mc_fail("genuine", "%s point %zu = %.12g%+.12gi is %.3g grid spacings away from the nearest zero %.12g%+.12gi", aux ? "auxiliary" : "main", k, NUM(z[k]), best/hl, NUM(rt[m].lam+shift)); goto end; }
        }
        for (unsigned i = 0; i < nr; i++) {
            Root r = rt[i]; if (r.unclear || fabsl(cimagl(r.lam)) > 1e-3*hl || inside(&bx, r.lam, 4*hl) != 1) continue;
            if (creall(r.lam)*per < lo+4*h || creall(r.lam)*per > up-4*h) continue;   /* at the end of the arc */
            int iso = 1; unsigned i0 = aux ? 0 : 0; for (unsigned j = i0; j < nr; j++) if (j != i && cabsl(rt[j].lam-r.lam) < 8*hl) iso = 0;
            if (!iso) continue; mc_count("isolated real points", 1); unsigned cnt = 0;
            for (size_t k = 0; k < N; k++) cnt += cabsl((lcplx)z[k]-shift-r.lam) <= 1.1*hl + r.tol;
            if (cnt != 1) { mc_fail(cnt ? "distinct" : "complete", "%s point %.12g is reported %u times (%zu reported)", aux ? "auxiliary" : "main", (double)creall(r.lam)+shift, cnt, N); goto end; }
        }
    }
end: r_free(&pf);
}
static void newt(const Cfg *c, unsigned D, cplx *q, const double *T, const cplx *g, unsigned ng) {
    size_t K = ng, M = ng; rscheme s = r_from_nse(c->d); lreal L = (lreal)T[1]-T[0], eps = L/D; double shift = c->phase/(-2*(T[1]-T[0]));
    unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
    for (unsigned v = 0; v < c->pps; v++) memcpy(mn + v*ng, g, ng*sizeof *g); memcpy(ax, g, ng*sizeof *g);
    int rc = run(c, D, q, T, &K, &M, 0, nz == 0);
    if (rc) { if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)mn, 2*K, mc_hash_d((double*)ax, 2*M, K)));
    lcplx qt[256]; cplx qd[256]; tilt(c, D, q, T, qt, qd); static Exp ex[MAXK];
    Prob pr = {.type='N', .kappa=c->kappa, .s=s, .D=D, .eps=eps, .q1=qd}; r_prepare(&pr);
    Box bx = region(c, eps, shift); double tol = c->tol < 0 ? 1.4901161193847656e-8 : c->tol;
    for (int aux = 0; aux < 2; aux++) {
        if (aux && nz == 0) continue;
        unsigned n = 0;
        for (unsigned v = 0; v < (aux ? 1 : c->pps); v++) for (unsigned i = 0; i < ng; i++) {
            lreal fl = aux ? 0 : c->fl[0] + (lreal)v*(c->fl[1]-c->fl[0])/(c->pps > 1 ? c->pps-1 : 1);
            Exp *e = &ex[n]; *e = (Exp){.lam=g[i]-shift, .aux=aux, .fl=fl, .st=1}; double acc; int r = follow(&pr, L, &e->lam, aux, fl, c->ev, tol, &bx, &acc);
            if (r == 0 && c->filt != NONE) continue;
            if (r <= 0) e->st = -1; else { int in = inside(&bx, e->lam, 1e-6); if (in == 0) continue; if (in < 0) e->st = -1; }
            e->tol = acc + (aux ? 0.1*tol*(1 + 1/(double)cabsl(dfv(&pr, e->lam, 1, L))) : 0) + 1e-12; n++;
        }
        if (c->filt == NONE && (aux ? M : K) != ng*(aux ? 1 : c->pps)) { mc_fail("complete", "%zu points for %u guesses", aux ? M : K, ng); break; }
        compare(aux ? "auxiliary" : "main", c, &pr, L, shift, aux ? ax : mn, aux ? M : K, ex, n, &bx, aux, 0, 0);
        if (mc_failed_this_case()) break;
    }
    r_free(&pr);
}
/* constant amplitude: trace/2 = cos(L sqrt(lambda^2 + kappa |A|^2)), exact for the refined spectrum */
static void wave(int d, int kappa, unsigned D, double A, double om, double L, double t0) {
    cplx q[256]; double T[2] = {t0, t0+L}; for (unsigned i = 0; i < D; i++) q[i] = A*cexp(-2*I*om*(t0 + L*i/D) + 0.3*I);
    Cfg c = {.d=d, .loc=SUB, .filt=MANUAL, .kappa=kappa, .ev=60, .Dsub=D, .pps=2, .tol=-1, .fl={-1,1}, .phase=-2*om*L, .nf=1}; lreal pi = acosl(-1);
    double hw = 2.3*pi/L + fabs(A); c.box[0] = om-hw; c.box[1] = om+hw; c.box[2] = -1.5*fabs(A)-0.1; c.box[3] = 1.5*fabs(A)+0.1;
    size_t K = MAXK, M = MAXK; int rc = run(&c, D, q, T, &K, &M, 0, 1); if (rc) { mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)mn, 2*K, K));
    int got[8] = {0};
    for (size_t k = 0; k < K; k++) {
        lcplx x = (lcplx)mn[k]-om, w = csqrtl(x*x + kappa*A*A)*L/pi; lreal n = roundl(creall(w)); double e = 1, tol = (n == 0 ? 1e-7 : 2e-4)*(1+L);   /* the others are double */
        lcplx y = csqrtl(n*n*pi*pi/L/L - kappa*A*A + 0*LI); e = fmin(cabsl(x-y), cabsl(x+y)); if (n == 0) got[creall(y) > 0 ? creall(x) > 0 : cimagl(x) > 0] += e < tol;
        mc_max("plane wave: distance", e/tol);
        if (!(e <= tol)) { mc_fail("plane wave", "main spectrum point %zu = %.12g%+.12gi, expected %.12g%+.12gi", k, NUM(mn[k]), NUM(creall(x*conjl(y)) > 0 ? om+y : om-y)); return; }
    }
    if (got[0] != 1 || got[1] != 1) mc_fail("plane wave", "the simple points %g%+gi are reported %d and %d times (%zu reported)", kappa > 0 ? om : om-A, kappa > 0 ? A : 0, got[0], got[1], K);
}
void explore(void) {
    static const double Ts[3][2] = {{0,1},{-0.7,1.9},{-7,-4.5}}, fls[4][2] = {{-1,1},{-1,1},{0.3,0.9},{-0.5,1}}; static const unsigned ppss[4] = {2, 3, 1, 4};
    cplx q[256], g[16];
    for (int d = 0; d < N_NSE; d++) {
        rscheme s = r_from_nse(d); unsigned dg = r_is_fast(s) ? dgf(d) : 0;
        for (int kap = 1; kap >= -1; kap -= 2) {
            if (dg) for (unsigned D = 2; D <= 4; D *= 2) for (uint64_t c = 0; c < gen_count(D, 4); c++) for (int f = 0; f < 3; f++) for (int v = 0; v < 4; v++) {
                if (dg*D > (mc_thorough ? 100u : 50u)) continue;
                if (D == 4 && (mc_thorough ? (c+d+f+v)%4 : (c+d+f*3+v*5+kap)%48)) continue;
                if (D == 2 && !mc_thorough && (c+d+f+v)%4) continue;
                Cfg cf = {.d=d, .filt=f, .kappa=kap, .pps=ppss[(c+v)%4], .tol=-1, .phase=v == 0 ? 0 : v == 1 ? 1.3 : v == 2 ? -4 : 0, .nf=(c>>1)&1}; memcpy(cf.fl, fls[(c+v)%4], sizeof cf.fl);
                const double *T = Ts[(c+f)%3]; gen_signal(D, 4, c, q); if (s == R_MODAL && kap < 0) for (unsigned i = 0; i < D; i++) q[i] *= 0.3;
                double e = (T[1]-T[0])/D, bw = 3.1416*dg/2/e, boxes[6][4] = {{-0.45*bw,0.5*bw,-1.2,1.3},{-0.8*bw,0.7*bw,-20,20},{0.05*bw,0.9*bw,-0.01,4},{-0.6*bw,0.9*bw,-INFINITY,INFINITY},{-INFINITY,INFINITY,-3,1},{-3*bw,INFINITY,-2,INFINITY}}; memcpy(cf.box, boxes[(c/2+v)%6], sizeof cf.box);
                for (int ev = 0; ev < 3; ev++) {
                    cf.loc = SUB; cf.Dsub = v == 3 && D > 2 ? 2 : v == 2 ? 0 : D; cf.ev = ev == 0 ? 0 : ev == 1 ? 3 : 40; 
                    if (mc_begin("subsampled: %s kappa=%d D=%u Dsub=%u code=%llu filter=%s variant=%d evaluations=%u", nse_name(d), kap, D, cf.Dsub, (unsigned long long)c, fname[f], v, cf.ev)) sub(&cf, D, q, T);
                }
                cf.loc = GRID; cf.pps = 2; cf.fl[0] = -1; cf.fl[1] = 1;
                if (mc_begin("grid search: %s kappa=%d D=%u code=%llu filter=%s variant=%d", nse_name(d), kap, D, (unsigned long long)c, fname[f], v)) grid(&cf, D, q, T);
                cf.loc = MIX; cf.Dsub = D;
                if (mc_begin("mixed: %s kappa=%d D=%u code=%llu filter=%s variant=%d", nse_name(d), kap, D, (unsigned long long)c, fname[f], v)) { sub(&cf, D, q, T); if (!mc_failed_this_case()) grid(&cf, D, q, T); }
            }
            if (dg && dg <= 8) for (unsigned D = 8; D <= (mc_thorough ? 64u : 16u); D *= 2) for (int sh = 0; sh < GEN_SHAPES; sh++) for (int f = 1; f < 3; f++) for (int v = 0; v < 4; v++) {
                if (dg*D > (mc_thorough ? 256u : 64u)) continue;
                if (!mc_thorough && (sh+f+v+d)%2) continue;
                const double *T = Ts[(sh+f)%3]; gen_shape(D, sh, T, q); if (s == R_MODAL && kap < 0) for (unsigned i = 0; i < D; i++) q[i] *= 0.3;
                Cfg cf = {.d=d, .loc = v == 3 ? MIX : SUB, .filt=f, .kappa=kap, .pps=v == 3 ? 2 : ppss[(sh+v)%4], .tol=-1, .phase=(sh%3-1)*0.9, .nf=v&1, .ev = v == 0 ? 0 : 50, .Dsub = v == 1 ? D/2 : v == 2 ? 0 : D}; memcpy(cf.fl, fls[v == 3 ? 0 : (sh+v)%4], sizeof cf.fl);
                double e = (T[1]-T[0])/D, bw = 3.1416*dg/2/e; cf.box[0] = -0.4*bw; cf.box[1] = 0.35*bw; cf.box[2] = -3; cf.box[3] = 2;
                if (mc_begin("shape: %s kappa=%d D=%u Dsub=%u shape=%d filter=%s variant=%d", nse_name(d), kap, D, cf.Dsub, sh, fname[f], v)) { sub(&cf, D, q, T); if (v == 3 && !mc_failed_this_case()) grid(&cf, D, q, T); }
            }
            if (!dg) for (unsigned D = 2; D <= 8; D *= 2) for (uint64_t c = 1; c < (D == 8 ? 4096 : gen_count(D, 4)); c++) for (int v = 0; v < 4; v++) {
                if (!mc_thorough && D > 2 && (c+d+v)%8) continue;
                if (D == 8 && (c+d+v)%(mc_thorough ? 64 : 256)) continue;
                Cfg cf = {.d=d, .loc=NEWT, .filt=v%2 ? NONE : MANUAL, .kappa=kap, .pps=ppss[(c+v)%4], .tol=v == 3 ? 1e-5 : -1, .phase=v == 0 ? 0 : v == 1 ? 1.3 : -2, .nf=(c>>1)&1, .ev=(c+v)%5 == 0 ? 0 : (c+v)%5 == 1 ? 3 : 50, .box={-6,6,-3,2}}; memcpy(cf.fl, fls[(c+v)%4], sizeof cf.fl);
                static const cplx gs[] = {0.3+0.5*I, -0.8+1.1*I, 2.4, 1.7+0.2*I, 3.1-0.5*I, -2.2};
                gen_signal(D, 4, D == 8 ? c*16+5 : c, q); const double *T = Ts[(c+v)%3];
                if (mc_begin("newton: %s kappa=%d D=%u code=%llu variant=%d", nse_name(d), kap, D, (unsigned long long)c, v)) newt(&cf, D, q, T, gs, 6);
            }
            if (dg && dg <= 24 && !sp_resamples(s)) for (unsigned D = 16; D <= (mc_thorough ? 64u : 32u); D *= 2) for (int a = 0; a < 3; a++) for (int v = 0; v < 3; v++) {
                static const double A[] = {0.4, 1.1, 1.7}, om[] = {0, 0.7, -1.9}, Ls[] = {1, 2.2, 1.5};
                if (dg*D > 256) continue; if (s == R_MODAL) continue; if (!mc_thorough && (D/16+a+v+d)%2) continue;
                if (mc_begin("plane wave: %s kappa=%d D=%u A=%g omega=%g", nse_name(d), kap, D, A[a], om[v])) wave(d, kap, D, A[a], om[v], Ls[(a+v)%3], v-0.6);
            }
        }
    }
}
