/* KdV bound states, norming constants and residues against the zeros of the long double reference on the imaginary axis */
#include "ref.h"
#include "gen.h"
#include <stdarg.h>
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one potential x discretization x grid spacing (or list of initial guesses and number of iterations) x normalization; all three representations of the discrete spectrum are computed; the list is compared with all zeros of the long double reference on the positive imaginary axis (bracketed on a grid eight times finer, bisected), norming constants and residues with b and b/a' there; for user supplied guesses the Newton iteration is replayed on the reference; distinct = hash of the results";
#define MAXK 64
static int nop(const char *f, ...) { return 0; }
static const int dsts[3] = {fnft_kdvv_dstype_NORMING_CONSTANTS, fnft_kdvv_dstype_RESIDUES, fnft_kdvv_dstype_BOTH};
static int run(int d, int loc, int nf, int dst, unsigned niter, double gs, int M, unsigned D, cplx *q, const double *T, cplx *bs, size_t *K, cplx *nc) {
    fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); double XI[2] = {0.5,1}; cplx cs[16];
    o.discretization = d; o.bound_state_localization = loc; o.normalization_flag = nf; o.discspec_type = dst; o.niter = niter; o.grid_spacing = gs;
    if (nc) for (unsigned i = 0; i < 2*MAXK; i++) nc[i] = NAN;
    return fnft_kdvv(D, q, T, M, M ? cs : NULL, XI, K, bs, nc, &o);
}
typedef struct { lreal eta, tol; int clear; } Zero;
static lreal ra(const Prob *p, const double *T, lreal e) { return creall(sp_a(p, T, LI*e)); }
static int realaxis(rscheme s, unsigned D) { return !(s == R_CF53 || s == R_CF64 || (D%2 == 0 && sp_resamples(s))); }
/* all sign changes below top */
static unsigned zeros(const Prob *p, const double *T, lreal top, lreal step, Zero *z, unsigned max) {
    unsigned n = 0; lreal lo = step*1e-3L, pv = ra(p, T, lo), pe = lo;
    for (lreal e = lo + step; n < max; e += step) {
        lreal v = ra(p, T, e);
        if (pv*v <= 0 && (v != 0 || pv != 0)) {
            lreal a = pe, b = e; for (int k = 0; k < 66; k++) { lreal m = (a+b)/2; if (ra(p, T, m)*pv > 0) a = m; else b = m; }
            double g; r_total_norm(p, LI*a, &g); g *= (1 + 2*a)*(1 + 0.5L/a); lreal da = cabsl(cimagl(sp_da(p, T, LI*a)));
            z[n].eta = a; z[n].tol = 1e-13L + 2e-14L*g*(p->D+4)*expl(-a*(T[1]-T[0]+p->eps))/da; z[n].clear = z[n].tol < 1e-6L; n++;
        }
        pv = v; pe = e; if (e > top) break;
    }
    return n;
}
static void normc(const Prob *p, const double *T, int d, unsigned D, const cplx *q, const cplx *bs, const cplx *nc, size_t n) {
    unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
    if (p->s == R_BO && p->type == 'k' && nz <= 1) { mc_count("b not compared: see C36", 1); return; }
    double top = 0; for (unsigned i = 0; i < D; i++) top = fmax(top, sqrt(fmax(0, creal(q[i]))));
    for (size_t i = 0; i < n; i++) {
        /* guesses that ran away are reported where they left the region of bound states */
        if (!(cimag(bs[i]) > 1e-4) || cimag(bs[i]) > 3*top) { mc_count("outside the region of bound states", 1); continue; }
        lcplx x = bs[i], da = LI*cimagl(sp_da(p, T, x)), quo = (lcplx)nc[i]/nc[n+i]; double g; r_total_norm(p, x, &g);
        g *= (1 + 2*cabs(bs[i]))*(1 + 0.5/cabs(bs[i]));
        double ex = cabsl(cexpl(LI*x*(T[1]-T[0]+p->eps))), Lt = T[1]-T[0]+p->eps + fabs(T[0]) + fabs(T[1]) + 1/cabs(bs[i]), eda = 2e-14*g*ex*(D+4)*(1+Lt);
        if (!(eda < 1e-4*cabsl(da))) { mc_count("ill-conditioned", 1); continue; }
        double e = cabsl(quo-da)/cabsl(da), te = 1e-11*(1 + 1/cabs(bs[i])) + eda/cabsl(da); mc_max("derivative", e/te); mc_count("residues compared", 1);
        if (!(e <= te)) { mc_fail("residue", "%zu at %.12gi: norming constant over residue is %.12g%+.12gi, a' is %.12g%+.12gi", i, cimag(bs[i]), creal((cplx)quo), cimag((cplx)quo), creal((cplx)da), cimag((cplx)da)); return; }
        if (!realaxis(p->s, D)) { mc_count("a not real on the axis: b not compared", 1); continue; }
        lcplx a = sp_a(p, T, x); double acc = 1e-13*cabsl(da) + 1e-14*g*ex*(D+4);
        if (cabsl(a) > 4*acc) { mc_count("not at a zero", 1); continue; }
        lcplx b = creall(sp_b(p, T, x - a/da)); double tb = 1e-13*(D+4)*g*(1+cabsl(da))*fmax(1, cabsl(b));
        if (tb > 0.01*cabsl(b)) { mc_count("ill-conditioned", 1); continue; }
        e = cabsl(nc[i]-b); mc_max("b", e/tb); mc_count("norming constants compared", 1);
        if (!(e <= tb)) { mc_fail("norming constant", "%zu at %.12gi: got %.12g%+.12gi expected %.12g", i, cimag(bs[i]), creal(nc[i]), cimag(nc[i]), (double)creall(b)); return; }
    }
}
static int three(int d, int loc, int nf, unsigned niter, double gs, unsigned D, cplx *q, const double *T, const cplx *g, unsigned ng, cplx bs[3][MAXK], cplx nc[3][2*MAXK], size_t *n) {
    size_t K;
    for (int k = 0; k < 3; k++) {
        K = ng ? ng : MAXK; for (unsigned i = 0; i < MAXK; i++) bs[k][i] = i < ng ? g[i] : NAN;
        int rc = run(d, loc, nf, dsts[k], niter, gs, (int)(D+d+k)%3 == 0 ? 3 : 0, D, q, T, bs[k], &K, nc[k]);
        if (rc) { char ty; rscheme s = r_from_kdv(d, &ty); 
            /* user supplied guesses may run away to where a' underflows */
            if (ng && k && abs(rc) == FNFT_EC_DIV_BY_ZERO) mc_count("refused: a' underflowed far away", 1);
            else if (D > 2 || !sp_resamples(s)) mc_fail("status", "returned %d", rc);
            return 0; }
        if (k == 0) *n = K; else if (K != *n) { mc_fail("representations", "%zu bound states instead of %zu", K, *n); return 0; }
    }
    size_t m = *n; mc_outcome(mc_hash_d((double*)bs[0], 2*m, mc_hash_d((double*)nc[2], 4*m, m)));
    for (size_t i = 0; i < m; i++) {
        if (bs[1][i] != bs[0][i] || bs[2][i] != bs[0][i]) { mc_fail("representations", "bound state %zu differs", i); return 0; }
        if (nc[2][i] != nc[0][i] && isfinite(cabs(nc[0][i]))) { mc_fail("representations", "norming constant %zu differs", i); return 0; }
        if (nc[2][m+i] != nc[1][i] && isfinite(cabs(nc[1][i]))) { mc_fail("representations", "residue %zu differs", i); return 0; }
    }
    return 1;
}
static void grid_(int d, int nf, double gs, unsigned D, cplx *q, const double *T, int fine);
static void grid(int d, int nf, double gs, unsigned D, cplx *q, const double *T) { grid_(d, nf, gs, D, q, T, 8); }
static void grid_(int d, int nf, double gs, unsigned D, cplx *q, const double *T, int fine) {
    static cplx bs[3][MAXK], nc[3][2*MAXK]; size_t n; char ty; rscheme s = r_from_kdv(d, &ty);
    if (!three(d, fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE, nf, 40, gs, D, q, T, NULL, 0, bs, nc, &n)) return;
    Prob p = {.type=ty, .kappa=1, .s=sp_refine(s), .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p);
    lreal top = 0; for (unsigned i = 0; i < D; i++) top = fmaxl(top, creal(q[i]));
    if (top <= 0) { if (n && !sp_resamples(s)) mc_fail("genuine", "%zu bound states of a potential that is nowhere positive", n); r_free(&p); return; }
    Zero z[MAXK]; unsigned nz = zeros(&p, T, 1.5L*sqrtl(top)+0.1L, gs/fine, z, MAXK); int sep = 1;
    for (unsigned i = 0; i < nz; i++) {
        if (i && z[i].eta - z[i-1].eta < 1.01L*gs) sep = 0;
        mc_count("zeros on the imaginary axis", 1);
    }
    for (size_t i = 0; i < n; i++) {
        if (creal(bs[0][i]) != 0 || !(cimag(bs[0][i]) > 0)) { mc_fail("genuine", "bound state %zu = %.12g%+.12gi is not on the positive imaginary axis", i, creal(bs[0][i]), cimag(bs[0][i])); goto end; }
        double best = INFINITY; unsigned m = 0; for (unsigned k = 0; k < nz; k++) { double e = fabsl(z[k].eta - cimag(bs[0][i])); if (e < best) { best = e; m = k; } }
        int ok = best <= (nz ? (double)z[m].tol*4 : 0); if (best < 1e-3) mc_max("distance to zero", best/(double)z[m].tol);
        if (!ok) { lreal e = cimag(bs[0][i]), a = ra(&p, T, e), da = cimagl(sp_da(&p, T, LI*e)); double g; r_total_norm(&p, LI*e, &g); g *= (1+2*e)*(1+0.5L/e);
            ok = fabsl(a) <= 1e-13L*fabsl(da) + 4e-14L*g*(D+4)*expl(-e*(T[1]-T[0]+p.eps)); }
        if (!ok) { mc_fail("genuine", "bound state %zu = %.12gi is %.3g away from the nearest zero", i, cimag(bs[0][i]), best); goto end; }
        if (sep && i && !(cimag(bs[0][i]) > cimag(bs[0][i-1]))) { if (fine < 100) { r_free(&p); grid_(d, nf, gs, D, q, T, 400); return; }
            mc_fail("order", "bound state %zu = %.12gi comes after %.12gi", i, cimag(bs[0][i]), cimag(bs[0][i-1])); goto end; }
    }
    if (sep) for (unsigned k = 0; k < nz; k++) if (z[k].clear) { unsigned c = 0; for (size_t i = 0; i < n; i++) c += fabsl(z[k].eta - cimag(bs[0][i])) <= 4*z[k].tol + 1e-9L; 
        if (c != 1) { if (fine < 100) { r_free(&p); grid_(d, nf, gs, D, q, T, 400); return; } /* a pair of zeros close to each other may have been overlooked */
            mc_fail(c ? "distinct" : "complete", "zero %.12gi reported %u times (%zu reported, grid spacing %g)", (double)z[k].eta, c, n, gs); goto end; } }
    if (!sep) mc_count("zeros closer than the grid spacing", 1);
    normc(&p, T, d, D, q, bs[0], nc[2], n);
end: r_free(&p);
}
static void newton(int d, int nf, unsigned niter, unsigned D, cplx *q, const double *T, const cplx *g, unsigned ng) {
    static cplx bs[3][MAXK], nc[3][2*MAXK]; size_t n; char ty; rscheme s = r_from_kdv(d, &ty);
    lreal top = 0; for (unsigned i = 0; i < D; i++) top = fmaxl(top, creal(q[i]));
    if (!three(d, fnft_kdvv_bsloc_NEWTON, nf, niter, 0.1, D, q, T, g, ng, bs, nc, &n)) return;
    if (top <= 0) return;

    if (n != ng) { if (!sp_resamples(s)) mc_fail("complete", "%zu bound states for %u guesses", n, ng); return; }
    Prob p = {.type=ty, .kappa=1, .s=sp_refine(s), .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p);
    for (unsigned i = 0; i < ng; i++) {
        lreal x = cimag(g[i]), y = x + 1e-9L, sens = 1, acc = 1e-13L; int clear = 1, yc = 0; unsigned it;
        for (it = 0; it < niter && it < 25; it++) {
            lreal a = ra(&p, T, x), da = cimagl(sp_da(&p, T, LI*x)); double gr; r_total_norm(&p, LI*x, &gr); gr *= (1+2*x)*(1+0.5L/x);
            if (fabsl(da) < 1e-7L*(1+fabsl(a))) { clear = 0; break; }
            acc = fmaxl(acc, 2e-15L*gr*(D+4)*expl(-x*(T[1]-T[0]+p.eps))/fabsl(da)*(1 + fabsl(a/da)*(1+T[1]-T[0]+fabsl(T[0])+1/x)));
            lreal st = a/da; x += st;                 /* lambda -= a/(i Im a') */
            if (!yc) { lreal sy = ra(&p, T, y)/cimagl(sp_da(&p, T, LI*y)); y += sy; if (fabsl(y-x) < 1e-13L) yc = 1; else sens = fmaxl(sens, fabsl(y-x)/1e-9L); }
            if (!(sens < 1e3L) || acc > 1e-7L) { clear = 0; break; }
            if (fabsl(st) < 3e-14L) break;
            /* the iteration stops at the border of the region where bound states can be */
            if (x < 0.02L || x > 0.98L*sqrtl(top)*(sp_resamples(p.s) ? 0.8L : 1)) { clear = niter <= it+1; break; }
        }
        if (it >= 25) clear = 0;
        if (!clear) { mc_count("unclear paths", 1); continue; }
        double e = fabsl(x - cimag(bs[0][i])), tol = acc*sens*4; mc_max("distance to Newton iterate", e/tol); mc_count("clear paths", 1);
        if (!(e <= tol) || creal(bs[0][i]) != 0) { mc_fail("newton", "guess %.12gi leads to %.12g%+.12gi, expected %.12gi (%u iterations)", cimag(g[i]), creal(bs[0][i]), cimag(bs[0][i]), (double)x, niter); break; }
    }
    if (!mc_failed_this_case()) normc(&p, T, d, D, q, bs[0], nc[2], n);
    r_free(&p);
}
void explore(void) {
    static const double Ts[4][2] = {{-1,1},{0.3,1.9},{-7,-4.5},{-3,4}}, gss[3] = {0.02, 0.1, 0.25};
    cplx q[256], g[8]; fnft_errwarn_setprintf((void*)nop);
    for (int d = 0; d < N_KDV; d++) {
        for (unsigned D = 2; D <= (mc_thorough ? 6u : 5u); D++) for (uint64_t c = 1; c < gen_count(D, 4); c++) for (int w = 0; w < 4; w++) {
            if (!mc_thorough && ((D == 5 && (c+d+w)%24) || (D == 4 && (c+d+w)%6))) continue;
            if (D == 6 && (c+d+w)%16) continue;
            if (!mc_begin("word: %s D=%u code=%llu interval=%d", kdv_name(d), D, (unsigned long long)c, w)) continue;
            gen_signal_real(D, 4, c, q); 
            grid(d, c&1, gss[(c+w)%3], D, q, Ts[w]);
            if (mc_failed_this_case()) continue;
            double top = 0; for (unsigned i = 0; i < D; i++) top = fmax(top, creal(q[i]));
            if (top <= 0) continue;
            for (int k = 0; k < 4; k++) g[k] = I*sqrt(top)*(0.1 + 0.23*k);
            newton(d, c>>1&1, (c+d)%3 == 0 ? 30 : (c+d)%3, D, q, Ts[w], g, 4);
        }
        for (unsigned D = 8; D <= (mc_thorough ? 64u : 32u); D += mc_thorough ? 7 : 12) for (int a = 0; a < 3; a++) for (int v = 0; v < 3; v++) {
            if (!mc_begin("pulse: %s D=%u A=%d shift=%d", kdv_name(d), D, a, v)) continue;
            double A[] = {0.9, 2.2, 3.6}, sh = v == 0 ? 0 : v == 1 ? 0.4 : -0.7, T[2] = {v == 2 ? -6 : -5, v == 1 ? 4.5 : 5};
            for (unsigned i = 0; i < D; i++) { double t = T[0]+(T[1]-T[0])*i/(D-1); q[i] = A[a]*(A[a]+1)/(cosh(t-sh)*cosh(t-sh)) - (v == 2 ? 0.3*exp(-(t-1)*(t-1)) : 0); }
            grid(d, (D+v)&1, gss[(a+v+D)%3], D, q, T);
            if (mc_failed_this_case()) continue;
            unsigned n = 0; for (int k = 0; k < 4 && A[a]-k > 0.1; k++) g[n++] = I*(A[a]-k)*(v == 1 ? 1.03 : 0.97);
            if (v == 2) g[n++] = g[0]*1.01;
            newton(d, v&1, 40, D, q, T, g, n);
        }
    }
}
