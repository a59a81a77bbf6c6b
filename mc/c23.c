/* The inverse NSE transform: round trip with the long double forward transform */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
const char *mc_rule = "one case = one supplied continuous spectrum (all sequences over small alphabets of impulse response / b coefficients, larger smooth and rough ones) x representation x inversion method x sign x discretization x interval x M x oversampling; the forward transform of the returned signal (long double reference) is compared with what was supplied; distinct = hash of the returned signal";
#define NUM(z) (double)creall(z), (double)cimagl(z)
#define MAXD 512
static const lreal PI_ = 3.14159265358979323846264338327950288L;
static const double Ts[5][2] = {{-1,1},{0,3},{-5,-2.5},{-0.1,0.25},{-40,50}};
static const int discs[2] = {fnft_nse_discretization_2SPLIT2A, fnft_nse_discretization_2SPLIT2_MODAL};
typedef struct { unsigned D, M, ovs; int kappa, d, ti, cs, meth; } Cfg;
enum { CRHO = fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT, CBXI = fnft_nsev_inverse_cstype_B_OF_XI, CTAU = fnft_nsev_inverse_cstype_B_OF_TAU };
enum { MDEF = fnft_nsev_inverse_csmethod_DEFAULT, MTF = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF, MIT = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER };
/* the frequencies the helper must return: the M points with e^{2 i xi eps} an M-th root of unity, in increasing order, the last one at -1 */
static lreal grid(const Cfg *c, unsigned k) { lreal eps = ((lreal)Ts[c->ti][1]-Ts[c->ti][0])/(c->D-1); return ((lreal)k - (c->M/2 - 1.0L))*PI_/(c->M*eps); }
/* a(xi) and e^{2 i xi T1} b(xi): polynomials in z = e^{2 i xi eps} of degree D and D-1 */
static void ab(const Cfg *c, const Prob *p, lreal th, lcplx *a, lcplx *b) { lcplx r[3]; lreal xi = th/(2*p->eps); r_contspec(p, Ts[c->ti], xi, r); *a = r[0]; *b = r[1]*cexpl(2*LI*xi*(lreal)Ts[c->ti][1]); }
static lcplx ev(unsigned n, const lcplx *co, lreal th) { lcplx z = cexpl(LI*th), s = 0; for (unsigned i = n; i-- > 0; ) s = s*z + co[i]; return s; }
/* expected relative error of the spectral factorization of 1 - kappa |b|^2 with N samples */
static double alias(unsigned n, const lcplx *co, int kappa, unsigned N, double *minmod) {
    *minmod = INFINITY; lreal mx = 0; for (unsigned k = 0; k < 64*n; k++) { lreal v = powl(cabsl(ev(n, co, 2*PI_*k/(64*n))), 2); *minmod = fmin(*minmod, (double)(1-kappa*v)); mx = fmaxl(mx, v); }
    if (n < 2 || mx < 1e-25L) return 0;
    unsigned lo = 0, hi = n-1; while (lo < hi && co[lo] == 0) lo++; while (hi > lo && co[hi] == 0) hi--; if (lo == hi) return 0;
    if (n > 64) return N >= 8*n && *minmod > 0.5 && mx < 1 ? 1e-10 : 1;
    static lcplx q[2*MAXD], z[2*MAXD]; unsigned m = hi-lo, d = 2*m;
    for (unsigned i = 0; i <= d; i++) q[i] = 0;
    for (unsigned i = 0; i <= m; i++) for (unsigned j = 0; j <= m; j++) q[d-(m+i-j)] -= kappa*co[lo+i]*conjl(co[lo+j]);
    q[m] += 1; r_roots(d, q, z);
    lreal rho = 0; for (unsigned i = 0; i < d; i++) { lreal r = cabsl(z[i]); if (r > 1) r = 1/r; rho = fmaxl(rho, r); }
    return (double)(8*n*powl(rho, N/2));
}
static int call(const Cfg *c, cplx *cs, cplx *q) {
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); double XI[2] = {NAN, NAN};
    o.discretization = c->d; o.contspec_type = c->cs; o.contspec_inversion_method = c->meth; o.oversampling_factor = c->ovs;
    int rc = fnft_nsev_inverse_XI(c->D, Ts[c->ti], c->M, XI, c->d); if (rc) { mc_fail("frequencies", "fnft_nsev_inverse_XI returned %d", rc); return 1; }
    for (int k = 0; k < 2; k++) { lreal x = grid(c, k ? c->M-1 : 0), e = fabsl(XI[k]-x)/(PI_/2*(c->D-1)/(Ts[c->ti][1]-Ts[c->ti][0])); mc_max("frequencies: error in eps of the band", (double)e/2.2e-16); if (!(e < 4e-15L)) { mc_fail("frequencies", "XI[%d] = %.17g instead of %.17g", k, XI[k], (double)x); return 1; } }
    for (unsigned i = 0; i < c->D; i++) q[i] = NAN;
    rc = fnft_nsev_inverse(c->M, cs, c->cs == CTAU ? NULL : XI, 0, NULL, NULL, c->D, q, Ts[c->ti], c->kappa, &o);
    if (rc) { mc_fail("status", "returned %d", rc); return 1; }
    for (unsigned i = 0; i < c->D; i++) if (!(cabs(q[i]) < INFINITY)) { mc_fail("finite", "q[%u] = %g%+gi", i, NUM(q[i])); return 1; }
    mc_outcome(mc_hash_d((double*)q, 2*c->D, 1)); return 0;
}
static Prob prob(const Cfg *c, const cplx *q) { return (Prob){.type='N', .kappa=c->kappa, .s=r_from_nse(c->d), .D=c->D, .eps=((lreal)Ts[c->ti][1]-Ts[c->ti][0])/(c->D-1), .q1=q}; }
static int winding(const Cfg *c, const Prob *p) {
    lcplx a, b, pr = 0; lreal w = 0; unsigned N = (c->D > 16 ? 16 : 64)*c->D;
    for (unsigned k = 0; k <= N; k++) { ab(c, p, 2*PI_*k/N, &a, &b); if (k) w += cargl(a/pr); pr = a; }
    return (int)roundl(w/(2*PI_));
}
/* b given by its D coefficients; returned signal must have this b and an a without zeros in the upper half plane */
static void given_b(const Cfg *c, const lcplx *co) {
    static cplx cs[64*MAXD], q[MAXD]; unsigned D = c->D; double mm; lreal nb = 0; for (unsigned i = 0; i < D; i++) nb += cabsl(co[i]);
    double al = alias(D, co, c->kappa, c->cs == CTAU ? D*c->ovs : (D+1)*c->ovs, &mm);
    if (mm < 0.05) { mc_count("|b| too close to 1", 1); return; }
    if (al > 1e-3) { mc_count("not enough oversampling to judge", 1); return; }
    lreal T1 = Ts[c->ti][1], eps = ((lreal)T1-Ts[c->ti][0])/(D-1);
    if (c->cs == CTAU) for (unsigned j = 0; j < D; j++) cs[j] = co[D-1-j]/(2*eps)*(j == 0 || j == D-1 ? 2 : 1);
    else for (unsigned k = 0; k < c->M; k++) { lreal xi = grid(c, k); cs[k] = ev(D, co, 2*xi*eps)*cexpl(-2*LI*xi*T1); }
    if (call(c, cs, q)) return;
    Prob p = prob(c, q); r_prepare(&p); lreal err = 0, mb = 0, ma = 0;
    lreal X = PI_/(2*eps)*fmaxl(fabsl(T1), fabsl(Ts[c->ti][0]));   /* phases are computed with this rounding error */
    for (unsigned k = 0; k < 2*D; k++) { lcplx a, b; lreal th = 2*PI_*k/(2*D) - PI_ + 0.1L; ab(c, &p, th, &a, &b); lcplx w = ev(D, co, th); err = fmaxl(err, cabsl(b-w)); mb = fmaxl(mb, cabsl(w)); ma = fmaxl(ma, cabsl(a)); }
    double tol = (al*10 + 1e-13*(D+8) + 4e-16*(double)X)*(double)(powl(1+mb, 2)*10/powl(mm, 1));
    mc_max("b: error in tolerances", (double)err/tol); mc_max("b: error", (double)err); mc_count("spectra judged", 1);
    if (!(err <= tol)) mc_fail("round trip", "b of the returned signal differs from the supplied one by %.3g (accuracy %.3g, largest |b| %.3g)", (double)err, tol, (double)mb);
    else { int w = winding(c, &p); if (w) mc_fail("minimum phase", "a has %d zeros in the upper half plane", w); }
    r_free(&p);
}
/* reflection coefficient given by M coefficients r_k: the first D ones of the returned signal must be these */
static void given_rho(const Cfg *c, unsigned n, const lcplx *r) {
    static cplx cs[64*MAXD], q[MAXD]; unsigned D = c->D; lreal T1 = Ts[c->ti][1], eps = (T1-Ts[c->ti][0])/(D-1), s1 = 0, mr = 0;
    if (n > c->M) n = c->M;
    for (unsigned i = 0; i < n; i++) s1 += cabsl(r[i]);
    for (unsigned k = 0; k < c->M; k++) { lreal xi = grid(c, k); cs[k] = ev(n, r, 2*xi*eps)*cexpl(-2*LI*xi*T1); mr = fmaxl(mr, cabsl(cs[k])); }
    if (c->kappa < 0 && s1 > 0.95L) { mc_count("possibly not below one", 1); return; }
    if (c->meth == MIT && (D-1)*s1*s1 > 2) { mc_count("too strong for the iteration", 1); return; }
    if (call(c, cs, q)) return;
    Prob p = prob(c, q); r_prepare(&p);
    lreal X = PI_/(2*eps)*fmaxl(fabsl(T1), fabsl(Ts[c->ti][0]));
    if (c->meth == MIT) {
        lreal err = 0; for (unsigned k = 0; k < D; k++) { lcplx a, b; lreal th = 2*grid(c, k)*eps; ab(c, &p, th, &a, &b); err = fmaxl(err, cabsl(b/a - ev(n, r, th))); }
        /* the iteration may stop early for strong signals (correction not decreasing monotonically) */ double tol = s1 < 0.45L ? 1e-9 : 1e-2; tol += 1e-13*(D+8) + 4e-16*(double)X; { char nm[40]; snprintf(nm, sizeof nm, "iteration: error for size %.1f", floor((double)s1*10)/10); mc_max(nm, (double)err); } mc_count("spectra judged", 1);
        if (!(err <= tol)) mc_fail("round trip", "reflection coefficient of the returned signal differs from the supplied one by %.3g (accuracy %.3g)", (double)err, tol);
        else { int w = winding(c, &p); if (w) mc_fail("minimum phase", "a has %d zeros in the upper half plane", w); }
    } else {
        static lcplx va[2*MAXD+2], vb[2*MAXD+2], pa[MAXD+1], pb[MAXD+1], f[MAXD+1], w[2*MAXD+2]; unsigned N = 2*D; lreal err = 0, mf = 0, na = 0;
        for (unsigned k = 0; k < N; k++) { ab(c, &p, 2*PI_*k/N - (k > N/2 ? 2*PI_ : 0), va+k, vb+k); w[k] = cexpl(-2*PI_*LI*k/N); }
        for (unsigned j = 0; j <= D; j++) { lcplx sa = 0, sb = 0; for (unsigned k = 0; k < N; k++) { sa += va[k]*w[(uint64_t)j*k % N]; sb += vb[k]*w[(uint64_t)j*k % N]; } pa[j] = sa/N; pb[j] = sb/N; na += cabsl(pa[j]); }
        unsigned at = 0; for (unsigned k = 0; k < D; k++) { f[k] = pb[k]; for (unsigned j = 1; j <= k; j++) f[k] -= pa[j]*f[k-j]; f[k] /= pa[0]; lcplx want = k < n ? r[k] : 0; if (cabsl(f[k]-want) > err) err = cabsl(f[k]-want), at = k; mf = fmaxl(mf, cabsl(f[k])); }
        double gr = (double)(na/cabsl(pa[0])), tol = (1e-13*(D+8) + 4e-16*(double)X)*gr*(1+(double)s1)*10;
        mc_max("rho: error in tolerances", (double)err/tol); mc_max("rho: error", (double)err); mc_max("growth", gr); mc_count("spectra judged", 1);
        if (!(tol < 1e-3)) mc_count("ill-conditioned", 1);
        else if (!(err <= tol)) mc_fail("round trip", "impulse response of the returned signal at %u is %.12g%+.12gi instead of %.12g%+.12gi (accuracy %.3g)", at, NUM(f[at]), NUM(at < n ? r[at] : 0), tol);
    }
    r_free(&p);
}
static const char *csn(const Cfg *c) { return c->cs == CTAU ? "B(tau)" : c->cs == CBXI ? "b(xi)" : c->meth == MIT ? "rho, iterative" : c->meth == MTF ? "rho, polynomial" : "rho, default"; }
static void any(Cfg c, unsigned n, const lcplx *co, const char *what, unsigned long code) {
    if (!mc_begin("%s %s D=%u M=%u T=[%g,%g] kappa=%d oversampling=%u %s code=%lu", csn(&c), c.d == discs[0] ? "2SPLIT2A" : "MODAL", c.D, c.M, Ts[c.ti][0], Ts[c.ti][1], c.kappa, c.ovs, what, code)) return;
    if (c.cs == CRHO) given_rho(&c, n, co); else given_b(&c, co);
}
static const lcplx al[7] = {0, 0.2, -0.15-0.1*_Complex_I, 0.3*_Complex_I, -0.05, 0.4-0.2*_Complex_I, 1.1};
static void kinds(unsigned D, unsigned n, const lcplx *co, const char *what, unsigned long code, int ti, int few) {
    unsigned Ms[8], nm = 0; Ms[nm++] = D; if (D > 2 || !few) Ms[nm++] = D+2; Ms[nm++] = 2*D; if (!few) { Ms[nm++] = 3*D+2; Ms[nm++] = 4*D; Ms[nm++] = 16*D; }
    for (int kappa = -1; kappa <= 1; kappa += 2) for (int di = 0; di < 2; di++) {
        for (unsigned mi = 0; mi < nm; mi++) {
            Cfg c = {D, Ms[mi], 8, kappa, discs[di], ti, CBXI, MDEF};
            static const unsigned ov[4] = {8, 32, 3, 1};
            for (int o = 0; o < (mi == 0 || !few ? 4 : 1); o++) { c.ovs = ov[o]; any(c, D, co, what, code); }
            c.ovs = 8; c.cs = CRHO; c.meth = MDEF; any(c, n, co, what, code); if (mi == 0 || !few) { c.meth = MTF; any(c, n, co, what, code); }
            if (c.M == D && kappa < 0) { c.meth = MIT; any(c, D < n ? D : n, co, what, code); }
            if (c.M == D && Ts[ti][0] == -Ts[ti][1]) { c.cs = CTAU; c.meth = MDEF; for (int o = 0; o < 3; o++) { c.ovs = ov[o]; any(c, D, co, what, code); } }
        }
    }
}
void explore(void) {
    mc_quiet(); static lcplx co[64*MAXD];
    for (int ti = 0; ti < 5; ti++) for (int m = 1; m <= 40; m++) for (unsigned D = 2; D <= 33; D += D < 6 ? 1 : 9) {
        Cfg c = {D, m*2, 8, 1, discs[m & 1], ti};
        if (mc_begin("frequencies T=[%g,%g] D=%u M=%u", Ts[ti][0], Ts[ti][1], D, c.M)) {
            double XI[2] = {NAN,NAN}; int rc = fnft_nsev_inverse_XI(D, Ts[ti], c.M, XI, c.d); if (rc) mc_fail("frequencies", "returned %d", rc);
            for (int k = 0; k < 2; k++) { lreal x = grid(&c, k ? c.M-1 : 0), e = fabsl(XI[k]-x)/(PI_/2*(D-1)/(Ts[ti][1]-Ts[ti][0])); if (!(e < 4e-15L)) mc_fail("frequencies", "XI[%d] = %.17g instead of %.17g", k, XI[k], (double)x); }
            mc_outcome(mc_hash_d(XI, 2, m));
        }
    }
    for (unsigned code = 0; code < 49; code++) { co[0] = al[code%7]; co[1] = al[code/7]; for (int ti = 0; ti < 5; ti++) kinds(2, 2, co, "values", code, ti, 0); }
    unsigned k4 = mc_thorough ? 6 : 4, n4 = (unsigned)pow(k4, 4);
    for (unsigned code = 0; code < n4; code++) { unsigned x = code; for (int i = 0; i < 4; i++) { co[i] = al[x%k4]; x /= k4; } kinds(4, 4, co, "values", code, code%5, !mc_thorough); if (mc_thorough) kinds(4, 4, co, "values", code, (code+2)%5, 0); }
    unsigned n8 = mc_thorough ? 6561 : 256, k8 = mc_thorough ? 3 : 2;
    for (unsigned code = 0; code < n8; code++) { unsigned x = code; for (int i = 0; i < 8; i++) { co[i] = al[2*(x%k8)]; x /= k8; } kinds(8, 8, co, "values", code, code%3 ? 0 : 4, 1); }
    for (unsigned D = 4; D <= (mc_thorough ? 256u : 64u); D *= 2) for (int sh = 0; sh < 6; sh++) for (int amp = 0; amp < 4; amp++) for (int ti = 0; ti < 5; ti++) {
        if (D > 16 && !mc_thorough && ti != (sh+amp)%5 && (ti || sh > 2)) continue;
        unsigned n = 4*D; lreal A[4] = {0.05L, 0.3L, 0.8L, 2}; lreal s = 0;
        for (unsigned i = 0; i < n; i++) { lreal x = (i + 0.5L)/D;
            co[i] = sh == 0 ? expl(-8*x)*cexpl(LI*3*x) : sh == 1 ? expl(-25*powl(x-0.45L, 2)) : sh == 2 ? (((i*7+3)%5) - 2 + LI*((i*5+1)%7) - 3*LI)*(i < D) : sh == 3 ? i == D-1 : sh == 4 ? i == 0 : cosl(3*x)*cexpl(LI*x*x)*expl(-2*x); s += cabsl(co[i]); }
        for (unsigned i = 0; i < n; i++) co[i] *= A[amp]/s;
        char nm[24]; snprintf(nm, sizeof nm, "shape %d.%d", sh, amp); kinds(D, n, co, nm, 0, ti, D > 16);
    }
}
