/* Fast inverse scattering: nse/kdv_finvscatter applied to the transfer matrix
 * of known samples has to return these samples.  The transfer matrices are
 * built here, in long double, from the definition of the discretization, and a
 * second time by the library's own fast scattering. */
#include "ref.h"
#include "gen.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__kdv_finvscatter.h"
const char *mc_rule = "one case = one word of samples x discretization x sign x step size; the transfer matrix comes from the reference model and from the library; non-trivial = inverse scattering succeeded; distinct = hash of the recovered samples";
#define MAXD 256
/* transfer matrix polynomials [z^0..z^D] of the product of (1/s)[1 Qz; R z], first column exact in long double */
typedef struct { lcplx c[4][MAXD+1]; } Poly;
static Poly A, Bp;
static void build(unsigned D, const lcplx *Q, const lcplx *R, const lcplx *scl) {
    memset(&A, 0, sizeof A); A.c[0][0] = A.c[3][0] = 1;
    for (unsigned n = 0; n < D; n++) {
        memset(&Bp, 0, sizeof Bp);
        for (unsigned k = 0; k <= n+1; k++) for (int col = 0; col < 2; col++) {
            lcplx up = k <= n ? A.c[col][k] : 0, lo = k ? A.c[2+col][k-1] : 0;     /* z times lower row */
            lcplx lo0 = lo;
            Bp.c[col][k] = scl[n]*(up + Q[n]*lo0);
            Bp.c[2+col][k] = scl[n]*(R[n]*up + lo0);
        }
        A = Bp;
    }
}
static int recover(int kdv, int d, unsigned D, cplx *tm, cplx *q, double eps, int kappa) {
    return kdv ? fnft__kdv_finvscatter(D, tm, q, eps, d) : fnft__nse_finvscatter(D, tm, q, eps, kappa, d);
}
static int exact_too;
static void one(int kdv, int d, int kappa, unsigned D, const cplx *s, double eps) {
    char ty = 'N';
    rscheme sch = kdv ? r_from_kdv(d, &ty) : r_from_nse(d);
    lcplx Q[MAXD], R[MAXD], sc[MAXD];
    double cond = 1, qmax = 0;
    for (unsigned n = 0; n < D; n++) {
        lcplx q = s[n], r = kdv ? -1 : -kappa*conjl(q);
        lreal e = eps;
        if (cabs(s[n]) > qmax) qmax = cabs(s[n]);
        if (sch == R_MODAL) { Q[n] = e*q; R[n] = e*r; sc[n] = 1/csqrtl(1 - Q[n]*R[n]); }
        else { lcplx x = csqrtl(q*r), t = x == 0 ? e : ctanhl(x*e)/x; Q[n] = q*t; R[n] = r*t; sc[n] = ccoshl(x*e); }
        double m = fmax(cabs((cplx)Q[n]), cabs((cplx)R[n]));
        lcplx den = 1 - Q[n]*R[n];
        cond *= (1 + m)*(1 + m)/cabs((cplx)den);
        if (cabs((cplx)den) < 0.02 || (!kdv && kappa == -1 && m > 0.98) || (!kdv && kappa == 1 && sch == R_2A && cabs(s[n])*eps > 1.5)) { mc_count("inadmissible samples", 1); return; }
    }
    if (cond > 1e9) { mc_count("ill conditioned", 1); return; }
    build(D, Q, R, sc);
    cplx *tm = malloc(4*(D+1)*sizeof *tm), *keep = malloc(4*(D+1)*sizeof *tm), *res = malloc(D*sizeof *res);
    for (int e = 0; e < 4; e++) for (unsigned k = 0; k <= D; k++) keep[e*(D+1) + (D-k)] = A.c[e][k];
    double tol = 1e-14*D*cond/eps;
    for (int src = 0; src < 3; src++) {
        memcpy(tm, keep, 4*(D+1)*sizeof *tm);
        if (src == 1) for (unsigned i = 0; i < 4*(D+1); i++) tm[i] = ldexp(creal(tm[i]), -9) + I*ldexp(cimag(tm[i]), -9);  /* normalized matrix */
        cplx *use = tm; cplx *lib = NULL;
        if (src == 2) {  /* the library's own forward scattering */
            size_t deg, nn = kdv ? fnft__kdv_fscatter_numel(D, d) : fnft__nse_fscatter_numel(D, d);
            lib = malloc(nn*sizeof *lib);
            cplx qq[MAXD], rr[MAXD];
            for (unsigned n = 0; n < D; n++) {  /* KdV: the routine recovers the second argument of kdv_fscatter, the first one being -1 */
                qq[n] = kdv ? -1 : s[n]; rr[n] = kdv ? s[n] : -kappa*conj(s[n]);
            }
            int rc = kdv ? fnft__kdv_fscatter(D, qq, rr, eps, 1, lib, &deg, NULL, d) : fnft__nse_fscatter(D, qq, rr, eps, lib, &deg, NULL, d);
            if (rc || deg != D) { mc_fail("forward", "rc %d degree %zu", rc, deg); free(lib); break; }
            use = lib;
        }
        for (unsigned i = 0; i < D; i++) res[i] = NAN;
        int rc = recover(kdv, d, D, use, res, eps, kappa);
        free(lib);
        if (rc) { mc_fail("status", "returned %d (source %d)", rc, src); continue; }
        mc_outcome(mc_hash_d((double*)res, 2*D, src));
        double er = 0; unsigned at = 0;
        for (unsigned i = 0; i < D; i++) { double e = cabs(res[i] - s[i]); if (!(e <= er)) { er = e; at = i; } }
        if (kdv && sch == R_2A) {
            /* exactness is checked separately: see the two clauses */
            double second = tol + 2*eps*eps*(1 + qmax)*qmax*qmax*(1 + D*eps);
            mc_max("kdv 2SPLIT2A vs second order", er/second);
            if (!(er <= second)) mc_fail("second order", "source %d sample %u: got %.12g%+.12gi, expected %.12g%+.12gi", src, at, creal(res[at]), cimag(res[at]), creal(s[at]), cimag(s[at]));
            else if (!(er <= tol) && exact_too) mc_fail("exact", "source %d sample %u: got %.12g%+.12gi, expected %.12g%+.12gi", src, at, creal(res[at]), cimag(res[at]), creal(s[at]), cimag(s[at]));
            continue;
        }
        mc_max(kdv ? "kdv" : "nse", er/tol);
        if (!(er <= tol)) mc_fail("samples", "source %d sample %u: got %.12g%+.12gi, expected %.12g%+.12gi", src, at, creal(res[at]), cimag(res[at]), creal(s[at]), cimag(s[at]));
    }
    free(tm); free(keep); free(res);
}
static int supported(int kdv, int d) { char ty; rscheme s = kdv ? r_from_kdv(d, &ty) : r_from_nse(d); return (s == R_MODAL || s == R_2A) && (!kdv || ty == 'k'); }
void explore(void) {
    static const double epss[] = {0.12, 0.31, 0.6};
    cplx s[MAXD];
    for (int kdv = 0; kdv <= 1; kdv++) {
        int nd = kdv ? N_KDV : N_NSE;
        for (int d = 0; d < nd; d++) {
            if (!supported(kdv, d)) continue;
            char ty = 'k'; if (kdv) r_from_kdv(d, &ty);
            /* one letter and two letters: fine alphabets; more: coarser ones */
            for (unsigned D = 2; D <= 8; D *= 2) {
                unsigned k = D == 2 ? 8 : D == 4 ? (mc_thorough ? 8 : 6) : (mc_thorough ? 4 : 3);
                uint64_t n = gen_count(D, k);
                for (uint64_t c = 0; c < n; c++) for (int kappa = -1; kappa <= 1; kappa += 2) for (int e = 0; e < 3; e++) {
                    if (kdv && kappa == -1) continue;
                    if (mc_begin("%s %s D=%u code=%llu kappa=%d eps=%g", kdv ? "kdv" : "nse", kdv ? kdv_name(d) : nse_name(d), D, (unsigned long long)c, kappa, epss[e])) {
                        if (kdv) gen_signal_real(D, k > 6 ? 6 : k, c % gen_count(D, k > 6 ? 6 : k), s); else gen_signal(D, k, c, s);
                        exact_too = D == 2 && c == 1 && e == 0;   /* one case is enough to know whether the scheme is inverted exactly */
                        one(kdv, d, kappa, D, s, epss[e]);
                        exact_too = 0;
                    }
                }
            }
            for (unsigned D = 2; D <= (mc_thorough ? 256u : 64u); D *= 2) for (int sh = 0; sh < 4; sh++) for (int kappa = -1; kappa <= 1; kappa += 2) for (int e = 0; e < 6; e++) {
                if (kdv && kappa == -1) continue;
                if (mc_begin("%s %s shape D=%u shape=%d kappa=%d size=%d", kdv ? "kdv" : "nse", kdv ? kdv_name(d) : nse_name(d), D, sh, kappa, e)) {
                    double T[2] = {-1, 1}, a = e < 3 ? 0.3 : 1.1;
                    gen_shape(D, sh, T, s);
                    for (unsigned i = 0; i < D; i++) s[i] = a*(kdv ? creal(s[i]) : s[i]);
                    one(kdv, d, kappa, D, s, e%3 == 0 ? 0.5/D : e%3 == 1 ? 1.7/D : 4.0/D);
                }
            }
        }
        /* everything else is refused, without touching the samples */
        for (int d = 0; d < nd; d++) for (unsigned D = 1; D <= 9; D++) for (int bad = 0; bad < 6; bad++)
            if (mc_begin("%s %s refused D=%u kind=%d", kdv ? "kdv" : "nse", kdv ? kdv_name(d) : nse_name(d), D, bad)) {
                unsigned deg1 = kdv ? fnft__kdv_discretization_degree(d) : fnft__nse_discretization_degree(d);
                unsigned deg = (deg1 ? deg1 : 1)*D, n = 4*(deg+1);
                cplx *tm = malloc(n*sizeof *tm), *q = malloc((deg+1)*sizeof *q);
                for (unsigned i = 0; i < n; i++) tm[i] = 0;
                tm[deg] = 1; tm[3*(deg+1)] = 1;    /* zero signal */
                for (unsigned i = 0; i <= deg; i++) q[i] = 42 + I;
                double eps = bad == 1 ? 0 : bad == 2 ? -0.1 : bad == 3 ? NAN : 0.1;
                int kappa = bad == 4 ? 0 : bad == 5 ? 2 : 1;
                int ok = supported(kdv, d) && D >= 2 && !(D & (D-1)) && !(bad >= 1 && bad <= 3) && !(!kdv && bad >= 4);
                int rc = kdv ? fnft__kdv_finvscatter(deg, tm, q, eps, d) : fnft__nse_finvscatter(deg, tm, q, eps, kappa, d);
                mc_outcome(mc_hash(&rc, sizeof rc, ok));
                if (!ok && rc == 0) mc_fail("refusal", "accepted");
                if (ok && rc) mc_fail("status", "zero signal refused with %d", rc);
                if (!ok) for (unsigned i = 0; i <= deg; i++) if (q[i] != 42 + I) { mc_fail("refusal", "samples written"); break; }
                free(tm); free(q);
            }
    }
}
