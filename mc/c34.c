/* The discretization tables against each other, against the matrices the
 * library builds, and against the definition of the scattering coefficients */
#include "ref.h"
#define LI ((lcplx)_Complex_I)
#include "gen.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__manakov_fscatter.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__manakov_scatter.h"
#include "fnft__akns_discretization.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
const char *mc_rule = "one case = discretization x length x interval (x spectral parameter); degree, upsampling factor, boundary coefficient, phase factors, maps and changes of basis are combined with the library's transfer matrices and must give the scattering coefficients of the definition; maps and changes of basis must be inverse to each other; every identifier outside the enumeration must be refused";
enum { AK, NS, KD, MA };
static const char *fam_name[] = {"akns", "nse", "kdv", "manakov"};
static const int fam_n[] = {28, N_NSE, N_KDV, N_MAN};
static unsigned degree(int f, int d) { return f == AK ? fnft__akns_discretization_degree(d) : f == NS ? fnft__nse_discretization_degree(d) : f == KD ? fnft__kdv_discretization_degree(d) : fnft__manakov_discretization_degree(d); }
static unsigned upsf(int f, int d) { return f == AK ? fnft__akns_discretization_upsampling_factor(d) : f == NS ? fnft__nse_discretization_upsampling_factor(d) : f == KD ? fnft__kdv_discretization_upsampling_factor(d) : fnft__manakov_discretization_upsampling_factor(d); }
static unsigned order(int f, int d) { return f == AK ? fnft__akns_discretization_method_order(d) : f == NS ? fnft__nse_discretization_method_order(d) : f == KD ? fnft__kdv_discretization_method_order(d) : fnft__manakov_discretization_method_order(d); }
static double bcoef(int f, int d) { return f == AK ? fnft__akns_discretization_boundary_coeff(d) : f == NS ? fnft__nse_discretization_boundary_coeff(d) : f == KD ? fnft__kdv_discretization_boundary_coeff(d) : fnft__manakov_discretization_boundary_coeff(d); }
static int l2z(int f, int d, unsigned n, double e, cplx *v) { return f == AK ? fnft__akns_discretization_lambda_to_z(n, e, v, d) : f == NS ? fnft__nse_discretization_lambda_to_z(n, e, v, d) : f == KD ? fnft__kdv_discretization_lambda_to_z(n, e, v, d) : fnft__manakov_discretization_lambda_to_z(n, e, v, d); }
static int z2l(int f, int d, unsigned n, double e, cplx *v) { return f == AK ? fnft__akns_discretization_z_to_lambda(n, e, v, d) : f == NS ? fnft__nse_discretization_z_to_lambda(n, e, v, d) : f == KD ? fnft__kdv_discretization_z_to_lambda(n, e, v, d) : fnft__manakov_discretization_z_to_lambda(n, e, v, d); }
static int pf(int f, int d, int which, double e, unsigned D, const double *T, double *out) {
    if (f == NS) return which == 0 ? fnft__nse_discretization_phase_factor_a(e, D, T, out, d) : which == 1 ? fnft__nse_discretization_phase_factor_b(e, D, T, out, d) : fnft__nse_discretization_phase_factor_rho(e, T[1], out, d);
    if (f == KD) return which == 0 ? fnft__kdv_discretization_phase_factor_a(e, D, T, out, d) : which == 1 ? fnft__kdv_discretization_phase_factor_b(e, D, T, out, d) : fnft__kdv_discretization_phase_factor_rho(e, T[1], out, d);
    return which == 0 ? fnft__manakov_discretization_phase_factor_a(e, D, T, out, d) : which == 1 ? fnft__manakov_discretization_phase_factor_b(e, D, T, out, d) : fnft__manakov_discretization_phase_factor_rho(e, T[1], out, d);
}
static rscheme scheme(int f, int d, char *ty) { *ty = 'N'; return f == AK ? r_from_akns(d) : f == NS ? r_from_nse(d) : f == KD ? r_from_kdv(d, ty) : r_from_manakov(d); }
static const char *dname(int f, int d) { return f == AK ? r_name[r_from_akns(d)] : f == NS ? nse_name(d) : f == KD ? kdv_name(d) : manakov_name(d); }
/* period of the spectral parameter: |Re lambda| below pi/(2 eps) times this is the band */
static double band(int f, int d, double e) { char ty; rscheme s = scheme(f, d, &ty); return s == R_FTSUZ ? M_PI*3/e : M_PI*degree(f, d)*upsf(f, d)/(2*e); }

static void tables(int f, int d) {
    char ty; rscheme s = scheme(f, d, &ty);
    unsigned dg = degree(f, d), up = upsf(f, d), od = order(f, d); double bc = bcoef(f, d);
    int fast = r_is_fast(s) && s != R_FT4B;
    if (s != R_FT4B && fast != (dg > 0)) mc_fail("degree", "%u for a %s scheme", dg, fast ? "fast" : "slow");
    Prob p = {.type='N', .s=s}; (void)p;
    unsigned want = s == R_44A || s == R_44B || s == R_46B || s == R_CF42 || s == R_MCF42 ? 2 : s == R_CF43 || s == R_CF53 || s == R_ES4 || s == R_TES4 ? 3 : s == R_CF64 ? 4 : 1;
    if (up != want) mc_fail("upsampling factor", "%u, the scheme uses %u values per sample", up, want);
    unsigned wo;
    switch (s) {
    case R_44A: case R_44B: case R_46B: case R_CF42: case R_MCF42: case R_CF43: case R_ES4: case R_TES4: case R_FT4A: case R_FT4B: case R_FTSUZ: wo = 4; break;
    case R_CF53: wo = 5; break;
    case R_CF64: wo = 6; break;
    default: wo = 2;
    }
    if (od != wo) mc_fail("order", "%u, documented %u", od, wo);
    if (bc != 0.5) mc_fail("boundary coefficient", "%g", bc);
    double sig[4] = {dg, up, od, bc}; mc_outcome(mc_hash_d(sig, 4, f*100+d));
    if (f == NS || f == KD) {
        fnft__akns_discretization_t ad; int rc = f == NS ? fnft__nse_discretization_to_akns_discretization(d, &ad) : fnft__kdv_discretization_to_akns_discretization(d, &ad);
        if (rc) mc_fail("status", "conversion to the AKNS discretization returned %d", rc);
        else if (r_from_akns(ad) != s) mc_fail("conversion", "%s became %s", dname(f, d), r_name[r_from_akns(ad)]);
        else if (degree(AK, ad) != dg || upsf(AK, ad) != up || order(AK, ad) != od || bcoef(AK, ad) != bc) mc_fail("conversion", "tables differ from those of the AKNS discretization");
    }
    if (f == KD) {
        size_t v = 77; int rc = fnft__kdv_discretization_vanilla_flag(&v, d);
        if (rc || v != (ty == 'K')) mc_fail("vanilla flag", "rc %d flag %zu", rc, v);
        fnft_kdv_discretization_t sd = d; rc = fnft__kdv_slow_discretization(&sd);
        char t2; rscheme ss;
        if (rc || (int)sd < 0 || sd >= N_KDV) mc_fail("slow counterpart", "rc %d", rc);
        else {
            ss = r_from_kdv(sd, &t2);
            if (t2 != ty) mc_fail("slow counterpart", "flipped the basis");
            if (r_is_fast(ss)) mc_fail("slow counterpart", "is fast");
            if (upsf(f, sd) != up) mc_fail("slow counterpart", "other upsampling factor");
            if (!r_is_fast(s) && ss != s) mc_fail("slow counterpart", "of a slow scheme is another one");
        }
    }
}
static void maps(int f, int d, double e) {
    char ty; rscheme s = scheme(f, d, &ty);
    unsigned dg = degree(f, d), up = upsf(f, d);
    cplx v[60], w[60], l[60]; unsigned n = 0;
    if (!(r_is_fast(s)) || s == R_FT4B) {
        cplx x[2] = {0.3, 0.2*I};
        if (!dg && !l2z(f, d, 2, e, x)) mc_fail("refusal", "lambda_to_z accepted a slow scheme");
        x[0] = 0.3; x[1] = 0.2*I;
        if (!dg && !z2l(f, d, 2, e, x)) mc_fail("refusal", "z_to_lambda accepted a slow scheme");
        return;
    }
    double b = band(f, d, e);
    for (int i = -4; i <= 4; i++) for (int j = -2; j <= 3; j++) l[n++] = CMPLX(b*0.2499*i*0.999, 0.35*j/e*(dg*up > 4 ? 1 : 0.5));
    for (unsigned m = 0; m <= n; m += m < 3 ? 1 : 17) {
        memcpy(v, l, sizeof v); v[m] = 4242;
        int rc = l2z(f, d, m, e, v);
        if (rc) { mc_fail("status", "lambda_to_z of %u values returned %d", m, rc); return; }
        for (unsigned i = 0; i < m; i++) {
            lcplx zz = s == R_FTSUZ ? cexpl(LI*(lcplx)l[i]*e/3) : cexpl(2*LI*(lcplx)l[i]*e/((lreal)dg*up));
            if (!(cabs((cplx)(v[i]-zz)) <= 1e-13*cabs((cplx)zz)*(1+cabs(l[i])*e))) mc_fail("lambda_to_z", "value %u of %u: %.12g%+.12gi expected %.12g%+.12gi", i, m, creal(v[i]), cimag(v[i]), (double)creall(zz), (double)cimagl(zz));
        }
        if (m < n && v[m] != 4242) mc_fail("bounds", "lambda_to_z changed more than %u values", m);
        memcpy(w, v, sizeof w); w[m] = 4242;
        rc = z2l(f, d, m, e, w);
        if (rc) { mc_fail("status", "z_to_lambda of %u values returned %d", m, rc); return; }
        for (unsigned i = 0; i < m; i++) if (!(cabs(w[i]-l[i]) <= 1e-12*(1/e+cabs(l[i]))*dg*up)) mc_fail("inverse map", "value %u of %u: %.12g%+.12gi became %.12g%+.12gi", i, m, creal(l[i]), cimag(l[i]), creal(w[i]), cimag(w[i]));
        if (m < n && w[m] != 4242) mc_fail("bounds", "z_to_lambda changed more than %u values", m);
        if (m) mc_outcome(mc_hash_d((double*)v, 2*m, d));
    }
}
static void inv4(const cplx *A, const cplx *B, int n, const char *what) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        cplx s = 0; double t = 0; for (int k = 0; k < n; k++) { s += A[i*n+k]*B[k*n+j]; t += cabs(A[i*n+k]*B[k*n+j]); }
        if (!(cabs(s - (i == j)) <= 1e-13*(1+t))) { mc_fail("change of basis", "%s: product differs from the identity at (%d,%d)", what, i, j); return; }
    }
}
/* to and from have to be inverse to each other, and the 4x4 matrices have to be [T 0; T' T] with the derivative of T */
static void basis(int f, int d, double e, int van, int pde) {
    static const cplx xis[] = {0.3, -1.7, 2.2*_Complex_I, 0.4-0.3*_Complex_I, -1.1+0.9*_Complex_I, 5, 1e-3, 3*_Complex_I};
    for (unsigned x = 0; x < sizeof xis/sizeof *xis; x++) {
        cplx A[16], B[16], A4[16], B4[16]; cplx xi = xis[x]; int rc = 0;
        #define TO(M, X, DF) (f == AK ? fnft__akns_discretization_change_of_basis_matrix_to_S(M, X, DF, e, d, van, pde) : fnft__kdv_discretization_change_of_basis_matrix_to_S(M, X, DF, e, d))
        #define FROM(M, X, DF) (f == AK ? fnft__akns_discretization_change_of_basis_matrix_from_S(M, X, DF, e, d, van, pde) : fnft__kdv_discretization_change_of_basis_matrix_from_S(M, X, DF, e, d))
        for (int i = 0; i < 16; i++) A[i] = B[i] = A4[i] = B4[i] = 0;
        rc = TO(A, xi, 0) | FROM(B, xi, 0) | TO(A4, xi, 1) | FROM(B4, xi, 1);
        if (rc) { mc_fail("status", "change of basis refused"); return; }
        mc_outcome(mc_hash_d((double*)A, 8, x));
        inv4(A, B, 2, "2x2");
        for (int dir = 0; dir < 2; dir++) {
            cplx *M2 = dir ? B : A, *M4 = dir ? B4 : A4;
            /* blocks that the routine fills: first two columns of the 4x4 matrix */
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
                if (!(cabs(M4[4*i+j]-M2[2*i+j]) <= 1e-14*(1+cabs(M2[2*i+j])))) mc_fail("change of basis", "4x4 and 2x2 versions differ");
                cplx dv = 0; double mx = 0; double h = 0.02*fmin(1, cabs(xi)); const int N = 16;
                for (int k = 0; k < N; k++) { cplx W[16] = {0}, u = cexp(2*M_PI*I*k/N); if (dir) FROM(W, xi+h*u, 0); else TO(W, xi+h*u, 0); dv += W[2*i+j]/(u*h*N); mx = fmax(mx, cabs(W[2*i+j])/h); }
                if (!(cabs(M4[4*(i+2)+j]-dv) <= 1e-12*(1+mx))) mc_fail("derivative of the change of basis", "dir %d (%d,%d) xi=%g%+gi: %.12g%+.12gi expected %.12g%+.12gi", dir, i, j, creal(xi), cimag(xi), creal(M4[4*(i+2)+j]), cimag(M4[4*(i+2)+j]), creal(dv), cimag(dv));
            }
        }
        if (mc_failed_this_case()) return;
    }
}
static lcplx horner(const cplx *p, unsigned deg, lcplx z) { lcplx s = 0; for (unsigned i = 0; i <= deg; i++) s = s*z + p[i]; return s; }
static void assemble(int f, int d, unsigned D, const double *T, int kappa, int sh) {
    char ty; rscheme s = scheme(f, d, &ty);
    if (s == R_FT4B) return;
    cplx q1[32], q2[32]; double e = (T[1]-T[0])/(D-1);
    gen_shape(D, sh, T, q1); gen_shape(D, (sh+1)%4, T, q2);
    if (f == KD) for (unsigned i = 0; i < D; i++) q1[i] = creal(q1[i]);
    if (s == R_MODAL && (kappa == -1 || f == KD)) for (unsigned i = 0; i < D; i++) q1[i] *= 0.5/e/(1+cabs(q1[i]));
    if (s == R_MODAL && f == KD) for (unsigned i = 0; i < D; i++) q1[i] *= 0.3/(1+e);
    Prob p = {.type = f == NS ? 'N' : f == KD ? ty : 'M', .kappa=kappa, .s=s, .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q1, .q2=q2};
    cplx *a = NULL, *b = NULL; size_t Dsub = D, fl[2]; int rc;
    rc = f == NS ? fnft__nse_discretization_preprocess_signal(D, q1, e, kappa, &Dsub, &a, &b, fl, d) : f == KD ? fnft__kdv_discretization_preprocess_signal(D, q1, e, kappa, &Dsub, &a, &b, fl, d) : fnft__manakov_discretization_preprocess_signal(D, q1, q2, e, &Dsub, &a, &b, fl, d);
    if (rc) { if (D > 2) mc_fail("status", "preprocessing returned %d", rc); return; }
    unsigned up = upsf(f, d), dg = degree(f, d), De = D*up; int n = f == MA ? 3 : 2;
    r_prepare(&p);
    static const double xis[] = {0.4, -1.3, 2.9};
    cplx *H = NULL; size_t deg = 0; cplx S[3][9]; cplx xc[3] = {xis[0], xis[1], xis[2]};
    if (dg) {
        size_t num = f == NS ? fnft__nse_fscatter_numel(De, d) : f == KD ? fnft__kdv_fscatter_numel(De, d) : fnft__manakov_fscatter_numel(De, d);
        H = malloc(num*sizeof *H);
        rc = f == NS ? fnft__nse_fscatter(De, a, b, e, H, &deg, NULL, d) : f == KD ? fnft__kdv_fscatter(De, a, b, e, kappa, H, &deg, NULL, d) : fnft__manakov_fscatter(De, a, b, kappa, e, H, &deg, NULL, d);
        if (rc) { mc_fail("status", "fast scattering returned %d", rc); goto end; }
        if (deg != (size_t)dg*De) { mc_fail("degree", "the polynomials have degree %zu for %u values, the table says %u per value", deg, De, dg); goto end; }
        if (num < (size_t)n*n*(deg+1)) mc_fail("size", "%zu elements reserved, %zu needed", num, (size_t)n*n*(deg+1));
    } else {
        cplx R[64];
        rc = f == NS ? fnft__nse_scatter_matrix(De, a, b, e, kappa, 3, xc, R, NULL, d, 0) : f == KD ? fnft__kdv_scatter_matrix(De, a, b, e, kappa, 3, xc, R, NULL, d, 0) : fnft__manakov_scatter_matrix(De, a, b, e, 3, xc, kappa, R, d);
        if (rc) { mc_fail("status", "scattering returned %d", rc); goto end; }
        for (int x = 0; x < 3; x++) for (int i = 0; i < n*n; i++) S[x][i] = R[x*n*n+i];
    }
    for (int x = 0; x < 3; x++) {
        double xi = xis[x], g; lcplx M[9], ref[3];
        if (dg) {
            cplx z = xi; rc = l2z(f, d, 1, e, &z);
            if (rc) { mc_fail("status", "lambda_to_z returned %d", rc); goto end; }
            /* on the unit circle up to rounding; remove that so that high degrees do not amplify it */
            lcplx zl = z; zl /= cabsl(zl);
            for (int i = 0; i < n*n; i++) M[i] = horner(H+i*(deg+1), deg, zl);
            if (f == KD) {
                cplx to[4], from[4]; lcplx X[4];
                rc = fnft__kdv_discretization_change_of_basis_matrix_from_S(from, xi, 0, e, d) | fnft__kdv_discretization_change_of_basis_matrix_to_S(to, xi, 0, e, d);
                if (rc) { mc_fail("status", "change of basis"); goto end; }
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) X[2*i+j] = M[2*i]*from[j] + M[2*i+1]*from[2+j];
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) M[2*i+j] = to[2*i]*X[j] + to[2*i+1]*X[2+j];
            }
        } else for (int i = 0; i < n*n; i++) M[i] = S[x][i];
        double pa, pb, pr;
        rc = pf(f, d, 0, e, D, T, &pa) | pf(f, d, 1, e, D, T, &pb) | pf(f, d, 2, e, D, T, &pr);
        if (rc) { mc_fail("status", "phase factors"); goto end; }
        r_contspec(&p, T, xi, ref); r_total_norm(&p, xi, &g);
        double cond = fmax(fmax(1, cabs((cplx)ref[0])+cabs((cplx)ref[1])), sqrt(g))*(f == KD ? 1+2*fabs(xi)+1/fabs(xi) : 1);
        double tol = 2e-11*cond*(D+4);
        lcplx ga = M[0]*cexpl(LI*xi*pa), gb = M[n]*cexpl(LI*xi*pb), gr = M[n]/M[0]*cexpl(LI*xi*pr);
        double gv[2] = {(double)creall(ga), (double)creall(gb)}; mc_outcome(mc_hash_d(gv, 2, x));
        mc_max("assembled a", cabs((cplx)(ga-ref[0]))/tol); mc_max("assembled b", cabs((cplx)(gb-ref[1]))/tol);
        if (!(cabs((cplx)(ga-ref[0])) <= tol)) mc_fail("a", "xi=%g: tables give %.12g%+.12gi expected %.12g%+.12gi", xi, (double)creall(ga), (double)cimagl(ga), (double)creall(ref[0]), (double)cimagl(ref[0]));
        if (!(cabs((cplx)(gb-ref[1])) <= tol)) mc_fail("b", "xi=%g: tables give %.12g%+.12gi expected %.12g%+.12gi", xi, (double)creall(gb), (double)cimagl(gb), (double)creall(ref[1]), (double)cimagl(ref[1]));
        lcplx rr = ref[1]/ref[0]; double tr = tol*(1+cabs((cplx)rr))/cabs((cplx)ref[0]);
        if (!(cabs((cplx)(gr-rr)) <= tr)) mc_fail("b/a", "xi=%g: tables give %.12g%+.12gi expected %.12g%+.12gi", xi, (double)creall(gr), (double)cimagl(gr), (double)creall(rr), (double)cimagl(rr));
        if (f == MA) {
            gb = M[6]*cexpl(LI*xi*pb);
            if (!(cabs((cplx)(gb-ref[2])) <= tol)) mc_fail("b2", "xi=%g", xi);
        }
        if (mc_failed_this_case()) break;
    }
end:
    r_free(&p); free(a); free(b); free(H);
}
static void unknown(int f, int d) {
    double T[2] = {-1, 1}, o; cplx v[2] = {0.3, 0.4}; char dummy[64]; (void)dummy;
    if (degree(f, d) != 0) mc_fail("unknown identifier", "degree %u", degree(f, d));
    if (upsf(f, d) != 0) mc_fail("unknown identifier", "upsampling factor %u", upsf(f, d));
    if (order(f, d) != 0) mc_fail("unknown identifier", "order %u", order(f, d));
    if (!isnan(bcoef(f, d))) mc_fail("unknown identifier", "boundary coefficient %g", bcoef(f, d));
    if (!l2z(f, d, 1, 0.1, v) || !z2l(f, d, 1, 0.1, v)) mc_fail("unknown identifier", "accepted by the maps");
    if (f != AK && (!pf(f, d, 0, 0.1, 3, T, &o) || !pf(f, d, 1, 0.1, 3, T, &o))) mc_fail("unknown identifier", "accepted by the phase factors");
    mc_outcome(d);
}
void explore(void) {
    static const double Ts[][2] = {{-1,1},{0.3,1.9},{-4,-2.5}};
    static const double es[] = {1, 0.13, 0.01, 3.5};
    for (int f = AK; f <= MA; f++) for (int d = 0; d < fam_n[f]; d++) {
        if (mc_begin("tables: %s %s", fam_name[f], dname(f, d))) tables(f, d);
        for (int e = 0; e < 4; e++) if (mc_begin("maps: %s %s eps=%g", fam_name[f], dname(f, d), es[e])) maps(f, d, es[e]);
        if (f == AK) { for (int e = 0; e < 4; e++) for (int v = 0; v < 2; v++) for (int pde = 0; pde < 2; pde++)
            if (mc_begin("basis: %s %s eps=%g vanilla=%d %s", fam_name[f], dname(f, d), es[e], v, pde ? "NSE" : "KdV")) basis(f, d, es[e], v, pde ? fnft__akns_pde_NSE : fnft__akns_pde_KdV); }
        if (f == KD) for (int e = 0; e < 4; e++) if (mc_begin("basis: %s %s eps=%g", fam_name[f], dname(f, d), es[e])) basis(f, d, es[e], 0, 0);
        if (f != AK) for (unsigned D = 2; D <= (mc_thorough ? 24u : 9u); D++) for (int t = 0; t < 3; t++) for (int sh = 0; sh < 3; sh++) for (int k = -1; k <= 1; k += 2) {
            if (f == KD && k == -1) continue;
            if (mc_begin("assemble: %s %s D=%u interval=%d shape=%d kappa=%d", fam_name[f], dname(f, d), D, t, sh, k)) assemble(f, d, D, Ts[t], k, sh);
        }
    }
    for (int f = AK; f <= MA; f++) for (int k = 0; k < 6; k++) {
        static const int off[] = {0, 1, 2, 100, 100000, -1};
        int d = k == 5 ? -1 : fam_n[f]+off[k];
        if (mc_begin("unknown: %s %d", fam_name[f], d)) unknown(f, d);
    }
}
