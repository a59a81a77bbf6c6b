/* Sample-wise scattering at complex spectral parameters against the definition:
 * scattering matrix, its derivative, a, a' and b, with and without scaling */
#include "ref.h"
#include "gen.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__manakov_scatter.h"
#include "fnft__manakov_discretization.h"
#define LI ((lcplx)_Complex_I)
const char *mc_rule = "one case = one signal x discretization x sign; the scattering matrix with and without derivative, with and without scaling, and the bound state values a, a' are computed for a lattice of complex spectral parameters (with exact turning points of the samples) in both orders and compared with the long double reference; b at the zeros of the reference a; distinct = hash of the results";
#define NL 32
static int slow_nse[] = {1, 22, 23, 24, 25, 26, 27};
/* S basis for KdV */
static Mat Sb(const Prob *p, lcplx x, double *g) {
    Mat S = r_total_norm(p, x, g);
    if (p->type == 'K' || p->type == 'k') {
        Mat t = m_id(2), f = m_id(2);
        if (p->type == 'K') { t.a[0][0] = 1/(2*LI*x); t.a[1][0] = -1/(2*LI*x); f.a[0][0] = 2*LI*x; f.a[1][0] = 1; }
        else { t.a[0][1] = 1/(2*LI*x); t.a[1][1] = -1/(2*LI*x); f.a[0][1] = 1; f.a[1][1] = -2*LI*x; }
        S = m_mul(m_mul(t, S), f);
        *g *= (1 + 2*cabs((cplx)x))*(1 + 0.5/cabs((cplx)x));
    }
    return S;
}
typedef struct { Mat S, dS; lcplx a, da, b; double tol, dtol, atol, datol; } Pt;
static void refpt(const Prob *p, const double *T, lcplx x, Pt *o) {
    double g, gg = 1; const int N = 24; lcplx ab[3];
    lreal rho = 0.25L/(p->eps*p->D);
    int kdv = p->type == 'K' || p->type == 'k';
    if (kdv && rho > cabsl(x)/4) rho = cabsl(x)/4;
    o->S = Sb(p, x, &g);
    o->dS = m_scale(m_id(p->type == 'M' ? 3 : 2), 0); o->da = 0;
    r_contspec(p, T, x, ab); o->a = ab[0]; o->b = ab[1];
    if (p->type != 'M') for (int k = 0; k < N; k++) {
        lcplx u = cexpl(2*acosl(-1)*LI*k/N);
        Mat M = Sb(p, x + rho*u, &gg);
        o->dS = m_add(o->dS, 1/(u*rho*N), M);
        o->da += M.a[0][0]*cexpl(LI*(x + rho*u)*(T[1]-T[0]+p->eps))/(u*rho*N);
    }
    lreal e = p->eps;
    double ex = cabs((cplx)cexpl(LI*x*(T[1]-T[0]+e)));
    o->tol = 4e-14*g*(p->D+4); o->dtol = o->tol*(1 + e*p->D)*(kdv ? 1 + 1/cabs((cplx)x) : 1);
    o->atol = o->tol*ex; o->datol = o->dtol*ex*(1 + fabs(T[0]) + fabs(T[1]));
}
static int okc(cplx got, lcplx want, double tol, const char *nm) { double e = cabs((cplx)(got-want)); mc_max(nm, e/tol); return e <= tol; }
#define NUM(z) creal(z), cimag(z)
static void one(char type, int d, int kappa, unsigned D, const cplx *q, const cplx *q2, const double *T, int nb) {
    double eps = (T[1]-T[0])/(D-1);
    char ty = type; rscheme s; size_t got = D, fl[2]; cplx *a = NULL, *b = NULL; int rc; unsigned per;
    if (type == 'N') { rc = fnft__nse_discretization_preprocess_signal(D, q, eps, kappa, &got, &a, &b, fl, d); per = fnft__nse_discretization_upsampling_factor(d); s = r_from_nse(d); }
    else if (type == 'K') { rc = fnft__kdv_discretization_preprocess_signal(D, q, eps, kappa, &got, &a, &b, fl, d); per = fnft__kdv_discretization_upsampling_factor(d); s = r_from_kdv(d, &ty); }
    else { rc = fnft__manakov_discretization_preprocess_signal(D, q, q2, eps, &got, &a, &b, fl, d); per = fnft__manakov_discretization_upsampling_factor(d); s = r_from_manakov(d); }
    if (rc) { if (D > 2 || s == R_BO || s == R_ES4 || s == R_TES4) mc_fail("status", "preprocessing returned %d", rc); return; }
    Prob p = {.type=ty, .kappa=kappa, .s=s, .D=D, .eps=eps, .q1=q, .q2=q2};
    r_prepare(&p);
    cplx lam[NL], rev[NL]; unsigned n = 0;
    static const cplx L0[] = {1.3, -0.7, 0.5*I, I, 0.3+0.4*I, -2+0.6*I, 0.2-0.3*I, 2*I, 1e-3*I, 0.05, -1.5*I};
    for (unsigned i = 0; i < NELEM(L0); i++) lam[n++] = L0[i];
    if (type != 'K') lam[n++] = 0;
    for (unsigned i = 0; i < D && n + 2 <= NL - 3; i++) {   /* points where the eigenvalues of a sample matrix coincide */
        cplx t = type == 'K' ? csqrt(-q[i]) : kappa == 1 ? I*cabs(q[i]) : cabs(q[i]);
        if (t != 0) { lam[n++] = t; lam[n++] = -t; }
    }
    Pt pt[NL]; 
    for (unsigned i = 0; i < n; i++) { refpt(&p, T, lam[i], &pt[i]); rev[n-1-i] = lam[i]; }
    unsigned De = got*per;
    cplx res[9*NL]; int W[NL];
    for (int v = 0; v < (type == 'M' ? 2 : 6); v++) {    /* order, scaling, derivative */
        int ro = v & 1, nw = v >> 1 & 1, dv = v >> 2 & 1; 
        if (v >= 4) nw = ro;
        if (type == 'M') { nw = dv = 0; }
        for (unsigned i = 0; i < 9*NL; i++) res[i] = NAN;
        for (unsigned i = 0; i < NL; i++) W[i] = 12345;
        const cplx *l = ro ? rev : lam;
        if (type == 'N') rc = fnft__nse_scatter_matrix(De, a, b, eps, kappa, n, l, res, nw ? W : NULL, d, dv);
        else if (type == 'K') rc = fnft__kdv_scatter_matrix(De, a, b, eps, kappa, n, l, res, nw ? W : NULL, d, dv);
        else rc = fnft__manakov_scatter_matrix(De, a, b, eps, n, l, kappa, res, d);
        if (rc) { mc_fail("status", "scatter_matrix returned %d (scaled %d, derivative %d)", rc, nw, dv); goto end; }
        mc_outcome(mc_hash_d((double*)res, 2*n*(type == 'M' ? 9 : dv ? 8 : 4), v));
        for (unsigned i = 0; i < n; i++) {
            Pt *P = &pt[ro ? n-1-i : i]; int m = type == 'M' ? 3 : 2; unsigned st = type == 'M' ? 9 : dv ? 8 : 4;
            double sc = nw ? ldexp(1, W[i]) : 1;
            for (int r = 0; r < m; r++) for (int c = 0; c < m; c++) {
                cplx x = res[st*i + r*m + c]*sc;
                if (!okc(x, P->S.a[r][c], P->tol, "matrix")) { mc_fail("matrix", "lambda=%g%+gi element %d%d (scaled %d, derivative %d): got %.12g%+.12gi expected %.12g%+.12gi", NUM(l[i]), r+1, c+1, nw, dv, NUM(x), NUM((cplx)P->S.a[r][c])); goto end; }
                if (dv) { x = res[st*i + 4 + r*m + c]*sc;
                    if (!okc(x, P->dS.a[r][c], P->dtol, "derivative")) { mc_fail("derivative", "lambda=%g%+gi element %d%d (scaled %d): got %.12g%+.12gi expected %.12g%+.12gi", NUM(l[i]), r+1, c+1, nw, NUM(x), NUM((cplx)P->dS.a[r][c])); goto end; } }
            }
        }
    }
    if (type == 'M') goto end;
    cplx av[NL], dv[NL], bv[NL];
    unsigned n0 = n;
    /* the KdV routine is for the positive imaginary axis */
    if (type == 'K') { cplx t[NL]; Pt tp[NL]; unsigned k = 0; for (unsigned i = 0; i < n; i++) if (creal(lam[i]) == 0 && cimag(lam[i]) > 0) { t[k] = lam[i]; tp[k++] = pt[i]; }
        n = k; memcpy(lam, t, sizeof t); memcpy(pt, tp, sizeof tp); for (unsigned i = 0; i < n; i++) rev[n-1-i] = lam[i]; }
    (void)n0;
    for (int v = 0; v < 4; v++) {
        int ro = v & 1, nw = v >> 1, skip = v == 0 || v == 3;
        cplx l[NL]; memcpy(l, ro ? rev : lam, sizeof l);
        for (unsigned i = 0; i < NL; i++) { av[i] = dv[i] = bv[i] = NAN; W[i] = 12345; }
        if (type == 'N') rc = fnft__nse_scatter_bound_states(De, a, b, T, n, l, av, dv, bv, nw ? W : NULL, d, skip);
        else rc = fnft__kdv_scatter_bound_states(De, a, b, T, n, l, av, dv, bv, nw ? W : NULL, d, skip);
        if (rc) { mc_fail("status", "scatter_bound_states returned %d", rc); goto end; }
        for (unsigned i = 0; i < n; i++) {
            Pt *P = &pt[ro ? n-1-i : i]; double sc = nw ? ldexp(1, W[i]) : 1;
            lcplx wa = P->a, wd = P->da;
            if (type == 'K') { wa = creall(wa); wd = LI*cimagl(wd); }
            if (!okc(av[i]*sc, wa, P->atol, "a")) { mc_fail("a", "lambda=%g%+gi (scaled %d): got %.12g%+.12gi expected %.12g%+.12gi", NUM(l[i]), nw, NUM(av[i]*sc), NUM((cplx)wa)); goto end; }
            if (!okc(dv[i]*sc, wd, P->datol, "aprime")) { mc_fail("a'", "lambda=%g%+gi (scaled %d): got %.12g%+.12gi expected %.12g%+.12gi", NUM(l[i]), nw, NUM(dv[i]*sc), NUM((cplx)wd)); goto end; }
        }
        mc_outcome(mc_hash_d((double*)av, 2*n, 100+v)); 
    }
    if (!nb || (type == 'N' && kappa == -1)) goto end;
    unsigned nz = 0; for (unsigned i = 0; i < D; i++) nz += q[i] != 0;
    if (s == R_BO && ty == 'k' && nz <= 1) { mc_count("b not compared: known finding", 1); goto end; }
    /* zeros of the reference a in the upper half plane */
    n = 0;
    lreal amp = 0; for (unsigned i = 0; i < D; i++) amp = fmaxl(amp, cabs(q[i]));
    if (type == 'N') {
        for (int i = -2; i <= 2; i++) for (int j = 1; j <= 3 && n < NL; j++) {
            lcplx x = i*0.6L + LI*j*0.4L*amp; int it, okz = 0;
            for (it = 0; it < 30; it++) {
                lcplx ab[3], da = 0, a0; r_contspec(&p, T, x, ab); a0 = ab[0];
                for (int k = 0; k < 4; k++) { lcplx u = cexpl(acosl(-1)*LI*k/2); r_contspec(&p, T, x + 1e-4L*u, ab); da += ab[0]/(u*4e-4L); }
                lcplx st = a0/da; x -= st;
                if (!(cabsl(x) < 50) || cimagl(x) < 0.05L) break;
                if (cabsl(st) < 1e-16L) { okz = 1; break; }
            }
            if (!okz || fabsl(creall(x))*eps > 1.2L || cimagl(x) > amp) continue;
            int dup = 0; for (unsigned k = 0; k < n; k++) dup |= cabs(lam[k]-(cplx)x) < 1e-6;
            if (!dup) { refpt(&p, T, x, &pt[n]); lam[n++] = x; }
        }
    } else {
        lcplx ab[3]; lreal pv = 0, pe = 0;
        for (lreal e = 0.02L; e < 1.6L && n < NL; e += 0.01L) {
            r_contspec(&p, T, LI*e, ab); lreal v = creall(ab[0]);
            if (pe > 0 && v*pv < 0) {
                lreal lo = pe, hi = e; for (int k = 0; k < 70; k++) { lreal m = (lo+hi)/2; r_contspec(&p, T, LI*m, ab); if (creall(ab[0])*pv > 0) lo = m; else hi = m; }
                refpt(&p, T, LI*lo, &pt[n]); lam[n++] = I*(double)lo;
            }
            pv = v; pe = e;
        }
    }
    for (int v = 0; v < 2 && n; v++) {
        cplx l[NL]; memcpy(l, lam, sizeof l);
        for (unsigned i = 0; i < NL; i++) { av[i] = dv[i] = bv[i] = NAN; W[i] = 12345; }
        if (type == 'N') rc = fnft__nse_scatter_bound_states(De, a, b, T, n, l, av, dv, bv, v ? W : NULL, d, 0);
        else rc = fnft__kdv_scatter_bound_states(De, a, b, T, n, l, av, dv, bv, v ? W : NULL, d, 0);
        if (rc) { mc_fail("status", "scatter_bound_states returned %d at the zeros", rc); goto end; }
        for (unsigned i = 0; i < n; i++) {
            lcplx wb = pt[i].b;
            /* interpolated signals and weights may be complex: no exact zero on the axis */
            if (type == 'K') { if (s == R_CF53 || s == R_CF64 || cabsl(pt[i].a) > 1e-15L*(1 + cabsl(pt[i].da))) continue; wb = creall(wb); }
            mc_count("values b compared", 1);
            double g = pt[i].tol/(4e-14*(D+4));
            double tb = 1e-12*(D+4)*g*(1 + cabs((cplx)pt[i].da))*fmax(1, cabs((cplx)wb));
            if (!okc(bv[i], wb, tb, "b")) { mc_fail("b", "lambda=%.15g%+.15gi (scaled %d): got %.12g%+.12gi expected %.12g%+.12gi", NUM(l[i]), v, NUM(bv[i]), NUM((cplx)wb)); goto end; }
        }
        mc_outcome(mc_hash_d((double*)bv, 2*n, 200+v)); 
    }
end: r_free(&p); free(a); free(b);
}
static void gens(int t, unsigned D, uint64_t c, cplx *q, cplx *q2) {
    if (t == 1) gen_signal_real(D, 4, c, q); else gen_signal(D, 4, c, q);
    gen_signal(D, 4, (c*7+1) % gen_count(D, 4), q2);
}
/* b for a potential with a single nonzero sample, at the doubles next to the eigenvalue */
static void spike(void) {
    static const double T[2] = {-1, 1}; cplx q[3] = {0, 0.65, 0}, *a, *b; size_t got = 3, fl[2];
    if (fnft__kdv_discretization_preprocess_signal(3, q, 1.0, 1, &got, &a, &b, fl, 29)) { mc_fail("status", "preprocessing"); return; }
    double e = 0.295363467695322 - 1e-15;
    for (int k = 0; k < 40; k++) {
        e = nextafter(e, 1); cplx l = I*e, av, dv, bv;
        int rc = fnft__kdv_scatter_bound_states(3, a, b, T, 1, &l, &av, &dv, &bv, NULL, 29, 0);
        if (rc || !(cabs(bv-1) < 1e-9)) { mc_fail("b", "lambda=%.17gi: got %.12g%+.12gi expected 1", e, NUM(bv)); break; }
    }
    free(a); free(b);
}
void explore(void) {
    if (mc_begin("single sample: K BO")) spike();
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}};
    cplx q[512], q2[512];
    for (int t = 0; t < 3; t++) {
        char type = "NKM"[t]; unsigned nd = t == 0 ? 7 : t == 1 ? 14 : 2;
        for (unsigned x = 0; x < nd; x++) {
            int d = t == 2 ? (x ? 11 : 12) : slow_nse[x%7] + (x >= 7 ? 28 : 0);
            const char *nm = t == 0 ? nse_name(d) : t == 1 ? kdv_name(d) : manakov_name(d);
            for (unsigned D = 2; D <= (mc_thorough ? 5u : 4u); D++) for (uint64_t c = 0; c < gen_count(D, 4); c++) for (int k = -1; k <= 1; k += 2) {
                if (t == 1 && k == -1) continue;
                if (mc_begin("word: %c %s D=%u code=%llu kappa=%d", type, nm, D, (unsigned long long)c, k)) {
                    gens(t, D, c, q, q2); one(type, d, k, D, q, q2, Ts[(c+D)%3], c%4 == 1 || mc_thorough);
                }
            }
            for (unsigned D = 2; D <= 129; D += D < (mc_thorough ? 40u : 17u) ? 1 : D < 64 ? 47-(mc_thorough ? 23 : 0) : D == 64 ? 36 : 29) for (int sh = 0; sh < 4; sh++) for (int v = 0; v < 3; v++) for (int k = -1; k <= 1; k += 2) {
                if ((t == 1 && k == -1) || (D >= 64 && (sh + v + d) % 3)) continue;
                if (mc_begin("shape: %c %s D=%u shape=%d interval=%d kappa=%d", type, nm, D, sh, v, k)) {
                    gen_shape(D, sh, Ts[v], q); gen_shape(D, (sh+1)%4, Ts[v], q2);
                    if (t == 1) for (unsigned i = 0; i < D; i++) q[i] = creal(q[i]);
                    one(type, d, k, D, q, q2, Ts[v], 1);
                }
            }
        }
    }
}
