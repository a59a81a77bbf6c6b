/* List utilities and small analytic helpers against their definitions, on all
 * lists up to a length over an alphabet with ties, equal entries and values on
 * the edges of the boxes and exactly at the merging distance. */
#include "mc.h"
#include "fnft__misc.h"
const char *mc_rule = "one case = one list (or one pair of lists, or one block of arguments of a helper) x every box, tolerance and companion; executed on the library and compared with a direct evaluation of the definition; distinct = hash of the surviving list";
#define INFTY (1.0/0.0)
static const cplx al_box[] = {0, 1, I, 1+I, 0.5+0.25*I, -1+0.5*I, 0.5-2*I, 3+3*I};
static const double boxes[][4] = {{0,1,0,1},{-1,1,0,0.5},{0.5,0.5,0.25,0.25},{-INFTY,INFTY,0,INFTY},{-INFTY,INFTY,-INFTY,INFTY},{0,1,-5,-1},{1,3,1,3},{-1,-1,0,9},{-0.5,INFTY,-INFTY,0.25}};
static const double badbox[][4] = {{1,0,0,1},{0,1,1,0},{NAN,1,0,1},{0,NAN,0,1},{0,1,NAN,1},{0,1,0,NAN}};
#define NB (sizeof boxes/sizeof *boxes)
static int in_closed(cplx z, const double *b) { return creal(z) >= b[0] && creal(z) <= b[1] && cimag(z) >= b[2] && cimag(z) <= b[3]; }
static int in_open(cplx z, const double *b) { return creal(z) > b[0] && creal(z) < b[1] && cimag(z) > b[2] && cimag(z) < b[3]; }
static int same(const cplx *a, const cplx *b, size_t n) { for (size_t i = 0; i < n; i++) if (!(a[i] == b[i])) return 0; return 1; }
static void expect(const char *what, int idx, int rc, size_t n, const cplx *got, size_t m, const cplx *want, const cplx *gotc, const cplx *wantc) {
    if (rc) { mc_fail("status", "%s %d: returned %d", what, idx, rc); return; }
    mc_outcome(mc_hash_d((double*)got, 2*n, idx));
    if (n != m) mc_fail("selection", "%s %d: kept %zu, expected %zu", what, idx, n, m);
    else if (!same(got, want, m)) mc_fail("order", "%s %d: other entries or another order than expected", what, idx);
    else if (gotc && !same(gotc, wantc, m)) mc_fail("companion", "%s %d: companion list out of step", what, idx);
}
static void filters(unsigned n, const cplx *v) {
    cplx x[320], c[320], w[320], wc[320]; size_t N, m; int rc;
    for (unsigned b = 0; b < NB; b++) for (int inv = 0; inv < 2; inv++) for (int comp = 0; comp < 2; comp++) {
        for (unsigned i = m = 0; i < n; i++) { x[i] = v[i]; c[i] = 100+i;
            if (inv ? !in_open(v[i], boxes[b]) : in_closed(v[i], boxes[b])) { w[m] = v[i]; wc[m++] = 100+i; } }
        x[n] = c[n] = 4242; N = n;
        rc = (inv ? fnft__misc_filter_inv : fnft__misc_filter)(&N, x, comp ? c : NULL, boxes[b]);
        expect(inv ? "inverse filter" : "filter", b, rc, N, x, m, w, comp ? c : NULL, wc);
        if (x[n] != 4242 || c[n] != 4242) mc_fail("bounds", "wrote behind the list");
    }
    for (unsigned b = 0; b < 6; b++) for (int inv = 0; inv < 2; inv++) {
        memcpy(x, v, n*sizeof *x); N = n;
        rc = (inv ? fnft__misc_filter_inv : fnft__misc_filter)(&N, x, NULL, badbox[b]);
        if (!rc) mc_fail("invalid box", "box %u accepted", b);
        else if (N != n || !same(x, v, n)) mc_fail("invalid box", "list changed");
    }
    static const double tols[] = {0, 0.25, 0.3, 1, 5, INFTY};
    for (unsigned t = 0; t < 6; t++) {
        for (unsigned i = m = 0; i < n; i++) { x[i] = v[i]; if (fabs(cimag(v[i])) > tols[t]) w[m++] = v[i]; }
        N = n; rc = fnft__misc_filter_nonreal(&N, x, tols[t]);
        expect("nonreal", t, rc, N, x, m, w, NULL, NULL);
    }
    memcpy(x, v, n*sizeof *x); N = n;
    if (!fnft__misc_filter_nonreal(&N, x, -1) || !fnft__misc_filter_nonreal(&N, x, NAN)) mc_fail("invalid tolerance", "accepted");
    /* NaNs are never in a box */
    for (unsigned pos = 0; pos < n; pos++) for (unsigned b = 0; b < NB; b++) for (int kind = 0; kind < 3; kind++) {
        for (unsigned i = m = 0; i < n; i++) { x[i] = v[i]; c[i] = 100+i;
            if (i == pos) x[i] = kind == 0 ? CMPLX(NAN, NAN) : kind == 1 ? CMPLX(NAN, 0) : CMPLX(0, NAN);
            else if (in_closed(v[i], boxes[b])) { w[m] = v[i]; wc[m++] = 100+i; } }
        N = n; rc = fnft__misc_filter(&N, x, c, boxes[b]);
        expect("filter with NaN", b, rc, N, x, m, w, c, wc);
    }
}
static const cplx al_line[] = {0, 0.125, 0.25, 0.375, 0.125*I, 0.25+0.125*I, -7};
static void merges(unsigned n, const cplx *v) {
    static const double tols[] = {0, 0.1, 0.125, 0.13, 0.2, 0.25, 0.26, 100};
    cplx x[320], w[320]; size_t N, m;
    for (unsigned t = 0; t < 8; t++) {
        m = 0;
        for (unsigned i = 0; i < n; i++) {
            int close = 0;
            for (unsigned j = 0; j < m; j++) if (cabs(v[i]-w[j]) < tols[t]) close = 1;
            if (!close) w[m++] = v[i];
        }
        memcpy(x, v, n*sizeof *x); x[n] = 4242; N = n;
        int rc = fnft__misc_merge(&N, x, tols[t]);
        expect("merge", t, rc, N, x, m, w, NULL, NULL);
        if (x[n] != 4242) mc_fail("bounds", "wrote behind the list");
    }
    memcpy(x, v, n*sizeof *x); N = n;
    if (n && !fnft__misc_merge(&N, x, -0.5)) mc_fail("invalid tolerance", "accepted");
}
static void distances(unsigned n, const cplx *a, unsigned m, const cplx *b) {
    double h = n || m ? 0 : -1;
    for (int dir = 0; dir < 2; dir++) {
        unsigned na = dir ? m : n, nb = dir ? n : m; const cplx *A = dir ? b : a, *B = dir ? a : b;
        for (unsigned i = 0; i < na; i++) { double d = INFTY; for (unsigned j = 0; j < nb; j++) d = fmin(d, cabs(A[i]-B[j])); h = fmax(h, d); }
    }
    double g = fnft__misc_hausdorff_dist(n, a, m, b);
    mc_outcome(mc_hash_d(&g, 1, 7));
    if ((n || m) && !(g == h || fabs(g-h) <= 1e-14*h)) mc_fail("distance", "got %.17g expected %.17g", g, h);
    if (n == m && n) {
        double nu = 0, de = 0; for (unsigned i = 0; i < n; i++) { nu += cabs(a[i]-b[i]); de += cabs(b[i]); }
        g = fnft__misc_rel_err(n, a, b);
        if (de > 0 && !(fabs(g-nu/de) <= 1e-14*n*(nu/de))) mc_fail("relative error", "got %.17g expected %.17g", g, nu/de);
        if (de == 0 && nu > 0 && !isinf(g)) mc_fail("relative error", "got %g for a zero reference", g);
    }
}
static void list(unsigned n, unsigned k, uint64_t code, const cplx *al, cplx *v) { for (unsigned i = 0; i < n; i++) { v[i] = al[code%k]; code /= k; } }
static uint64_t ipow(unsigned k, unsigned n) { uint64_t r = 1; while (n--) r *= k; return r; }
static lcplx sinc_l(lcplx x) { lcplx s = 0, t = 1; if (cabsl(x) > 1) return csinl(x)/x; for (int k = 0; k < 30; k++) { s += t; t *= -x*x/((2*k+2)*(2*k+3)); } return s; }
static lcplx dsinc_l(lcplx x) { if (cabsl(x) > 2) return (ccosl(x)-sinc_l(x))/x; lcplx s = 0, t = -x/3; for (int k = 1; k < 40; k++) { s += t*k*1.0L; t *= -x*x/((2*k+2)*(2*k+3)); } return s; }
static void helpers(int blk) {
    static const double mag[] = {0, 1e-300, 1e-17, 9.9e-9, 1e-8, 1.1e-8, 1e-5, 0.01, 0.3, 0.99, 1, 1.01, 2.5, 3.141592653589793, 10, 30, 300};
    if (blk < 17) for (int a = 0; a < 48; a++) {
        cplx x = mag[blk]*cexp(I*(a*2*M_PI/48));
        if (a%12 == 0) x = (a/12)%2 ? I*mag[blk]*(a/12 < 2 ? 1 : -1) : mag[blk]*(a/12 < 2 ? 1 : -1);
        lcplx s = sinc_l(x), d = dsinc_l(x);
        cplx g = fnft__misc_CSINC(x), gd = fnft__misc_CSINC_derivative(x);
        double big = exp(fabs(cimag(x)))/fmax(1, cabs(x));
        mc_outcome(mc_hash_d((double*)&g, 2, blk));
        if (!(cabsl(g-s) <= 4e-15*fmax(big, cabsl(s))*(1+cabs(x)))) mc_fail("sinc", "x=%g%+gi: got %.17g%+.17gi expected %.17g%+.17gi", creal(x), cimag(x), creal(g), cimag(g), (double)creall(s), (double)cimagl(s));
        if (!(cabsl(gd-d) <= 4e-15*fmax(big, cabsl(d))*(1+cabs(x)))) mc_fail("sinc derivative", "x=%g%+gi: got %.17g%+.17gi expected %.17g%+.17gi", creal(x), cimag(x), creal(gd), cimag(gd), (double)creall(d), (double)cimagl(d));
        if (mag[blk] < 1e-4 && mag[blk] > 1e-15 && !(cabsl(gd/d-1) <= 1e-12)) mc_fail("sinc derivative", "relative error at x=%g%+gi", creal(x), cimag(x));
        lcplx den = cexpl(x)+cexpl(-x), se = 2/den; cplx gs = fnft__misc_sech(x);
        double cnd = exp(fabs(creal(x)))/cabs((cplx)den);
        if (cnd < 1e6 && !(cabsl(gs-se) <= 4e-15*cabsl(se)*cnd*(1+cabs(x)))) mc_fail("sech", "x=%g%+gi: got %.17g%+.17gi", creal(x), cimag(x), creal(gs), cimag(gs));
    }
    else if (blk == 17) for (int n = 0; n <= 30; n++) for (int i = -16; i <= 16; i++) {
        lreal x = i/16.0L, p0 = 1, p1 = x;
        for (int k = 2; k <= n; k++) { lreal p2 = ((2*k-1)*x*p1 - (k-1)*p0)/k; p0 = p1; p1 = p2; }
        double g = fnft__misc_legendre_poly(n, x), e = n == 0 ? 1 : p1;
        mc_outcome(mc_hash_d(&g, 1, n));
        if (!(fabs(g-e) <= 1e-13)) mc_fail("legendre", "n=%d x=%g: got %g expected %g", n, (double)x, g, e);
    }
    else if (blk == 18) for (size_t n = 0; n < 70000; n++) {
        size_t p = 1; while (p < n) p *= 2;
        if (fnft__misc_nextpowerof2(n) != (n ? p : 0)) mc_fail("power of two", "%zu -> %zu", n, (size_t)fnft__misc_nextpowerof2(n));
    }
    else if (blk == 19) for (int e = 1; e < 62; e++) for (int o = -1; o <= 1; o++) {
        size_t n = ((size_t)1 << e)+o, p = o <= 0 ? (size_t)1 << e : (size_t)2 << e; if (e == 1 && o < 0) p = 1;
        if (fnft__misc_nextpowerof2(n) != p) mc_fail("power of two", "%zu -> %zu", n, (size_t)fnft__misc_nextpowerof2(n));
    }
    else if (blk == 20) for (int e = -1000; e <= 1000; e++) for (int k = 0; k < 6; k++) {
        static const double f[] = {1, 1.5, 1.9999999, 1.0000001, 1.3, 1.75};
        cplx v[3] = {ldexp(f[k], e)*(k%2 ? I : -1), ldexp(0.3, e)*(1+I), 0}, w[3]; memcpy(w, v, sizeof v);
        int a = fnft__misc_normalize_vector(3, v);
        double mx = 0; for (int i = 0; i < 3; i++) mx = fmax(mx, cabs(v[i]));
        if (!(mx >= 1-1e-12 && mx < 2+1e-12)) mc_fail("normalization", "2^%d: largest entry %g", e, mx);
        for (int i = 0; i < 3; i++) if (ldexp(creal(v[i]), a) != creal(w[i]) || ldexp(cimag(v[i]), a) != cimag(w[i])) { mc_fail("normalization", "2^%d: not equal to the input after undoing the reported power", e); break; }
    }
    else if (blk == 21) {
        cplx z[4] = {0, 0, 0, 0}, y[4] = {0, 0, 0, 0};
        if (fnft__misc_normalize_vector(4, z) != 0 || !same(z, y, 4)) mc_fail("normalization", "zero vector changed");
        for (unsigned N = 1; N <= 4; N++) for (int a = -3; a < 3; a++) for (int b = a+1; b <= 4; b++) for (uint64_t c = 0; c < ipow(5, N); c++) {
            cplx v[4]; list(N, 5, c, al_box, v);
            double s = 0; for (unsigned i = 0; i < N; i++) s += creal(v[i]*conj(v[i]));
            s *= (double)(b-a)/N;
            double g = fnft__misc_l2norm2(N, v, a, b);
            if (!(fabs(g-s) <= 1e-14*s)) mc_fail("squared norm", "got %g expected %g", g, s);
        }
    }
    else for (unsigned n = 1; n <= 4; n++) for (unsigned m = 1; m <= 4; m++) for (unsigned p = 1; p <= 4; p++) for (unsigned i = 0; i <= n*m; i++) for (unsigned j = 0; j <= m*p; j++) {
        cplx A[16], B[16], C[17], W[16];
        for (unsigned k = 0; k < n*m; k++) A[k] = i == n*m ? 0.3*k - 1 + I*((k*5)%7) : k == i;
        for (unsigned k = 0; k < m*p; k++) B[k] = j == m*p ? 0.7 - k*I + (k*k)%5 : k == j;
        for (unsigned k = 0; k < 17; k++) C[k] = NAN;
        C[n*p] = 4242;
        for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < p; b++) { cplx s = 0; for (unsigned k = 0; k < m; k++) s += A[a*m+k]*B[k*p+b]; W[a*p+b] = s; }
        fnft__misc_matrix_mult(n, m, p, A, B, C);
        for (unsigned k = 0; k < n*p; k++) if (!(cabs(C[k]-W[k]) <= 1e-13*(1+cabs(W[k])))) { mc_fail("matrix product", "%ux%u times %ux%u, unit %u unit %u, entry %u", n, m, m, p, i, j, k); break; }
        if (C[n*p] != 4242) mc_fail("bounds", "wrote behind the product");
        if (n == m && m == p && (n == 2 || n == 4)) {
            if (n == 2) fnft__misc_mat_mult_2x2(A, B); else fnft__misc_mat_mult_4x4(A, B);
            for (unsigned k = 0; k < n*n; k++) if (!(cabs(B[k]-W[k]) <= 1e-13*(1+cabs(W[k])))) { mc_fail("matrix product", "square in place, entry %u", k); break; }
        }
        if (mc_failed_this_case()) return;
    }
}
void explore(void) {
    cplx v[320], u[320];
    unsigned L = mc_thorough ? 6 : 5;
    for (unsigned n = 0; n <= L; n++) for (uint64_t c = 0; c < ipow(8, n); c++)
        if (mc_begin("filter: n=%u code=%llu", n, (unsigned long long)c)) { list(n, 8, c, al_box, v); filters(n, v); }
    for (unsigned n = 0; n <= L+1; n++) for (uint64_t c = 0; c < ipow(7, n); c++)
        if (mc_begin("merge: n=%u code=%llu", n, (unsigned long long)c)) { list(n, 7, c, al_line, v); merges(n, v); }
    for (unsigned n = 0; n <= L-1; n++) for (unsigned m = 0; m <= L-1; m++) for (uint64_t c = 0; c < ipow(4, n); c++)
        if (mc_begin("distance: n=%u m=%u code=%llu", n, m, (unsigned long long)c)) {
            list(n, 4, c, al_box, v);
            for (uint64_t d = 0; d < ipow(4, m); d++) { list(m, 4, d, al_box, u); for (unsigned i = 0; i < m; i++) u[i] += i%2 ? 0 : 0.25*(d%3); distances(n, v, m, u); }
        }
    /* long lists: arithmetic patterns of many distinct entries, with near-duplicates far apart */
    static const unsigned lad[] = {9,15,16,17,31,32,33,64,65,100,128,129,200,255,256,257,300};
    for (unsigned l = 0; l < NELEM(lad); l++) for (unsigned p = 0; p < 12; p++) if (mc_begin("long lists: n=%u pattern=%u", lad[l], p)) {
        static const unsigned step[] = {1,7,11,37,101,211}; unsigned n = lad[l], m = lad[(l+p)%NELEM(lad)];
        for (unsigned i = 0; i < n; i++) { unsigned k = (i*step[p%6] + p)%n; v[i] = (p < 6 ? 0.125 : 0.0625)*k + (p%2 ? 0 : 0.03125*I*(k%5)) - 2 - 0.5*I*(p%3); if (p >= 9 && i >= n/2) v[i] = v[i-n/2]; }
        for (unsigned i = 0; i < m; i++) u[i] = 0.125*((i*step[(p+1)%6])%m) + 0.01*I*(i%3);
        filters(n, v); merges(n, v); distances(n, v, m, u); distances(n, v, n, n <= m ? u : v);
    }
    for (int b = 0; b < 23; b++) if (mc_begin("helpers: block=%d", b)) helpers(b);
}
