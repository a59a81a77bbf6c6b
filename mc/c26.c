/* polynomial products against exact ones */
#include "mc.h"
#include "fnft__poly_fmult.h"
const char *mc_rule = "one case = one product problem: (a) a product of two (matrix) polynomials for one degree and mode, executed for every pair of unit coefficients (which determines a bilinear map completely) and for dense data, or (b) a product of n polynomials or matrices of one degree with every assignment of factors from a small alphabet or with dense non-commuting factors, with and without normalization; compared with long double products; distinct = hash of the rounded product";
static double coefre(unsigned seed, unsigned i) { unsigned x = (seed*2654435761u + i*40503u + 12345u); x ^= x >> 13; x *= 0x5bd1e995; x ^= x >> 15; return ((int)(x % 2001) - 1000)/700.0; }
static cplx coef(unsigned seed, unsigned i) { return coefre(seed, 2*i) + I*coefre(seed+77, 2*i+1); }

/* exact product of n mxm matrix polynomials of degree deg, each stored [factor][entry][coef] */
static void exact(unsigned m, unsigned deg, unsigned n, const cplx *f, lcplx *res, lreal *nrm) {
    unsigned m2 = m*m, full = deg*n+1;
    lcplx *acc = calloc(m2*full, sizeof(lcplx)), *tmp = calloc(m2*full, sizeof(lcplx));
    lreal *na = calloc(m2, sizeof(lreal)), nt[9];
    for (unsigned e = 0; e < m2; e++) for (unsigned c = 0; c <= deg; c++) { acc[e*full+c] = f[e*(deg+1)+c]; na[e] += cabs(f[e*(deg+1)+c]); }
    for (unsigned k = 1; k < n; k++) {
        const cplx *g = f + (size_t)k*m2*(deg+1);
        memset(tmp, 0, m2*full*sizeof(lcplx)); memset(nt, 0, sizeof nt);
        for (unsigned i = 0; i < m; i++) for (unsigned j = 0; j < m; j++) for (unsigned l = 0; l < m; l++) {
            lreal gn = 0;
            for (unsigned c = 0; c <= deg; c++) {
                lcplx gc = g[(l*m+j)*(deg+1)+c]; gn += cabsl(gc);
                if (gc != 0) for (unsigned a = 0; a <= deg*k; a++) tmp[(i*m+j)*full + a + c] += acc[(i*m+l)*full + a]*gc;
            }
            nt[i*m+j] += na[i*m+l]*gn;
        }
        memcpy(acc, tmp, m2*full*sizeof(lcplx)); memcpy(na, nt, m2*sizeof(lreal));
    }
    memcpy(res, acc, m2*full*sizeof(lcplx));
    lreal mx = 0; for (unsigned e = 0; e < m2; e++) if (na[e] > mx) mx = na[e];
    *nrm = mx;
    free(acc); free(tmp); free(na);
}
/* runs the fast product of n factors; f as above; checks */
static void many(unsigned m, unsigned deg0, unsigned n, const cplx *f, int norm, double amp) {
    unsigned m2 = m*m, full = deg0*n+1;
    FNFT_UINT deg = deg0, numel = m == 1 ? fnft__poly_fmult_numel(deg0, n) : m == 2 ? fnft__poly_fmult2x2_numel(deg0, n) : fnft__poly_fmult3x3_numel(deg0, n);
    cplx *p = malloc(numel*sizeof(cplx)), *r = m == 1 ? p : malloc(numel*sizeof(cplx));
    for (unsigned i = 0; i < numel; i++) p[i] = r[i] = 12345.678 - 9*I;
    if (m == 1) memcpy(p, f, n*(deg0+1)*sizeof(cplx));
    else for (unsigned k = 0; k < n; k++) for (unsigned e = 0; e < m2; e++) memcpy(p + (size_t)e*n*(deg0+1) + k*(deg0+1), f + ((size_t)k*m2+e)*(deg0+1), (deg0+1)*sizeof(cplx));
    FNFT_INT W = 987654, *Wp = norm ? &W : NULL;
    int rc = m == 1 ? fnft__poly_fmult(&deg, n, p, Wp) : m == 2 ? fnft__poly_fmult2x2(&deg, n, p, r, Wp) : fnft__poly_fmult3x3(&deg, n, p, r, Wp);
    lcplx *ex = malloc(m2*full*sizeof(lcplx)); lreal nrm;
    if (rc) { mc_fail("status", "m=%u deg=%u n=%u norm=%d returned %d", m, deg0, n, norm, rc); goto end; }
    if (deg != deg0*n) { mc_fail("degree", "m=%u deg=%u n=%u: product degree %u", m, deg0, n, (unsigned)deg); goto end; }
    exact(m, deg0, n, f, ex, &nrm);
    lreal sc = norm ? ldexpl(1, W) : 1, mx = 0;
    double tol = 3e-15*(8 + log2(full+1))*(1+log2(n+1));
    for (unsigned e = 0; e < m2; e++) for (unsigned c = 0; c < full; c++) {
        lcplx got = (lcplx)r[(size_t)e*full + c]*sc;
        lreal er = cabsl(got - ex[e*full+c]);
        if (cabs(r[(size_t)e*full+c]) > mx) mx = cabs(r[(size_t)e*full+c]);
        mc_max("product", er/(tol*nrm));
        if (!(er <= tol*nrm)) { mc_fail("product", "m=%u deg=%u n=%u norm=%d amp=%g entry %u coefficient %u: %.12Lg%+.12Lgi expected %.12Lg%+.12Lgi", m, deg0, n, norm, amp, e, c, creall(got), cimagl(got), creall(ex[e*full+c]), cimagl(ex[e*full+c])); goto end; }
    }
    if (norm && n >= 2) {   /* documented: the largest coefficient is between one half (one) and two */
        lreal emx = 0; for (unsigned i = 0; i < m2*full; i++) if (cabsl(ex[i]) > emx) emx = cabsl(ex[i]);
        if (emx > 1e-9*nrm && !(mx >= 0.499 && mx <= 2.001)) mc_fail("normalization", "m=%u deg=%u n=%u: largest magnitude %Lg", m, deg0, n, mx);
    }
    mc_outcome(mc_hash_d((double*)r, 2*m2*full, norm));
end:
    free(ex); free(p); if (m > 1) free(r);
}
/* two matrix polynomials, all unit pairs + dense */
static void pair(unsigned m, unsigned deg, int space) {
    unsigned m2 = m*m, len = fnft__poly_fmult_two_polys_len(deg), s1 = deg+1+(deg%3), s2 = deg+1+2*(deg%2), sr = space ? len + 1 : 2*deg+1 + (deg%2);
    fnft__fft_wrapper_plan_t pf = fnft__fft_wrapper_safe_plan_init(), pi = fnft__fft_wrapper_safe_plan_init();
    cplx *b0 = malloc(len*sizeof(cplx)), *b1 = malloc(len*sizeof(cplx)), *b2 = malloc(len*sizeof(cplx));
    fnft__fft_wrapper_create_plan(&pf, len, b0, b1, -1); fnft__fft_wrapper_create_plan(&pi, len, b0, b1, 1);
    cplx *p1 = calloc(m2*s1, sizeof(cplx)), *p2 = calloc(m2*s2, sizeof(cplx)), *r = malloc(m2*sr*sizeof(cplx));
    cplx *f = malloc(2*m2*(deg+1)*sizeof(cplx)); lcplx *ex = malloc(m2*(2*deg+1)*sizeof(lcplx));
    unsigned nu = m2*(deg+1);
    for (unsigned long c = 0; c < (unsigned long)nu*nu + 4; c++) {
        memset(f, 0, 2*nu*sizeof(cplx));
        if (c < (unsigned long)nu*nu) { f[c/nu] = 1; f[nu + c%nu] = c & 1 ? I : 1; }
        else for (unsigned i = 0; i < 2*nu; i++) f[i] = coef(c - (unsigned long)nu*nu, i)*(c & 1 ? 1e20 : 1);
        for (unsigned e = 0; e < m2; e++) { memcpy(p1 + e*s1, f + e*(deg+1), (deg+1)*sizeof(cplx)); memcpy(p2 + e*s2, f + nu + e*(deg+1), (deg+1)*sizeof(cplx)); }
        for (unsigned i = 0; i < m2*sr; i++) r[i] = 777;
        int rc = m == 2 ? fnft__poly_fmult_two_polys2x2(deg, p1, s1, p2, s2, r, sr, pf, pi, b0, b1, b2, space ? 2 : 0)
               : m == 3 ? fnft__poly_fmult_two_polys3x3(deg, p1, s1, p2, s2, r, sr, pf, pi, b0, b1, b2, space)
               : fnft__poly_fmult_two_polys(deg, p1, p2, r, pf, pi, b0, b1, b2, 0);
        if (rc) { mc_fail("status", "pair m=%u deg=%u returned %d", m, deg, rc); break; }
        lreal nrm; exact(m, deg, 2, f, ex, &nrm);
        int bad = 0;
        for (unsigned e = 0; e < m2 && !bad; e++) for (unsigned k = 0; k <= 2*deg; k++) {
            double er = cabs(r[e*sr+k] - (cplx)ex[e*(2*deg+1)+k]);
            if (!(er <= 1e-14*(8+log2(len))*nrm)) { mc_fail("pair", "m=%u deg=%u space=%d case %lu entry %u coefficient %u off by %g", m, deg, space, c, e, k, er); bad = 1; break; }
        }
        if (m == 1 && !bad) {
            /* reuse of transforms and accumulation modes */
            cplx acc[512], *big = malloc(len*sizeof(cplx));
            for (unsigned k = 0; k <= 2*deg; k++) acc[k] = coef(5, k);
            fnft__poly_fmult_two_polys(deg, p1, NULL, acc, pf, pi, b0, b1, b2, 1);   /* b2 holds the transform of p2 */
            for (unsigned k = 0; k <= 2*deg && !bad; k++) if (!(cabs(acc[k] - coef(5, k) - (cplx)ex[k]) <= 1e-14*(8+log2(len))*(nrm+2))) { mc_fail("mode 1", "deg=%u coefficient %u", deg, k); bad = 1; }
            fnft__poly_fmult_two_polys(deg, p1, p2, big, pf, pi, b0, b1, b2, 2);
            fnft__poly_fmult_two_polys(deg, p1, p1, big, pf, pi, b0, b1, b2, 4);
            fnft__poly_fmult_two_polys(deg, p2, p2, big, pf, pi, b0, b1, b2, 3);     /* p1 p2 + p1^2 + p2^2 */
            cplx g[256]; lcplx e1[512], e2[512]; lreal n1, n2;
            memcpy(g, f, nu*sizeof(cplx)); memcpy(g+nu, f, nu*sizeof(cplx)); exact(1, deg, 2, g, e1, &n1);
            memcpy(g, f+nu, nu*sizeof(cplx)); memcpy(g+nu, f+nu, nu*sizeof(cplx)); exact(1, deg, 2, g, e2, &n2);
            for (unsigned k = 0; k <= 2*deg && !bad; k++) if (!(cabs(big[k] - (cplx)(ex[k]+e1[k]+e2[k])) <= 1e-14*(8+log2(len))*(nrm+n1+n2))) { mc_fail("modes 2,4,3", "deg=%u coefficient %u", deg, k); bad = 1; }
            free(big);
        }
        if (bad) break;
        if (c % 17 == 0) mc_outcome(mc_hash_d((double*)r, 2*(2*deg+1), c));
        mc_count("pair products", 1);
    }
    fnft__fft_wrapper_destroy_plan(&pf); fnft__fft_wrapper_destroy_plan(&pi);
    free(b0); free(b1); free(b2); free(p1); free(p2); free(r); free(f); free(ex);
}
void explore(void) {
    unsigned dmax = mc_thorough ? 12 : 7;
    for (unsigned m = 1; m <= 3; m++)
        for (unsigned deg = 0; deg <= (m == 1 ? 40 : dmax); deg++)
            for (int space = 0; space < (m == 1 ? 1 : 2); space++)
                if (mc_begin("pair m=%u deg=%u space=%d", m, deg, space)) pair(m, deg, space);
    /* every word of factors over an alphabet of 3 non-commuting factors */
    for (unsigned m = 1; m <= 3; m++)
        for (unsigned deg = 1; deg <= 2; deg++)
            for (unsigned n = 1; n <= (mc_thorough ? 8 : 6); n++) {
                unsigned long words = 1; for (unsigned i = 0; i < n; i++) words *= 3;
                for (unsigned long w = 0; w < words; w++)
                    if (mc_begin("words m=%u deg=%u n=%u word %lu", m, deg, n, w)) {
                        unsigned sz = m*m*(deg+1);
                        cplx *f = malloc(n*sz*sizeof(cplx)); unsigned long x = w;
                        for (unsigned k = 0; k < n; k++, x /= 3) for (unsigned i = 0; i < sz; i++) f[k*sz+i] = coef(x%3 + 10, i)*(x % 3 == 2 ? 1e-3 : 1);
                        for (int norm = 0; norm < 2; norm++) many(m, deg, n, f, norm, 1);
                        free(f);
                    }
            }
    /* every number of factors and degree, dense data, several amplitudes */
    static const double amps[] = {1, 1e-30, 1e25};
    for (unsigned m = 1; m <= 3; m++)
        for (unsigned n = 1; n <= (mc_thorough ? 40 : 18); n++)
            for (unsigned deg = 0; deg <= (mc_thorough ? 12 : 6); deg++)
                for (int a = 0; a < 3; a++)
                    if (mc_begin("dense m=%u deg=%u n=%u amplitude %g", m, deg, n, amps[a])) {
                        unsigned sz = m*m*(deg+1);
                        cplx *f = malloc(n*sz*sizeof(cplx));
                        for (unsigned i = 0; i < n*sz; i++) f[i] = coef(n+a, i)*amps[a];
                        if (n <= 8 || a == 0) many(m, deg, n, f, 0, amps[a]);
                        many(m, deg, n, f, 1, amps[a]);
                        free(f);
                    }
    /* long products: numbers of factors around powers of two, and high degrees */
    static const unsigned ladn[] = {2,3,5,31,32,33,63,64,65,100,127,128,129,250,256,257,511,600,1025}, ladd[] = {1,2,3,4,8,18,60,105,420,1000};
    for (unsigned m = 1; m <= 3; m++)
        for (unsigned a = 0; a < NELEM(ladn); a++) for (unsigned b = 0; b < NELEM(ladd); b++) {
            unsigned n = ladn[a], deg = ladd[b], sz = m*m*(deg+1);
            if (n*deg < 60 || n*deg > (mc_thorough ? 4200u : 2100u)) continue;
            if (mc_begin("long m=%u deg=%u n=%u", m, deg, n)) {
                cplx *f = malloc(n*sz*sizeof(cplx));
                for (unsigned i = 0; i < n*sz; i++) f[i] = coef(n, i)/(1.5*m*sqrt(deg+1));
                many(m, deg, n, f, 0, 1);
                many(m, deg, n, f, 1, 1);
                free(f);
            }
        }
}
