/* spectral factorization against the factor built from independently computed roots */
#include "ref.h"
#include "fnft__poly_specfact.h"
const char *mc_rule = "one case = one polynomial (all coefficient words over an alphabet up to the stated degree, dense families above, scaled to several maxima on the unit circle) x sign x oversampling; compared coefficient by coefficient with the factor built from the roots of the Laurent polynomial (long double), the identity on the circle and the location of the roots; distinct = hash of the rounded factor";
/* returns 0 if the problem is too ill-posed to say anything */
static void one(unsigned deg, const cplx *B, unsigned os, int kappa) {
    unsigned n2 = 2*deg; lcplx *L = calloc(n2+1, sizeof(lcplx)), *z = malloc((n2+1)*sizeof(lcplx)), *A = calloc(deg+2, sizeof(lcplx));
    cplx *res = malloc((deg+2)*sizeof(cplx)), *Bc = malloc((deg+1)*sizeof(cplx));
    /* Laurent coefficients of s - kappa |B|^2, B(w) = sum B_i e^{-iwi}; L[j] multiplies x^(n2-j), x = e^{-iw}, shifted by deg */
    for (unsigned i = 0; i <= deg; i++) for (unsigned j = 0; j <= deg; j++) L[deg + (int)j - (int)i] += (lcplx)B[i]*conjl((lcplx)B[j])*(kappa == 0 ? 1 : -kappa);
    if (kappa) L[deg] += 1;
    /* strip vanishing outer coefficients (B with zero ends) */
    unsigned lo = 0; lreal nrm = 0; for (unsigned i = 0; i <= n2; i++) nrm = fmaxl(nrm, cabsl(L[i]));
    while (lo < deg && cabsl(L[lo]) <= 1e-17L*nrm) lo++;
    unsigned n = n2 - 2*lo, h = n/2; /* h zeros on each side */
    r_roots(n, L+lo, z);
    unsigned in = 0; lreal tail = 0, rmax = 0;
    unsigned M = (deg+1)*os; for (;; M++) { unsigned m = M; while (m%2==0) m /= 2; while (m%3==0) m /= 3; while (m%5==0) m /= 5; if (m == 1) break; }
    A[0] = 1;
    for (unsigned i = 0; i < n; i++) if (cabsl(z[i]) > 1) {
        /* factor (1 - x/z_i): no zero of A(x) inside the unit circle */
        in++; lreal r = 1/cabsl(z[i]); rmax = fmaxl(rmax, r);
        if (in <= h) for (unsigned j = in; j >= 1; j--) A[j] -= A[j-1]/z[i];
        for (unsigned k = (M+1)/2; k < 100000; k++) { lreal t = powl(r, k)/k; tail += t; if (t < 1e-18L*tail || t < 1e-25L) break; }
    }
    if (in != h || rmax > 0.999) { mc_count("skipped: roots too close to the circle", 1); goto end; }
    {   /* scale: |A|^2 = L on the circle, A[0] > 0 */
        lcplx lv = 0, av = 0, x = cosl(0.3L) - I*sinl(0.3L);
        for (unsigned i = 0; i <= n2; i++) lv = lv*x + L[i];
        lv *= cpowl(x, -(lreal)deg); /* value of the Laurent polynomial */
        for (int i = deg; i >= 0; i--) av = av*x + A[i];
        lreal s = sqrtl(cabsl(lv))/cabsl(av);
        for (unsigned i = 0; i <= deg; i++) A[i] *= s;
    }
    memcpy(Bc, B, (deg+1)*sizeof(cplx)); res[deg+1] = 4242;
    int rc = fnft__poly_specfact(deg, B, res, os, kappa);
    if (rc) { mc_fail("status", "returned %d", rc); goto end; }
    if (memcmp(Bc, B, (deg+1)*sizeof(cplx)) || res[deg+1] != 4242) mc_fail("input", "input changed or wrote behind the result");
    lreal amax = 0, lmin = 1e300L; for (unsigned i = 0; i <= deg; i++) amax += cabsl(A[i]);
    for (unsigned k = 0; k < 64; k++) { lcplx v = 0, x = cexpl(-I*(lreal)k*0.0982L); for (int i = deg; i >= 0; i--) v = v*x + A[i]; lmin = fminl(lmin, cabsl(v)); }
    lreal tol = amax*(expl(fminl(3*tail, 50))-1)*1.0 + 1e-13L*(deg+8)*(1 + 1/(lmin*lmin))*amax;
    if (tail > 0.05) { mc_count("skipped: oversampling too small", 1); goto end; }
    /* the factor built from the roots is itself inexact for high degrees: measure by how much it misses the identity */
    lreal refres = 0, tolc = tol;
    for (unsigned k = 0; k < 4*(deg+1); k++) {
        lcplx b = 0, a = 0, x = cexpl(-2*I*acosl(-1)*k/(4*(deg+1)));
        for (int i = deg; i >= 0; i--) { b = b*x + B[i]; a = a*x + A[i]; }
        lreal ab = cabsl(b)*cabsl(b), aa = cabsl(a)*cabsl(a), want = kappa ? 1 - kappa*ab : ab;
        refres = fmaxl(refres, fabsl(aa - want));
    }
    tolc += 20*refres*(1 + 1/lmin);
    if (refres > 1e-5L) { mc_count("skipped: reference roots too inexact", 1); goto end; }
    lreal er = 0; for (unsigned i = 0; i <= deg; i++) er = fmaxl(er, cabsl(conjl((lcplx)res[deg-i]) - A[i]));
    mc_max("factor", er/tolc);
    if (!(er <= tolc)) mc_fail("factor", "coefficients off by %Lg (tolerance %Lg, M=%u, largest root %Lg)", er, tolc, M, rmax);
    /* identity */
    for (unsigned k = 0; k < 40; k++) {
        lcplx b = 0, a = 0, x = cexpl(-I*(lreal)k*0.157L), y = conjl(x);
        for (int i = deg; i >= 0; i--) b = b*x + B[i];
        for (unsigned i = 0; i <= deg; i++) a = a*y + res[i];   /* descending coefficients in e^{iw} */
        lreal ab = cabsl(b)*cabsl(b), aa = cabsl(a)*cabsl(a), want = kappa ? 1 - kappa*ab : ab;
        if (!(fabsl(aa - want) <= 4*tol*amax*(deg+1))) { mc_fail("identity", "at angle %g: %.12Lg expected %.12Lg", k*0.157, aa, want); break; }
    }
    mc_outcome(mc_hash_d((double*)res, 2*deg+2, kappa));
    mc_count("factors", 1);
end:
    free(L); free(z); free(A); free(res); free(Bc);
}
static double circmax(unsigned deg, const cplx *B) { double m = 0; for (unsigned k = 0; k < 20*(deg+1)+7; k++) { cplx v = 0, x = cexp(-I*2*3.14159265358979*k/(20*(deg+1)+7)); for (int i = deg; i >= 0; i--) v = v*x + B[i]; if (cabs(v) > m) m = cabs(v); } return m; }
void explore(void) {
    static const cplx al[4] = {0, 1, -0.6+0.5*I, 0.25*I};
    static const double sc1[] = {0.4, 0.9, 0.1}, scm[] = {0.5, 4, 40};
    static const unsigned oss[] = {2, 3, 4, 5, 8, 16, 17, 32, 64};
    unsigned dmax = mc_thorough ? 6 : 4;
    cplx B[128];
    for (unsigned deg = 1; deg <= dmax; deg++) {
        unsigned long words = 1; for (unsigned i = 0; i <= deg; i++) words *= 4;
        for (unsigned long w = 1; w < words; w++) for (unsigned o = 0; o < NELEM(oss); o++)
            if (mc_begin("word %lu degree %u oversampling %u", w, deg, oss[o])) {
                unsigned long x = w; for (unsigned i = 0; i <= deg; i++, x /= 4) B[i] = al[x%4];
                double m = circmax(deg, B); if (m == 0) continue;
                for (int s = 0; s < 3; s++) {
                    cplx C[16];
                    for (unsigned i = 0; i <= deg; i++) C[i] = B[i]*sc1[s]/m; one(deg, C, oss[o], 1);
                    for (unsigned i = 0; i <= deg; i++) C[i] = B[i]*scm[s]/m; one(deg, C, oss[o], -1);
                    if (s == 0) one(deg, B, oss[o], 0);
                }
            }
    }
    for (unsigned deg = 1; deg <= 127; deg += deg < (mc_thorough ? 60 : 30) ? 1 : deg < 60 ? 33 : deg == 63 || deg == 126 ? 1 : deg == 60 ? 3 : deg == 64 ? 35 : 27) for (int f = 0; f < 4; f++) for (unsigned o = 0; o < NELEM(oss); o++)
        if (mc_begin("family %d degree %u oversampling %u", f, deg, oss[o])) {
            for (unsigned i = 0; i <= deg; i++) switch (f) {
                case 0: B[i] = 1; break;
                case 1: B[i] = ((i*7+3)%11)/5.0 - 0.9 + I*(((i*5+1)%13)/6.0-1.1); break;
                case 2: B[i] = exp(-pow((i - deg/2.0)/(deg/5.0+0.5), 2))*cexp(I*0.5*i); break;
                default: B[i] = i == deg ? 1 : 0; }
            double m = circmax(deg, B);
            for (int s = 0; s < 3; s++) {
                cplx C[128];
                for (unsigned i = 0; i <= deg; i++) C[i] = B[i]*sc1[s]/m; one(deg, C, oss[o], 1);
                for (unsigned i = 0; i <= deg; i++) C[i] = B[i]*scm[s]/m; one(deg, C, oss[o], -1);
            }
        }
}
