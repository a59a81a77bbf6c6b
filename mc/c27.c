/* evaluation of polynomials against the defining sums */
#include "mc.h"
#include "fnft__poly_eval.h"
#include "fnft__poly_chirpz.h"
const char *mc_rule = "one case = one polynomial degree x number of points (x start x ratio of the spiral); every unit polynomial and dense ones are evaluated and compared with Horner's rule in long double; distinct = hash of the rounded values";
static cplx coef(unsigned v, unsigned i, unsigned deg) {
    if (v <= deg) return i == v;
    switch (v - deg) { case 1: return 1; case 2: return ((i*7+3)%11)/5.0 - 1 + I*(((i*5+1)%13)/6.0-1); case 3: return (i%2 ? -1e10 : 1e10)*(i+1); default: return i == 0 || i == deg ? 1 : 1e-8*I; }
}
static lcplx pval(const cplx *p, unsigned deg, lcplx z, lreal *absum, lcplx *der) {
    lcplx s = 0, d = 0; lreal a = 0;
    for (unsigned i = 0; i <= deg; i++) { d = d*z + s; s = s*z + p[i]; a = a*cabsl(z) + cabsl((lcplx)p[i]); }
    *absum = a; if (der) *der = d; return s;
}
static void direct(unsigned deg, unsigned nz) {
    cplx *p = malloc((deg+1)*sizeof(cplx)), *z = malloc((nz+1)*sizeof(cplx)), *z1 = malloc((nz+1)*sizeof(cplx)), *z2 = malloc((nz+1)*sizeof(cplx)), *d = malloc((nz+1)*sizeof(cplx));
    static const double rad[] = {0, 1, 0.5, 2, 1e-3, 50, 0.999999, 1.000001};
    for (unsigned v = 0; v <= deg+4; v++) {
        for (unsigned i = 0; i <= deg; i++) p[i] = coef(v, i, deg);
        for (unsigned i = 0; i < nz; i++) z[i] = rad[i%8]*cexp(I*(0.3 + 2.1*i));
        z1[nz] = z2[nz] = d[nz] = 4242;
        memcpy(z1, z, nz*sizeof(cplx)); memcpy(z2, z, nz*sizeof(cplx));
        int r1 = fnft__poly_eval(deg, p, nz, z1), r2 = fnft__poly_evalderiv(deg, p, nz, z2, d);
        if (r1 || r2) { mc_fail("status", "returned %d %d", r1, r2); break; }
        if (z1[nz] != 4242 || z2[nz] != 4242 || d[nz] != 4242) mc_fail("bounds", "wrote behind the arrays");
        for (unsigned i = 0; i < nz; i++) {
            lreal a; lcplx dv, s = pval(p, deg, z[i], &a, &dv);
            lreal t = 4e-16*(2*deg+4)*(1+deg)*a, ad = 0;
            /* derivative: rounding relative to sum |k p_k z^(k-1)|, outside the unit circle to deg sum |p_k z^(k-1)| */
            for (unsigned k = 0; k < deg; k++) ad += (deg-k)*cabs(p[k])*powl(cabs(z[i]), deg-k-1);
            if (cabs(z[i]) > 1) ad += deg*a/cabs(z[i]);
            lreal td = 4e-16*(4*deg+8)*(deg+1)*ad;
            lreal e1 = cabsl(z1[i]-s), e2 = cabsl(z2[i]-s), e3 = cabsl(d[i]-dv);
            if (!(e1 <= t)) mc_fail("eval", "polynomial %u point %u: %.12g%+.12gi expected %.12g%+.12gi", v, i, creal(z1[i]), cimag(z1[i]), (double)creall(s), (double)cimagl(s));
            if (!(e2 <= t)) mc_fail("evalderiv value", "polynomial %u point %u", v, i);
            if (!(e3 <= td)) mc_fail("derivative", "polynomial %u point %u: %.12g%+.12gi expected %.12g%+.12gi", v, i, creal(d[i]), cimag(d[i]), (double)creall(dv), (double)cimagl(dv));
            if (mc_failed_this_case()) goto end;
        }
        mc_outcome(mc_hash_d((double*)z1, 2*nz, v));
    }
end:
    free(p); free(z); free(z1); free(z2); free(d);
}
static void spiral(unsigned deg, unsigned M, cplx A, cplx W) {
    cplx *p = malloc((deg+1)*sizeof(cplx)), *r = malloc((M+1)*sizeof(cplx));
    for (unsigned v = 0; v <= deg+4; v++) {
        if (deg > 12 && v <= deg && v % 5 && v != deg) continue;
        for (unsigned i = 0; i <= deg; i++) p[i] = coef(v, i, deg);
        r[M] = 4242;
        int rc = fnft__poly_chirpz(deg, p, A, W, M, r);
        if (rc) { mc_fail("status", "returned %d", rc); break; }
        if (r[M] != 4242) mc_fail("bounds", "wrote behind the result");
        /* conditioning of the algorithm: |y_n| sum times max chirp times outer chirp */
        lreal ysum = 0, vmax = 0; unsigned mx = deg > M ? deg : M;
        for (unsigned n = 0; n <= deg; n++) ysum += cabs(p[deg-n])*powl(cabs(A), -(lreal)n)*powl(cabs(W), 0.5L*n*n);
        for (unsigned n = 0; n <= mx; n++) vmax = fmaxl(vmax, powl(cabs(W), -0.5L*n*n));
        for (unsigned n = 0; n < M; n++) {
            lcplx z = 1/((lcplx)A*cpowl((lcplx)W, -(lreal)n)); lreal a; lcplx s = pval(p, deg, z, &a, NULL);
            lreal outer = powl(cabs(W), 0.5L*n*n);
            lreal tol = 2e-15*(20 + mx*(lreal)mx*0.5)*(ysum*vmax*outer + a);
            lreal e = cabsl(r[n] - s);
            mc_max("chirpz", e/tol);
            if (!(e <= tol)) { mc_fail("chirpz", "polynomial %u point %u: %.12g%+.12gi expected %.12Lg%+.12Lgi (tolerance %Lg)", v, n, creal(r[n]), cimag(r[n]), creall(s), cimagl(s), tol); goto end; }
        }
        mc_outcome(mc_hash_d((double*)r, 2*M, v));
    }
end:
    free(p); free(r);
}
void explore(void) {
    unsigned dm = mc_thorough ? 80 : 40;
    for (unsigned deg = 0; deg <= dm; deg++) for (unsigned nz = 0; nz <= 17; nz += (nz < 3 ? 1 : 7))
        if (mc_begin("eval degree %u points %u", deg, nz)) direct(deg, nz);
    static const double Ar[] = {1, 0.97, 1.05}, Aa[] = {0, 0.4, -2.9}, Wr[] = {1, 0.999, 1.002}, Wa[] = {0.3, -0.07, 3.0, 1e-3};
    unsigned gm = mc_thorough ? 34 : 16;
    for (unsigned deg = 0; deg <= gm; deg++) for (unsigned M = 1; M <= gm; M++)
        for (unsigned a = 0; a < 9; a++) for (unsigned w = 0; w < 12; w++)
            if (mc_begin("chirpz degree %u points %u start %g e^%gi ratio %g e^%gi", deg, M, Ar[a%3], Aa[a/3], Wr[w%3], Wa[w/3]))
                spiral(deg, M, Ar[a%3]*cexp(I*Aa[a/3]), Wr[w%3]*cexp(I*Wa[w/3]));
    /* long: the library uses up to several thousand points */
    for (unsigned deg = 20; deg <= 400; deg += 95) for (unsigned M = 7; M <= 300; M += 61) for (unsigned w = 0; w < 4; w++)
        if (mc_begin("chirpz long degree %u points %u angle %g", deg, M, Wa[w])) spiral(deg, M, cexp(I*0.77), cexp(I*Wa[w]));
}
