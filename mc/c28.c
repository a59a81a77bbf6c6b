/* polynomial root finders */
#include "ref.h"
#include "fnft__poly_roots_fasteigen.h"
#include "fnft__poly_roots_fftgridsearch.h"
const char *mc_rule = "one case = one polynomial given by its multiset of roots (all multisets over an alphabet up to the stated degree) or coefficients, and for the grid searches an arc and number of points; fast eigenvalues: the product of the linear factors must give the polynomial back, and simple roots must be the true ones; grid searches: roots expected from the definition of the method; distinct = hash of the rounded roots";
static const cplx RA[] = {1, 0, -1, I, 0.5, 2, 1.0001, 0.3+0.4*I, 0.6-0.8*I, -3*I, 0.01, -0.9-0.1*I};
static void expand(unsigned deg, const lcplx *r, lcplx *p) {
    p[0] = 1; for (unsigned k = 1; k <= deg; k++) p[k] = 0;
    for (unsigned k = 0; k < deg; k++) for (unsigned j = k+1; j >= 1; j--) p[j] -= r[k]*p[j-1];
}
/* assigns found roots to true ones greedily; largest distance relative to max(1,|z|) */
static double match(unsigned deg, const lcplx *t, const cplx *z, unsigned *wi) {
    double worst = 0; char *used = calloc(deg, 1);
    for (unsigned i = 0; i < deg; i++) {
        int b = -1; double bd = INFINITY;
        for (unsigned j = 0; j < deg; j++) if (!used[j]) { double d = cabs(z[j] - (cplx)t[i]); if (d < bd) { bd = d; b = j; } }
        if (b < 0) { worst = INFINITY; break; }
        used[b] = 1; bd /= fmax(1, cabs((cplx)t[i])); if (bd > worst) { worst = bd; *wi = i; }
    }
    free(used); return worst;
}
static void eigen(unsigned deg, const lcplx *lp, cplx lead) {
    cplx *p = malloc((deg+1)*sizeof(cplx)), *z = malloc((deg+1)*sizeof(cplx)), *pc = malloc((deg+1)*sizeof(cplx));
    lcplx *zl = malloc((deg+1)*sizeof(lcplx)), *back = malloc((deg+1)*sizeof(lcplx)), *tr = malloc((deg+1)*sizeof(lcplx)), *pl = malloc((deg+1)*sizeof(lcplx));
    lreal nrm = 0;
    for (unsigned i = 0; i <= deg; i++) { p[i] = (cplx)(lp[i]*lead); pl[i] = p[i]; nrm = fmaxl(nrm, cabsl(pl[i])); }
    memcpy(pc, p, (deg+1)*sizeof(cplx)); z[deg] = 4242; for (unsigned i = 0; i < deg; i++) z[i] = NAN;
    int rc = fnft__poly_roots_fasteigen(deg, p, z);
    if (rc) { mc_fail("status", "returned %d", rc); goto end; }
    if (memcmp(p, pc, (deg+1)*sizeof(cplx))) mc_fail("input", "coefficients changed");
    if (z[deg] != 4242) mc_fail("bounds", "wrote behind the roots");
    for (unsigned i = 0; i < deg; i++) if (!isfinite(creal(z[i])) || !isfinite(cimag(z[i]))) { mc_fail("finite", "root %u is not finite", i); goto end; }
    if (deg <= 12) {   /* multiplicities: backward error of the whole set */
        for (unsigned i = 0; i < deg; i++) zl[i] = z[i];
        expand(deg, zl, back);
        lreal er = 0; for (unsigned i = 0; i <= deg; i++) er = fmaxl(er, cabsl(back[i]*pl[0] - pl[i]));
        double tol = 2e-14*deg*deg*nrm;
        mc_max("backward error", er/tol);
        if (!(er <= tol)) mc_fail("roots", "the product of the linear factors is off by %Lg (of %Lg)", er, nrm);
    }
    r_roots(deg, pl, tr);
    /* forward error: first order condition of each true root */
    for (unsigned i = 0; i < deg; i++) {
        lreal a = 0, az = cabsl(tr[i]); lcplx d = 0, v = pl[0];
        for (unsigned k = 1; k <= deg; k++) { d = d*tr[i] + v; v = v*tr[i] + pl[k]; }
        for (unsigned k = 0; k <= deg; k++) a += powl(az, deg-k);
        lreal dz = cabsl(d) > 0 ? 3e-14L*deg*deg*a*nrm/cabsl(d) : 1; /* normwise backward stable */
        lreal sep = 1e9; for (unsigned j = 0; j < deg; j++) if (j != i) sep = fminl(sep, cabsl(tr[j]-tr[i]));
        if (dz > sep/4) continue;   /* ill conditioned: only the backward error applies */
        unsigned c = 0; lreal best = 1e9; for (unsigned j = 0; j < deg; j++) { lreal e = cabsl(z[j]-tr[i]); if (e <= dz + 1e-15L*az) c++; if (e < best) best = e; }
        mc_max("forward error", best/(dz + 1e-15L*az));
        if (c != 1) { mc_fail("simple root", "root %.12Lg%+.12Lgi found %u times (closest at distance %Lg, tolerance %Lg)", creall(tr[i]), cimagl(tr[i]), c, best, dz); break; }
        mc_count("simple roots", 1);
    }
    mc_outcome(mc_hash_d((double*)z, 2*deg, deg));
end:
    free(p); free(z); free(pc); free(zl); free(back); free(tr); free(pl);
}
/* grid searches. Angles in units of the grid spacing relative to the start */
static void paraherm(double phi0, double eps, unsigned M, const double *ang, unsigned n, const cplx *off, unsigned noff) {
    unsigned deg = n + 2*noff; lcplx r[16], lp[20]; cplx p[20], roots[200];
    for (unsigned i = 0; i < n; i++) { lreal t = phi0 + (lreal)ang[i]*eps; r[i] = cosl(t) + I*sinl(t); }
    for (unsigned i = 0; i < noff; i++) { r[n+2*i] = off[i]; r[n+2*i+1] = 1/conjl((lcplx)off[i]); }
    expand(deg, r, lp);
    /* make it real on the circle: z^(-deg/2) p(z) c */
    lcplx v = 0; lreal t0 = phi0 + 0.123456L; lcplx z0 = cosl(t0) + I*sinl(t0);
    for (unsigned i = 0; i <= deg; i++) v = v*z0 + lp[i];
    v *= cosl(t0*deg/2) - I*sinl(t0*deg/2);
    lcplx c = conjl(v)/cabsl(v);
    for (unsigned i = 0; i <= deg; i++) { lp[i] *= c; p[i] = lp[i]; }
    double PHI[2] = {phi0, phi0 + eps*(M-1)}; FNFT_UINT m = M;
    roots[M] = 4242;
    int rc = fnft__poly_roots_fftgridsearch_paraherm(deg, p, &m, PHI, roots);
    if (rc) { mc_fail("status", "returned %d", rc); return; }
    if (m > M || roots[M] != 4242) { mc_fail("capacity", "%u roots", (unsigned)m); return; }
    lreal val[200];
    for (unsigned k = 0; k < M; k++) { lreal t = phi0 + (lreal)k*eps; lcplx z = cosl(t)+I*sinl(t), s = 0; for (unsigned i = 0; i <= deg; i++) s = s*z + lp[i]; s *= cosl(t*deg/2) - I*sinl(t*deg/2); val[k] = creall(s); }
    char seen[200] = {0};
    for (unsigned j = 0; j < m; j++) {
        double a = carg(roots[j]*cexp(-I*phi0))/eps; if (a < -0.5) a += 2*3.14159265358979323846/eps;
        if (!(fabs(cabs(roots[j])-1) < 1e-12)) { mc_fail("circle", "root %u not on the unit circle", j); return; }
        if (!(a > -1e-6 && a < M-1+1e-6)) { mc_fail("arc", "root at %g of 0..%u", a, M-1); return; }
        /* must belong to an expected root: same cell and at the linear interpolation */
        int ok = 0;
        for (unsigned i = 0; i < n && !ok; i++) {
            double x = ang[i]; int atgrid = fabs(x - round(x)) < 1e-7;
            if (x < -1e-7 || x > M-1+1e-7) continue;
            if (atgrid) { if (fabs(a - x) < 1e-5) { if (seen[i]) { mc_fail("duplicate", "the root at %g was reported twice", x); return; } seen[i] = 1; ok = 1; } continue; }
            unsigned k = floor(x); double lin = k + (double)(val[k]/(val[k]-val[k+1]));
            if (fabs(a - lin) < 1e-6) { if (seen[i]) { mc_fail("duplicate", "the root at %g was reported twice", x); return; } seen[i] = 1; ok = 1; }
        }
        if (!ok) { mc_fail("spurious", "reported root at grid position %.9g is no root", a); return; }
    }
    for (unsigned i = 0; i < n; i++) if (!seen[i] && ang[i] > 1e-7 && ang[i] < M-1-1e-7) { mc_fail("missing", "root at grid position %g not found", ang[i]); return; }
    mc_outcome(mc_hash_d((double*)roots, 2*m, m));
}
static void general(double phi0, double eps, unsigned M, const double *ang, unsigned n, const cplx *off, unsigned noff, cplx lead) {
    unsigned deg = n + noff; lcplx r[16], lp[20]; cplx p[20], roots[400];
    for (unsigned i = 0; i < n; i++) { lreal t = phi0 + (lreal)ang[i]*eps; r[i] = cosl(t) + I*sinl(t); }
    for (unsigned i = 0; i < noff; i++) r[n+i] = off[i];
    expand(deg, r, lp); for (unsigned i = 0; i <= deg; i++) p[i] = lp[i]*lead;
    double PHI[2] = {phi0, phi0 + eps*(M-1)}; FNFT_UINT m = M;
    roots[M] = 4242;
    int rc = fnft__poly_roots_fftgridsearch(deg, p, &m, PHI, roots);
    if (rc) { mc_fail("status", "returned %d", rc); return; }
    if (m > M || roots[M] != 4242) { mc_fail("capacity", "%u roots", (unsigned)m); return; }
    int seen[16] = {0};
    for (unsigned j = 0; j < m; j++) {
        int ok = 0;
        for (unsigned i = 0; i < deg; i++) if (cabs(roots[j] - (cplx)r[i]) <= eps) { seen[i]++; ok = 1; mc_max("distance in grid spacings", cabs(roots[j]-(cplx)r[i])/eps); }
        if (!ok) { mc_fail("spurious", "reported root %.9g%+.9gi is no root", creal(roots[j]), cimag(roots[j])); return; }
    }
    for (unsigned i = 0; i < n; i++) if (ang[i] > 1.01 && ang[i] < M-2.01 && seen[i] != 1) { mc_fail(seen[i] ? "duplicate" : "missing", "root at grid position %g found %d times", ang[i], seen[i]); return; }
    mc_outcome(mc_hash_d((double*)roots, 2*m, m));
}
void explore(void) {
    unsigned na = NELEM(RA), dmax = mc_thorough ? 6 : 5;
    /* all multisets of roots */
    for (unsigned deg = 1; deg <= dmax; deg++) {
        unsigned idx[8] = {0};
        for (;;) {
            for (int l = 0; l < 2; l++)
            if (mc_begin("eigen: degree %u roots %u,%u,%u,%u,%u,%u leading %d", deg, idx[0], deg>1?idx[1]:99, deg>2?idx[2]:99, deg>3?idx[3]:99, deg>4?idx[4]:99, deg>5?idx[5]:99, l)) {
                lcplx r[8], lp[9]; for (unsigned i = 0; i < deg; i++) r[i] = RA[idx[i]];
                expand(deg, r, lp); eigen(deg, lp, l ? -0.003+40*I : 1);
            }
            int k = deg-1; while (k >= 0 && idx[k] == na-1) k--;
            if (k < 0) break;
            idx[k]++; for (unsigned j = k+1; j < deg; j++) idx[j] = idx[k];
        }
    }
    /* coefficient families, every degree */
    for (unsigned deg = 2; deg <= (mc_thorough ? 256 : 129); deg += deg < (mc_thorough ? 160 : 60) ? 1 : deg == 60 ? 4 : deg == 64 ? 1 : deg == 65 ? 35 : deg == 100 ? 28 : deg == 128 ? 1 : 32) for (int f = 0; f < 6; f++)
        if (mc_begin("eigen: degree %u family %d", deg, f)) {
            lcplx *lp = calloc(deg+1, sizeof(lcplx));
            for (unsigned i = 0; i <= deg; i++) switch (f) {
                case 0: lp[i] = i == 0 ? 1 : i == deg ? -1 : 0; break;
                case 1: lp[i] = 1; break;
                case 2: lp[i] = (double)(((i*7+3)%11)/5.0 - 0.9) + I*(double)(((i*5+1)%13)/6.0-1.1); break;
                case 3: lp[i] = powl(0.7L, i)*(1+I*(i%3)); break;
                case 4: lp[i] = i == 0 ? 1 : i == 1 ? 0.5+I : i == deg ? 1e-3 : 0; break;
                default: lp[i] = 1/(lreal)(1+i)*(i%2 ? -1 : 1); }
            eigen(deg, lp, 1); free(lp);
        }
    /* grid searches: all sets of up to 3 (4) angles on a lattice of quarter cells */
    static const double sub[] = {0, 0.25, 0.5, 0.8};
    for (unsigned M = 4; M <= (mc_thorough ? 9 : 6); M++) for (int w = 0; w < 2; w++) {
        double eps = w ? 0.31 : 0.05, phi0 = w ? -0.7 : 2.9; unsigned L = 4*(M+1);
        for (unsigned a = 0; a < L; a++) for (unsigned b = a; b < L; b++) for (unsigned c = b; c < L; c++) for (unsigned d = c; d < L; d++) {
            /* b == a: only off-circle roots besides; exactly 0, 2 or 4 distinct angles */
            unsigned n = a == b ? (b == c && c == d ? 0 : 99) : c == b ? (d == c ? 2 : 99) : d == c ? 99 : 4;
            if (n == 99) continue;
            if (n == 0 && a != 0) continue;
            double ang[4] = {(a/4)+sub[a%4]-1, (b/4)+sub[b%4]-1, (c/4)+sub[c%4]-1, (d/4)+sub[d%4]-1};
            int close = 0; for (unsigned i = 1; i < n; i++) if (ang[i]-ang[i-1] <= 1.0) close = 1;
            if (close) continue;
            if (!mc_begin("paraherm: M=%u w=%d angles %g %g %g %g (%u)", M, w, ang[0], ang[1], ang[2], ang[3], n)) continue;
            static const cplx off[] = {0.5+0.2*I};
            if (n) paraherm(phi0, eps, M, ang, n, off, 0);
            paraherm(phi0, eps, M, ang, n, off, 1);
        }
    }
    for (unsigned M = 12; M <= (mc_thorough ? 24 : 16); M += 2) for (int w = 0; w < 2; w++) {
        double eps = w ? 0.06 : 0.01, phi0 = w ? -0.7 : 2.9; unsigned L = 4*(M-1);
        for (unsigned a = 0; a < L; a++) for (unsigned b = a; b < L; b++) {
            double ang[2] = {a/4+sub[a%4], b/4+sub[b%4]}; unsigned n = a == b ? 1 : 2;
            if (n == 2 && ang[1]-ang[0] < 4) continue;
            if (!mc_begin("general: M=%u w=%d angles %g %g (%u)", M, w, ang[0], ang[1], n)) continue;
            static const cplx off[] = {0.3-0.2*I, 2.5};
            if (n == 2) general(phi0, eps, M, ang, n, off, 0, 1);
            general(phi0, eps, M, ang, n, off, 1, 1e-5*I);
            general(phi0, eps, M, ang, n, off, 2, -77);
        }
        if (mc_begin("general: no root, M=%u w=%d", M, w)) { static const cplx off[] = {0.3-0.2*I, 2.5, -0.6}; general(phi0, eps, M, NULL, 0, off, 3, 1); general(phi0, eps, M, NULL, 0, off, 2, 1); }
    }
}
