/* zeros of the upper left element of a fast scheme: polynomial interpolated from the reference, roots in long double */
#ifndef SP_POLY_H
#define SP_POLY_H
#include "spec.h"
#define SP_MAXDEG 1600
/* coefficients c[0] z^deg + ... + c[deg] of z^{deg/2} H_rc, z = e^{i lambda per}; returns the size of the entries */
static double sp_poly(const Prob *p, unsigned deg, lreal per, int r, int c, lcplx *co) {
    unsigned N = deg+1; lcplx *v = malloc(N*sizeof *v); double g, gm = 0; const lreal pi = acosl(-1);
    for (unsigned k = 0; k < N; k++) {
        lreal th = 2*pi*k/N; if (k > N/2) th -= 2*pi;
        Mat M = r_total_norm(p, th/per, &g); if (g > gm) gm = g;
        v[k] = M.a[r][c]*cexpl(LI*th*deg/2);
    }
    lcplx *w = malloc(N*sizeof *w); for (unsigned k = 0; k < N; k++) w[k] = cexpl(-2*pi*LI*k/N);
    for (unsigned j = 0; j < N; j++) { lcplx s = 0; for (unsigned k = 0; k < N; k++) s += v[k]*w[(uint64_t)j*k % N]; co[N-1-j] = s/N; }
    free(v); free(w); return gm;
}
typedef struct { lcplx z, lam; double tol; int unclear; } Root;   /* tol: expected accuracy of lambda */
/* polynomial with known coefficients -> roots; drops (numerically) vanishing leading coefficients and zero roots */
static unsigned sp_poly_roots(unsigned deg, lcplx *co, lreal per, double growth, Root *rt) {
    lreal m = 0, s1 = 0; for (unsigned i = 0; i <= deg; i++) { m = fmaxl(m, cabsl(co[i])); s1 += cabsl(co[i]); }
    unsigned lo = 0, hi = deg; 
    while (lo < hi && cabsl(co[lo]) < 1e-13L*m) lo++;
    while (hi > lo && cabsl(co[hi]) < 1e-13L*m) hi--;
    unsigned n = hi-lo; if (!n) return 0;
    lcplx *z = malloc(n*sizeof *z); r_roots(n, co+lo, z);
    for (unsigned i = 0; i < n; i++) {
        lcplx d = 0, pz = 0; lreal mz = 0, az = cabsl(z[i]);
        for (unsigned k = lo; k <= hi; k++) { d = d*z[i] + pz; pz = pz*z[i] + co[k]; mz = mz*az + 1; }
        rt[i].z = z[i]; rt[i].lam = clogl(z[i])/(LI*per);
        double dz = 2e-14*(deg+8)*fmax(growth, (double)s1)*fmax(1, (double)(s1/cabsl(co[lo])))*(double)(powl(fmaxl(1, az), n))/(double)cabsl(d);
        rt[i].tol = 1e-13 + dz/(double)(az*per);
        rt[i].unclear = cabsl(pz) > 1e-15L*s1*powl(fmaxl(1, az), n) || !(dz < 1e-4*(double)az) || !(rt[i].tol < 1e-3);
        if (fabsl(fabsl(cargl(z[i])) - acosl(-1)) < dz + 1e-9L) rt[i].unclear = 1;
    }
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (i != j && cabsl(rt[i].lam-rt[j].lam) < 1e-6L + 10*rt[j].tol) rt[i].unclear = 1;
    free(z); return n;
}
#endif
