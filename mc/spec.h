/* helpers on the long double reference: a(lambda), a'(lambda), Newton's method */
#ifndef SPEC_H
#define SPEC_H
#include "ref.h"
#ifndef LI
#define LI ((lcplx)_Complex_I)
#endif
/* the sample-wise scheme the library refines bound states of fast discretizations with */
static inline rscheme sp_refine(rscheme s) {
    if (!r_is_fast(s)) return s;
    return s == R_44A || s == R_44B ? R_CF42 : R_BO;
}
static inline lcplx sp_a(const Prob *p, const double *T, lcplx x) { lcplx ab[3]; r_contspec(p, T, x, ab); return ab[0]; }
static inline lcplx sp_b(const Prob *p, const double *T, lcplx x) { lcplx ab[3]; r_contspec(p, T, x, ab); return ab[1]; }
static inline lcplx sp_da(const Prob *p, const double *T, lcplx x) {
    /* scale of variation of a: the window length */
    lreal rho = 0.02L/(T[1]-T[0]+p->eps); lcplx d = 0; const int N = 12;
    if (p->type != 'N' && p->type != 'M' && rho > cabsl(x)/8) rho = cabsl(x)/8;
    for (int k = 0; k < N; k++) { lcplx u = cexpl(2*acosl(-1)*LI*k/N); d += sp_a(p, T, x + rho*u)/(u*rho*N); }
    return d;
}
/* returns the number of iterations needed (0 = did not converge); *x is updated; ext: extremes of the iterates (re min, re max, im min, im max) */
static inline int sp_newton_path(const Prob *p, const double *T, lcplx *x, int maxit, double *ext) {
    lreal prev = INFINITY; if (ext) ext[0] = ext[2] = INFINITY, ext[1] = ext[3] = -INFINITY;
    for (int it = 1; it <= maxit; it++) {
        lcplx st = sp_a(p, T, *x)/sp_da(p, T, *x);
        *x -= st;
        if (!(cabsl(*x) < 1e4L)) return 0;
        if (ext) { ext[0] = fmin(ext[0], creall(*x)); ext[1] = fmax(ext[1], creall(*x)); ext[2] = fmin(ext[2], cimagl(*x)); ext[3] = fmax(ext[3], cimagl(*x)); }
        if (cabsl(st) < 1e-14L*(1 + cabsl(*x)) || (cabsl(st) < 1e-10L && cabsl(st) >= prev)) return it;
        prev = cabsl(st);
    }
    return 0;
}
static inline int sp_newton(const Prob *p, const double *T, lcplx *x, int maxit) { return sp_newton_path(p, T, x, maxit, NULL); }
static inline const char *sp_name(char t, int d) { return t == 'N' ? nse_name(d) : t == 'K' ? kdv_name(d) : manakov_name(d); }
static inline rscheme sp_scheme(char t, int d, char *ty) { *ty = t; return t == 'N' ? r_from_nse(d) : t == 'K' ? r_from_kdv(d, ty) : r_from_manakov(d); }
static inline int sp_resamples(rscheme s) { return s == R_44A || s == R_44B || s == R_46B || s == R_CF42 || s == R_MCF42 || s == R_CF43 || s == R_CF53 || s == R_CF64; }
static inline int sp_order(char t, rscheme s) {
    if (t == 'M') return s == R_BO || (s >= R_1A && s <= R_8B) ? 2 : 4;
    if (s <= R_BO) return 2;
    return s == R_CF53 ? 5 : s == R_CF64 ? 6 : 4;
}
static inline int sp_highdeg(rscheme s) { return (s >= R_7A && s <= R_8B) || s == R_5A || s == R_5B; }
#endif
