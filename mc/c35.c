/* order of convergence of the continuous spectra: every discretization, with
 * and without extrapolation, along ladders of lengths, against the solution of
 * the defining differential equations (integrated independently of any discretization) */
#include "ref.h"
#define LI ((lcplx)_Complex_I)
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
const char *mc_rule = "one case = one pulse x discretization x sign x extrapolation; the transform is executed on a ladder of lengths with steps halving, each error is taken with respect to the solution of the differential equations, the decrease of the error compared with the order in the tables; non-trivial = at least one step of the ladder is above the rounding floor and in the asymptotic regime; distinct = hash of the errors";
#define M 5
#define TW 6.5
static const double XI[2] = {-1.3, 1.7}, XIK[2] = {0.6, 2.4};
typedef struct { double c0, c1, w, v, ch, t0; } Pulse;
static cplx pulse(const Pulse *p, double t) { double s = t - p->t0; return (p->c0 + p->c1*s)*exp(-s*s/p->w)*cexp(I*(p->v*s + p->ch*s*s)); }
static lcplx pulsel(const Pulse *p, lreal t) { lreal s = t - (lreal)p->t0; return (p->c0 + p->c1*s)*expl(-s*s/p->w)*cexpl(LI*(p->v*s + p->ch*s*s)); }
/* right hand sides in the frame rotating with the free solution */
static void rhs(char type, int kappa, const Pulse *p, const Pulse *p2, lreal xi, lreal t, const lcplx *u, lcplx *du) {
    lcplx e = cexpl(2*LI*xi*t), q = pulsel(p, t);
    if (type == 'K') { lcplx s = creall(q)/(2*LI*xi); du[0] = s*(u[0] + u[1]*e); du[1] = -s*(u[0]/e + u[1]); du[2] = 0; return; }
    du[0] = q*e*u[1]; du[1] = -kappa*conjl(q)/e*u[0]; du[2] = 0;
    if (type == 'M') { lcplx q2 = pulsel(p2, t); du[0] += q2*e*u[2]; du[2] = -kappa*conjl(q2)/e*u[0]; }
}
static void rk4(char type, int kappa, const Pulse *p, const Pulse *p2, lreal xi, int n, lcplx *u) {
    lreal h = 2*(TW+1)/n; u[0] = 1; u[1] = u[2] = 0;
    for (int i = 0; i < n; i++) {
        lreal t = -(TW+1) + i*h; lcplx k1[3], k2[3], k3[3], k4[3], v[3];
        rhs(type, kappa, p, p2, xi, t, u, k1);
        for (int j = 0; j < 3; j++) v[j] = u[j] + h/2*k1[j]; rhs(type, kappa, p, p2, xi, t + h/2, v, k2);
        for (int j = 0; j < 3; j++) v[j] = u[j] + h/2*k2[j]; rhs(type, kappa, p, p2, xi, t + h/2, v, k3);
        for (int j = 0; j < 3; j++) v[j] = u[j] + h*k3[j]; rhs(type, kappa, p, p2, xi, t + h, v, k4);
        for (int j = 0; j < 3; j++) u[j] += h/6*(k1[j] + 2*k2[j] + 2*k3[j] + k4[j]);
    }
}
static void exact(char type, int kappa, const Pulse *p, const Pulse *p2, const double *X, lcplx ex[M][3]) {
    static struct { char t; int k; Pulse p, p2; lcplx ex[M][3]; } cache[8]; static int nc;
    for (int i = 0; i < 8; i++) if (cache[i].t == type && cache[i].k == kappa && !memcmp(&cache[i].p, p, sizeof *p) && !memcmp(&cache[i].p2, p2, sizeof *p2)) { memcpy(ex, cache[i].ex, sizeof cache[i].ex); return; }
    for (int i = 0; i < M; i++) {
        lreal xi = X[0] + i*((lreal)X[1]-X[0])/(M-1); lcplx u[3], v[3];
        rk4(type, kappa, p, p2, xi, 1500, u); rk4(type, kappa, p, p2, xi, 3000, v);
        lcplx w[3]; rk4(type, kappa, p, p2, xi, 6000, w);
        double dd = 0;
        for (int j = 0; j < 3; j++) { lcplx r1 = v[j] + (v[j]-u[j])/15, r2 = w[j] + (w[j]-v[j])/15; ex[i][j] = r2 + (r2-r1)/31; dd = fmax(dd, cabs((cplx)(r2-r1))); }
        mc_max("estimated error of the exact solution", dd/31);
    }
    cache[nc].t = type; cache[nc].k = kappa; cache[nc].p = *p; cache[nc].p2 = *p2; memcpy(cache[nc].ex, ex, sizeof cache[nc].ex); nc = (nc+1)%8;
}
static double run(char type, int d, int kappa, int rich, const Pulse *p, const Pulse *p2, unsigned D, lcplx ex[M][3]) {
    static cplx q1[8192], q2[8192], out[5*M]; double T[2] = {-TW, TW}; int rc; int nb = type == 'M' ? 3 : 2;
    for (unsigned i = 0; i < D; i++) { double t = T[0] + i*(T[1]-T[0])/(D-1); q1[i] = pulse(p, t); q2[i] = pulse(p2, t); if (type == 'K') q1[i] = creal(q1[i]); }
    if (type == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = 1; o.richardson_extrapolation_flag = rich; rc = fnft_nsev(D, q1, T, M, out, (double*)XI, NULL, NULL, NULL, kappa, &o); }
    else if (type == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = 1; o.richardson_extrapolation_flag = rich; rc = fnft_kdvv(D, q1, T, M, out, (double*)XIK, NULL, NULL, NULL, &o); }
    else { fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = 1; o.richardson_extrapolation_flag = rich; rc = fnft_manakovv(D, q1, q2, T, M, out, (double*)XI, NULL, NULL, NULL, kappa, &o); }
    if (rc) return -rc;
    double e = 0; for (int j = 0; j < nb; j++) for (int i = 0; i < M; i++) { double x = cabs(out[j*M+i] - (cplx)ex[i][j]); if (!(x <= e)) e = x; }
    return e;
}
/* the documented order: of the base method and, if it is a splitting, not more than that of the splitting */
static int order(rscheme s) {
    switch (s) {
    case R_1A: case R_1B: return 1;
    case R_44A: case R_44B: case R_CF42: case R_CF43: case R_ES4: case R_TES4: case R_46B: case R_FT4A: case R_FT4B: case R_FTSUZ: case R_MCF42: return 4;
    case R_CF53: return 5;
    case R_CF64: return 6;
    default: return 2;
    }
}
static void one(char type, int d, int kappa, int rich, const Pulse *p, const Pulse *p2, unsigned N0, int odd) {
    lcplx ex[M][3]; char kt; exact(type, kappa, p, p2, type == 'K' ? XIK : XI, ex);
    double e[10]; int n = mc_thorough ? 6 : 5, judged = 0;
    rscheme s = type == 'N' ? r_from_nse(d) : type == 'K' ? r_from_kdv(d, &kt) : r_from_manakov(d);
    if (s == R_7A || s == R_7B) n--;    /* degree 105 per sample */
    for (int k = 0; k < n; k++) {
        e[k] = run(type, d, kappa, rich, p, p2, (N0 << k) + odd, ex);
        if (e[k] < 0) { if (s == R_FT4B) mc_count("FTES4_4B rejected", 1); else mc_fail("status", "returned %g: %s", -e[k], mc_lastmsg); return; }
    }
    double need = order(s) + (rich && s != R_1A && s != R_1B);
    double am = 1; for (int i = 0; i < M; i++) am = fmax(am, cabs((cplx)ex[i][0]));
    FNFT_UINT deg = type == 'N' ? fnft__nse_discretization_degree(d) : type == 'K' ? fnft__kdv_discretization_degree(d) : fnft__manakov_discretization_degree(d);
    double floor = 1e-13*am*am*(deg > 1 ? deg : 1);     /* rounding, per sample */
    char b[300]; int o = 0; for (int k = 0; k < n; k++) o += sprintf(b+o, " %.1e", e[k]);
    for (int k = 1; k < n; k++) {
        if (!(e[k-1] < (order(s) == 1 ? 0.6 : 0.03)) || (rich && k == 1)) { if (k == n-1) mc_fail("errors", "no convergence:%s", b); continue; }
        if (e[k] < floor*((N0 << k) + odd)) { judged = 1; continue; }
        judged = 1; double sl = log2(e[k-1]/e[k]); mc_max("order missing", need - sl);
        if (!(sl >= need - 0.6)) mc_fail("order", "errors%s for D=%u, %u, ...: decrease %.2f at step %d, order %g", b, N0+odd, 2*N0+odd, sl, k, need);
    }
    if (judged) mc_outcome(mc_hash_d(e, n, type)); else mc_count("not judged", 1);
    if (mc_replaying) printf("%s\n", b);
}
void explore(void) {
    static const double am[] = {0.7, 1.2}, c1[] = {0, 0.6}, w[] = {0.7, 1.1}, ph[][2] = {{0,0},{0.6,0},{-0.3,0.4}}, sh[] = {0, 0.37};
    static const unsigned N0s[] = {40, 45, 52};
    unsigned n = 0;
    for (int ia = 0; ia < 2; ia++) for (int ic = 0; ic < 2; ic++) for (int iw = 0; iw < 2; iw++) for (int ip = 0; ip < 3; ip++) for (int is = 0; is < 2; is++) {
        n++; if (!mc_thorough && n % 7) continue;
        Pulse p = {am[ia], c1[ic], w[iw], ph[ip][0], ph[ip][1], sh[is]};
        Pulse p2 = {am[!ia]-0.3, -c1[!ic], w[!iw], ph[(ip+1)%3][0], ph[(ip+2)%3][1], -sh[is]/2};
        for (int t = 0; t < 3; t++) for (int kappa = t == 1 ? 1 : -1; kappa <= 1; kappa += 2)
            for (int d = 0; d < (t == 0 ? N_NSE : t == 1 ? N_KDV : N_MAN); d++) for (int r = 0; r < 2; r++)
                if (mc_begin("%s pulse (%g+%g t)exp(-t^2/%g), phase %g t + %g t^2, centre %g, disc=%s kappa=%d extrapolation=%d", t == 0 ? "NSE" : t == 1 ? "KdV" : "Manakov", p.c0, p.c1, p.w, p.v, p.ch, p.t0,
                        t == 0 ? nse_name(d) : t == 1 ? kdv_name(d) : manakov_name(d), kappa, r))
                    one("NKM"[t], d, kappa, r, &p, &p2, N0s[(n/7+d+r)%3], (n/7+d)%2);
    }
}
