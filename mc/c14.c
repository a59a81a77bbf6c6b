/* conservation laws on the real axis, and b/a equals the reflection coefficient */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one signal x discretization x sign x amplitude; all three layouts under both normalization settings; the conservation law is evaluated at every grid point and rho*a compared with b; distinct = hash of the spectrum";
#define NUM(z) creal(z), cimag(z)
static int run(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI, int nf, int cst, cplx *out) {
    for (unsigned i = 0; i < 5*M; i++) out[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
        return fnft_nsev(D, q, T, M, out, XI, NULL, NULL, NULL, kappa, &o); }
    if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
        return fnft_kdvv(D, q, T, M, out, XI, NULL, NULL, NULL, &o); }
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
    return fnft_manakovv(D, q, q2, T, M, out, XI, NULL, NULL, NULL, kappa, &o);
}
/* schemes whose sample matrices are products of exact exponentials of the right algebra */
static int exact(char t, rscheme s, unsigned D) {
    if (t == 'M') return s == R_BO || s == R_MCF42 || s == R_FTSUZ;
    if (t == 'K') { if (sp_resamples(s) && D%2 == 0) return 0; /* the interpolated potential is not real */ return s == R_BO || s == R_CF42 || s == R_CF43 || s == R_ES4 || s == R_TES4; }
    return s == R_MODAL || s == R_1A || s == R_1B || s == R_2A || s == R_2B || s == R_BO || s == R_CF42 || s == R_CF43 || s == R_ES4 || s == R_TES4;
}
static void one(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI) {
    char ty; rscheme s = sp_scheme(t, d, &ty); double eps = (T[1]-T[0])/(D-1), mx = 0; unsigned na = t == 'M' ? 3 : 2, nr = na-1;
    for (unsigned i = 0; i < D; i++) mx = fmax(mx, cabs(q[i]));
    if (s == R_MODAL && ((t == 'N' && kappa == -1 && mx*eps > 0.9))) { mc_count("outside the domain of the modal scheme", 1); return; }
    cplx o[3][5*64]; int ex = exact(t, s, D);
    for (int nf = 0; nf < 2; nf++) {
        for (int c = 0; c < 3; c++) { int rc = run(t, d, kappa, D, q, q2, T, M, XI, nf, c, o[c]); if (rc) { if (D > 2) mc_fail("status", "layout %d: returned %d", c, rc); return; } }
        mc_outcome(mc_hash_d((double*)o[2], 2*M*(na+nr), nf));
        for (unsigned i = 0; i < M; i++) {
            double xi = XI[0] + i*(XI[1]-XI[0])/(M-1);
            const cplx *ab[2] = {o[1]+i, o[2]+nr*M+i}; const cplx *rho[2] = {o[0]+i, o[2]+i};
            double a2 = cabs(ab[0][0])*cabs(ab[0][0]), b2 = 0; for (unsigned k = 1; k < na; k++) b2 += cabs(ab[0][k*M])*cabs(ab[0][k*M]);
            double bas = t == 'K' ? (1 + 2*fabs(xi))*(1 + 0.5/fabs(xi)) : 1;
            double g = fmax(1, sqrt(a2 + b2))*bas, tol = 2e-11*g*(D+4);
            for (int v = 0; v < 2; v++) for (unsigned k = 0; k < nr; k++) for (int w = 0; w < 2; w++) {
                cplx b = ab[w][(k+1)*M], r = rho[v][k*M]; double e = cabs(r*ab[w][0] - b), tb = 0.05*tol*(1 + cabs(r)); mc_max("b/a", e/tb);
                if (!(e <= tb)) { mc_fail("reflection coefficient", "i=%u component %u (from layouts %d, %d; normalization %d): rho=%.12g%+.12gi, b=%.12g%+.12gi, a=%.12g%+.12gi", i, k, 2*v, w+1, nf, NUM(r), NUM(b), NUM(ab[w][0])); return; }
            }
            double dev = fabs(a2 + (t == 'K' ? -1 : kappa)*b2 - 1), td = 4*tol*g;
            mc_max(ex ? "conservation" : "conservation, other schemes", ex ? dev/td : dev);
            if (ex && !(dev <= td)) { mc_fail("conservation law", "i=%u normalization %d: |a|^2=%.15g, |b|^2=%.15g", i, nf, a2, b2); return; }
            if (ex) mc_count("points with exact conservation", 1);
        }
    }
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}}, XIs[3][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}}, Am[] = {1e-6, 0.5, 4};
    static cplx q[5000], q2[5000];
    for (int ti = 0; ti < 3; ti++) {
        char t = "NKM"[ti]; int nd = ti == 0 ? N_NSE : ti == 1 ? N_KDV : N_MAN;
        for (int d = 0; d < nd; d++) {
            char ty; rscheme s = sp_scheme(t, d, &ty);
            if (t == 'M' && s == R_FT4B) continue;
            for (unsigned D = 2; D <= (mc_thorough ? 6u : 5u); D++) for (uint64_t c = 0; c < gen_count(D, 4); c++) for (int k = -1; k <= 1; k += 2) {
                if (t == 'K' && k < 0) continue;
                if (!exact(t, s, D) && D > 3) continue;
                if (!mc_thorough && D == 5 && (c+d)%3) continue;
                if (!mc_begin("word: %c %s D=%u code=%llu kappa=%d", t, sp_name(t, d), D, (unsigned long long)c, k)) continue;
                if (t == 'K') gen_signal_real(D, 4, c, q); else gen_signal(D, 4, c, q);
                gen_signal(D, 4, (c*7+1) % gen_count(D, 4), q2);
                one(t, d, k, D, q, q2, Ts[(c+d)%3], 2 + c%5, XIs[(c+D)%3]);
            }
            /* every length: no reference is needed for long signals */
            unsigned L = mc_thorough ? 1500 : 300; if (!exact(t, s, 3)) L = 40;
            if (sp_highdeg(s)) L = 20;
            for (unsigned D = 2; D <= L; D += D < 70 ? 1 : D < 200 ? 3 : 13) for (int a = 0; a < 3; a++) for (int k = -1; k <= 1; k += 2) {
                if (t == 'K' && k < 0) continue;
                if (!mc_begin("length: %c %s D=%u amplitude=%g kappa=%d", t, sp_name(t, d), D, Am[a], k)) continue;
                int v = (D+a)%3, sh = (D/3+a)%4; gen_shape(D, sh, Ts[v], q); gen_shape(D, (sh+1)%4, Ts[v], q2);
                for (unsigned i = 0; i < D; i++) { q[i] *= Am[a]; q2[i] *= Am[a]; if (t == 'K') q[i] = creal(q[i]); }
                one(t, d, k, D, q, q2, Ts[v], t == 'K' ? 6 : 2 + (D+a)%20, XIs[t == 'K' ? 1 + D%2 : (D+sh)%3]);
            }
            if (exact(t, s, 3)) for (int D = 1023; D < (mc_thorough ? 4100 : 2050); D++) for (int k = -1; k <= 1; k += 2) {
                if (D > 1025 && D < 2047) continue; if (D > 2049 && D < 4095) continue; if (t == 'K' && k < 0) continue;
                if (!mc_begin("long: %c %s D=%d kappa=%d", t, sp_name(t, d), D, k)) continue;
                gen_shape(D, 0, Ts[0], q); gen_shape(D, 1, Ts[0], q2); if (t == 'K') for (int i = 0; i < D; i++) q[i] = creal(q[i]);
                one(t, d, k, D, q, q2, Ts[0], 5, XIs[1]);
            }
        }
    }
}
