/* Resampling, downsampling and the preprocessing of signals against their
 * definitions.  Resampling is linear in the signal: all unit vectors of a
 * length determine it completely for a given shift. */
#include "ref.h"
#include "gen.h"
#include "fnft__misc.h"
#include "fnft__akns_discretization.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
const char *mc_rule = "resampling: one case = one length x shift x step, all unit vectors and dense signals against the trigonometric interpolant in long double; downsampling: one case = one length, every requested count; preprocessing: one case = discretization x length x signal, every requested count against the definition of the scheme's sample points";
static void resample(unsigned D, double sh, double eps) {
    cplx *q = malloc(D*sizeof *q), *r = malloc((D+1)*sizeof *r), *b = malloc(D*sizeof *b); lcplx *w = malloc(D*sizeof *w), *row = malloc(D*sizeof *row);
    /* the response to the first unit vector; the others are its cyclic shifts */
    for (unsigned i = 0; i < D; i++) q[i] = i == 0;
    r_resample(D, q, sh, row);
    for (unsigned v = 0; v < D+3; v++) {
        double mx = 0;
        for (unsigned i = 0; i < D; i++) {
            q[i] = v < D ? i == v : v == D ? cexp(I*(0.3*i*i)) : v == D+1 ? ((i*7+3)%11)/5.0 - 1 + I*(((i*5+1)%13)/6.0-1) : 1e9*(i%2 ? -1 : 1) + I;
            mx = fmax(mx, cabs(q[i]));
        }
        if (D > 40 && v < D && v % 7 > 1 && v != D-1) continue;
        for (unsigned n = 0; n < D; n++) { w[n] = 0; if (v < D) w[n] = row[(n+D-v)%D]; else for (unsigned m = 0; m < D; m++) w[n] += (lcplx)q[m]*row[(n+D-m)%D]; }
        for (unsigned i = 0; i <= D; i++) r[i] = 4242;
        int rc = fnft__misc_resample(D, eps, q, sh*eps, r);
        if (rc) { mc_fail("status", "returned %d", rc); break; }
        if (r[D] != 4242) mc_fail("bounds", "wrote behind the result");
        mc_outcome(mc_hash_d((double*)r, 2*D, v));
        double tol = 3e-15*(D+8)*mx*(1+fabs(sh)), e = 0; unsigned at = 0;
        for (unsigned n = 0; n < D; n++) { double x = cabs((cplx)(r[n]-w[n])); if (!(x <= e)) { e = x; at = n; } }
        mc_max("resample", e/tol);
        if (!(e <= tol)) { mc_fail("interpolant", "signal %u sample %u: got %.12g%+.12gi expected %.12g%+.12gi", v, at, creal(r[at]), cimag(r[at]), (double)creall(w[at]), (double)cimagl(w[at])); break; }
        if (sh == floor(sh)) for (unsigned n = 0; n < D; n++) {
            long k = ((long)n + (long)sh) % (long)D; if (k < 0) k += D;
            if (!(cabs(r[n]-q[k]) <= tol)) { mc_fail("whole shift", "signal %u sample %u is not sample %ld of the input", v, n, k); break; }
        }
        rc = fnft__misc_resample(D, eps, r, -sh*eps, b);
        for (unsigned n = 0; n < D && !rc; n++) if (!(cabs(b[n]-q[n]) <= 2*tol)) { mc_fail("opposite shift", "signal %u sample %u not restored", v, n); break; }
        /* in place */
        memcpy(b, q, D*sizeof *q); rc = fnft__misc_resample(D, eps, b, sh*eps, b);
        for (unsigned n = 0; n < D && !rc; n++) if (!(cabs(b[n]-r[n]) <= 2*tol)) { mc_fail("in place", "signal %u sample %u differs", v, n); break; }
        if (mc_failed_this_case()) break;
    }
    free(q); free(r); free(b); free(w); free(row);
}
/* the rules that determine the number of samples after downsampling */
static int count_ok(unsigned D, size_t want, size_t got, size_t first, size_t last, size_t *nskip) {
    if (want < 2) want = 2;
    if (want > D) want = D;
    if (got < 2 || got > D || first != 0 || last >= D || last % (got-1)) return 0;
    *nskip = last/(got-1);
    return fabs((double)D/want - *nskip) <= 0.5 && fabs((double)D / *nskip - got) <= 0.5;
}
static void downsample(unsigned D) {
    cplx *q = malloc(D*sizeof *q);
    for (unsigned i = 0; i < D; i++) q[i] = i - I*(1000.0+i);
    for (size_t want = 0; want <= D+3; want++) {
        size_t got = want, fl[3] = {7, 7, 4242}, ns; cplx *s = NULL;
        int rc = fnft__misc_downsample(D, q, &got, &s, fl);
        if (rc) { mc_fail("status", "%zu wanted: returned %d", want, rc); break; }
        mc_outcome(mc_hash(fl, sizeof fl, got));
        if (fl[2] != 4242) mc_fail("bounds", "wrote behind the indices");
        if (!count_ok(D, want, got, fl[0], fl[1], &ns)) mc_fail("count", "%zu wanted: %zu samples, indices %zu to %zu", want, got, fl[0], fl[1]);
        else for (unsigned i = 0; i < got; i++) if (s[i] != q[i*ns]) { mc_fail("samples", "%zu wanted: sample %u is not sample %zu of the input", want, i, i*ns); break; }
        free(s);
    }
    free(q);
}
static void prep(char type, int d, int kappa, unsigned D, const cplx *q1, const cplx *q2, double eps, size_t want) {
    size_t got = want, fl[3] = {7, 7, 4242}, ns; cplx *a = NULL, *b = NULL; int rc; unsigned per; char ty;
    rscheme s; 
    if (type == 'N') { rc = fnft__nse_discretization_preprocess_signal(D, q1, eps, kappa, &got, &a, &b, fl, d); per = fnft__nse_discretization_upsampling_factor(d); s = r_from_nse(d); }
    else if (type == 'K') { rc = fnft__kdv_discretization_preprocess_signal(D, q1, eps, kappa, &got, &a, &b, fl, d); per = fnft__kdv_discretization_upsampling_factor(d); s = r_from_kdv(d, &ty); }
    else { rc = fnft__manakov_discretization_preprocess_signal(D, q1, q2, eps, &got, &a, &b, fl, d); per = fnft__manakov_discretization_upsampling_factor(d); s = r_from_manakov(d); }
    int resamp = s == R_44A || s == R_44B || s == R_46B || s == R_CF42 || s == R_MCF42 || s == R_CF43 || s == R_CF53 || s == R_CF64;
    if (rc) {   /* interpolation needs more than two samples: of the full signal, for Manakov of the downsampled one */
        size_t w = want < 2 ? 2 : want > D ? D : want, k = (size_t)lround((double)D/w), g = (size_t)lround((double)D/k);
        if (!(resamp && (type == 'M' ? g <= 2 : D <= 2))) mc_fail("status", "%zu wanted: returned %d", want, rc);
        else mc_count("refused: too short to interpolate", 1);
        return;
    }
    mc_outcome(mc_hash_d((double*)a, 2*got*per, got));
    if (fl[2] != 4242) mc_fail("bounds", "wrote behind the indices");
    if (!count_ok(D, want, got, fl[0], fl[1], &ns)) { mc_fail("count", "%zu wanted: %zu samples, indices %zu to %zu", want, got, fl[0], fl[1]); goto end; }
    {
        Prob p = {.type=type, .kappa=kappa, .s=s, .D=got, .Dfull=D, .nskip=ns, .eps=(lreal)eps*ns, .q1=q1, .q2=q2};
        r_prepare(&p);
        int es = s == R_ES4 || s == R_TES4; unsigned np = es ? 3 : p.nsub;
        if (np != per) mc_fail("count", "upsampling factor %u, the scheme uses %u", per, np);
        else for (unsigned i = 0; i < got*per; i++) {
            lcplx h = type == 'M' ? p.hw[i%per] : 1;   /* AKNS: the weight of the sub-step is applied later */
            /* first and second differences divide by the step */
            double amp = 0; for (unsigned k = 0; k < D; k++) amp = fmax(amp, fmax(cabs(q1[k]), q2 ? cabs(q2[k]) : 0));
            double tol = 1e-14*(D+8)*(1+amp)*(es ? 4/(p.eps*p.eps) + 4/p.eps + 1 : 1);
            lcplx wa = p.Q1[i]*h, wb = (type == 'M' ? p.Q2[i] : p.R1[i])*h;
            double ea = cabs((cplx)(a[i]-wa)), eb = cabs((cplx)(b[i]-wb));
            mc_max("preprocess", fmax(ea, eb)/tol);
            if (!(ea <= tol)) { mc_fail("first output", "%zu wanted, entry %u: got %.12g%+.12gi expected %.12g%+.12gi", want, i, creal(a[i]), cimag(a[i]), (double)creall(wa), (double)cimagl(wa)); break; }
            if (!(eb <= tol)) { mc_fail("second output", "%zu wanted, entry %u: got %.12g%+.12gi expected %.12g%+.12gi", want, i, creal(b[i]), cimag(b[i]), (double)creall(wb), (double)cimagl(wb)); break; }
        }
        r_free(&p);
    }
end: free(a); free(b);
}
void explore(void) {
    static const double shifts[] = {0, 1, -1, 2, 3, -5, 17, -100, 0.5, -0.5, 0.25, 0.28867513459481287, -0.28867513459481287, 0.21132486540518713, 0.78867513459481287, 0.3872983346207417, -0.3872983346207417, 0.8, 1.5, -3.25, 12.125};
    unsigned L = mc_thorough ? 300 : 80;
    for (unsigned D = 3; D <= L; D++) for (unsigned s = 0; s < sizeof shifts/sizeof *shifts; s++) for (int e = 0; e < 2; e++)
        if (mc_begin("resample: D=%u shift=%g step=%d", D, shifts[s], e)) resample(D, shifts[s], e ? 1.75 : 0.013);
    for (unsigned D = 3; D <= (mc_thorough ? 600u : 250u); D++) if (mc_begin("downsample: D=%u", D)) downsample(D);
    unsigned P = mc_thorough ? 40 : 21;
    static const double T[2] = {-1.5, 1.5};
    for (int t = 0; t < 3; t++) {
        char type = "NKM"[t]; int nd = t == 0 ? N_NSE : t == 1 ? N_KDV : N_MAN;
        for (int d = 0; d < nd; d++) for (unsigned D = 2; D <= P; D++) for (int sh = 0; sh < 4; sh++) for (int k = -1; k <= 1; k += 2) {
            if (t && k == -1) continue;
            if (mc_begin("preprocess: %s D=%u shape=%d kappa=%d", t == 0 ? nse_name(d) : t == 1 ? kdv_name(d) : manakov_name(d), D, sh, k)) {
                cplx q[64], q2[64];
                gen_shape(D, sh, T, q); gen_shape(D, (sh+1)%4, T, q2);
                if (t == 1) for (unsigned i = 0; i < D; i++) q[i] = creal(q[i]);
                for (size_t want = 0; want <= D+1; want++) { prep(type, d, k, D, q, t == 2 ? q2 : NULL, sh%2 ? 0.4 : 0.07, want); if (mc_failed_this_case()) break; }
            }
        }
        /* every word of samples */
        for (int d = 0; d < nd; d++) for (unsigned D = 3; D <= (mc_thorough ? 6u : 5u); D++) for (uint64_t c = 0; c < gen_count(D, 3); c++)
            if (mc_begin("preprocess word: %s D=%u code=%llu", t == 0 ? nse_name(d) : t == 1 ? kdv_name(d) : manakov_name(d), D, (unsigned long long)c)) {
                cplx q[8], q2[8];
                if (t == 1) gen_signal_real(D, 3, c, q); else gen_signal(D, 3, c, q);
                gen_signal(D, 3, (c*7+1) % gen_count(D, 3), q2);
                for (size_t want = 2; want <= D; want++) { prep(type, d, c%2 || t ? 1 : -1, D, q, t == 2 ? q2 : NULL, 0.3, want); if (mc_failed_this_case()) break; }
            }
    }
}
