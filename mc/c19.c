/* Norming constants and residues of the NSE transform */
#include "ref.h"
#include "gen.h"
#include <stdarg.h>
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one signal x discretization x localization x filter x normalization x order of the initial guesses; all three representations of the discrete spectrum are computed and every norming constant and residue is compared with b and b/a' of the long double reference at the zero next to the reported bound state (bound states of the eigenvalue method that are not zeros of the sample-wise scheme: quotient of norming constant and residue only, and b of well resolved pulses with a known spectrum); distinct = hash of the results";
#define NUM(z) (double)creall(z), (double)cimagl(z)
static int warned; static int wpr(const char *f, ...) { va_list ap; char b[400]; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (strstr(b, "above tolerance")) warned = 1; return 0; }
#define MAXK 600
static int run(int d, int loc, int filt, int nf, int dst, unsigned niter, int M, unsigned D, cplx *q, const double *T, cplx *bs, size_t *K, cplx *nc) {
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); double XI[2] = {-1,1}; cplx cs[8];
    o.discretization = d; o.bound_state_localization = loc; o.bound_state_filtering = filt; o.normalization_flag = nf; o.discspec_type = dst; o.niter = niter; o.Dsub = D;
    if (filt == fnft_nsev_bsfilt_MANUAL) { double b[4] = {-4,4,0.02,8}; memcpy(o.bounding_box, b, sizeof b); }
    for (unsigned i = 0; i < 2*MAXK; i++) nc[i] = NAN;
    warned = 0; return fnft_nsev(D, q, T, M, M ? cs : NULL, XI, K, bs, nc, 1, &o);
}
static const int dsts[3] = {fnft_nsev_dstype_NORMING_CONSTANTS, fnft_nsev_dstype_RESIDUES, fnft_nsev_dstype_BOTH};
static void one(int d, int loc, int filt, int nf, unsigned niter, unsigned D, cplx *q, const double *T, const cplx *g, unsigned ng, int approx) {
    static cplx bs[3][MAXK], nc[3][2*MAXK]; size_t K[3]; rscheme s = r_from_nse(d);
    for (int k = 0; k < 3; k++) {
        K[k] = loc == fnft_nsev_bsloc_NEWTON ? ng : MAXK; if (ng) memcpy(bs[k], g, ng*sizeof *g);
        int rc = run(d, loc, filt, nf, dsts[k], niter, (int)(D+d+k)%3 == 0 ? 4 : 0, D, q, T, bs[k], &K[k], nc[k]);
        /* the iteration ran away and a' underflowed to zero there */
        if (abs(rc) == FNFT_EC_DIV_BY_ZERO && warned && k) { mc_count("refused: a' underflowed far away", 1); return; }
        if (rc) { mc_fail("status", "returned %d", rc); return; }
        if (K[k] != K[0]) { mc_fail("representations", "%zu bound states instead of %zu", K[k], K[0]); return; }
    }
    size_t n = K[0]; mc_outcome(mc_hash_d((double*)nc[2], 4*n, n));
    for (size_t i = 0; i < n; i++) {
        for (int k = 1; k < 3; k++) if (bs[k][i] != bs[0][i]) { mc_fail("representations", "bound state %zu differs: %.15g%+.15gi and %.15g%+.15gi", i, NUM(bs[0][i]), NUM(bs[k][i])); return; }
        if (nc[2][i] != nc[0][i] && !(isnan(cabs(nc[0][i])))) { mc_fail("representations", "norming constant %zu differs: %.15g%+.15gi and %.15g%+.15gi", i, NUM(nc[0][i]), NUM(nc[2][i])); return; }
        if (nc[2][n+i] != nc[1][i] && !(isnan(cabs(nc[1][i])))) { mc_fail("representations", "residue %zu differs: %.15g%+.15gi and %.15g%+.15gi", i, NUM(nc[1][i]), NUM(nc[2][n+i])); return; }
    }
    if (!n) return;
    Prob p = {.type='N', .kappa=1, .s=sp_refine(s), .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p);
    double env = 1; for (unsigned i = 0; i < D; i++) env = fmax(env, cabs(q[i]));
    for (size_t i = 0; i < n; i++) {
        lcplx x = bs[0][i], a, da; double gr;
        if (!(cabsl(x) < 200) || cimagl(x) < 1e-3L) continue;
        a = sp_a(&p, T, x); da = sp_da(&p, T, x); r_total_norm(&p, x, &gr);
        double ex = cabsl(cexpl(LI*x*(T[1]-T[0]+p.eps))), Lt = T[1]-T[0]+p.eps + fabs(T[0]) + fabs(T[1]);
        double eda = 4e-14*gr*ex*(D+4)*(1+Lt);
        if (!(cabsl(da) > 1e-6L) || !(eda < 1e-6*cabsl(da))) { mc_count("ill-conditioned", 1); continue; }
        lcplx quo = (lcplx)nc[2][i]/nc[2][n+i]; double e = cabsl(quo-da)/cabsl(da), te = 1e-11 + 0.2*eda/cabsl(da); mc_max("derivative", e/te);
        if (!(e <= te)) { mc_fail("residue", "%zu at %.12g%+.12gi: norming constant over residue is %.12g%+.12gi, a' is %.12g%+.12gi", i, NUM(bs[0][i]), NUM(quo), NUM(da)); break; }
        mc_count("residues compared", 1);
        lcplx st = a/da;
        if (approx) {   /* well resolved pulse: b of the nearest zero of the sample-wise scheme */
            lcplx z = x; if (!sp_newton(&p, T, &z, 20) || cabsl(z-x) > 0.1L) { mc_count("no zero nearby", 1); continue; }
            lcplx b = sp_b(&p, T, z); double tb = 0.02 + 4*cabsl(z-x)*Lt; if (tb > 0.5) { mc_count("no zero nearby", 1); continue; }
            e = cabsl(nc[0][i]/b-1); mc_max("approximate b", e/tb); mc_count("approximate values b compared", 1);
            if (!(e <= tb)) { mc_fail("norming constant", "%zu at %.12g%+.12gi: got %.6g%+.6gi expected about %.6g%+.6gi", i, NUM(x), NUM(nc[0][i]), NUM(b)); break; }
            continue;
        }
        double acc = 1e-13 + 1e-14*gr*ex*(D+4)/cabsl(da);
        if (cabsl(st) > 4*acc || acc > 1e-9) { mc_count("not at a zero", 1); continue; }
        lcplx z = x; if (!sp_newton(&p, T, &z, 10)) { mc_count("not at a zero", 1); continue; }
        lcplx b = sp_b(&p, T, z); double gz; r_total_norm(&p, z, &gz);
        double tb = 3e-14*(D+4)*gz*(1 + cabsl(da))*fmax(1, cabsl(b)); if (tb > 0.01*cabsl(b)) { mc_count("ill-conditioned", 1); continue; }
        e = cabsl(nc[0][i]-b); mc_max("b", e/tb); mc_count("norming constants compared", 1);
        if (!(e <= tb)) { mc_fail("norming constant", "%zu at %.12g%+.12gi: got %.12g%+.12gi expected %.12g%+.12gi", i, NUM(x), NUM(nc[0][i]), NUM(b)); break; }
    }
    r_free(&p);
}
/* zeros of a in the upper half plane */
static unsigned zeros(int d, unsigned D, const cplx *q, const double *T, cplx *g, unsigned max) {
    Prob p = {.type='N', .kappa=1, .s=sp_refine(r_from_nse(d)), .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p); unsigned n = 0;
    lreal amp = 0; for (unsigned i = 0; i < D; i++) amp = fmaxl(amp, cabs(q[i]));
    for (int i = -2; i <= 2; i++) for (int j = 1; j <= 3 && n < max; j++) {
        lcplx x = i*0.6L + LI*j*0.4L*amp;
        if (!sp_newton(&p, T, &x, 25) || cimagl(x) < 0.05L || fabsl(creall(x))*p.eps > 1.2L || cimagl(x) > amp) continue;
        int dup = 0; for (unsigned k = 0; k < n; k++) dup |= cabs(g[k]-(cplx)x) < 1e-5;
        if (!dup) g[n++] = x;
    }
    r_free(&p); return n;
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}};
    static const int filts[4] = {fnft_nsev_bsfilt_NONE, fnft_nsev_bsfilt_BASIC, fnft_nsev_bsfilt_FULL, fnft_nsev_bsfilt_MANUAL};
    cplx q[256], g[16], h[16]; fnft_errwarn_setprintf((void*)wpr);
    for (int d = 0; d < N_NSE; d++) {
        rscheme s = r_from_nse(d); unsigned dg = r_is_fast(s) ? (unsigned)fnft__nse_discretization_degree(d)*(s == R_44A || s == R_44B ? 2 : 1) : 0;
        for (unsigned D = 2; D <= (mc_thorough ? 6u : 5u); D++) for (uint64_t c = 1; c < gen_count(D, 4); c++) {
            if (D == 2 && sp_resamples(s)) continue;
            if (D > 3 && !mc_thorough && (c+d)%(D == 4 ? 3 : 17)) continue;
            if (D == 6 && (c+d)%11) continue;
            if (!mc_begin("word: %s D=%u code=%llu", nse_name(d), D, (unsigned long long)c)) continue;
            gen_signal(D, 4, c, q); for (unsigned i = 0; i < D; i++) q[i] *= 1.5;
            const double *T = Ts[(c+D)%3]; unsigned n = zeros(d, D, q, T, g, 12);
            for (int v = 0; v < 4 && n; v++) {      /* orders and distances of the guesses */
                for (unsigned i = 0; i < n; i++) { h[v&1 ? n-1-i : (i+v)%n] = g[i]*(v > 1 ? 1+1e-3*I : 1); }
                one(d, fnft_nsev_bsloc_NEWTON, filts[(c+v)%4], (c/4+v)&1, v == 1 ? 0 : 30, D, q, T, h, n, 0);
            }
            if (r_is_fast(s) && dg*D < 60) for (int f = 1; f < 3; f++) one(d, fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE, filts[f], c&1, 40, D, q, T, NULL, 0, 0);
            if (r_is_fast(s) && dg*D < 60) one(d, fnft_nsev_bsloc_FAST_EIGENVALUE, filts[1 + c%3], c&1, 40, D, q, T, NULL, 0, 2-2);
        }
        for (unsigned D = 8; D <= (mc_thorough ? 96u : 48u); D += 8) for (int a = 0; a < 3; a++) for (int v = 0; v < 3; v++) for (int loc = 0; loc < 3; loc++) {
            if (loc != fnft_nsev_bsloc_NEWTON && (!r_is_fast(s) || dg*D > (mc_thorough ? 500u : 200u))) continue;
            if (!mc_begin("pulse: %s D=%u A=%d shift=%d loc=%d", nse_name(d), D, a, v, loc)) continue;
            double A[] = {0.9, 2.2, 3.6}, sh = v == 0 ? 0 : v == 1 ? 0.4 : -0.7, T[2] = {v == 2 ? -6 : -5, v == 1 ? 4.5 : 5};
            for (unsigned i = 0; i < D; i++) { double t = T[0]+(T[1]-T[0])*i/(D-1); q[i] = A[a]/cosh(t-sh)*cexp(I*(0.3*v*t+0.4)); }
            unsigned n = loc == fnft_nsev_bsloc_NEWTON ? zeros(d, D, q, T, g, 12) : 0;
            if (loc == fnft_nsev_bsloc_NEWTON && !n) continue;
            for (int nf = 0; nf < 2; nf++) one(d, loc, filts[1+(D/8+a+v)%3], nf, 40, D, q, T, g, n, loc == fnft_nsev_bsloc_FAST_EIGENVALUE && D >= 40);
        }
    }
}
