/* The normalization option: both settings of every call are executed on the
 * library and compared with each other, and, where the unnormalized
 * computation leaves the range of double precision, the normalized one with
 * the long double reference or with closed forms. */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
const char *mc_rule = "one case = one signal x discretization x amplitude x method; both settings of the option are executed and compared; in the overflow families the normalized result is compared with the long double reference or a closed form; distinct = hash of the results";
#define NUM(z) creal(z), cimag(z)
static int fin(const cplx *v, unsigned n) { for (unsigned i = 0; i < n; i++) if (!isfinite(creal(v[i])) || !isfinite(cimag(v[i]))) return 0; return 1; }
/* continuous spectrum, layout BOTH. returns the code */
static int cs(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI, int nf, int cst, int rich, cplx *out) {
    for (unsigned i = 0; i < 5*M; i++) out[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = rich;
        return fnft_nsev(D, q, T, M, out, XI, NULL, NULL, NULL, kappa, &o); }
    if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = rich;
        return fnft_kdvv(D, q, T, M, out, XI, NULL, NULL, NULL, &o); }
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = rich;
    return fnft_manakovv(D, q, q2, T, M, out, XI, NULL, NULL, NULL, kappa, &o);
}
static int isfast(char t, int d) { char ty; return r_is_fast(t == 'N' ? r_from_nse(d) : t == 'K' ? r_from_kdv(d, &ty) : r_from_manakov(d)); }
static const char *nm(char t, int d) { return t == 'N' ? nse_name(d) : t == 'K' ? kdv_name(d) : manakov_name(d); }
static void mkprob(Prob *p, char t, int d, int kappa, unsigned D, const cplx *q, const cplx *q2, const double *T) {
    char ty = t; rscheme s = t == 'N' ? r_from_nse(d) : t == 'K' ? r_from_kdv(d, &ty) : r_from_manakov(d);
    *p = (Prob){.type=ty, .kappa=kappa, .s=s, .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q, .q2=q2};
    r_prepare(p);
}
static void contspec(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI) {
    cplx o[2][5*16]; double g[16]; unsigned na = t == 'M' ? 5 : 3, nr = t == 'M' ? 2 : 1;
    Prob p; mkprob(&p, t, d, kappa, D, q, q2, T);
    for (unsigned i = 0; i < M; i++) { lcplx xi = XI[0] + i*((lreal)XI[1]-XI[0])/(M-1); r_total_norm(&p, xi, &g[i]); if (t == 'K') g[i] *= (1+2*cabs((cplx)xi))*(1+0.5/cabs((cplx)xi)); }
    /* one step of Newton-like extrapolation multiplies errors */
    r_free(&p);
    for (int rich = 0; rich < 2; rich++) {
        if (rich && (D < 8)) continue;
        int rc[2];
        for (int nf = 0; nf < 2; nf++) rc[nf] = cs(t, d, kappa, D, q, q2, T, M, XI, nf, 2, rich, o[nf]);
        if (rc[0] != rc[1]) { mc_fail("status", "extrapolation %d: returns %d without and %d with normalization", rich, rc[0], rc[1]); return; }
        if (rc[0]) { mc_count("refused", 1); return; }
        if (!fin(o[0], na*M)) { mc_count("out of range without normalization", 1); continue; }
        mc_outcome(mc_hash_d((double*)o[1], 2*na*M, rich));
        for (unsigned i = 0; i < M; i++) {
            const cplx *A0 = o[0] + nr*M, *A1 = o[1] + nr*M;
            double mag = cabs(A0[i]), tol;
            for (unsigned k = 1; k <= nr; k++) mag += cabs(A0[k*M+i]);
            tol = 1e-12*(D+8)*(rich ? 20 : 1)*fmax(g[i], mag);
            for (unsigned k = 0; k <= nr; k++) {
                double e = cabs(A0[k*M+i]-A1[k*M+i]);
                if (g[i] < 1e8*mag) mc_max("ab", e/tol);
                if (!(e <= tol)) { mc_fail("a, b", "extrapolation %d coefficient %u i=%u: %.12g%+.12gi without, %.12g%+.12gi with normalization", rich, k, i, NUM(A0[k*M+i]), NUM(A1[k*M+i])); return; }
            }
            double tr = tol*(1+mag/cabs(A0[i]))/cabs(A0[i]);
            for (unsigned k = 0; k < nr; k++) {
                double e = cabs(o[0][k*M+i]-o[1][k*M+i]);
                if (rich) tr = tol*1e3; /* extrapolated ratio of different quantities */
                if (!(e <= tr) && tr < 1e-3) { mc_fail("reflection coefficient", "extrapolation %d i=%u: %.12g%+.12gi without, %.12g%+.12gi with normalization", rich, i, NUM(o[0][k*M+i]), NUM(o[1][k*M+i])); return; }
            }
        }
    }
}
/* the transfer matrix exceeds the range of double precision, the reflection coefficient does not */
static void overflow(char t, int d, unsigned D, double A, int sh) {
    cplx q[128], q2[128], o[2*8]; double T[2] = {-3, 3}, XI[2] = {0.3, 2.1}; unsigned M = 4, nr = t == 'M' ? 2 : 1;
    for (unsigned i = 0; i < D; i++) { double x = 2.0*i/(D-1)-1, w = sh ? 1/cosh(2*x) : 1; q[i] = A*w*(t == 'K' ? -1 : cexp(I*0.4*x*sh)); q2[i] = 0.6*A*w; if (t == 'M') q[i] *= 0.8; }
    int rc = cs(t, d, -1, D, q, q2, T, M, XI, 1, 0, 0, o);
    if (rc) { mc_fail("status", "returned %d", rc); return; }
    mc_outcome(mc_hash_d((double*)o, 2*nr*M, 0));
    Prob p; mkprob(&p, t, d, -1, D, q, q2, T);
    for (unsigned i = 0; i < M; i++) {
        lcplx ab[3]; r_contspec(&p, T, XI[0] + i*((lreal)XI[1]-XI[0])/(M-1), ab);
        if (logl(cabsl(ab[0])) > 709) mc_count("coefficients beyond double precision", 1);
        for (unsigned k = 0; k < nr; k++) {
            cplx w = ab[1+k]/ab[0]; double e = cabs(o[k*M+i]-w);
            if (!isfinite(creal(w))) { mc_count("reference out of range", 1); continue; }
                /* the higher order splittings subtract huge terms from each other */
            rscheme s = p.s; double tol = s == R_4A || s == R_FT4A ? 1e-3 : s == R_5A || s == R_5B ? 0.1 : (s >= R_6A && s <= R_8B) || s == R_44A || s == R_46B || s == R_FTSUZ ? 1e3 : 1e-7;
            mc_max("overflow", e/tol);
            if (!(e <= tol*(1+cabs(w)))) { mc_fail("overflow", "i=%u: got %.12g%+.12gi expected %.12g%+.12gi", i, NUM(o[k*M+i]), NUM(w)); r_free(&p); return; }
        }
    }
    r_free(&p);
}
/* discrete spectra */
static unsigned ds(char t, int d, int loc, unsigned D, cplx *q, cplx *q2, const double *T, int nf, const cplx *guess, unsigned ng, int rich, cplx *bs, cplx *nc, int *rc) {
    size_t K = 64; unsigned i; double XI[2] = {-1, 1};
    for (i = 0; i < 64; i++) bs[i] = i < ng ? guess[i] : 0;
    if (ng) K = ng;
    for (i = 0; i < 128; i++) nc[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = nf; o.bound_state_localization = loc; o.discspec_type = 2; o.richardson_extrapolation_flag = rich; o.niter = 40; o.Dsub = D;
        o.bound_state_filtering = fnft_nsev_bsfilt_FULL;
        *rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, nc, 1, &o); }
    else if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.normalization_flag = nf; o.bound_state_localization = loc; o.discspec_type = 2; o.richardson_extrapolation_flag = rich; o.grid_spacing = 0.05; o.niter = 40;
        *rc = fnft_kdvv(D, q, T, 0, NULL, XI, &K, bs, nc, &o); }
    else { fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.normalization_flag = nf; o.bound_state_localization = loc; o.richardson_extrapolation_flag = 0; o.Dsub = D; o.bound_state_filtering = fnft_manakovv_bsfilt_FULL;
        *rc = fnft_manakovv(D, q, q2, T, 0, NULL, XI, &K, bs, NULL, 1, &o); }
    return K;
}
static void discrete(char t, int d, int loc, unsigned D, cplx *q, cplx *q2, const double *T, const cplx *guess, unsigned ng, int rich, double tol, int nctoo) {
    cplx bs[2][64], nc[2][128]; unsigned K[2]; int rc[2];
    for (int nf = 0; nf < 2; nf++) K[nf] = ds(t, d, loc, D, q, q2, T, nf, guess, ng, rich, bs[nf], nc[nf], &rc[nf]);
    if (rc[0] != rc[1]) { mc_fail("status", "returns %d without and %d with normalization", rc[0], rc[1]); return; }
    if (rc[0]) { mc_count("refused", 1); return; }
    mc_outcome(mc_hash_d((double*)bs[1], 2*K[1], K[1]));
    mc_count("bound states compared", K[0]);
    if (K[0] != K[1]) { mc_fail("number of bound states", "%u without, %u with normalization", K[0], K[1]); return; }
    for (unsigned i = 0; i < K[0]; i++) {
        unsigned b = 0; for (unsigned j = 1; j < K[1]; j++) if (cabs(bs[1][j]-bs[0][i]) < cabs(bs[1][b]-bs[0][i])) b = j;
        double e = cabs(bs[1][b]-bs[0][i]); mc_max("bound states", e/tol);
        if (!(e <= tol)) { mc_fail("bound states", "%.12g%+.12gi without, nearest with normalization %.12g%+.12gi", NUM(bs[0][i]), NUM(bs[1][b])); return; }
        if (t != 'M' && nctoo) for (int k = 0; k < 2; k++) {
            cplx x = nc[0][k*K[0]+i], y = nc[1][k*K[1]+b];
            if (!isfinite(cabs(x))) { mc_count("norming constant out of range without", 1); continue; }
            double en = cabs(x-y)/(cabs(x)+1e-300); mc_max("norming constants", en/(tol*1e3));
            if (!(en <= tol*1e3)) { mc_fail(k ? "residue" : "norming constant", "eigenvalue %.12g%+.12gi: %.12g%+.12gi without, %.12g%+.12gi with normalization", NUM(bs[0][i]), NUM(x), NUM(y)); return; }
        }
    }
}
/* sech signals in windows so long that e^{lambda T} leaves the range */
static void longwin(char t, int d, unsigned D, double L, int nsol, double shift, int loc) {
    cplx *q = malloc(D*sizeof *q), bs[64], nc[128]; double T[2] = {-L+shift, L+shift}; int rc; cplx g[4]; double err;
    for (unsigned i = 0; i < D; i++) { double x = T[0] + (T[1]-T[0])*i/(D-1) - shift; q[i] = t == 'N' ? nsol/cosh(x) : nsol*(nsol+1)/(cosh(x)*cosh(x)); }
    for (int i = 0; i < nsol; i++) g[i] = I*((t == 'N' ? nsol-i-0.5 : nsol-i)*1.01);
    unsigned K = ds(t, d, t == 'N' ? fnft_nsev_bsloc_NEWTON : loc, D, q, NULL, T, 1, g, loc ? 0 : nsol, 0, bs, nc, &rc);
    if (rc) { mc_fail("status", "returned %d", rc); goto end; }
    mc_outcome(mc_hash_d((double*)bs, 2*K, K));
    /* these potentials have a resonance at zero energy, which the discretization may turn into a weakly bound state */
    unsigned weak = 0; if (t == 'K' && loc) for (unsigned j = 0; j < K; j++) weak += cabs(bs[j]) < 0.1;
    if (K - (weak == 1) != (unsigned)nsol) { mc_fail("long window", "%u bound states, expected %d", K, nsol); goto end; }
    for (int i = 0; i < nsol; i++) {
        double eta = t == 'N' ? nsol-i-0.5 : nsol-i; unsigned b = 0;
        for (unsigned j = 0; j < K; j++) if (cabs(bs[j]-I*eta) < cabs(bs[b]-I*eta)) b = j;
        err = cabs(bs[b]-I*eta); mc_max("long window: eigenvalue", err);
        if (!(err < 0.05)) { mc_fail("long window", "eigenvalue %.9g%+.9gi, expected %gi", NUM(bs[b]), eta); break; }
        /* |b| = exp(-2 eta shift) up to the sign, so check the magnitude */
        double mb = cabs(nc[b])*exp(-2*eta*shift); mc_max("long window: log b", fabs(log(mb)));
        if (!(fabs(log(mb)) < 0.3)) { mc_fail("long window", "norming constant %.9g%+.9gi of %gi, expected modulus %g", NUM(nc[b]), eta, exp(2*eta*shift)); break; }
        double ad = 1; /* |a'| = prod |.| for reflectionless potentials */
        for (int k = 0; k < nsol; k++) { double e2 = t == 'N' ? nsol-k-0.5 : nsol-k; ad *= k == i ? 1/(2*eta) : fabs((eta-e2)/(eta+e2)); }
        double mr = cabs(nc[K+b])*exp(-2*eta*shift)*ad; mc_max("long window: log residue", fabs(log(mr)));
        if (!(fabs(log(mr)) < 0.3)) { mc_fail("long window", "residue %.9g%+.9gi of %gi, expected modulus %g", NUM(nc[K+b]), eta, exp(2*eta*shift)/ad); break; }
    }
end: free(q);
}
static void periodic(int d, int loc, int kappa, unsigned D, cplx *q, double L) {
    cplx ms[2][256], as[2][256]; size_t K[2], M[2]; int rc[2]; double T[2] = {0, L};
    for (int nf = 0; nf < 2; nf++) {
        fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.discretization = d; o.localization = loc; o.normalization_flag = nf; o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = D; o.max_evals = 60;
        double bb[4] = {-1.5, 1.5, -1.5, 1.5}; memcpy(o.bounding_box, bb, sizeof bb);
        if (loc == fnft_nsep_loc_GRIDSEARCH) o.points_per_spine = 1;
        K[nf] = M[nf] = 256;
        rc[nf] = fnft_nsep(D, q, T, 0.0, &K[nf], ms[nf], &M[nf], as[nf], NULL, kappa, &o);
    }
    if (rc[0] != rc[1]) { mc_fail("status", "returns %d without and %d with normalization", rc[0], rc[1]); return; }
    if (rc[0]) { mc_count("refused", 1); return; }
    mc_outcome(mc_hash_d((double*)ms[1], 2*K[1], K[1]));
    for (int w = 0; w < 2; w++) {
        cplx *x = w ? as[0] : ms[0], *y = w ? as[1] : ms[1]; unsigned nx = w ? M[0] : K[0], ny = w ? M[1] : K[1];
        for (int dir = 0; dir < 2; dir++) {
            const cplx *u = dir ? y : x, *v = dir ? x : y; unsigned nu = dir ? ny : nx, nv = dir ? nx : ny;
            for (unsigned i = 0; i < nu; i++) {
                if (fabs(fabs(creal(u[i]))-1.5) < 1e-3 || fabs(fabs(cimag(u[i]))-1.5) < 1e-3) continue;
                double e = INFINITY; for (unsigned j = 0; j < nv; j++) e = fmin(e, cabs(u[i]-v[j]));
                mc_max("periodic", e);
                if (!(e < 1e-4)) { mc_fail(w ? "auxiliary spectrum" : "main spectrum", "%.12g%+.12gi only %s normalization (distance %g)", NUM(u[i]), dir ? "with" : "without", e); return; }
            }
        }
    }
    mc_count("periodic points compared", K[0] + M[0]);
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}}, XIs[3][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}}, Am[] = {1e-8, 1e-3, 1, 6, 30};
    cplx q[128], q2[128];
    for (int ti = 0; ti < 3; ti++) {
        char t = "NKM"[ti]; int nd = ti == 0 ? N_NSE : ti == 1 ? N_KDV : N_MAN;
        for (int d = 0; d < nd; d++) {
            for (unsigned D = 2; D <= (mc_thorough ? 48u : 17u); D += D < 5 ? 1 : 3) for (unsigned a = 0; a < 5; a++) for (int sh = 0; sh < 4; sh++) for (int k = -1; k <= 1; k += 2) {
                if (ti == 1 && k < 0) continue;
                if (mc_begin("contspec: %c %s D=%u amplitude=%g shape=%d kappa=%d", t, nm(t, d), D, Am[a], sh, k)) {
                    int v = (sh+D)%3;
                    gen_shape(D, sh, Ts[v], q); gen_shape(D, (sh+1)%4, Ts[v], q2);
                    for (unsigned i = 0; i < D; i++) { q[i] *= Am[a]; q2[i] *= Am[a]; if (ti == 1) q[i] = creal(q[i]); }
                    contspec(t, d, k, D, q, q2, Ts[v], 5, XIs[(v+1)%3]);
                }
            }
            if (isfast(t, d) && !(t == 'M' && r_from_manakov(d) == R_FT4B)) for (unsigned D = 16; D <= (mc_thorough ? 128u : 64u); D += D) for (int a = 0; a < 4; a++) for (int sh = 0; sh < 2; sh++)
                if (mc_begin("overflow: %c %s D=%u amplitude=%d shape=%d", t, nm(t, d), D, a, sh))
                    overflow(t, d, D, (t == 'K' ? (double[]){1000, 5e3, 2e4, 6e4}[a] : (double[]){50, 130, 200, 260}[a]), sh);
        }
        /* discrete spectra */
        for (int d = 0; d < nd; d++) for (int loc = 0; loc < 3; loc++) for (unsigned D = 8; D <= (mc_thorough ? 64u : 32u); D += 12) for (int a = 0; a < 3; a++) for (int sh = 0; sh < 2; sh++) for (int rich = 0; rich < 2; rich++) {
            char ty; rscheme s = ti == 0 ? r_from_nse(d) : ti == 1 ? r_from_kdv(d, &ty) : r_from_manakov(d);
            if (ti == 1 && loc == 2) continue;
            if (ti == 2 && rich) continue;
            if (ti != 1 && !r_is_fast(s) && loc != 1) continue;
            if (ti == 2 && loc == 1) continue;
            if ((s >= R_7A && s <= R_8B) || s == R_5A || s == R_5B) if (D > 8 || !mc_thorough) continue;   /* high degree: eigenvalue problems of the order of D*105 */
            if (!mc_begin("discrete: %c %s loc=%d D=%u amplitude=%d shape=%d extrapolation=%d", t, nm(t, d), loc, D, a, sh, rich)) continue;
            double A[] = {0.8, 2.2, 3.7}; double T[2] = {sh ? -4 : -3, sh ? 3 : 3}; cplx g[4]; unsigned ng = 0;
            for (unsigned i = 0; i < D; i++) { double x = T[0] + (T[1]-T[0])*i/(D-1); q[i] = t == 'K' ? A[a]*(A[a]+1)/(cosh(x)*cosh(x)) : A[a]/cosh(x)*cexp(I*0.3*sh*x); q2[i] = q[i]*0.7; if (t == 'M') q[i] *= 0.7; }
            int newton = ti == 0 ? loc == 1 : ti == 1 ? loc == 0 : 0;
            if (newton) { for (int i = 0; i < 4 && A[a]-i-0.5 > 0.1; i++) g[ng++] = t == 'K' ? I*(A[a]-i)*0.97 : I*(A[a]-i-0.5)*0.97-0.15*sh; }
            if (newton && !ng) g[ng++] = I*0.3;
            discrete(t, d, loc, D, q, q2, T, g, ng, rich, 1e-6, ti != 0 || loc != 0);  /* b is ambiguous at approximate eigenvalues */
        }
    }
    for (int ti = 0; ti < 2; ti++) for (int d = 0; d < (ti ? N_KDV : N_NSE); d++) for (unsigned v = 0; v < 3; v++) for (int ns = 1; ns <= 3; ns++) for (int loc = 0; loc < 2; loc++) {
        char t = ti ? 'K' : 'N'; if (!ti && loc) continue;
        double L[] = {20, 100, 450}, sh[] = {0.5, -3, 11};
        { char ty; rscheme s = ti ? r_from_kdv(d, &ty) : r_from_nse(d); if (r_is_fast(s) && s != R_4B && s != R_44B && s != R_2A) continue; }  /* the fast ones fall back to the sample-wise BO and CF4_2 */ 
        if (mc_begin("long window: %c %s L=%g solitons=%d loc=%d", t, nm(t, d), L[v], ns, loc))
            longwin(t, d, (unsigned)(L[v]*2/0.09), L[v], ns, sh[v], loc);
    }
    for (int d = 0; d < N_NSE; d++) for (int loc = 0; loc < 4; loc++) for (int k = -1; k <= 1; k += 2) for (unsigned D = 8; D <= 16; D += 8) for (int a = 0; a < 3; a++) {
        rscheme s = r_from_nse(d); if (!r_is_fast(s) || loc == 1) continue;
        if ((s >= R_7A && s <= R_8B) || s == R_5A || s == R_5B) continue;
        if (mc_begin("periodic: %s loc=%d kappa=%d D=%u signal=%d", nse_name(d), loc, k, D, a)) {
            double L = 2;
            for (unsigned i = 0; i < D; i++) { double x = 2*acos(-1)*i/D; q[i] = a == 0 ? 1.1*cexp(I*x) : a == 1 ? 0.7 + 0.3*cos(x) + 0.2*I*sin(2*x) : 1.4*cexp(I*cos(x)) + 0.1*sin(x); }
            periodic(d, loc, k, D, q, L);
        }
    }
}
