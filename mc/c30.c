/* Fast scattering: the polynomial transfer matrix returned by *_fscatter is
 * compared coefficient by coefficient (so for every value of the spectral
 * parameter) with the polynomial interpolated, in long double, from ordered
 * products of single sample matrices of the reference model. */
#include "ref.h"
#include "gen.h"
#include "fnft__nse_fscatter.h"
#include "fnft__akns_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__manakov_fscatter.h"
const char *mc_rule = "one case = one discretization x word of samples x step size x normalization; all coefficients of all entries of the transfer matrix are compared; non-trivial = the library returned success; distinct = hash of the coefficients";

#define MAXD 256
static lcplx LI_ = _Complex_I;
/* library numbering of the AKNS methods */
static const rscheme amap[] = {R_MODAL,R_1A,R_1B,R_2A,R_2B,R_2S,R_3A,R_3B,R_3S,R_4A,R_4B,R_5A,R_5B,R_6A,R_6B,R_7A,R_7B,R_8A,R_8B,R_BO,R_44A,R_44B,R_CF42,R_CF43,R_CF53,R_CF64,R_ES4,R_TES4};
static int n_akns = NELEM(amap);

static Mat zmul(Mat T, int n, lcplx f) { return m_scale(T, f); (void)n; }

/* P(z) = z^{deg/2} * product of the sample matrices */
static void compare(const char *what, int n, rscheme s, unsigned D, const lcplx *q1, const lcplx *q2, const lcplx *r1, const lcplx *r2,
        lreal h, unsigned deg1, const cplx *res, unsigned deg, int W, Prob *ft) {
    if (deg != deg1*D) { mc_fail("degree", "%s: degree %u reported, %u expected", what, deg, deg1*D); return; }
    unsigned N = deg + 1;
    lcplx *v = malloc(N*n*n*sizeof *v), *w = malloc(N*sizeof *w);
    lreal per = s == R_FTSUZ ? h/3 : 2*h/deg1;           /* z = e^{i lambda per} */
    double g = 0;
    for (unsigned k = 0; k < N; k++) w[k] = cexpl(-2*acosl(-1)*LI_*k/N);
    for (unsigned k = 0; k < N; k++) {
        lreal th = 2*acosl(-1)*k/N; if (k > N/2) th -= 2*acosl(-1);
        lcplx lam = th/per;
        Mat T = m_id(n); double gg = 1;
        Mat A = m_scale(m_id(n), LI_*lam); A.a[0][0] = -LI_*lam;
        for (unsigned i = 0; i < D; i++) {
            Mat U;
            if (ft) U = r_step(ft, i, lam);
            else {
                Mat B = m_scale(m_id(n), 0); B.a[0][1] = q1[i]; B.a[1][0] = r1[i];
                if (n == 3) { B.a[0][2] = q2[i]; B.a[2][0] = r2[i]; }
                U = r_split(s, A, B, h);
            }
            T = m_mul(U, T); gg *= fmax(1, m_norm(U));
        }
        if (gg > g) g = gg;
        lcplx hz = cexpl(LI_*lam*per/2);                  /* z^{1/2} */
        lcplx f = 1; for (unsigned i = 0; i < deg; i++) f *= hz;
        T = zmul(T, n, f);
        if (s == R_MODAL || s == R_2A) { T.a[0][1] *= hz; T.a[1][0] /= hz; }   /* the documented change of basis */
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) v[(a*n+b)*N+k] = T.a[a][b];
    }
    double scale = ldexp(1, W), tol = 3e-15*(D+4)*g*(1+log2(N))*(deg1 > 30 ? 4 : 1)*(n == 3 ? 8 : 1);   /* three by three: more terms, and the extrapolating splittings have coefficients larger than the values on the circle */
    for (int e = 0; e < n*n; e++) for (unsigned j = 0; j < N; j++) {   /* coefficient of z^j */
        lcplx c = 0;
        for (unsigned k = 0; k < N; k++) c += v[e*N+k]*w[((uint64_t)j*k)%N];
        c /= N;
        cplx got = res[e*N + (N-1-j)]*scale;
        double er = cabs(got - (cplx)c);
        mc_max(what, er/tol);
        if (!(er <= tol)) { mc_fail("coefficient", "%s: entry %d coefficient of z^%u is %.12g%+.12gi, expected %.12g%+.12gi", what, e, j, creal(got), cimag(got), (double)creall(c), (double)cimagl(c)); goto out; }
    }
out:
    free(v); free(w);
}
static void run(int fam, int d, unsigned D, const cplx *q1, const cplx *q2, const cplx *r1, double eps, int kappa, int norm) {
    size_t deg1, numel, deg = 0; INT W = 0; int n = fam == 3 ? 3 : 2;
    rscheme s; char ty = 'N';
    switch (fam) {
    case 0: s = amap[d]; numel = fnft__akns_fscatter_numel(D, d); deg1 = fnft__akns_discretization_degree(d); break;
    case 1: s = r_from_nse(d); numel = fnft__nse_fscatter_numel(D, d); deg1 = fnft__nse_discretization_degree(d); break;
    case 2: s = r_from_kdv(d, &ty); numel = fnft__kdv_fscatter_numel(D, d); deg1 = fnft__kdv_discretization_degree(d); break;
    default: s = r_from_manakov(d); numel = fnft__manakov_fscatter_numel(D, d); deg1 = fnft__manakov_discretization_degree(d); break;
    }
    static cplx dummy[64]; size_t ud = 77;
    int rc;
    if (!r_is_fast(s)) {
        if (numel != 0 || deg1 != 0) mc_fail("slow scheme", "numel %u degree %u for a scheme without fast version", numel, deg1);
        rc = fam == 0 ? fnft__akns_fscatter(D, q1, r1, eps, dummy, &ud, &W, d) : fam == 1 ? fnft__nse_fscatter(D, q1, r1, eps, dummy, &ud, &W, d)
           : fam == 2 ? fnft__kdv_fscatter(D, q1, r1, eps, kappa, dummy, &ud, &W, d) : fnft__manakov_fscatter(D, q1, q2, kappa, eps, dummy, &ud, &W, d);
        if (rc == 0) mc_fail("slow scheme", "accepted");
        return;
    }
    if (fam == 3 && s == R_FT4B) { /* announced but not implemented: has to be refused */
        cplx *res = malloc((numel ? numel : 1)*sizeof *res);
        rc = fnft__manakov_fscatter(D, q1, q2, kappa, eps, res, &ud, &W, d); free(res);
        if (rc != 0) { mc_count("FTES4_4B refused", 1); return; }
        mc_fail("FTES4_4B", "returned success"); return;
    }
    if (numel == 0) { mc_fail("numel", "0 for a fast scheme"); return; }
    unsigned ups = s == R_44A || s == R_44B || s == R_46B ? 2 : 1;
    cplx *res = malloc(numel*sizeof *res);
    for (unsigned i = 0; i < numel; i++) res[i] = NAN;
    rc = fam == 0 ? fnft__akns_fscatter(D, q1, r1, eps, res, &deg, norm ? &W : NULL, d) : fam == 1 ? fnft__nse_fscatter(D, q1, r1, eps, res, &deg, norm ? &W : NULL, d)
       : fam == 2 ? fnft__kdv_fscatter(D, q1, r1, eps, kappa, res, &deg, norm ? &W : NULL, d) : fnft__manakov_fscatter(D, q1, q2, kappa, eps, res, &deg, norm ? &W : NULL, d);
    if (rc) { mc_fail("status", "returned %d", rc); free(res); return; }
    mc_outcome(mc_hash_d((double*)res, 2*n*n*(deg+1), W));
    lcplx Q1[MAXD], Q2[MAXD], R1[MAXD], R2[MAXD];
    for (unsigned i = 0; i < D; i++) {
        Q1[i] = q1[i]; R1[i] = r1 ? (lcplx)r1[i] : -kappa*conjl(Q1[i]);
        if (fam == 3) { Q2[i] = q2[i]; R2[i] = -kappa*conjl(Q2[i]); R1[i] = -kappa*conjl(Q1[i]); }
        if (fam == 3 && ups == 2) { Q1[i] *= 2; Q2[i] *= 2; R1[i] *= 2; R2[i] *= 2; }   /* the Manakov routines expect the weighted samples, i.e. step size times sample already halved */
        if (fam == 2 && ty == 'k') { lcplx t = Q1[i]; Q1[i] = R1[i]; R1[i] = t; }
    }
    Prob p = {.type='M', .kappa=kappa, .s=s, .D=D, .eps=eps, .q1=q1, .q2=q2};
    Prob *ft = NULL;
    if (fam == 3 && (s == R_FT4A || s == R_FTSUZ)) { r_prepare(&p); ft = &p; }
    static const char *fn[] = {"akns","nse","kdv","manakov"};
    compare(fn[fam], n, s, D, Q1, Q2, R1, R2, (lreal)eps/ups, deg1, res, deg, norm ? W : 0, ft);
    if (ft) r_free(ft);
    free(res);
}
static const double epss[] = {1, 0.13, 0.37};
/* q and r chosen independently for the general AKNS problem, including q*r = 0 and equal signs */
static const cplx qa[6] = {0, 0.9, -0.4+0.7*_Complex_I, 1.6*_Complex_I, 1e-9, -1.3};
static const cplx ra[6] = {0, -0.9, 1, 0.3-1.1*_Complex_I, -1, 0.5};
static int ok_modal(rscheme s, unsigned D, const cplx *q, const cplx *r, double eps) {
    if (s != R_MODAL) return 1;
    for (unsigned i = 0; i < D; i++) { cplx x = eps*q[i]*eps*r[i]; if (fabs(cimag(x)) < 1e-3 ? creal(x) > 0.9 : cabs(1-x) < 0.05) return 0; }
    return 1;
}
void explore(void) {
    cplx q1[MAXD], q2[MAXD], r1[MAXD];
    /* words: all samples (q,r) from the 6x6 alphabet for a single step, all words over a smaller alphabet after that */
    for (int d = 0; d < n_akns; d++) for (int a = 0; a < 36; a++) for (int e = 0; e < 3; e++) for (int nm = 0; nm < 2; nm++)
        if (mc_begin("akns %s one sample q=%d r=%d eps=%g norm=%d", r_name[amap[d]], a%6, a/6, epss[e], nm)) {
            q1[0] = qa[a%6]; r1[0] = ra[a/6];
            if (ok_modal(amap[d], 1, q1, r1, epss[e])) run(0, d, 1, q1, NULL, r1, epss[e], 1, nm);
        }
    static const int pick[6][2] = {{0,0},{1,1},{2,3},{3,4},{0,2},{5,5}};
    unsigned wmax = mc_thorough ? 5 : 4;
    for (int d = 0; d < n_akns; d++) for (unsigned D = 2; D <= wmax; D++) {
        unsigned k = D <= 3 ? 6 : 4;
        if (!r_is_fast(amap[d]) && D > 2) continue;
        if (fnft__akns_discretization_degree(d) > 100 && D > (mc_thorough ? 3u : 2u)) continue;
        for (uint64_t c = 0; c < gen_count(D, k); c++)
            if (mc_begin("akns %s word D=%u code=%llu", r_name[amap[d]], D, (unsigned long long)c)) {
                uint64_t x = c; for (unsigned i = 0; i < D; i++) { q1[i] = qa[pick[x%k][0]]; r1[i] = ra[pick[x%k][1]]; x /= k; }
                double eps = epss[(c+D)%3];
                if (ok_modal(amap[d], D, q1, r1, eps)) run(0, d, D, q1, NULL, r1, eps, 1, c & 1);
            }
    }
    /* every length */
    unsigned Lmax = mc_thorough ? 40 : 20;
    for (int d = 0; d < n_akns; d++) for (unsigned D = 1; D <= Lmax; D++) {
        unsigned deg = fnft__akns_discretization_degree(d);
        if (deg > 100 ? D > (mc_thorough ? 6 : 3) : deg > 8 ? D > (mc_thorough ? 17 : 9) : 0) continue;
        for (int e = 0; e < 3; e++) for (int nm = 0; nm < 2; nm++)
            if (mc_begin("akns %s length D=%u eps=%g norm=%d", r_name[amap[d]], D, epss[e], nm)) {
                for (unsigned i = 0; i < D; i++) { q1[i] = 0.9*cexp(_Complex_I*(0.7*i+0.2*i*i))/(1+0.1*i); r1[i] = (0.3+0.05*(i%7))*cexp(_Complex_I*(1.1*i+0.4)); }
                if (ok_modal(amap[d], D, q1, r1, epss[e])) run(0, d, D, q1, NULL, r1, epss[e], 1, nm);
            }
    }
    /* long signals, every family */
    static const unsigned lad[] = {32,33,64,65,100,127,128,129,256};
    for (int fam = 0; fam < 4; fam++) for (int d = 0; d < (fam == 0 ? n_akns : fam == 1 ? N_NSE : fam == 2 ? N_KDV : N_MAN); d++) for (unsigned l = 0; l < NELEM(lad); l++) for (int kappa = -1; kappa <= 1; kappa += 2) {
        char ty; unsigned D = lad[l], deg = fam == 0 ? fnft__akns_discretization_degree(d) : fam == 1 ? fnft__nse_discretization_degree(d) : fam == 2 ? fnft__kdv_discretization_degree(d) : fnft__manakov_discretization_degree(d);
        rscheme s = fam == 0 ? amap[d] : fam == 1 ? r_from_nse(d) : fam == 2 ? r_from_kdv(d, &ty) : r_from_manakov(d);
        if (!deg || deg*D > (mc_thorough ? 1100u : 530u) || ((fam == 0 || fam == 2) && kappa < 0)) continue;
        if (mc_begin("long family %d method %d D=%u kappa=%d", fam, d, D, kappa)) {
            double eps = 2.0/D;
            for (unsigned i = 0; i < D; i++) {
                q1[i] = 0.9*cexp(_Complex_I*(0.7*i+0.2*(i%11)))/(1+0.01*i); q2[i] = 0.6*cexp(_Complex_I*(0.3*i+1)); r1[i] = (0.3+0.05*(i%7))*cexp(_Complex_I*(1.1*i+0.4));
                if (fam == 1) r1[i] = -kappa*conj(q1[i]);
                if (fam == 2) { q1[i] = creal(q1[i]); r1[i] = -1; }
            }
            if (ok_modal(s, D, q1, r1, eps)) run(fam, d, D, q1, fam == 3 ? q2 : NULL, r1, eps, kappa, (D + d) & 1);
        }
    }
    /* NSE and KdV front ends */
    for (int fam = 1; fam <= 2; fam++) for (int d = 0; d < (fam == 1 ? N_NSE : N_KDV); d++) for (unsigned D = 1; D <= (mc_thorough ? 4u : 3u); D++)
        for (uint64_t c = 0; c < gen_count(D, 4); c++) for (int kappa = -1; kappa <= 1; kappa += 2) {
            rscheme s; char ty; s = fam == 1 ? r_from_nse(d) : r_from_kdv(d, &ty);
            if (!r_is_fast(s) && (D > 1 || c > 1)) continue;
            if ((s == R_7A || s == R_7B) && D > 2) continue;
            if (fam == 2 && kappa == -1) continue;
            if (mc_begin("%s %s D=%u code=%llu kappa=%d", fam == 1 ? "nse" : "kdv", fam == 1 ? nse_name(d) : kdv_name(d), D, (unsigned long long)c, kappa)) {
                if (fam == 1) { gen_signal(D, 4, c, q1); for (unsigned i = 0; i < D; i++) r1[i] = -kappa*conj(q1[i]); }
                else { gen_signal_real(D, 4, c, q1); for (unsigned i = 0; i < D; i++) r1[i] = -1; }
                double eps = epss[1 + c%2];
                if (ok_modal(s, D, q1, r1, eps)) run(fam, d, D, q1, NULL, r1, eps, kappa, c & 1);
            }
        }
    /* Manakov */
    static const cplx m1[9] = {0,0.9,-0.4+0.7*_Complex_I,0,1.6*_Complex_I,1e-9,0,-1.3,1e-3}, m2[9] = {0,0,0.5,1.1*_Complex_I,-0.6+0.2*_Complex_I,0,1e-17,1.3,-1e-4};
    for (int d = 0; d < N_MAN; d++) for (unsigned D = 1; D <= (mc_thorough ? 4u : 3u); D++) {
        unsigned k = D == 1 ? 9 : D == 2 ? 7 : 5;
        for (uint64_t c = 0; c < gen_count(D, k); c++) for (int kappa = -1; kappa <= 1; kappa += 2) {
            if (!r_is_fast(r_from_manakov(d)) && D > 1) continue;
            if (mc_begin("manakov %s word D=%u code=%llu kappa=%d", manakov_name(d), D, (unsigned long long)c, kappa)) {
                uint64_t x = c; for (unsigned i = 0; i < D; i++) { q1[i] = m1[x%k]; q2[i] = m2[x%k]; x /= k; }
                run(3, d, D, q1, q2, NULL, epss[c%3], kappa, (c/3) & 1);
            }
        }
    }
    for (int d = 0; d < N_MAN; d++) for (unsigned D = 1; D <= (mc_thorough ? 24u : 12u); D++) for (int kappa = -1; kappa <= 1; kappa += 2) for (int e = 0; e < 3; e++) for (int nm = 0; nm < 2; nm++)
        if (mc_begin("manakov %s length D=%u kappa=%d eps=%g norm=%d", manakov_name(d), D, kappa, epss[e], nm)) {
            for (unsigned i = 0; i < D; i++) { q1[i] = 0.9*cexp(_Complex_I*(0.7*i+0.2*i*i))/(1+0.1*i); q2[i] = (0.3+0.05*(i%7))*cexp(_Complex_I*(1.1*i+0.4)); }
            run(3, d, D, q1, q2, NULL, epss[e], kappa, nm);
        }
}
