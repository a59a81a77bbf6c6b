/* Manakov continuous spectrum against the definition */
#include "ref.h"
#include "gen.h"
const char *mc_rule = "one case = one pair of signals x discretization x sign x interval x grid; every layout (rho, ab, both) and both normalization settings are executed on the library and compared with the long double reference; non-trivial = library returned success; distinct = hash of the rounded spectrum";
static void one(int d, int kappa, unsigned D, const cplx *q1, const cplx *q2, const double *T, unsigned M, const double *XI) {
    lreal eps = ((lreal)T[1]-T[0])/(D-1);
    Prob p = {.type='M', .kappa=kappa, .s=r_from_manakov(d), .D=D, .eps=eps, .q1=q1, .q2=q2};
    r_prepare(&p);
    int needres = p.nsub > 1;
    lcplx ref[32][3]; double cond[32]; double g;
    for (unsigned i = 0; i < M; i++) {
        lreal xi = XI[0] + i*((lreal)XI[1]-XI[0])/(M-1);
        r_contspec(&p, T, xi, ref[i]);
        r_total_norm(&p, xi, &g);
        cond[i] = fmax(1, cabs((cplx)ref[i][0]) + cabs((cplx)ref[i][1]) + cabs((cplx)ref[i][2]));
        cond[i] = fmax(cond[i], g);
    }
    r_free(&p);
    for (int cst = 0; cst < 3; cst++) for (int nf = 0; nf < 2; nf++) {
        fnft_manakovv_opts_t o = fnft_manakovv_default_opts();
        o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
        unsigned n = cst == 0 ? 2*M : cst == 1 ? 3*M : 5*M;
        cplx out[160]; for (unsigned i = 0; i < n; i++) out[i] = NAN;
        int rc = fnft_manakovv(D, (cplx*)q1, (cplx*)q2, T, M, out, XI, NULL, NULL, NULL, kappa, &o);
        /* announced in the type but not implemented: a clean rejection is fine, a wrong value is not */
        if (rc && p.s == R_FT4B) { mc_count("FTES4_4B rejected", 1); return; }
        if (D <= 2 && needres) { if (rc == 0) mc_fail("short", "D=2 accepted by a resampling method"); continue; }
        if (rc) { mc_fail("status", "returned %d (layout %d, normalization %d): %s", rc, cst, nf, mc_lastmsg); return; }
        mc_outcome(mc_hash_d((double*)out, 2*n, cst));
        for (unsigned i = 0; i < M; i++) {
            double tol = 2e-11*cond[i]*(D+4);
            lcplx a = ref[i][0];
            for (int j = 0; j < 2; j++) if (cst != 1) {
                lcplx rho = ref[i][1+j]/a;
                double tr = tol*(1+cabs((cplx)rho))/cabs((cplx)a), er = cabs((cplx)(out[j*M+i] - rho));
                mc_max("rho", er/tr);
                if (!(er <= tr)) mc_fail("reflection coefficient", "component %d layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", j+1, cst, nf, i, creal(out[j*M+i]), cimag(out[j*M+i]), (double)creall(rho), (double)cimagl(rho));
            }
            if (cst != 0) {
                const cplx *ab = cst == 1 ? out : out + 2*M;
                for (int j = 0; j < 3; j++) {
                    double e = cabs((cplx)(ab[j*M+i] - ref[i][j]));
                    mc_max("ab", e/tol);
                    if (!(e <= tol)) mc_fail(j ? "b" : "a", "coefficient %d layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", j, cst, nf, i, creal(ab[j*M+i]), cimag(ab[j*M+i]), (double)creall(ref[i][j]), (double)cimagl(ref[i][j]));
                }
            }
        }
    }
}
void explore(void) {
    static const double Ts[][2] = {{-1,1},{0.3,1.9},{-7,-4.5}};
    static const double XIs[][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}};
    static const unsigned Ms[] = {2,3,5};
    cplx q1[2048], q2[2048];
    unsigned Dmax = mc_thorough ? 4 : 3;
    for (unsigned D = 2; D <= Dmax; D++) {
        unsigned na = D == 4 ? 3 : 4;
        uint64_t n = gen_count(D, na);
        for (uint64_t c1 = 0; c1 < n; c1++) for (uint64_t c2 = 0; c2 < n; c2++)
            for (int d = 0; d < N_MAN; d++) for (int k = -1; k <= 1; k += 2)
                if (mc_begin("all signals: D=%u codes=%llu,%llu disc=%s kappa=%d", D, (unsigned long long)c1, (unsigned long long)c2, manakov_name(d), k)) {
                    gen_signal(D, na, c1, q1); gen_signal(D, na, c2, q2);
                    for (unsigned i = 0; i < D; i++) q2[i] *= 0.8*cexp(0.3*_Complex_I);
                    one(d, k, D, q1, q2, Ts[(c1+c2+d)%3], Ms[(c1+c2/3+d)%3], XIs[(c1+c2/4+D)%3]);
                }
    }
    unsigned Lmax = mc_thorough ? 34 : 17;
    for (unsigned D = 2; D <= Lmax; D++)
        for (int sh = 0; sh < GEN_SHAPES*GEN_SHAPES; sh++)
            for (int d = 0; d < N_MAN; d++) for (int k = -1; k <= 1; k += 2)
                if (mc_begin("shapes: D=%u shapes=%d,%d disc=%s kappa=%d", D, sh%GEN_SHAPES, sh/GEN_SHAPES, manakov_name(d), k)) {
                    int v = (D+sh)%3;
                    gen_shape(D, sh%GEN_SHAPES, Ts[v], q1); gen_shape(D, sh/GEN_SHAPES, Ts[v], q2);
                    one(d, k, D, q1, q2, Ts[v], 2 + (D+sh)%4, XIs[(v+sh)%3]);
                }
    /* a ladder of long signals: powers of two, their neighbours, and odd sizes */
    static const unsigned lad[] = {33,50,64,65,100,127,128,129,200,257,512,1000,2048};
    static const unsigned lM[] = {7,16,31};
    for (unsigned l = 0; l < (mc_thorough ? 13u : 11u); l++)
        for (int d = 0; d < N_MAN; d++) for (int k = -1; k <= 1; k += 2) {
            unsigned D = lad[l]; int v = (l+d)%3, s1 = (d+l)%GEN_SHAPES, s2 = (d+l+1+(k>0))%GEN_SHAPES;
            if (mc_begin("ladder: D=%u shapes=%d,%d disc=%s kappa=%d", D, s1, s2, manakov_name(d), k)) {
                gen_shape(D, s1, Ts[v], q1); gen_shape(D, s2, Ts[v], q2);
                one(d, k, D, q1, q2, Ts[v], lM[(l+d)%3], XIs[(v+s1)%3]);
            }
        }
}
