/* NSE continuous spectrum against the definition, exhaustively over short
 * signals x discretizations x signs x intervals x grids x layouts */
#include "ref.h"
#include "gen.h"
const char *mc_rule = "one case = one signal x discretization x sign x interval x grid; every layout (rho, ab, both) and both normalization settings are executed on the library and compared with the long double reference; non-trivial = library returned success and a nonzero value; distinct = hash of the rounded spectrum";

/* the modal scheme divides by sqrt(1-eps^2 q r): not defined for |eps q|>=1, r = conj q */
static int admissible(int d, int kappa, unsigned D, const cplx *q, double eps) {
    if (r_from_nse(d) != R_MODAL || kappa == 1) return 1;
    for (unsigned i = 0; i < D; i++) if (cabs(q[i])*eps > 0.95) return 0;
    return 1;
}
static void one(int d, int kappa, unsigned D, const cplx *q, const double *T, unsigned M, const double *XI) {
    lreal eps = ((lreal)T[1]-T[0])/(D-1);
    if (!admissible(d, kappa, D, q, eps)) { mc_count("outside the domain of the modal scheme", 1); return; }
    Prob p = {.type='N', .kappa=kappa, .s=r_from_nse(d), .D=D, .eps=eps, .q1=q};
    r_prepare(&p);
    int needres = p.nsub > 1;
    lcplx ref[64][2]; double cond[64]; double g;
    for (unsigned i = 0; i < M; i++) {
        lreal xi = M > 1 ? XI[0] + i*((lreal)XI[1]-XI[0])/(M-1) : XI[0];
        r_contspec(&p, T, xi, ref[i]);
        r_total_norm(&p, xi, &g);
        cond[i] = fmax(1, cabs((cplx)ref[i][0]) + cabs((cplx)ref[i][1]));
        cond[i] = fmax(cond[i], sqrt(g));
    }
    r_free(&p);
    for (int cst = 0; cst < 3; cst++) for (int nf = 0; nf < 2; nf++) {
        fnft_nsev_opts_t o = fnft_nsev_default_opts();
        o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
        unsigned n = cst == 0 ? M : cst == 1 ? 2*M : 3*M;
        cplx out[192]; for (unsigned i = 0; i < n; i++) out[i] = NAN;
        int rc = fnft_nsev(D, (cplx*)q, T, M, out, XI, NULL, NULL, NULL, kappa, &o);
        if (D <= 2 && needres) { if (rc == 0) mc_fail("short", "D=2 accepted by a resampling method"); continue; }
        if (rc) { mc_fail("status", "returned %d (layout %d, normalization %d)", rc, cst, nf); return; }
        mc_outcome(mc_hash_d((double*)out, 2*n, cst));
        for (unsigned i = 0; i < M; i++) {
            double tol = 2e-11*cond[i]*(D+4);
            lcplx a = ref[i][0], b = ref[i][1], rho = b/a;
            if (cst != 1) {
                double tr = tol*(1+cabs((cplx)rho))/cabs((cplx)a);
                double er = cabs((cplx)(out[i] - rho));
                mc_max("rho", er/tr);
                if (!(er <= tr)) mc_fail("reflection coefficient", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(out[i]), cimag(out[i]), (double)creall(rho), (double)cimagl(rho));
            }
            if (cst != 0) {
                const cplx *ab = cst == 1 ? out : out + M;
                double ea = cabs((cplx)(ab[i] - a)), eb = cabs((cplx)(ab[M+i] - b));
                mc_max("ab", fmax(ea, eb)/tol);
                if (!(ea <= tol)) mc_fail("a", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(ab[i]), cimag(ab[i]), (double)creall(a), (double)cimagl(a));
                if (!(eb <= tol)) mc_fail("b", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(ab[M+i]), cimag(ab[M+i]), (double)creall(b), (double)cimagl(b));
            }
        }
    }
}
void explore(void) {
    static const double Ts[][2] = {{-1,1},{0.3,1.9},{-7,-4.5}};
    static const double XIs[][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}};
    static const unsigned Ms[] = {2,3,5};
    cplx q[2048];
    /* every signal up to length Dmax over the alphabet */
    unsigned Dmax = mc_thorough ? 5 : 4;
    for (unsigned D = 2; D <= Dmax; D++)
        for (uint64_t code = 0; code < gen_count(D, 4); code++) {
            for (int d = 0; d < N_NSE; d++) for (int k = -1; k <= 1; k += 2) {
                if (mc_begin("all signals: D=%u code=%llu disc=%s kappa=%d", D, (unsigned long long)code, nse_name(d), k)) {
                    gen_signal(D, 4, code, q);
                    unsigned v = (code + d) % 3;
                    one(d, k, D, q, Ts[v], Ms[(code/3+d)%3], XIs[(code+D)%3]);
                }
            }
        }
    /* longer structured signals: every length up to Lmax, every interval and grid */
    unsigned Lmax = mc_thorough ? 40 : 20;
    for (unsigned D = 2; D <= Lmax; D++)
        for (int sh = 0; sh < GEN_SHAPES; sh++)
            for (int d = 0; d < N_NSE; d++) for (int k = -1; k <= 1; k += 2)
                for (int v = 0; v < 3; v++)
                    if (mc_begin("shapes: D=%u shape=%d disc=%s kappa=%d interval=%d", D, sh, nse_name(d), k, v)) {
                        gen_shape(D, sh, Ts[v], q);
                        one(d, k, D, q, Ts[v], 2 + (D+sh)%4, XIs[(v+sh)%3]);
                    }
    /* a ladder of long signals: powers of two, their neighbours, and odd sizes */
    static const unsigned lad[] = {33,50,64,65,100,127,128,129,200,257,512,1000,2048};
    static const unsigned lM[] = {7,16,31};
    for (unsigned l = 0; l < (mc_thorough ? 13u : 11u); l++)
        for (int d = 0; d < N_NSE; d++) for (int k = -1; k <= 1; k += 2) {
            unsigned D = lad[l]; int v = (l+d)%3, sh = (d+k+1+l)%GEN_SHAPES;
            if (mc_begin("ladder: D=%u shape=%d disc=%s kappa=%d interval=%d", D, sh, nse_name(d), k, v)) {
                gen_shape(D, sh, Ts[v], q);
                one(d, k, D, q, Ts[v], lM[(l+d)%3], XIs[(v+sh)%3]);
            }
        }
}
