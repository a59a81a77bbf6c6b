/* KdV continuous spectrum against the definition, exhaustively over short
 * real potentials x 56 discretizations x intervals x grids x layouts */
#include "ref.h"
#include "gen.h"
const char *mc_rule = "one case = one real potential x discretization x interval x grid; every layout (rho, ab, both) and both normalization settings are executed on the library and compared with the long double reference; non-trivial = library returned success; distinct = hash of the rounded spectrum";
static void one(int d, unsigned D, const cplx *q, const double *T, unsigned M, const double *XI) {
    lreal eps = ((lreal)T[1]-T[0])/(D-1);
    Prob p = {.kappa=1, .D=D, .eps=eps, .q1=q};
    p.s = r_from_kdv(d, &p.type);
    if (p.s == R_MODAL) for (unsigned i = 0; i < D; i++) {
        double x = creal(1 + eps*eps*q[i]); /* 1 - QR with QR = -eps^2 q */
        if (x < 0.05) { mc_count("outside the domain of the modal scheme", 1); return; }
    }
    r_prepare(&p);
    int needres = p.nsub > 1;
    lcplx ref[64][2]; double cond[64]; double g;
    for (unsigned i = 0; i < M; i++) {
        lreal xi = XI[0] + i*((lreal)XI[1]-XI[0])/(M-1);
        r_contspec(&p, T, xi, ref[i]);
        r_total_norm(&p, xi, &g);
        cond[i] = fmax(1, cabs((cplx)ref[i][0]) + cabs((cplx)ref[i][1]));
        cond[i] = fmax(cond[i], g)*(1 + 2*fabs((double)xi))*(1+1/(2*fabs((double)xi)));
    }
    r_free(&p);
    for (int cst = 0; cst < 3; cst++) for (int nf = 0; nf < 2; nf++) {
        fnft_kdvv_opts_t o = fnft_kdvv_default_opts();
        o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf;
        unsigned n = cst == 0 ? M : cst == 1 ? 2*M : 3*M;
        cplx out[192]; for (unsigned i = 0; i < n; i++) out[i] = NAN;
        int rc = fnft_kdvv(D, (cplx*)q, T, M, out, XI, NULL, NULL, NULL, &o);
        if (D <= 2 && needres) { if (rc == 0) mc_fail("short", "D=2 accepted by a resampling method"); continue; }
        if (rc) { mc_fail("status", "returned %d (layout %d, normalization %d)", rc, cst, nf); return; }
        mc_outcome(mc_hash_d((double*)out, 2*n, cst));
        for (unsigned i = 0; i < M; i++) {
            double tol = 2e-11*cond[i]*(D+4);
            lcplx a = ref[i][0], b = ref[i][1], rho = b/a;
            if (cst != 1) {
                double tr = tol*(1+cabs((cplx)rho))/cabs((cplx)a);
                double er = cabs((cplx)(out[i] - rho));
                mc_max("rho", er/tr);
                if (!(er <= tr)) mc_fail("reflection coefficient", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(out[i]), cimag(out[i]), (double)creall(rho), (double)cimagl(rho));
            }
            if (cst != 0) {
                const cplx *ab = cst == 1 ? out : out + M;
                double ea = cabs((cplx)(ab[i] - a)), eb = cabs((cplx)(ab[M+i] - b));
                mc_max("ab", fmax(ea, eb)/tol);
                if (!(ea <= tol)) mc_fail("a", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(ab[i]), cimag(ab[i]), (double)creall(a), (double)cimagl(a));
                if (!(eb <= tol)) mc_fail("b", "layout %d norm %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", cst, nf, i, creal(ab[M+i]), cimag(ab[M+i]), (double)creall(b), (double)cimagl(b));
            }
        }
    }
}
void explore(void) {
    static const double Ts[][2] = {{-1,1},{0.3,1.9},{-4,-2.5}};
    static const double XIs[][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}};
    static const unsigned Ms[] = {2,3,5};
    cplx q[2048];
    unsigned Dmax = mc_thorough ? 5 : 4;
    for (unsigned D = 2; D <= Dmax; D++)
        for (uint64_t code = 0; code < gen_count(D, 4); code++)
            for (int d = 0; d < N_KDV; d++)
                if (mc_begin("all potentials: D=%u code=%llu disc=%s", D, (unsigned long long)code, kdv_name(d))) {
                    gen_signal_real(D, 4, code, q);
                    one(d, D, q, Ts[(code + d) % 3], Ms[(code/3+d)%3], XIs[(code+D)%3]);
                }
    unsigned Lmax = mc_thorough ? 40 : 20;
    for (unsigned D = 2; D <= Lmax; D++)
        for (int sh = 0; sh < GEN_SHAPES; sh++)
            for (int d = 0; d < N_KDV; d++)
                for (int v = 0; v < 3; v++)
                    if (mc_begin("shapes: D=%u shape=%d disc=%s interval=%d", D, sh, kdv_name(d), v)) {
                        gen_shape(D, sh, Ts[v], q);
                        for (unsigned i = 0; i < D; i++) q[i] = creal(q[i]);
                        unsigned M = 2 + (D+sh)%4;
                        int xv = (v+sh)%3; if (xv == 0 && M == 2) M = 3;
                        one(d, D, q, Ts[v], M, XIs[xv]);
                    }
    /* a ladder of long signals: powers of two, their neighbours, and odd sizes */
    static const unsigned lad[] = {33,50,64,65,100,127,128,129,200,257,512,1000,2048};
    static const unsigned lM[] = {7,16,31};
    for (unsigned l = 0; l < (mc_thorough ? 13u : 11u); l++)
        for (int d = 0; d < N_KDV; d++) {
            unsigned D = lad[l]; int v = (l+d)%3, sh = (d+l)%GEN_SHAPES;
            if (mc_begin("ladder: D=%u shape=%d disc=%s interval=%d", D, sh, kdv_name(d), v)) {
                gen_shape(D, sh, Ts[v], q);
                for (unsigned i = 0; i < D; i++) q[i] = creal(q[i]);
                one(d, D, q, Ts[v], lM[(l+d)%3] & ~1u, XIs[(v+sh)%3]);
            }
        }
}
