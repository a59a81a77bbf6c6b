/* The inverse NSE transform: solitons */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one list of eigenvalues (every subset of a lattice up to the depth bound, in every order) x norming constants or residues x seed (none, given potential, continuous spectrum) x interval x length; the returned signal is compared with the N-fold Darboux transform evaluated in long double, and its zeros of a and b with what was requested; distinct = hash of the returned signal";
#define NUM(z) (double)creall(z), (double)cimagl(z)
#define MAXD 512
#define MAXE 8
static const lreal PI_ = 3.14159265358979323846264338327950288L;
static const double Ts[6][2] = {{-1,1},{0,3},{-5,-2.5},{-0.1,0.25},{-12,12},{-7,15}};
enum { NC = fnft_nsev_inverse_dstype_NORMING_CONSTANTS, RES = fnft_nsev_inverse_dstype_RESIDUES };
enum { MDEF = fnft_nsev_inverse_csmethod_DEFAULT, MSEED = fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD };
/* solutions of the scattering problem of the seed at all samples: constant potential in each half cell */
static void eigenf(unsigned D, const cplx *q, const double *T, lcplx l, lcplx (*phi)[2], lcplx (*psi)[2]) {
    lreal h = ((lreal)T[1]-T[0])/(D-1)/2; phi[0][0] = cexpl(-LI*l*(lreal)T[0]); phi[0][1] = 0; psi[D-1][0] = 0; psi[D-1][1] = cexpl(LI*l*(lreal)T[1]);
    for (int dir = 0; dir < 2; dir++) for (unsigned n = 1; n < D; n++) {
        unsigned from = dir ? D-n : n-1, to = dir ? D-1-n : n; lcplx (*f)[2] = dir ? psi : phi; lcplx x = f[from][0], y = f[from][1]; lreal s = dir ? -h : h;
        for (int half = 0; half < 2; half++) {
            lcplx u = q ? q[half ? to : from] : 0; Mat A = {.n = 2}; A.a[0][0] = -LI*l*s; A.a[1][1] = LI*l*s; A.a[0][1] = u*s; A.a[1][0] = -conjl(u)*s;
            Mat E = m_exp(A); lcplx t = E.a[0][0]*x + E.a[0][1]*y; y = E.a[1][0]*x + E.a[1][1]*y; x = t;
        }
        f[to][0] = x; f[to][1] = y;
    }
}
/* N-fold Darboux transform, symmetric in the eigenvalues */
static int darboux(unsigned K, const lcplx *l, const lcplx *b, unsigned D, const cplx *seed, const double *T, lcplx *out, double *cond) {
    static lcplx phi[MAXE][MAXD][2], psi[MAXE][MAXD][2]; *cond = 1;
    lreal h = ((lreal)T[1]-T[0])/(D-1);
    for (unsigned k = 0; k < K; k++) {
        if (seed) eigenf(D, seed, T, l[k], phi[k], psi[k]);
        else for (unsigned n = 0; n < D; n++) { lreal t = T[0] + n*h; phi[k][n][0] = cexpl(-LI*l[k]*t); phi[k][n][1] = 0; psi[k][n][0] = 0; psi[k][n][1] = cexpl(LI*l[k]*t); }
    }
    for (unsigned n = 0; n < D; n++) {
        lcplx v[MAXE][2], A[MAXE][MAXE+1];
        for (unsigned k = 0; k < K; k++) {
            lcplx x = phi[k][n][0] - b[k]*psi[k][n][0], y = phi[k][n][1] - b[k]*psi[k][n][1]; lreal s = sqrtl(cabsl(x)*cabsl(x) + cabsl(y)*cabsl(y));
            lreal big = fmaxl(fmaxl(cabsl(phi[k][n][0]), cabsl(phi[k][n][1])), cabsl(b[k])*fmaxl(cabsl(psi[k][n][0]), cabsl(psi[k][n][1]))); *cond = fmax(*cond, (double)(big/s));
            if (!(s > 0) || !(s < INFINITY)) return 0;
            v[k][0] = x/s; v[k][1] = y/s;
        }
        for (unsigned i = 0; i < K; i++) { for (unsigned j = 0; j < K; j++) A[i][j] = (conjl(v[i][0])*v[j][0] + conjl(v[i][1])*v[j][1])/(l[j]-conjl(l[i])); A[i][K] = conjl(v[i][1]); }
        lreal pmin = INFINITY, pmax = 0;
        for (unsigned c = 0; c < K; c++) {
            unsigned p = c; for (unsigned i = c; i < K; i++) if (cabsl(A[i][c]) > cabsl(A[p][c])) p = i;
            for (unsigned j = 0; j <= K; j++) { lcplx t = A[c][j]; A[c][j] = A[p][j]; A[p][j] = t; }
            pmin = fminl(pmin, cabsl(A[c][c])); pmax = fmaxl(pmax, cabsl(A[c][c])); if (A[c][c] == 0) return 0;
            for (unsigned i = 0; i < K; i++) if (i != c) { lcplx f = A[i][c]/A[c][c]; for (unsigned j = c; j <= K; j++) A[i][j] -= f*A[c][j]; }
        }
        *cond = fmax(*cond, (double)(pmax/pmin));
        out[n] = seed ? seed[n] : 0; for (unsigned j = 0; j < K; j++) out[n] -= 2*LI*v[j][0]*A[j][K]/A[j][j];
    }
    return 1;
}
/* expected signal; nc: norming constants or residues as supplied */
/* rel: residues refer to a of the complete signal; with a seed potential they are those of the solitons alone (as the existing tests demand) */
static int expected(unsigned K, const cplx *ev, const cplx *nc, int type, int rel, unsigned D, const cplx *seed, const double *T, lcplx *out, double *cond) {
    lcplx l[MAXE], b[MAXE]; Prob p = {.type='N', .kappa=1, .s=R_BO, .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=seed}; if (seed) r_prepare(&p);
    for (unsigned k = 0; k < K; k++) {
        l[k] = ev[k]; b[k] = nc[k];
        if (type == RES) { lcplx a1 = seed && rel ? sp_a(&p, T, l[k]) : 1; a1 /= 2*LI*cimagl(l[k]); for (unsigned j = 0; j < K; j++) if (j != k) a1 *= (l[k]-(lcplx)ev[j])/(l[k]-conjl((lcplx)ev[j])); b[k] *= a1; }
    }
    if (seed) r_free(&p);
    return darboux(K, l, b, D, seed, T, out, cond);
}
static int call(unsigned K, const cplx *ev, const cplx *nc, int type, int meth, unsigned D, const double *T, cplx *q) {
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discspec_type = type; o.contspec_inversion_method = meth; if (D & 4) o.discretization = fnft_nse_discretization_2SPLIT2_MODAL;
    return fnft_nsev_inverse(0, NULL, NULL, K, ev, nc, D, q, T, 1, &o);
}
static int compare(const char *what, unsigned D, const cplx *q, const lcplx *w, double cond) {
    lreal m = 0, e = 0; unsigned at = 0; for (unsigned n = 0; n < D; n++) { m = fmaxl(m, cabsl(w[n])); lreal d = cabsl(q[n]-w[n]); if (!(d <= e)) e = d, at = n; }
    double tol = 1e-12*cond*(1+(double)m)*(1+0.1*D); char nm[40]; snprintf(nm, sizeof nm, "%s: error in tolerances", what); 
    mc_outcome(mc_hash_d((double*)q, 2*D, D));
    if (tol > 1e-3) { mc_count("ill-conditioned", 1); for (unsigned n = 0; n < D; n++) if (!(cabs(q[n]) < INFINITY)) { mc_count("ill-conditioned and not finite", 1); break; } return 0; }
    mc_max(nm, (double)e/tol); mc_count("signals compared", 1);
    if (!(e <= tol)) { mc_fail(what, "q[%u] = %.12g%+.12gi instead of %.12g%+.12gi (accuracy %.3g)", at, NUM(q[at]), NUM(w[at]), tol); return 0; }
    return 1;
}
/* the forward transform finds what was requested: zeros of a, their number, b there; sized windows only */
static void forward(unsigned K, const cplx *ev, const cplx *nc, int type, unsigned D, const double *T, const cplx *q, int only) {
    Prob p = {.type='N', .kappa=1, .s=R_CF42, .D=D, .eps=((lreal)T[1]-T[0])/(D-1), .q1=q}; r_prepare(&p);
    double g = 0; for (unsigned n = 0; n < D; n++) g = fmax(g, cabs(q[n]));
    for (unsigned k = 0; k < K; k++) g = fmax(g, 2*cabs(ev[k]));
    double h = (double)p.eps*g, tail = fmax(cabs(q[0]), cabs(q[D-1])), mi = 9; for (unsigned k = 0; k < K; k++) mi = fmin(mi, cimag(ev[k])); double tol = fmin(0.2, 0.05*h*h + 3*tail/mi);
    if (tail > 0.02*mi) { mc_count("window too small to judge", 1); r_free(&p); return; }
    for (unsigned k = 0; k < K; k++) {
        lcplx x = ev[k]; int it = sp_newton(&p, T, &x, 20); double e = (double)cabsl(x-ev[k])/cabs(ev[k]); mc_max("forward: eigenvalue error in tolerances", it ? e/tol : 99); mc_max("forward: relative eigenvalue error", it ? e : 99);
        if (!it || !(e <= tol)) { mc_fail("eigenvalues", "the zero of a near %.6g%+.6gi is %.6g%+.6gi (accuracy %.3g)", NUM(ev[k]), NUM(x), tol); goto end; }
        lcplx v = sp_b(&p, T, x); if (type == RES) v /= sp_da(&p, T, x);
        double r = (double)cabsl(v-nc[k])/cabs(nc[k]), win = fmax(fabs(T[0]), fabs(T[1])), tb = tol*20*(1+win*cabs(ev[k])*0.2);
        mc_max("forward: relative error of b", r); mc_max("forward: error of b in tolerances", r/tb);
        if (tb > 0.4) { mc_count("b not judged", 1); continue; }
        if (!(r <= tb)) { mc_fail("norming constants", "b (or b/a') at %.6g%+.6gi is %.6g%+.6gi instead of %.6g%+.6gi (accuracy %.3g)", NUM(ev[k]), NUM(v), NUM(nc[k]), tb); goto end; }
    }
    if (only) { lcplx a, pr = 0; lreal w = 0; unsigned N = 24*D; lreal B = PI_/(2*p.eps)*0.8L; (void)N;   /* count zeros: change of the argument along the real axis */
        for (unsigned k = 0; k <= 800; k++) { a = sp_a(&p, T, -B + 2*B*k/800); if (k) w += cargl(a/pr); pr = a; }
        lreal miss = 0; for (unsigned k = 0; k < K; k++) miss += 2*cimag(ev[k])/(double)B*2;
        mc_count("windings", 1); if (!(fabsl(w/(2*PI_)-(lreal)K) < 0.4L+miss/6)) mc_fail("number of eigenvalues", "%.3g zeros of a in the upper half plane instead of %u", (double)(w/(2*PI_)), K);
    }
    mc_count("forward transforms", 1);
end: r_free(&p);
}
static const cplx lat[7] = {0.5*_Complex_I, 1*_Complex_I, 1.7*_Complex_I, 0.6+0.5*_Complex_I, -0.8+0.9*_Complex_I, 0.3+0.2*_Complex_I, 1.2+1*_Complex_I};
static const cplx ncs[6] = {1, -1, 2*_Complex_I, 0.03-0.02*_Complex_I, 40, -0.7+0.4*_Complex_I};
static void perm(unsigned K, unsigned p, unsigned *out) { unsigned rest[MAXE]; for (unsigned i = 0; i < K; i++) rest[i] = i; for (unsigned i = 0; i < K; i++) { unsigned m = K-i, j = p % m; p /= m; out[i] = rest[j]; for (unsigned k = j; k+1 < m; k++) rest[k] = rest[k+1]; } }
static cplx base[MAXD], cs[16*MAXD], cs2[16*MAXD], q[MAXD], sd[MAXD]; static lcplx w[MAXD];
void explore(void) {
    mc_quiet(); double cond; static const unsigned fact[6] = {1,1,2,6,24,120};
    unsigned maxK = mc_thorough ? 5 : 4;
    /* pure solitons and given seeds */
    for (unsigned set = 1; set < 128; set++) {
        cplx ev[MAXE], nc[MAXE]; unsigned K = 0, sel[MAXE]; for (unsigned i = 0; i < 7; i++) if (set >> i & 1) sel[K++ % MAXE] = i;
        if (K > maxK) continue;
        unsigned np = K == 5 ? 20 : fact[K];
        for (unsigned pi = 0; pi < np; pi++) for (unsigned v = 0; v < (K == 1 ? 6u : K == 2 ? 5u : 2u); v++) for (int type = 0; type < 2; type++) {
            unsigned pm[MAXE]; perm(K, K == 5 ? pi*7+1 : pi, pm);
            cplx e0[MAXE], n0[MAXE];
            for (unsigned i = 0; i < K; i++) { e0[i] = lat[sel[i]]; n0[i] = ncs[(v + i*(v+1)) % 6]; }
            for (unsigned i = 0; i < K; i++) { ev[i] = e0[pm[i]]; nc[i] = n0[pm[i]]; }
            int ty = type ? RES : NC;
            for (int ti = 0; ti < 6; ti++) for (unsigned D = 2; D <= (ti >= 4 ? 256u : 16u); D *= ti >= 4 ? 128 : 2) {
                if (D == 256 && (pi || v) && !mc_thorough) continue;
                if (D == 8 && !mc_thorough) continue;
                if (mc_begin("solitons set=%u order=%u constants=%u %s T=[%g,%g] D=%u", set, pi, v, type ? "residues" : "b", Ts[ti][0], Ts[ti][1], D)) {
                    for (unsigned i = 0; i < D; i++) q[i] = NAN;
                    int rc = call(K, ev, nc, ty, MDEF, D, Ts[ti], q); if (rc) { mc_fail("status", "returned %d", rc); continue; }
                    if (!expected(K, ev, nc, ty, 0, D, NULL, Ts[ti], w, &cond)) { mc_count("no reference", 1); continue; }
                    if (compare("solitons", D, q, w, cond) && D == 256 && pi == 0 && v == 0) {
                        double mi = 9; for (unsigned i = 0; i < K; i++) mi = fmin(mi, cimag(ev[i]));
                        if (mi > 0.4) forward(K, ev, nc, ty, D, Ts[ti], q, 1);
                    }
                }
            }
            if (pi < 6 || mc_thorough) for (int s = 0; s < 6; s++) for (int ti = 0; ti < 6; ti++) {
                unsigned Dl[4] = {2, 4, 16, 64}, D = Dl[(s + ti + pi) % (ti >= 4 ? 4 : 3)]; if (ti >= 4) D = 64 + 64*(unsigned)((s+ti)&1);
                if (!mc_thorough && (s+ti+(int)pi+(int)v) % 2) continue;
                if (!mc_begin("seed %d set=%u order=%u constants=%u %s T=[%g,%g] D=%u", s, set, pi, v, type ? "residues" : "b", Ts[ti][0], Ts[ti][1], D)) continue;
                for (unsigned i = 0; i < D; i++) { double t = 2.0*i/(D-1)-1; base[i] = s == 0 ? 0 : s == 1 ? (i*7+3)%5 < 3 ? 1 : -1 : s == 2 ? 0.5*_Complex_I : s == 3 ? exp(-9*t*t)*0.4*cexp(_Complex_I*t) : s == 4 ? (i == D/2)*1.7 : ((i*5+1)%7-3)/8.0 + _Complex_I*((i*3+2)%5-2)/9.0; }
                memcpy(q, base, D*sizeof *q);
                int rc = call(K, ev, nc, ty, MSEED, D, Ts[ti], q); if (rc) { mc_fail("status", "returned %d", rc); continue; }
                if (!expected(K, ev, nc, ty, 0, D, base, Ts[ti], w, &cond)) { mc_count("no reference", 1); continue; }
                compare("seed", D, q, w, cond);
            }
        }
    }
    /* with a continuous spectrum */
    for (unsigned set = 1; set < 128; set++) {
        cplx ev[MAXE], nc[MAXE]; unsigned K = 0, sel[MAXE]; for (unsigned i = 0; i < 7; i++) if (set >> i & 1) sel[K++ % MAXE] = i;
        if (K > 3) continue;
        for (unsigned pi = 0; pi < fact[K]; pi++) for (int type = 0; type < 2; type++) for (int rep = 0; rep < 4; rep++) for (int ti = 0; ti < 6; ti++) for (int sh = 0; sh < 3; sh++) {
            unsigned D = ti >= 4 ? 128 : 4u << ((set+ti) % 3), M = rep == 2 ? D : D*(1 + 3*((set+pi) & 1)), v = set+pi; if (rep == 2 && Ts[ti][0] != -Ts[ti][1]) continue;
            if (!mc_thorough && (pi + type + rep + ti + sh) % 3) continue;
            if (rep == 3 && M == D) M = 2*D;
            unsigned pm[MAXE]; perm(K, pi, pm);
            for (unsigned i = 0; i < K; i++) { ev[i] = lat[sel[pm[i]]]; nc[i] = ncs[(v + pm[i]) % 6]; }
            int ty = type ? RES : NC;
            static const char *rn[4] = {"rho", "b(xi)", "B(tau)", "rho, polynomial"};
            if (!mc_begin("%s shape %d and set=%u order=%u %s T=[%g,%g] D=%u M=%u", rn[rep], sh, set, pi, type ? "residues" : "b", Ts[ti][0], Ts[ti][1], D, M)) continue;
            fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discspec_type = ty; o.contspec_type = rep == 1 ? fnft_nsev_inverse_cstype_B_OF_XI : rep == 2 ? fnft_nsev_inverse_cstype_B_OF_TAU : fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT;
            if (rep == 3) o.contspec_inversion_method = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF;
            if ((set+pi) & 2) o.discretization = fnft_nse_discretization_2SPLIT2_MODAL;
            double XI[2]; fnft_nsev_inverse_XI(D, Ts[ti], M, XI, o.discretization);
            double lt = Ts[ti][1]-Ts[ti][0], mid = (Ts[ti][1]+Ts[ti][0])/2;
            for (unsigned k = 0; k < M; k++) { double xi = XI[0] + k*(XI[1]-XI[0])/(M-1), t = Ts[ti][0] + k*lt/(D-1);
                cplx ph = cexp(-2*_Complex_I*xi*mid);
                cs[k] = rep == 2 ? (sh == 0 ? 0 : 0.3/lt*exp(-30*t*t/lt/lt)*cexp(_Complex_I*sh*t)) : sh == 0 ? 0 : sh == 1 ? 0.4*exp(-xi*xi*lt*lt/40)*ph : 0.5*exp(-pow(xi*lt/8-0.3,2))*ph*cexp(_Complex_I*0.4*xi*lt/4);
                cs2[k] = cs[k]; if (rep == 0 || rep == 3) { lcplx f = 1; for (unsigned i = 0; i < K; i++) f *= (xi-(lcplx)ev[i])/(xi-conjl((lcplx)ev[i])); cs2[k] *= f; }
            }
            int rc = fnft_nsev_inverse(M, cs2, rep == 2 ? NULL : XI, 0, NULL, NULL, D, sd, Ts[ti], 1, &o); if (rc) { mc_fail("status", "seed: returned %d", rc); continue; }
            rc = fnft_nsev_inverse(M, cs, rep == 2 ? NULL : XI, K, ev, nc, D, q, Ts[ti], 1, &o); if (rc) { mc_fail("status", "returned %d", rc); continue; }
            if (!expected(K, ev, nc, ty, 1, D, sd, Ts[ti], w, &cond)) { mc_count("no reference", 1); continue; }
            double mi = 9; for (unsigned i = 0; i < K; i++) mi = fmin(mi, cimag(ev[i]));
            if (compare("continuous spectrum", D, q, w, cond) && ti >= 4 && mi > 0.4 && rep < 2 && (mc_thorough || pi == 0)) forward(K, ev, nc, ty, D, Ts[ti], q, 0);
        }
    }
    /* lists that must be refused */
    for (unsigned K = 1; K <= 4; K++) for (unsigned code = 0; code < (unsigned)pow(6, K); code++) {
        static const cplx alp[6] = {1*_Complex_I, 0.5+1*_Complex_I, 2*_Complex_I, 0.5*_Complex_I, -0.5, 1-1*_Complex_I}; cplx ev[4], nc[4]; unsigned x = code; int bad = 0;
        for (unsigned i = 0; i < K; i++) { ev[i] = alp[x%6]; nc[i] = 1; x /= 6; if (cimag(ev[i]) <= 0) bad = 1; for (unsigned j = 0; j < i; j++) if (ev[i] == ev[j]) bad = 1; }
        for (int m = 0; m < 3; m++) {
            if (!mc_begin("lists K=%u code=%u method=%d", K, code, m)) continue;
            for (int i = 0; i < 8; i++) q[i] = 0.1*i;
            int rc = call(K, ev, nc, m == 2 ? RES : NC, m == 1 ? MSEED : MDEF, 8, Ts[0], q);
            mc_outcome(rc*2+bad); mc_count(bad ? "lists to be refused" : "valid lists", 1);
            if (bad != (rc != 0)) mc_fail("refused lists", "returned %d for %s list", rc, bad ? "an invalid" : "a valid");
        }
    }
}
