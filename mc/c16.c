/* Symmetries: the library is run on a signal and on its transform, and the two
 * results are compared with each other. Which discretizations share a symmetry
 * of the continuous problem exactly is decided with the long double reference. */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one signal x discretization x symmetry x sign; both transforms are executed on the library and compared through the law of the symmetry; the long double reference decides beforehand whether the discretization has the symmetry exactly; distinct = hash of the results";
#define NUM(z) creal(z), cimag(z)
enum { PHASE, SHIFT, SCALE, CONJ, REVERSE, EXCHANGE, ROTATE, REDUCE, NOP };
static const char *opn[] = {"phase", "shift", "scale", "conjugate", "reverse", "exchange", "rotate", "reduce"};
typedef struct { unsigned D; cplx *q, *q2; double T[2], XI[2]; } Sig;
typedef struct { int rev, ca, cb; double ph, s, c, sg; } Law;      /* XI' = c XI (reversed if rev) */
static void transform(char t, int op, double v, const Sig *a, Sig *b, Law *l) {
    *l = (Law){0, 0, 0, 0, 0, 1, 1}; b->D = a->D; memcpy(b->T, a->T, sizeof a->T); memcpy(b->XI, a->XI, sizeof a->XI); unsigned D = a->D;
    for (unsigned i = 0; i < D; i++) {
        cplx q = a->q[i], p = t == 'M' ? a->q2[i] : 0;
        switch (op) {
        case PHASE: q *= cexp(I*v); p *= cexp(I*v); break;
        case SCALE: q *= t == 'K' ? v*v : v; p *= v; break;
        case CONJ: q = conj(q); p = conj(p); break;
        case REVERSE: q = a->q[D-1-i]; p = t == 'M' ? a->q2[D-1-i] : 0; break;
        case EXCHANGE: { cplx x = q; q = p; p = x; break; }
        case ROTATE: { cplx x = q; q = cos(v)*x + I*sin(v)*p; p = I*sin(v)*x + cos(v)*p; break; }
        default: break;
        }
        b->q[i] = q; if (t == 'M') b->q2[i] = p;
    }
    if (op == PHASE) l->ph = v;
    if (op == SHIFT) { b->T[0] += v; b->T[1] += v; l->s = v; }
    if (op == SCALE) { b->T[0] /= v; b->T[1] /= v; b->XI[0] *= v; b->XI[1] *= v; l->c = v; }
    if (op == CONJ) { l->rev = l->ca = l->cb = 1; b->XI[0] = -a->XI[1]; b->XI[1] = -a->XI[0]; }
    if (op == REVERSE) { l->rev = l->ca = 1; if (t == 'K') l->sg = -1; b->T[0] = -a->T[1]; b->T[1] = -a->T[0]; b->XI[0] = -a->XI[1]; b->XI[1] = -a->XI[0]; }
}
/* the coefficients of the transformed signal from those of the original at the corresponding frequency */
static void law(char t, int op, double v, const Law *l, lcplx xi, const lcplx *o, lcplx *w) {
    unsigned na = t == 'M' ? 3 : 2;
    w[0] = l->ca ? conjl(o[0]) : o[0];
    for (unsigned k = 1; k < na; k++) w[k] = (l->cb ? conjl(o[k]) : o[k])*l->sg*cexpl(-LI*l->ph - 2*LI*xi*l->s);
    if (op == EXCHANGE) { lcplx x = w[1]; w[1] = w[2]; w[2] = x; }
    if (op == ROTATE) { lcplx x = w[1], y = w[2]; w[1] = cosl(v)*x - LI*sinl(v)*y; w[2] = -LI*sinl(v)*x + cosl(v)*y; }
}
/* does the discretization have this symmetry? 2: yes, 1: for a only, 0: no */
static int has(char t, int d, int op, int kappa, unsigned D, int refined) {
    static signed char memo[3][N_KDV][NOP][2][2][2]; signed char *m = &memo[t == 'N' ? 0 : t == 'K' ? 1 : 2][d][op][kappa > 0][D%2][refined];
    if (*m) return *m - 1;
    cplx q[2][9], q2[2][9]; Sig a = {7 + (D%2 == 0), q[0], q2[0], {-0.7, 1.1}, {0.4, 1.9}}, b = {0, q[1], q2[1]}; Law l;
    gen_shape(a.D, 2, a.T, a.q); gen_shape(a.D, 1, a.T, a.q2); if (t == 'K') for (unsigned i = 0; i < a.D; i++) a.q[i] = creal(a.q[i]);
    double v = op == SCALE ? 1.7 : 0.6, ea = 0, eb = 0; transform(t, op, v, &a, &b, &l);
    char ty; rscheme s = sp_scheme(t, d, &ty); if (refined) s = sp_refine(s);
    Prob p = {.type=ty, .kappa=kappa, .s=s, .D=a.D, .eps=((lreal)a.T[1]-a.T[0])/(a.D-1), .q1=a.q, .q2=a.q2}, r = {.type=ty, .kappa=kappa, .s=s, .D=a.D, .eps=((lreal)b.T[1]-b.T[0])/(a.D-1), .q1=b.q, .q2=b.q2};
    r_prepare(&p); r_prepare(&r);
    for (int i = 0; i < 4; i++) {
        lcplx xi = (0.4L + 0.5L*i)*(i%2 ? 1 : -1), x2 = (l.rev ? -xi : xi)*l.c, o[3], w[3], g[3];
        r_contspec(&p, a.T, xi, o); r_contspec(&r, b.T, x2, g); law(t, op, v, &l, x2, o, w);
        ea = fmax(ea, cabs((cplx)(g[0]-w[0]))); for (int k = 1; k < (t == 'M' ? 3 : 2); k++) eb = fmax(eb, cabs((cplx)(g[k]-w[k])));
    }
    r_free(&p); r_free(&r);
    *m = 1 + (ea > 1e-12 ? 0 : eb > 1e-12 ? 1 : 2);
    return *m - 1;
}
static int cs(char t, int d, int kappa, const Sig *s, unsigned M, int rich, cplx *out) {
    for (unsigned i = 0; i < 5*M; i++) out[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = fnft_nsev_cstype_AB; o.richardson_extrapolation_flag = rich;
        return fnft_nsev(s->D, s->q, s->T, M, out, s->XI, NULL, NULL, NULL, kappa, &o); }
    if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = fnft_kdvv_cstype_AB; o.richardson_extrapolation_flag = rich;
        return fnft_kdvv(s->D, s->q, s->T, M, out, s->XI, NULL, NULL, NULL, &o); }
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = fnft_manakovv_cstype_AB; o.richardson_extrapolation_flag = rich;
    return fnft_manakovv(s->D, s->q, s->q2, s->T, M, out, s->XI, NULL, NULL, NULL, kappa, &o);
}
static void cont(char t, int d, int op, double v, int kappa, Sig *a, Sig *b, unsigned M) {
    cplx o[5*16], g[5*16]; unsigned na = t == 'M' ? 3 : 2; Law l; char ty; rscheme s = sp_scheme(t, d, &ty); double eps = (a->T[1]-a->T[0])/(a->D-1);
    int h = has(t, d, op, kappa, a->D, 0); if (!h) { mc_count("discretization without this symmetry", 1); return; }
    if (s == R_MODAL && (kappa == -1 || t == 'K')) for (unsigned i = 0; i < a->D; i++) if (cabs(a->q[i])*eps > 0.9) return;
    transform(t, op, v, a, b, &l);
    for (int rich = 0; rich < 2; rich++) {
        if (rich && (op == REVERSE || a->D < 8 || (op == CONJ && sp_resamples(s)))) continue;     /* the subsampled signal is not the reversed one; even lengths are not interpolated symmetrically */
        int r0 = cs(t, d, kappa, a, M, rich, o), r1 = cs(t, d, kappa, b, M, rich, g);
        if (r0 || r1) { if (a->D > 2) mc_fail("status", "returned %d and %d", r0, r1); return; }
        mc_outcome(mc_hash_d((double*)g, 2*na*M, op*2 + rich)); mc_count("spectra compared", 1);
        for (unsigned i = 0; i < M; i++) {
            double xi = b->XI[0] + i*(b->XI[1]-b->XI[0])/(M-1), mag = 0; unsigned j = l.rev ? M-1-i : i; lcplx x[3], w[3];
            for (unsigned k = 0; k < na; k++) { x[k] = o[k*M+j]; mag += cabs(o[k*M+j]); }
            law(t, op, v, &l, xi, x, w);
            double xo = fabs(xi)/l.c, tol = 5e-12*(a->D+4)*fmax(1, mag)*(t == 'K' ? (1+2*xo)*(1+0.5/xo) : 1)*(1 + xo*(fabs(a->T[0]) + fabs(a->T[1]) + fabs(l.s)))*(rich ? 3 : 1)*(sp_highdeg(s) ? 30 : 1);
            for (unsigned k = 0; k < (h == 2 ? na : 1); k++) {
                double e = cabs((cplx)(g[k*M+i]-w[k])); mc_max("contspec", e/tol);
                if (!(e <= tol)) { mc_fail(opn[op], "coefficient %u i=%u extrapolation %d: got %.12g%+.12gi, original %.12g%+.12gi, expected %.12g%+.12gi", k, i, rich, NUM(g[k*M+i]), NUM(o[k*M+j]), NUM((cplx)w[k])); return; }
            }
        }
    }
}
/* a Manakov signal with one component only is an NSE signal (and the other way round) */
static void reduce(int d, int kappa, Sig *a, unsigned M) {
    rscheme s = r_from_manakov(d); int dn = -1; for (int i = 0; i < N_NSE; i++) if (r_from_nse(i) == s) dn = i;
    if (s == R_MCF42) return;                               /* another interval per sample */
    cplx o[5*16], g[5*16]; for (unsigned i = 0; i < a->D; i++) a->q2[i] = 0;
    int r0 = cs('M', d, kappa, a, M, 0, o); if (r0) { if (a->D > 2) mc_fail("status", "returned %d", r0); return; }
    for (unsigned i = 0; i < M; i++) if (cabs(o[2*M+i]) > 1e-13*(a->D+4)) { mc_fail("reduce", "second component %g%+gi of a signal without second component", NUM(o[2*M+i])); return; }
    if (s != R_BO) { mc_count("only the vanishing component compared", 1); return; }   /* the splittings use other exponentials of A */
    int r1 = cs('N', dn, kappa, a, M, 0, g); if (r1) { mc_fail("status", "NSE returned %d", r1); return; }
    mc_outcome(mc_hash_d((double*)o, 6*M, 77));
    for (unsigned i = 0; i < 2*M; i++) { double e = cabs(o[i]-g[i]), tol = 5e-12*(a->D+4)*fmax(1, cabs(g[i%M]) + cabs(g[M+i%M])); mc_max("reduce", e/tol); if (!(e <= tol)) { mc_fail("reduce", "entry %u: Manakov %.12g%+.12gi, NSE %.12g%+.12gi", i, NUM(o[i]), NUM(g[i])); return; } }
}
/* discrete spectra */
static unsigned ds(char t, int d, int loc, const Sig *s, const cplx *guess, unsigned ng, double spacing, int rich, cplx *bs, cplx *nc, int *rc) {
    size_t K = ng ? ng : 512;
    for (unsigned i = 0; i < 512; i++) bs[i] = i < ng ? guess[i] : 0;
    for (unsigned i = 0; i < 1024; i++) nc[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.discspec_type = fnft_nsev_dstype_BOTH; o.niter = 40; o.bound_state_filtering = fnft_nsev_bsfilt_FULL; o.Dsub = s->D; o.richardson_extrapolation_flag = rich;
        *rc = fnft_nsev(s->D, s->q, s->T, 0, NULL, s->XI, &K, bs, nc, 1, &o); }
    else if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.discspec_type = fnft_kdvv_dstype_BOTH; o.grid_spacing = spacing; o.niter = 40; o.richardson_extrapolation_flag = rich;
        *rc = fnft_kdvv(s->D, s->q, s->T, 0, NULL, s->XI, &K, bs, nc, &o); }
    else { fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.Dsub = s->D; o.bound_state_filtering = fnft_manakovv_bsfilt_FULL;
        *rc = fnft_manakovv(s->D, s->q, s->q2, s->T, 0, NULL, s->XI, &K, bs, NULL, 1, &o); }
    return K;
}
static void disc(char t, int d, int loc, int op, double v, Sig *a, Sig *b, const cplx *g, unsigned ng, double re, double im) {
    static cplx b0[512], b1[512], n0[1024], n1[1024]; cplx g2[8]; int r0, r1; Law l; char ty; rscheme s = sp_scheme(t, d, &ty);
    int newton = t == 'N' ? loc == fnft_nsev_bsloc_NEWTON : t == 'K' ? loc == fnft_kdvv_bsloc_NEWTON : 0, conv = newton || t == 'K' || (t == 'N' && loc == fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE);
    int h = has(t, d, op, 1, a->D, t != 'M' && conv), hf = has(t, d, op, 1, a->D, 0);
    if (!h || !hf) { mc_count("discretization without this symmetry", 1); return; }
    transform(t, op, v, a, b, &l);
    for (unsigned i = 0; i < ng; i++) g2[i] = (l.rev ? -conj(g[i]) : g[i])*l.c;
    for (int rich = 0; rich < 2; rich++) {
        if (rich && (op == REVERSE || op == SCALE || t == 'M')) continue;   /* bound states are matched if their relative distance is below the step size, which is not invariant under scaling */
        unsigned K0 = ds(t, d, loc, a, g, ng, 0.05, rich, b0, n0, &r0), K1 = ds(t, d, loc, b, g2, ng, 0.05*l.c, rich, b1, n1, &r1);
        if (r0 != r1) { mc_fail("status", "returned %d and %d", r0, r1); return; }
        if (r0) { mc_count("refused", 1); return; }
        mc_outcome(mc_hash_d((double*)b1, 2*K1, op*2 + rich));
        double tol = conv ? 1e-8 : s == R_FTSUZ ? 1e-2 : 1e-5;
        for (int dir = 0; dir < 2; dir++) for (unsigned i = 0; i < (dir ? K1 : K0); i++) {
            cplx x = dir ? b1[i] : b0[i], y; unsigned best = 0, n = dir ? K0 : K1; const cplx *z = dir ? b0 : b1;
            y = dir ? (l.rev ? -conj(x) : x)/l.c : (l.rev ? -conj(x) : x)*l.c;          /* where it should be */
            cplx xo = dir ? x/l.c : x;
            if (fabs(creal(xo)) > re || cimag(xo) < 0.08 || cimag(xo) > im) { mc_count("bound states close to the border", 1); continue; }
            for (unsigned j = 1; j < n; j++) if (cabs(z[j]-y) < cabs(z[best]-y)) best = j;
            double e = n ? cabs(z[best]-y)/(dir ? 1 : l.c) : INFINITY; mc_max(conv ? "bound state" : "bound state, eigenvalue method", e/tol);
            if (!(e <= tol)) { mc_fail(opn[op], "extrapolation %d: %s bound state %.12g%+.12gi has no counterpart at %.12g%+.12gi, nearest %.12g%+.12gi", rich, dir ? "transformed" : "original", NUM(x), NUM(y), NUM(n ? z[best] : NAN)); return; }
            mc_count("bound states compared", 1);
            if (dir || t == 'M' || !conv || h < 2) continue;
            /* norming constants and residues; after extrapolation the bound state is not the one they belong to */
            cplx nb = n0[i], nr = n0[K0+i], lam = b0[i], ap = nb/nr, wb, wr;
            if (rich) continue;
            if (op == CONJ) { wb = conj(nb); wr = -conj(nr); }
            else if (op == REVERSE) { wb = t == 'K' ? 1/nb : 1/conj(nb); wr = t == 'K' ? wb/ap : -wb/conj(ap); }
            else { cplx f = cexp(-I*l.ph - 2*I*lam*l.s); wb = nb*f; wr = nr*f*l.c; }
            double tn = 1e-5*(1 + cabs(lam)*(fabs(a->T[0]) + fabs(a->T[1]))), eb = cabs(n1[best]-wb)/cabs(wb), er = cabs(n1[K1+best]-wr)/cabs(wr);
            mc_max("norming constant", eb/tn); mc_max("residue", er/tn); mc_count("norming constants compared", 1);
            if (!(eb <= tn)) { mc_fail(opn[op], "norming constant at %.12g%+.12gi: got %.12g%+.12gi, original %.12g%+.12gi, expected %.12g%+.12gi", NUM(lam), NUM(n1[best]), NUM(nb), NUM(wb)); return; }
            if (!(er <= tn)) { mc_fail(opn[op], "residue at %.12g%+.12gi: got %.12g%+.12gi, original %.12g%+.12gi, expected %.12g%+.12gi", NUM(lam), NUM(n1[K1+best]), NUM(nr), NUM(wr)); return; }
        }
    }
}
/* periodic transform: phase, cyclic shift, scaling, conjugation */
static void periodic(int d, int loc, int kappa, unsigned D, cplx *q, double L, int op) {
    static cplx ms[2][600], as[2][600], q2[256]; size_t K[2], M[2]; int rc[2]; double c = op == SCALE ? 1.7 : 1;
    if (sp_resamples(r_from_nse(d)) && op == CONJ) return;
    for (unsigned i = 0; i < D; i++) q2[i] = op == PHASE ? q[i]*cexp(0.7*I) : op == SHIFT ? q[(i+D/4)%D] : op == SCALE ? q[i]*c : conj(q[i]);
    for (int w = 0; w < 2; w++) {
        double T[2] = {0, w ? L/c : L};
        fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.discretization = d; o.localization = loc; o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = D; o.max_evals = 60; o.points_per_spine = 1;
        double k = w ? c : 1, bb[4] = {-1.5*k, 1.5*k, -1.5*k, 1.5*k}; memcpy(o.bounding_box, bb, sizeof bb);
        K[w] = M[w] = 600; rc[w] = fnft_nsep(D, w ? q2 : q, T, 0.0, &K[w], ms[w], &M[w], as[w], NULL, kappa, &o);
    }
    if (rc[0] != rc[1]) { mc_fail("status", "returned %d and %d", rc[0], rc[1]); return; }
    if (rc[0]) { mc_count("refused", 1); return; }
    mc_outcome(mc_hash_d((double*)ms[1], 2*K[1], op));
    for (int what = 0; what < (op == SHIFT || op == CONJ ? 1 : 2); what++) for (int dir = 0; dir < 2; dir++) {
        const cplx *u = what ? as[dir] : ms[dir], *z = what ? as[!dir] : ms[!dir]; unsigned nu = what ? M[dir] : K[dir], nz = what ? M[!dir] : K[!dir];
        for (unsigned i = 0; i < nu; i++) {
            cplx x = u[i]/(dir ? c : 1), y = op == CONJ ? -conj(x) : x; double e = INFINITY;
            if (fabs(fabs(creal(x))-1.5) < 1e-2 || fabs(fabs(cimag(x))-1.5) < 1e-2) continue;
            for (unsigned j = 0; j < nz; j++) e = fmin(e, cabs(z[j]/(dir ? 1 : c) - y));
            mc_max("periodic", e); mc_count("periodic points compared", 1);
            if (!(e < 2e-4)) { mc_fail(opn[op], "%s spectrum: %.12g%+.12gi of the %s signal has no counterpart (distance %g)", what ? "auxiliary" : "main", NUM(x), dir ? "transformed" : "original", e); return; }
        }
    }
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}}, XIs[3][2] = {{-1.7,1.3},{0.2,4},{-6,-0.5}};
    static cplx q[4][2100]; Sig a = {0, q[0], q[1]}, b = {0, q[2], q[3]};
    for (int ti = 0; ti < 3; ti++) {
        char t = "NKM"[ti]; int nd = ti == 0 ? N_NSE : ti == 1 ? N_KDV : N_MAN;
        for (int d = 0; d < nd; d++) for (int op = 0; op < NOP; op++) {
            char ty; rscheme s = sp_scheme(t, d, &ty);
            if (t != 'M' && op >= EXCHANGE) continue;
            if (t == 'K' && (op == PHASE || op == CONJ)) continue;
            if (t == 'M' && s == R_FT4B) continue;
            for (int kappa = -1; kappa <= 1; kappa += 2) {
                if (t == 'K' && kappa < 0) continue;
                for (unsigned D = 2; D <= 4; D++) for (uint64_t c = 0; c < gen_count(D, 4); c++) {
                    if (!mc_thorough && D == 4 && (c + d)%4) continue;
                    if (!mc_begin("word: %c %s %s D=%u code=%llu kappa=%d", t, sp_name(t, d), opn[op], D, (unsigned long long)c, kappa)) continue;
                    a.D = D; if (t == 'K') gen_signal_real(D, 4, c, a.q); else gen_signal(D, 4, c, a.q); gen_signal(D, 4, (c*7+1) % gen_count(D, 4), a.q2);
                    memcpy(a.T, Ts[(c+d)%3], sizeof a.T); memcpy(a.XI, XIs[(c+D)%3], sizeof a.XI);
                    if (op == REDUCE) reduce(d, kappa, &a, 5); else cont(t, d, op, op == SCALE ? (c%2 ? 2 : 0.3) : op == SHIFT ? (c%2 ? -3.7 : 12) : 0.6 + c%5, kappa, &a, &b, 5);
                }
                for (unsigned D = 5; D <= (mc_thorough ? 1030u : 260u); D += D < 20 ? 1 : D < 64 ? 7 : D < 300 ? 61 : 241) for (int sh = 0; sh < 4; sh++) {
                    if (sp_highdeg(s) && D > 16) continue;
                    if (!mc_begin("shape: %c %s %s D=%u shape=%d kappa=%d", t, sp_name(t, d), opn[op], D, sh, kappa)) continue;
                    int v = (D+sh)%3; a.D = D; gen_shape(D, sh, Ts[v], a.q); gen_shape(D, (sh+1)%4, Ts[v], a.q2); if (t == 'K') for (unsigned i = 0; i < D; i++) a.q[i] = creal(a.q[i]);
                    memcpy(a.T, Ts[v], sizeof a.T); memcpy(a.XI, XIs[(v+sh)%3], sizeof a.XI); if (D > 100 && t == 'K') memcpy(a.XI, XIs[1], sizeof a.XI);
                    if (op == REDUCE) reduce(d, kappa, &a, 5); else cont(t, d, op, op == SCALE ? (D%2 ? 2 : 0.3) : op == SHIFT ? (D%2 ? -3.7 : 12) : 0.6 + D%5, kappa, &a, &b, 5 + D%3);
                }
            }
            if (op == REDUCE) continue;
            for (int loc = 0; loc < 3; loc++) for (unsigned D = 17; D <= (mc_thorough ? 128u : 64u); D += 15) for (int am = 0; am < 3; am++) for (int sh = 0; sh < 2; sh++) {
                int newton = t == 'N' ? loc == fnft_nsev_bsloc_NEWTON : t == 'K' ? loc == fnft_kdvv_bsloc_NEWTON : 0;
                if (t == 'K' && (loc == 2 || s == R_CF53 || s == R_CF64 || (sp_resamples(s) && D%2 == 0))) continue;
                if (t == 'K' && r_is_fast(s) && sp_resamples(s) && D%2 == 0) continue;
                if (t == 'M' && s == R_FTSUZ && am == 2) continue;      /* degree 14: ill-conditioned roots */
                if (t == 'M' && (loc == fnft_manakovv_bsloc_NEWTON || !r_is_fast(s))) continue;
                if (t != 'K' && !newton && (!r_is_fast(s) || sp_highdeg(s))) continue;
                if (t != 'K' && !newton && D > (s == R_6A || s == R_8A || t == 'M' ? 20 : 35)) continue;
                if (t == 'N' && !newton && op == REVERSE && loc != fnft_nsev_bsloc_FAST_EIGENVALUE) continue;
                if (!mc_begin("discrete: %c %s %s loc=%d D=%u amplitude=%d shape=%d", t, sp_name(t, d), opn[op], loc, D, am, sh)) continue;
                double A[] = {0.9, 1.9, 2.8}; a.D = D; a.T[0] = sh ? -5 : -4; a.T[1] = 4; a.XI[0] = -1; a.XI[1] = 1; cplx g[6]; unsigned ng = 0;
                for (unsigned i = 0; i < D; i++) { double x = a.T[0] + (a.T[1]-a.T[0])*i/(D-1) - 0.2; a.q[i] = t == 'K' ? A[am]*(A[am]+1)/(cosh(x)*cosh(x)) : A[am]/cosh(x)*cexp(I*(0.3*sh*x + 0.4)); if (t == 'M') { a.q2[i] = a.q[i]*0.8*cexp(0.2*I); a.q[i] *= 0.6; } }
                double E = A[am] - (t == 'K' ? 0 : 0.5);
                if (newton) for (int i = 0; i < 3 && E-i > 0.15; i++) g[ng++] = I*(E-i)*0.98 - (t == 'K' ? 0 : 0.15*sh);
                double eps = (a.T[1]-a.T[0])/(D-1);
                disc(t, d, loc, op, op == SCALE ? (am%2 ? 2 : 0.6) : op == SHIFT ? (am%2 ? -1.7 : 2.5) : 1.1, &a, &b, g, ng, fmin(1.2, 0.5/eps), 1.2*E);
            }
        }
    }
    for (int d = 0; d < N_NSE; d++) for (int loc = 0; loc < 4; loc++) for (int kappa = -1; kappa <= 1; kappa += 2) for (int op = 0; op < 4; op++) for (unsigned D = 16; D <= 32; D *= 2) for (int sh = 0; sh < 2; sh++) {
        rscheme s = r_from_nse(d); if (!r_is_fast(s) || sp_highdeg(s) || s == R_8A) continue;
        if (loc == fnft_nsep_loc_NEWTON) continue;
        if (!mc_begin("periodic: %s %s loc=%d kappa=%d D=%u shape=%d", nse_name(d), opn[op], loc, kappa, D, sh)) continue;
        double L = 4; for (unsigned i = 0; i < D; i++) { double x = 2*acos(-1)*i/D; a.q[i] = sh ? 0.9 + 0.3*cexp(I*x) + 0.1*sin(x) : 0.4 + 0.6*cexp(I*x)*sin(x+0.3); }
        periodic(d, loc, kappa, D, a.q, L, op);
    }
}
