/* Richardson extrapolation against the combination of two transforms */
#include "ref.h"
#include "gen.h"
#define LI ((lcplx)_Complex_I)
#include "spec.h"
const char *mc_rule = "one case = one signal x discretization x sign x interval x grid; the extrapolated continuous spectrum in all three layouts and both normalization settings is compared with the combination of the long double references of the full and of the subsampled signal; extrapolated discrete spectra are compared with the combination of the library's own results for the full signal and the zeros (and derivatives) of the reference of the subsampled signal; distinct = hash of the results";
#define NUM(z) creal(z), cimag(z)
static int run(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI, int nf, int cst, cplx *out) {
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = 1;
        return fnft_nsev(D, q, T, M, out, XI, NULL, NULL, NULL, kappa, &o); }
    if (t == 'K') { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = 1;
        return fnft_kdvv(D, q, T, M, out, XI, NULL, NULL, NULL, &o); }
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = cst; o.normalization_flag = nf; o.richardson_extrapolation_flag = 1;
    return fnft_manakovv(D, q, q2, T, M, out, XI, NULL, NULL, NULL, kappa, &o);
}
/* about half of the samples, evenly spaced, starting with the first one */
static void half(unsigned D, unsigned want, const double *T, unsigned *ns, unsigned *Ds, double *Ts) {
    if (want < 2) want = 2;
    *ns = lround((double)D/want); *Ds = lround((double)D/ *ns);
    double eps = (T[1]-T[0])/(D-1); Ts[0] = T[0]; Ts[1] = T[0] + eps * *ns * (*Ds-1);
}
static void cont(char t, int d, int kappa, unsigned D, cplx *q, cplx *q2, const double *T, unsigned M, const double *XI) {
    char ty; rscheme s = sp_scheme(t, d, &ty); lreal eps = ((lreal)T[1]-T[0])/(D-1); unsigned na = t == 'M' ? 3 : 2, nr = na-1;
    if (s == R_MODAL && kappa == -1 && t == 'N') for (unsigned i = 0; i < D; i++) if (cabs(q[i])*eps > 0.3) return;
    Prob f = {.type=ty, .kappa=kappa, .s=s, .D=D, .eps=eps, .q1=q, .q2=q2}; r_prepare(&f);
    unsigned nalt = D == 5 ? 2 : 1, bad = 0; char msg[200] = "", cl[40] = "";
    cplx out[3][2][5*16]; static const unsigned mult[2][3] = {{1,2,3},{2,3,5}};
    for (int c = 0; c < 3; c++) for (int nf = 0; nf < 2; nf++) {
        for (unsigned i = 0; i < 5*M; i++) out[c][nf][i] = NAN;
        int rc = run(t, d, kappa, D, q, q2, T, M, XI, nf, c, out[c][nf]);
        if (rc) { if (D > 5 || !sp_resamples(s)) mc_fail("status", "returned %d", rc); else mc_count("refused: too short to interpolate", 1); r_free(&f); return; }
        mc_outcome(mc_hash_d((double*)out[c][nf], 2*M*mult[t == 'M'][c], c));
    }
    for (unsigned alt = 0; alt < nalt; alt++) {
        unsigned ns, Ds; double Ts[2]; half(D, D/2 + alt, T, &ns, &Ds, Ts); bad = 0;
        lreal es = eps*ns;
        Prob g = {.type=ty, .kappa=kappa, .s=s, .D=Ds, .Dfull=D, .nskip=ns, .eps=es, .q1=q, .q2=q2}; r_prepare(&g);
        lreal num = powl(ns, sp_order(t, s)), den = num - 1;
        for (unsigned i = 0; i < M && !bad; i++) {
            lreal xi = XI[0] + i*((lreal)XI[1]-XI[0])/(M-1), lim = 0.9L*acosl(-1)/(2*es);
            lcplx af[3], as[3]; double gf, gs; r_contspec(&f, T, xi, af); r_contspec(&g, Ts, xi, as); r_total_norm(&f, xi, &gf); r_total_norm(&g, xi, &gs);
            if (t == 'K') { double k = (1 + 2*fabsl(xi))*(1 + 0.5/fabsl(xi)); gf *= k; gs *= k; }
            int in = fabsl(xi) < lim; if (fabsl(fabsl(xi) - lim) < 1e-9L*lim) { mc_count("at the edge of the band", 1); continue; }
            mc_count(in ? "points inside the band" : "points outside the band", 1);
            double gr = fmax(gf, gs), w = 2e-11*(D+4)*(in ? (num+1)/den : 1);
            for (int c = 0; c < 3 && !bad; c++) for (int nf = 0; nf < 2 && !bad; nf++) {
                const cplx *o = out[c][nf];
                if (c != 1) for (unsigned k = 0; k < nr; k++) {
                    lcplx rf = af[1+k]/af[0], rs = as[1+k]/as[0], want = in ? (num*rf - rs)/den : rf;
                    double tol = w*gr*fmax((1+cabsl(rf))/cabsl(af[0]), (1+cabsl(rs))/cabsl(as[0])), e = cabs((cplx)(o[k*M+i]-want));
                    if (tol < 1e-3) { mc_max("rho", e/tol); if (!(e <= tol)) { bad = 1; strcpy(cl, "reflection coefficient"); snprintf(msg, sizeof msg, "layout %d normalization %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", c, nf, i, NUM(o[k*M+i]), NUM((cplx)want)); } }
                }
                if (c != 0) for (unsigned k = 0; k < na; k++) {
                    lcplx want = in ? (num*af[k] - as[k])/den : af[k]; cplx got = o[(c == 2 ? nr*M : 0) + k*M+i];
                    double tol = w*fmax(gr, cabsl(af[k]) + cabsl(as[k])), e = cabs((cplx)(got-want)); mc_max("ab", e/tol);
                    if (!(e <= tol)) { bad = 1; snprintf(cl, sizeof cl, "coefficient %c", k ? 'b' : 'a'); snprintf(msg, sizeof msg, "layout %d normalization %d i=%u: got %.12g%+.12gi expected %.12g%+.12gi", c, nf, i, NUM(got), NUM((cplx)want)); }
                }
            }
        }
        r_free(&g);
        if (!bad) break;
    }
    if (bad) mc_fail(cl, "%s", msg);
    r_free(&f);
}
/* discrete spectra */
static unsigned ds(char t, int d, int loc, int dst, unsigned D, cplx *q, const double *T, const cplx *guess, unsigned ng, int rich, int filt, cplx *bs, cplx *nc, int *rc) {
    size_t K = ng ? ng : 64; double XI[2] = {-1, 1};
    for (unsigned i = 0; i < 64; i++) bs[i] = i < ng ? guess[i] : 0;
    for (unsigned i = 0; i < 128; i++) nc[i] = NAN;
    if (t == 'N') { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.discspec_type = dst; o.richardson_extrapolation_flag = rich; o.niter = 30; o.Dsub = D; o.bound_state_filtering = filt;
        *rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, nc, 1, &o); }
    else { fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.discspec_type = dst; o.richardson_extrapolation_flag = rich; o.grid_spacing = 0.05; o.niter = 30;
        *rc = fnft_kdvv(D, q, T, 0, NULL, XI, &K, bs, nc, &o); }
    return K;
}
static void disc(char t, int d, int loc, unsigned D, cplx *q, const double *T, const cplx *guess, unsigned ng, int filt) {
    cplx b0[64], n0[128], b1[64], n1[128]; int r0, r1; char ty; rscheme s = sp_scheme(t, d, &ty), sr = sp_refine(s);
    unsigned K0 = ds(t, d, loc, 2, D, q, T, guess, ng, 0, filt, b0, n0, &r0), K1 = ds(t, d, loc, 2, D, q, T, guess, ng, 1, filt, b1, n1, &r1);
    if (r0 != r1) { mc_fail("status", "returns %d without and %d with extrapolation", r0, r1); return; }
    if (r0) { mc_count("refused", 1); return; }
    if (K0 != K1) { mc_fail("number of bound states", "%u without, %u with extrapolation", K0, K1); return; }
    mc_outcome(mc_hash_d((double*)b1, 2*K1, K1));
    if (!K0) return;
    unsigned ns, Ds; double Ts[2], eps = (T[1]-T[0])/(D-1); half(D, D/2, T, &ns, &Ds, Ts);
    lreal num = powl(ns, sp_order(t, s)), den = num-1;
    Prob g = {.type=ty, .kappa=1, .s=sr, .D=Ds, .Dfull=D, .nskip=ns, .eps=((lreal)T[1]-T[0])/(D-1)*ns, .q1=q}; r_prepare(&g);
    lcplx sub[64]; int unclear[64];
    /* iterates that leave the region where bound states can be are given up by the library; stay away from its border */
    double imb = 0, reb = 0.8*acos(-1)/(2*eps*ns); if (t == 'N') for (unsigned i = 0; i < D; i += ns) imb += 0.9*1.5*0.25*cabs(q[i])*cabs(q[i])*eps*ns; else { for (unsigned i = 0; i < D; i += ns) imb = fmax(imb, creal(q[i])); imb = 0.9*sqrt(imb); }
    for (unsigned i = 0; i < K0; i++) {
        double ext[4]; sub[i] = b0[i]; int it = sp_newton_path(&g, Ts, &sub[i], 25, ext);
        /* far away or slow: the library's iteration may end elsewhere */
        unclear[i] = !it || it > 12 || cabsl(sub[i]-b0[i]) > 0.5L*cabs(b0[i]) || cimagl(sub[i]) < 1e-3L
            || ext[2] < 1e-3 || ext[3] > imb || (t == 'N' && fmax(fabs(ext[0]), fabs(ext[1])) > reb);
    }
    for (unsigned i = 0; i < K0; i++) {
        lreal best = INFINITY, second = INFINITY; unsigned m = 0; int uc = 0;
        for (unsigned j = 0; j < K0; j++) {
            if (unclear[j]) { uc = 1; continue; }
            lreal e = cabsl(sub[j]-b0[i])/cabs(b0[i]);
            if (e < best) { if (cabsl(sub[j]-sub[m]) > 1e-6L) second = best; best = e; m = j; } else if (e < second && cabsl(sub[j]-sub[m]) > 1e-6L) second = e;
        }
        if (unclear[i] || (uc && best > 0.05L*fmin(1, eps))) { mc_count("unclear matches skipped", 1); continue; }
        if (fabsl(best-eps) < 0.01L*eps || second < 1.1L*best + 1e-9L) { mc_count("unclear matches skipped", 1); continue; }
        int match = best < eps; mc_count(match ? "matched bound states" : "unmatched bound states", 1);
        cplx want = match ? (num*b0[i] - sub[m])/den : b0[i]; double e = cabs(b1[i]-want), tol = match ? 1e-9 : 1e-12; mc_max(match ? "bound state" : "unmatched bound state", e/tol);
        if (!(e <= tol)) { mc_fail("bound state", "%u (%smatched): got %.12g%+.12gi expected %.12g%+.12gi (without extrapolation %.12g%+.12gi)", i, match ? "" : "not ", NUM(b1[i]), NUM(want), NUM(b0[i])); break; }
        if (n1[i] != n0[i] && !(isnan(cabs(n0[i])))) { mc_fail("norming constant", "%u: %.12g%+.12gi without, %.12g%+.12gi with extrapolation", i, NUM(n0[i]), NUM(n1[i])); break; }
        cplx res = n0[K0+i]; double tr = 1e-12*cabs(res);
        if (match) {
            lcplx da0 = (lcplx)n0[i]/n0[K0+i], das = sp_da(&g, Ts, sub[m]);
            if (t == 'K') das = LI*cimagl(das);
            lcplx da = (num*da0 - das)/den; res = n0[i]/da;
            double sens = cabsl(sp_da(&g, Ts, sub[m]*(1+1e-3L)) - sp_da(&g, Ts, sub[m]))/1e-3;
            tr = cabs(res)*(1e-9*(sens + cabsl(das) + cabsl(da0)) + 1e-9)/cabsl(da);
            if (tr > 0.05*cabs(res)) { mc_count("ill-conditioned residues skipped", 1); continue; }
        }
        e = cabs(n1[K0+i]-res); mc_max("residue", e/tr);
        if (!(e <= tr)) { mc_fail("residue", "%u (%smatched): got %.12g%+.12gi expected %.12g%+.12gi (without extrapolation %.12g%+.12gi)", i, match ? "" : "not ", NUM(n1[K0+i]), NUM(res), NUM(n0[K0+i])); break; }
    }
    r_free(&g);
    if (mc_failed_this_case()) return;
    /* the other representations */
    cplx b2[64], n2[128];
    for (int dst = 0; dst < 2; dst++) {
        unsigned K2 = ds(t, d, loc, dst, D, q, T, guess, ng, 1, filt, b2, n2, &r1);
        if (r1 || K2 != K1) { mc_fail("number of bound states", "representation %d: returned %d, %u instead of %u", dst, r1, K2, K1); return; }
        for (unsigned i = 0; i < K1; i++) {
            cplx w = n1[(dst ? K1 : 0) + i];
            if (!(cabs(b2[i]-b1[i]) <= 1e-12*cabs(b1[i]))) { mc_fail("bound state", "%u in representation %d: %.12g%+.12gi instead of %.12g%+.12gi", i, dst, NUM(b2[i]), NUM(b1[i])); return; }
            if (!(cabs(n2[i]-w) <= 1e-10*cabs(w)) && !isnan(cabs(w))) { mc_fail(dst ? "residue" : "norming constant", "%u in representation %d: %.12g%+.12gi instead of %.12g%+.12gi", i, dst, NUM(n2[i]), NUM(w)); return; }
        }
    }
}
void explore(void) {
    static const double Ts[3][2] = {{-1,1},{0.3,1.9},{-7,-4.5}}, XIs[3][2] = {{-1.7,1.3},{0.2,40},{-16,-0.5}};
    cplx q[128], q2[128];
    for (int ti = 0; ti < 3; ti++) {
        char t = "NKM"[ti]; int nd = ti == 0 ? N_NSE : ti == 1 ? N_KDV : N_MAN;
        for (int d = 0; d < nd; d++) {
            if (t == 'M' && r_from_manakov(d) == R_FT4B) continue;
            for (uint64_t c = 0; c < 9; c++) for (int k = -1; k <= 1; k += 2) {   /* too short to be subsampled: refused, or at least finite */
                if (t == 'K' && k < 0) continue;
                if (!mc_begin("two samples: %c %s code=%llu kappa=%d", t, sp_name(t, d), (unsigned long long)c, k)) continue;
                if (t == 'K') gen_signal_real(2, 3, c, q); else gen_signal(2, 3, c, q);
                gen_signal(2, 3, (c*7+1) % 9, q2); cplx out[20]; 
                for (int cst = 0; cst < 3; cst++) { int rc = run(t, d, k, 2, q, q2, Ts[c%3], 3, XIs[1], 1, cst, out); mc_outcome(!!rc);
                    unsigned n = 3*(t == 'M' ? (cst == 0 ? 2 : cst == 1 ? 3 : 5) : cst == 2 ? 3 : cst+1);
                    if (!rc) for (unsigned i = 0; i < n; i++) if (!isfinite(creal(out[i])) || !isfinite(cimag(out[i]))) { mc_fail("two samples", "success with %g%+gi in the result", NUM(out[i])); break; } }
            }
            for (unsigned D = 3; D <= (mc_thorough ? 6u : 5u); D++) for (uint64_t c = 0; c < gen_count(D, 3); c++) for (int k = -1; k <= 1; k += 2) {
                if (t == 'K' && k < 0) continue;
                if (!mc_thorough && D == 5 && (c+d)%3) continue;
                if (!mc_begin("word: %c %s D=%u code=%llu kappa=%d", t, sp_name(t, d), D, (unsigned long long)c, k)) continue;
                if (t == 'K') gen_signal_real(D, 3, c, q); else gen_signal(D, 3, c, q);
                gen_signal(D, 3, (c*7+1) % gen_count(D, 3), q2);
                cont(t, d, k, D, q, q2, Ts[(c+d)%3], 2 + c%4, XIs[(c+D)%3]);
            }
            for (unsigned D = 3; D <= (mc_thorough ? 40u : 20u); D++) for (int sh = 0; sh < GEN_SHAPES; sh++) for (int k = -1; k <= 1; k += 2) for (int v = 0; v < (mc_thorough ? 3 : 1); v++) {
                if (t == 'K' && k < 0) continue;
                if (!mc_begin("shape: %c %s D=%u shape=%d kappa=%d grid=%d", t, sp_name(t, d), D, sh, k, v)) continue;
                int w = (v+D)%3; gen_shape(D, sh, Ts[w], q); gen_shape(D, (sh+1)%4, Ts[w], q2);
                if (t == 'K') for (unsigned i = 0; i < D; i++) q[i] = creal(q[i]);
                cont(t, d, k, D, q, q2, Ts[w], 9, XIs[(v+sh+D)%3]);
            }
        }
        if (t == 'M') continue;
        for (int d = 0; d < nd; d++) for (int loc = 0; loc < (t == 'N' ? 3 : 2); loc++) for (unsigned D = 9; D <= (mc_thorough ? 65u : 49u); D += 8) for (int a = 0; a < 3; a++) for (int sh = 0; sh < 3; sh++) for (int filt = 1; filt < 3; filt++) {
            char ty; rscheme s = sp_scheme(t, d, &ty); int newton = t == 'N' ? loc == fnft_nsev_bsloc_NEWTON : loc == fnft_kdvv_bsloc_NEWTON;
            if (t == 'K' && filt == 1) continue;
            if (t == 'N' && !newton && !r_is_fast(s)) continue;
            if (t == 'N' && !newton && sp_highdeg(s)) continue;
            if (t == 'N' && !newton && D*(s == R_8A || s == R_6A ? 12 : 4) > 400) continue;
            if (t == 'K' && (s == R_CF53 || s == R_CF64)) continue;   /* a is not real on the imaginary axis */
            if (!mc_begin("discrete: %c %s loc=%d D=%u amplitude=%d shape=%d filter=%d", t, sp_name(t, d), loc, D, a, sh, filt)) continue;
            double A[] = {0.9, 2.2, 3.6}, T[2] = {sh == 1 ? -5 : -4, sh == 2 ? 3.5 : 4}; cplx g[6]; unsigned ng = 0;
            for (unsigned i = 0; i < D; i++) { double x = T[0] + (T[1]-T[0])*i/(D-1); q[i] = t == 'K' ? A[a]*(A[a]+1)/(cosh(x)*cosh(x)) : A[a]/cosh(x)*cexp(I*0.3*sh*x); }
            if (newton) { for (int i = 0; i < 4 && A[a]-i-(t == 'K' ? 0 : 0.5) > 0.1; i++) g[ng++] = t == 'K' ? I*(A[a]-i)*0.97 : I*(A[a]-i-0.5)*0.97-0.15*sh; if (ng == 2) g[ng++] = g[0]*1.1; }
            disc(t, d, loc, D, q, T, g, ng, t == 'N' ? (filt == 1 ? fnft_nsev_bsfilt_BASIC : fnft_nsev_bsfilt_FULL) : 0);
        }
    }
}
