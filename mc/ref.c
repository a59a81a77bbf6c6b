#include "ref.h"
#define LI ((lcplx)_Complex_I)
const char *r_name[] = {"MODAL","1A","1B","2A","2B","2S","3A","3B","3S","4A","4B","5A","5B","6A","6B","7A","7B","8A","8B","BO",
    "4SPLIT4A","4SPLIT4B","CF4_2","CF4_3","CF5_3","CF6_4","ES4","TES4","4SPLIT6B","FTES4_4A","FTES4_4B","FTES4_suzuki","CF4_2"};
Mat m_id(int n) { Mat r; memset(&r, 0, sizeof r); r.n = n; for (int i = 0; i < n; i++) r.a[i][i] = 1; return r; }
Mat m_mul(Mat a, Mat b) {
    Mat r; memset(&r, 0, sizeof r); r.n = a.n;
    for (int i = 0; i < a.n; i++) for (int k = 0; k < a.n; k++) { lcplx x = a.a[i][k]; if (x != 0) for (int j = 0; j < a.n; j++) r.a[i][j] += x*b.a[k][j]; }
    return r;
}
Mat m_add(Mat a, lcplx s, Mat b) { for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) a.a[i][j] += s*b.a[i][j]; return a; }
Mat m_scale(Mat a, lcplx s) { for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) a.a[i][j] *= s; return a; }
double m_norm(Mat a) { double s = 0; for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) s = fmax(s, cabs((cplx)a.a[i][j])); return s; }
double m_dist(Mat a, Mat b) { return m_norm(m_add(a, -1, b)); }
lcplx m_det(Mat a) {
    if (a.n == 2) return a.a[0][0]*a.a[1][1] - a.a[0][1]*a.a[1][0];
    return a.a[0][0]*(a.a[1][1]*a.a[2][2]-a.a[1][2]*a.a[2][1]) - a.a[0][1]*(a.a[1][0]*a.a[2][2]-a.a[1][2]*a.a[2][0]) + a.a[0][2]*(a.a[1][0]*a.a[2][1]-a.a[1][1]*a.a[2][0]);
}
Mat m_exp(Mat m) {
    int diag = 1;
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (i != j && m.a[i][j] != 0) diag = 0;
    if (diag) { Mat r = m_id(m.n); for (int i = 0; i < m.n; i++) r.a[i][i] = cexpl(m.a[i][i]); return r; }
    if (m.n == 2 && cabsl(m.a[0][0] + m.a[1][1]) == 0) { /* traceless */
        lcplx w2 = m.a[0][0]*m.a[0][0] + m.a[0][1]*m.a[1][0];
        lcplx ch, shw;
        if (cabsl(w2) < 1e-4L) { /* series */
            ch = 1; shw = 1; lcplx t = 1, u = 1;
            for (int k = 1; k < 10; k++) { t *= w2/(2*k*(2*k-1)); u *= w2/(2*k*(2*k+1)); ch += t; shw += u; }
        } else { lcplx w = csqrtl(w2); ch = ccoshl(w); shw = csinhl(w)/w; }
        Mat r = m_scale(m, shw); r.a[0][0] += ch; r.a[1][1] += ch; return r;
    }
    double n = m_norm(m)*m.n; int s = 0; while (n > 0.25) { n /= 2; s++; }
    m = m_scale(m, powl(0.5L, s));
    Mat r = m_id(m.n), t = m_id(m.n);
    for (int k = 1; k < 20; k++) { t = m_scale(m_mul(t, m), 1.0L/k); r = m_add(r, 1, t); if (m_norm(t) < 1e-22) break; }
    while (s--) r = m_mul(r, r);
    return r;
}
static Mat ex(Mat X, lreal h) { return m_exp(m_scale(X, h)); }
static Mat powm(Mat x, int k) { Mat r = m_id(x.n); while (k--) r = m_mul(r, x); return r; }
/* (X/2 Y X/2)^k with step h/k */
static Mat strang(Mat X, Mat Y, lreal h, int k) { Mat e = ex(X, h/(2*k)); return powm(m_mul(m_mul(e, ex(Y, h/k)), e), k); }
/* X/k Y2/k X2/k ... Y/k, k odd */
static Mat alt(Mat X, Mat Y, lreal h, int k) {
    if (k == 1) return m_mul(ex(X, h), ex(Y, h));
    Mat r = ex(X, h/k), x2 = ex(X, 2*h/k), y2 = ex(Y, 2*h/k);
    for (int j = 0; j < (k-1)/2; j++) { r = m_mul(r, y2); r = m_mul(r, j == (k-1)/2-1 ? ((k-1)/2-1 == j ? x2 : x2) : x2); }
    /* X/k (2Y 2X)^{(k-1)/2} Y/k : X total 1/k + (k-1)/k = 1 */
    return m_mul(r, ex(Y, h/k));
}
static lreal coef(int j, const int *ks, int n) { lreal c = 1; for (int i = 0; i < n; i++) if (i != j) c *= (lreal)ks[j]*ks[j]/((lreal)ks[j]*ks[j] - (lreal)ks[i]*ks[i]); return c; }
static Mat combo(Mat X, Mat Y, lreal h, const int *ks, int n, int odd) {
    Mat r = m_scale(m_id(X.n), 0);
    for (int j = 0; j < n; j++) r = m_add(r, coef(j, ks, n), odd ? alt(X, Y, h, ks[j]) : strang(X, Y, h, ks[j]));
    return r;
}
Mat r_split(rscheme s, Mat A, Mat B, lreal h) {
    static const int ev[] = {1,2,3,4}, od[] = {1,3,5,7};
    switch (s) {
    case R_1A: return alt(A,B,h,1);
    case R_1B: return alt(B,A,h,1);
    case R_2A: return strang(A,B,h,1);
    case R_2B: return strang(B,A,h,1);
    case R_2S: return m_scale(m_add(alt(A,B,h,1), 1, alt(B,A,h,1)), 0.5L);
    case R_3S: return m_add(m_scale(m_add(strang(A,B,h,1), 1, strang(B,A,h,1)), 2.0L/3), -1.0L/6, m_add(alt(A,B,h,1), 1, alt(B,A,h,1)));
    case R_3A: return combo(A,B,h,od,2,1);
    case R_3B: return combo(B,A,h,od,2,1);
    case R_5A: return combo(A,B,h,od,3,1);
    case R_5B: return combo(B,A,h,od,3,1);
    case R_7A: return combo(A,B,h,od,4,1);
    case R_7B: return combo(B,A,h,od,4,1);
    case R_4A: case R_44A: case R_FT4A: return combo(A,B,h,ev,2,0);
    case R_4B: case R_44B: case R_FT4B: return combo(B,A,h,ev,2,0);
    case R_6A: return combo(A,B,h,ev,3,0);
    case R_6B: case R_46B: return combo(B,A,h,ev,3,0);
    case R_8A: return combo(A,B,h,ev,4,0);
    case R_8B: return combo(B,A,h,ev,4,0);
    case R_MODAL: {
        Mat e = ex(A, h/2), b = m_id(A.n); b = m_add(b, h, B);
        b = m_scale(b, 1/csqrtl(1 - h*h*B.a[0][1]*B.a[1][0]));
        return m_mul(m_mul(e, b), e);
    }
    case R_FTSUZ: {
        static const int n = 11; static const lreal c[] = {7.0L/48, 1.0L/3, 3.0L/8, -1.0L/3, -1.0L/48, 1, -1.0L/48, -1.0L/3, 3.0L/8, 1.0L/3, 7.0L/48};
        Mat r = m_id(A.n);
        for (int i = 0; i < n; i++) r = m_mul(r, ex(i & 1 ? A : B, c[i]*h));
        return r;
    }
    default: return ex(m_add(A, 1, B), h);
    }
}
int r_is_fast(rscheme s) { return !(s == R_BO || s == R_CF42 || s == R_CF43 || s == R_CF53 || s == R_CF64 || s == R_ES4 || s == R_TES4 || s == R_MCF42); }

void r_resample(unsigned D, const cplx *q, lreal sh, lcplx *out) {
    lcplx *F = malloc(D*sizeof *F); lreal w = 2*acosl(-1)/D;
    for (unsigned k = 0; k < D; k++) { F[k] = 0; for (unsigned n = 0; n < D; n++) F[k] += (lcplx)q[n]*cexpl(-LI*w*(lreal)(((uint64_t)k*n)%D)); }
    for (unsigned n = 0; n < D; n++) {
        out[n] = 0;
        for (unsigned k = 0; k < D; k++) { lreal f = k < (D+1)/2 ? (lreal)k : (lreal)k - D; out[n] += F[k]*cexpl(LI*w*f*(n + sh)); }
        out[n] /= D;
    }
    free(F);
}
static lcplx rr(const Prob *p, lcplx q) { return -p->kappa*conjl(q); }
/* lower left element belonging to a potential sample (order = derivative) */
void r_prepare(Prob *p) {
    unsigned D = p->D, ns = 1; int cfw = 0;
    switch (p->s) {
    case R_44A: case R_44B: case R_46B: case R_CF42: case R_MCF42: ns = 2; cfw = 2; break;
    case R_CF43: case R_CF53: ns = 3; cfw = 3; break;
    case R_CF64: ns = 4; cfw = 4; break;
    default: break;
    }
    p->nsub = ns;
    p->Q1 = calloc(D*4, sizeof(lcplx)); p->Q2 = calloc(D*4, sizeof(lcplx)); p->R1 = calloc(D*4, sizeof(lcplx)); p->R2 = calloc(D*4, sizeof(lcplx));
    for (int i = 0; i < 4; i++) p->hw[i] = 1;
    int man = p->type == 'M';
    for (int comp = 0; comp < (man ? 2 : 1); comp++) {
        const cplx *q = comp ? p->q2 : p->q1; lcplx *Q = comp ? p->Q2 : p->Q1, *R = comp ? p->R2 : p->R1;
        const cplx *qfull = q; cplx *qpick = NULL;
        if (p->nskip > 1) { qpick = malloc(D*sizeof *qpick); for (unsigned n = 0; n < D; n++) qpick[n] = q[n*p->nskip]; q = qpick; }
        if (!cfw) {
            if (p->s == R_ES4 || p->s == R_TES4) { /* three entries per sample: q, q', q'' by central differences, zero outside */
                for (unsigned n = 0; n < D; n++) {
                    lcplx qm = n ? (lcplx)q[n-1] : 0, qp = n+1 < D ? (lcplx)q[n+1] : 0;
                    Q[3*n] = q[n]; Q[3*n+1] = (qp-qm)/(2*p->eps); Q[3*n+2] = (qp-2*(lcplx)q[n]+qm)/(p->eps*p->eps);
                    for (int j = 0; j < 3; j++) R[3*n+j] = rr(p, Q[3*n+j]);
                    if (p->type == 'K') { R[3*n] = -1; R[3*n+1] = R[3*n+2] = 0; }
                    if (p->type == 'k') { for (int j = 0; j < 3; j++) { R[3*n+j] = Q[3*n+j]; Q[3*n+j] = j ? 0 : -1; } }
                }
            } else for (unsigned n = 0; n < D; n++) {
                Q[n] = q[n]; R[n] = rr(p, q[n]);
                if (p->type == 'K') R[n] = -1;
                if (p->type == 'k') { R[n] = q[n]; Q[n] = -1; }
            }
            free(qpick);
            continue;
        }
        /* commutator-free schemes: weighted samples at Gauss points */
        lcplx w[4][3]; lreal c[3]; int nn = ns == 2 ? 2 : 3;
        lreal s3 = sqrtl(3), s15 = sqrtl(15);
        if (ns == 2) {
            lreal x = 1/s3;
            c[0] = -s3/6; c[1] = s3/6;
            w[0][0] = w[1][1] = (0.5L + x)/2; w[0][1] = w[1][0] = (0.5L - x)/2;
        } else {
            c[0] = -s15/10; c[1] = 0; c[2] = s15/10;
            if (p->s == R_CF43) { /* three-exponential scheme in terms of Legendre moments, Gauss weights 5/18,4/9,5/18 */
                static const lreal f[3][3] = {{11.0L/40, 20.0L/87, 7.0L/50},{9.0L/20, 0, -7.0L/25},{11.0L/40, -20.0L/87, 7.0L/50}};
                static const lreal gw[3] = {5.0L/18, 4.0L/9, 5.0L/18};
                for (int i = 0; i < 3; i++) for (int m = 0; m < 3; m++) {
                    lreal x = -2*c[m];  /* in [-1,1]; first factor belongs to early times */
                    lreal P[3] = {1, x, (3*x*x-1)/2}, t = 0;
                    for (int n = 0; n < 3; n++) t += (2*n+1)*P[n]*f[i][n];
                    w[i][m] = t*gw[m];
                }
            } else if (p->s == R_CF53) {
                w[0][0] = (145+37*s15)/900 + LI*(5+3*s15)/300; w[0][1] = -1.0L/45 + LI/15; w[0][2] = (145-37*s15)/900 + LI*(5-3*s15)/300;
                w[1][0] = -2.0L/45 - LI*s15/50; w[1][1] = 22.0L/45; w[1][2] = -2.0L/45 + LI*s15/50;
                for (int m = 0; m < 3; m++) w[2][m] = conjl(w[0][2-m]);
            } else {
                static const double re[2][3] = {{0.245985577298764,-0.046806149832549,0.010894359342569},{0.062868370946917,0.269028372054771,-0.041970529810473}};
                static const double im[2][3] = {{0.038734389227165,0.012442141491185,-0.004575808769067},{-0.048761268117765,-0.012442141491185,0.014602687659668}};
                for (int i = 0; i < 2; i++) for (int m = 0; m < 3; m++) { w[i][m] = re[i][m] + LI*im[i][m]; w[3-i][2-m] = w[i][m]; }
            }
        }
        lcplx *qs[3];
        for (int m = 0; m < nn; m++) {
            qs[m] = malloc(D*sizeof(lcplx));
            if (p->nskip > 1 && !man) { /* interpolated at the full rate, then picked */
                lcplx *f = malloc(p->Dfull*sizeof(lcplx));
                r_resample(p->Dfull, qfull, c[m]*p->nskip, f);
                for (unsigned n = 0; n < D; n++) qs[m][n] = f[n*p->nskip];
                free(f);
            } else r_resample(D, q, man ? c[m] + 0.5L : c[m], qs[m]);
        }
        if (nn == 3) for (unsigned n = 0; n < D; n++) qs[1][n] = q[n];
        for (unsigned i = 0; i < ns; i++) {
            lcplx h = 0; for (int m = 0; m < nn; m++) h += w[i][m];
            p->hw[i] = h;
            for (unsigned n = 0; n < D; n++) {
                lcplx a = 0, b = 0;
                for (int m = 0; m < nn; m++) {
                    lcplx Qv = qs[m][n], Rv = rr(p, qs[m][n]);
                    if (p->type == 'K') Rv = -1;
                    if (p->type == 'k') { Rv = Qv; Qv = -1; }
                    a += w[i][m]*Qv; b += w[i][m]*Rv;
                }
                Q[n*ns+i] = a/h; R[n*ns+i] = b/h;
            }
        }
        for (int m = 0; m < nn; m++) free(qs[m]);
        free(qpick);
    }
}
void r_free(Prob *p) { free(p->Q1); free(p->Q2); free(p->R1); free(p->R2); }

static Mat mA(const Prob *p, lcplx lam) {
    Mat r = m_scale(m_id(p->type == 'M' ? 3 : 2), LI*lam); r.a[0][0] = -LI*lam; return r;
}
static Mat mB(const Prob *p, lcplx q1, lcplx q2, lcplx r1, lcplx r2) {
    Mat r = m_scale(m_id(p->type == 'M' ? 3 : 2), 0);
    r.a[0][1] = q1; r.a[1][0] = r1;
    if (p->type == 'M') { r.a[0][2] = q2; r.a[2][0] = r2; }
    return r;
}
Mat r_step(const Prob *p, unsigned n, lcplx lam) {
    Mat A = mA(p, lam); lreal e = p->eps;
    if (p->s == R_ES4 || p->s == R_TES4) {
        const lcplx *Q = p->Q1 + 3*n, *R = p->R1 + 3*n;
        Mat A0 = m_add(A, 1, mB(p, Q[0], 0, R[0], 0)), A1 = mB(p, Q[1], 0, R[1], 0), A2 = mB(p, Q[2], 0, R[2], 0);
        if (p->s == R_ES4) {
            Mat c = m_add(m_mul(A0, A1), -1, m_mul(A1, A0));
            return m_exp(m_add(m_add(m_scale(A0, e), e*e*e/24, A2), -e*e*e/12, c));
        }
        Mat l = m_exp(m_add(m_scale(A1, e*e/12), e*e*e/48, A2)), r = m_exp(m_add(m_scale(A1, -e*e/12), e*e*e/48, A2));
        return m_mul(m_mul(l, m_exp(m_scale(A0, e))), r);
    }
    if (p->s == R_FT4A || p->s == R_FT4B || p->s == R_FTSUZ) {
        /* derivatives by central differences, signal continued by its end samples */
        unsigned a = n ? n-1 : n, b = n+1 < p->D ? n+1 : n;
        Mat S = r_split(p->s, A, mB(p, p->Q1[n], p->Q2[n], p->R1[n], p->R2[n]), e), G[2];
        for (int k = 0; k < 2; k++) {
            lreal sg = k ? -1 : 1; lcplx d[4]; const lcplx *v[4] = {p->Q1, p->Q2, p->R1, p->R2};
            for (int j = 0; j < 4; j++) d[j] = sg*e*(v[j][b]-v[j][a])/24 + e*(v[j][b]-2*v[j][n]+v[j][a])/48;
            G[k] = m_exp(mB(p, d[0], d[1], d[2], d[3]));
        }
        return m_mul(m_mul(G[0], S), G[1]);
    }
    Mat T = m_id(A.n);
    for (unsigned i = 0; i < p->nsub; i++) {
        unsigned j = n*p->nsub + i;
        Mat B = mB(p, p->Q1[j], p->Q2[j], p->R1[j], p->R2[j]);
        Mat U;
        if (r_is_fast(p->s)) U = r_split(p->s, A, B, e*(lreal)creall(p->hw[i]));
        else U = m_exp(m_scale(m_add(A, 1, B), e*p->hw[i]));
        T = m_mul(U, T);
    }
    return T;
}
Mat r_total_norm(const Prob *p, lcplx lam, double *g) {
    Mat T = m_id(p->type == 'M' ? 3 : 2); *g = 1;
    for (unsigned n = 0; n < p->D; n++) { Mat U = r_step(p, n, lam); T = m_mul(U, T); *g *= fmax(1, m_norm(U)); }
    return T;
}
Mat r_total(const Prob *p, lcplx lam) { double g; return r_total_norm(p, lam, &g); }
Mat r_dtotal(const Prob *p, lcplx lam) {
    const int N = 32; lreal rho = 0.25L/(p->eps*p->D);
    Mat r = m_scale(m_id(p->type == 'M' ? 3 : 2), 0);
    for (int k = 0; k < N; k++) { lcplx u = cexpl(2*acosl(-1)*LI*k/N); r = m_add(r, 1/(u*rho*N), r_total(p, lam + rho*u)); }
    return r;
}
void r_contspec(const Prob *p, const double T[2], lcplx xi, lcplx *ab) {
    Mat S = r_total(p, xi);
    if (p->type == 'K') {
        Mat t = m_id(2), f = m_id(2);
        t.a[0][0] = 1/(2*LI*xi); t.a[1][0] = -1/(2*LI*xi);
        f.a[0][0] = 2*LI*xi; f.a[1][0] = 1;
        S = m_mul(m_mul(t, S), f);
    } else if (p->type == 'k') {
        Mat t = m_id(2), f = m_id(2);
        t.a[0][1] = 1/(2*LI*xi); t.a[1][1] = -1/(2*LI*xi);
        f.a[0][1] = 1; f.a[1][1] = -2*LI*xi;
        S = m_mul(m_mul(t, S), f);
    }
    lreal e = p->eps, b0 = T[0] - e/2, b1 = T[1] + e/2;
    if (p->type == 'M' && p->nsub == 2) { b0 = T[0]; b1 = T[1] + e; } /* these schemes take the cell to the right of each sample */
    ab[0] = cexpl(LI*xi*(b1-b0))*S.a[0][0];
    ab[1] = cexpl(-LI*xi*(b1+b0))*S.a[1][0];
    if (p->type == 'M') ab[2] = cexpl(-LI*xi*(b1+b0))*S.a[2][0];
}
static const rscheme nse_map[N_NSE] = {R_MODAL,R_BO,R_1A,R_1B,R_2A,R_2B,R_2S,R_3A,R_3B,R_3S,R_4A,R_4B,R_5A,R_5B,R_6A,R_6B,R_7A,R_7B,R_8A,R_8B,R_44A,R_44B,R_CF42,R_CF43,R_CF53,R_CF64,R_ES4,R_TES4};
rscheme r_from_nse(int d) { return nse_map[d]; }
rscheme r_from_kdv(int d, char *t) { *t = d < 28 ? 'K' : 'k'; return nse_map[d % 28]; }
rscheme r_from_akns(int d) {
    static const rscheme m[] = {R_MODAL,R_1A,R_1B,R_2A,R_2B,R_2S,R_3A,R_3B,R_3S,R_4A,R_4B,R_5A,R_5B,R_6A,R_6B,R_7A,R_7B,R_8A,R_8B,R_BO,R_44A,R_44B,R_CF42,R_CF43,R_CF53,R_CF64,R_ES4,R_TES4};
    return m[d];
}
rscheme r_from_manakov(int d) {
    static const rscheme m[N_MAN] = {R_3A,R_3B,R_4A,R_4B,R_6B,R_44A,R_44B,R_46B,R_FT4A,R_FT4B,R_FTSUZ,R_MCF42,R_BO};
    return m[d];
}
const char *nse_name(int d) { return r_name[nse_map[d]]; }
const char *kdv_name(int d) { static char b[4][40]; static int k; k = (k+1)&3; snprintf(b[k], 40, "%s%s", r_name[nse_map[d%28]], d < 28 ? "_VANILLA" : ""); return b[k]; }
const char *manakov_name(int d) { return r_name[r_from_manakov(d)]; }
void r_roots(unsigned deg, const lcplx *p, lcplx *z) {
    unsigned nz = 0;
    while (deg > 0 && p[deg] == 0) { z[deg-1] = 0; deg--; nz++; }
    if (deg == 0) return;
    /* start on circles given by coefficient ratios (Newton polygon, simplified) */
    lreal *la = malloc((deg+1)*sizeof(lreal));
    for (unsigned k = 0; k <= deg; k++) la[k] = p[deg-k] == 0 ? -INFINITY : logl(cabsl(p[deg-k]));   /* coefficient of z^k */
    unsigned i = 0, cnt = 0;
    while (i < deg) {
        unsigned best = deg; lreal bs = -INFINITY;
        for (unsigned j = i+1; j <= deg; j++) { lreal s = (la[j]-la[i])/(j-i); if (s >= bs) { bs = s; best = j; } }
        lreal r = expl(-bs);
        for (unsigned k = i; k < best; k++) { lreal ph = 2*3.141592653589793238L*(k-i)/(best-i) + 0.7L + i; z[cnt++] = r*(cosl(ph) + I*sinl(ph)); }
        i = best;
    }
    free(la);
    for (int it = 0; it < 400; it++) {
        lreal ch = 0;
        for (unsigned k = 0; k < deg; k++) {
            lcplx v = p[0], d = 0, zz = z[k], w;
            lreal az = cabsl(zz);
            if (az <= 1) { for (unsigned j = 1; j <= deg; j++) { d = d*zz + v; v = v*zz + p[j]; } if (v == 0) continue; w = d/v; }
            else {  /* reversed: p(z) = z^deg q(1/z) */
                lcplx u = 1/zz; v = p[deg]; d = 0;
                for (unsigned j = 1; j <= deg; j++) { d = d*u + v; v = v*u + p[deg-j]; }
                if (v == 0) continue;
                w = (deg - u*d/v)*u;
            }
            lcplx s = 0; for (unsigned j = 0; j < deg; j++) if (j != k) { lcplx df = zz - z[j]; if (df != 0) s += 1/df; }
            lcplx den = w - s; if (den == 0) continue;
            lcplx st = 1/den; z[k] -= st;
            lreal rel = cabsl(st)/(cabsl(z[k])+1e-300L); if (rel > ch) ch = rel;
        }
        if (ch < 1e-18L) break;
    }
}
