/* Independent reference implementation in long double arithmetic, written from
 * the definitions (Zakharov-Shabat / Schroedinger / Manakov problems, Magnus and
 * splitting schemes), not from the code under test. */
#ifndef REF_H
#define REF_H
#include "mc.h"
typedef struct { int n; lcplx a[3][3]; } Mat;
Mat m_id(int n);
Mat m_mul(Mat a, Mat b);
Mat m_add(Mat a, lcplx s, Mat b);      /* a + s*b */
Mat m_scale(Mat a, lcplx s);
Mat m_exp(Mat a);                      /* closed form / scaling and squaring */
lcplx m_det(Mat a);
double m_dist(Mat a, Mat b);
double m_norm(Mat a);

/* schemes */
typedef enum {
    R_MODAL, R_1A, R_1B, R_2A, R_2B, R_2S, R_3A, R_3B, R_3S, R_4A, R_4B, R_5A, R_5B,
    R_6A, R_6B, R_7A, R_7B, R_8A, R_8B, R_BO,
    R_44A, R_44B, R_CF42, R_CF43, R_CF53, R_CF64, R_ES4, R_TES4,
    /* Manakov only */
    R_46B, R_FT4A, R_FT4B, R_FTSUZ, R_MCF42
} rscheme;
extern const char *r_name[];

/* the matrix of one splitting of exp(h(A+B)) */
Mat r_split(rscheme s, Mat A, Mat B, lreal h);

/* problem: 'N' NSE (q, r=-kappa conj q), 'K' KdV with potential in the upper
 * right element and -1 below, 'k' the other way round, 'M' Manakov */
typedef struct {
    char type; int kappa; rscheme s; unsigned D; lreal eps;
    const cplx *q1, *q2;
    unsigned nskip, Dfull;                 /* nskip > 1: q1, q2 have Dfull samples, every nskip-th of which is used; D and eps are those after picking */
    /* prepared data (after r_prepare): nsub sub-steps per sample */
    unsigned nsub; lcplx *Q1, *Q2, *R1, *R2; lcplx hw[4]; int exact_r;
} Prob;
void r_prepare(Prob *p);               /* allocates */
void r_free(Prob *p);
Mat r_step(const Prob *p, unsigned n, lcplx lam);       /* one sample */
Mat r_total(const Prob *p, lcplx lam);                  /* product over all samples */
Mat r_total_norm(const Prob *p, lcplx lam, double *growth); /* same, growth = prod of step norms */
Mat r_dtotal(const Prob *p, lcplx lam);                 /* derivative w.r.t. lambda (Cauchy integral) */
void r_resample(unsigned D, const cplx *q, lreal shift_in_samples, lcplx *out);

/* continuous spectrum. NSE, KdV: ab[0]=a, ab[1]=b; Manakov: a,b1,b2 */
void r_contspec(const Prob *p, const double T[2], lcplx xi, lcplx *ab);
rscheme r_from_nse(int d);
rscheme r_from_akns(int d);
rscheme r_from_manakov(int d);
/* kdv discretization: returns scheme, *type = 'K' or 'k' */
rscheme r_from_kdv(int d, char *type);
const char *nse_name(int d), *kdv_name(int d), *manakov_name(int d);
#define N_NSE 28
#define N_KDV 56
#define N_MAN 13
int r_is_fast(rscheme s);
#endif
/* all roots of p[0] z^deg + ... + p[deg] (p[0] != 0), Aberth iteration in long double */
void r_roots(unsigned deg, const lcplx *p, lcplx *z);
