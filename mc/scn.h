/* Lattice of public API calls ("scenarios") shared by several checks. */
#ifndef SCN_H
#define SCN_H
#include "mc.h"
enum { NSEV, NSEP, KDVV, MANV, INV, INVXI, NTYPES };
typedef struct {
    int type;
    unsigned D, M, K, Maux;    /* lengths as passed; K, Maux: capacities / numbers of guesses */
    int sig, ti, xi, kappa;
    int cs, bs, nc;            /* which outputs are present (nsep: cs = aux spectrum, bs = main spectrum) */
    int nok, noxi;             /* K_ptr (and M_ptr) null, XI null */
    int nullopts;
    double phase;
    union { fnft_nsev_opts_t v; fnft_nsep_opts_t p; fnft_kdvv_opts_t k; fnft_manakovv_opts_t m; fnft_nsev_inverse_opts_t i; } o;
    /* mutations for invalid argument checks: 0 = none */
    int bad, bad2;
    cplx *user_q;              /* overrides the built-in signal when not null (length D, or 2D for Manakov) */
} Scn;
#define SCN_GUARD 4
typedef struct {
    int rc, nmsg;
    unsigned K, Maux;          /* values of the counters afterwards */
    cplx *out[3]; size_t len[3];  /* contspec/aux/q, bound states/main, norming constants; payload only */
    double XI[2];
    int in_changed, opts_changed, guard_broken, untouched;
    long leak, allocs;
    uint64_t hash;             /* over rc, counters and all defined output values, bit exact */
    char msg[600];
} Res;
extern int scn_exact;          /* 1: arrays allocated at exactly the documented size (for sanitizers), 0: with guard words */
extern int scn_fillbyte;       /* initial contents of pure output arrays */
void scn_run(const Scn *s, Res *r);
void scn_free(Res *r);
const char *scn_text(const Scn *s);
/* calls cb for every scenario of the level: 0 small, 1 medium, 2 large */
void scn_each(int level, unsigned typemask, void (*cb)(const Scn *));
size_t scn_cslen(const Scn *s);
double scn_dist(const cplx *a, const cplx *b, size_t n);
int scn_same(const Res *a, const Res *b);
void scn_signal(const Scn *s, cplx *q);   /* the signal used */
const double *scn_T(const Scn *s);
const double *scn_XI(const Scn *s);
#define SCN_NBAD 39
extern long scn_fail_at, scn_fail_from;    /* allocation faults injected during the call only */
int scn_bad_kind(const Scn *s, int bad);     /* 0: no precondition violated, 1: invalid argument, 2: unsupported option value or combination */
void scn_each_null(int level, void (*cb)(const Scn *));
#endif
