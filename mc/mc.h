/* Core of the explorer: exhaustive enumeration of cases, sharding, crash
 * containment, counters.  See mc.c. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#define FNFT_ENABLE_SHORT_NAMES
#include "fnft.h"
#include "fnft_nsev.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_nsev_inverse.h"
#include "fnft_errwarn.h"
#undef I
#define I _Complex_I

typedef double complex cplx;
typedef long double complex lcplx;
typedef long double lreal;

/* implemented by each check */
void explore(void);
extern const char *mc_rule;        /* how cases are made / when non-trivial */

extern int mc_thorough;            /* tier */
extern int mc_replaying;           /* --case given: be verbose */
extern unsigned mc_case_timeout;   /* seconds of watchdog per case (default 120) */

/* Announces the next case of the enumeration; returns 1 iff this process has
 * to execute it.  The text identifies the case (it is stored with violations) */
int mc_begin(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* cheap version for huge inner enumerations: no text unless needed */
int mc_mine(void);
void mc_desc(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* reports a violation of the property in the current case */
void mc_fail(const char *clause, const char *fmt, ...) __attribute__((format(printf,2,3)));
int mc_failed_this_case(void);
/* records the outcome of a non-trivial case (counts distinct values) */
void mc_outcome(uint64_t h);
void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* named counters, summed over shards */
void mc_count(const char *name, uint64_t n);
/* largest value seen, max over shards (for example numerical error ratios) */
void mc_max(const char *name, double v);
/* states / transitions of an explicit-state exploration */
void mc_states(uint64_t states, uint64_t transitions);
void mc_assume(const char *txt);
void mc_capped(const char *why);

uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
uint64_t mc_hash_d(const double *p, size_t n, uint64_t seed); /* rounded: -0==0 , all NaN equal */

/* --- library messages ---------------------------------------------------- */
extern _Thread_local int mc_msgs;                /* number of messages the library printed */
extern _Thread_local char mc_lastmsg[4096];
void mc_quiet(void);               /* route library messages into the counters */
void mc_msg_reset(void);

/* --- allocator control (programs built with wrap=True) -------------------- */
extern long mc_live;               /* live heap blocks */
extern long mc_allocs;             /* allocations since mc_alloc_reset */
extern long mc_fail_at;            /* 1-based index of the allocation to fail, 0 = none */
extern long mc_fail_from;          /* fail all allocations from this index on, 0 = none */
extern int mc_fill;                /* -1: none, else byte used to fill fresh memory */
extern int mc_fault_hit;
void mc_alloc_reset(void);

#define NELEM(a) (sizeof(a)/sizeof((a)[0]))
#endif
