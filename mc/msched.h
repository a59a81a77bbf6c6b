/* Controlled scheduler: the library is compiled with -fsanitize=thread but
 * linked with this runtime instead of libtsan. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#define SCH_MAXT 3
enum { SCH_P_HOT = 1, SCH_P_ALLOC = 2, SCH_P_FUNC = 4 };
/* one preemption: at global point number 'at' switch to thread 'to' */
typedef struct { unsigned at; int to; } SchDec;
typedef struct {
    int nthreads, first;             /* number of threads, who starts */
    unsigned points;                 /* which points count */
    const SchDec *dec; int ndec;
    /* results */
    unsigned npoints;                /* points passed */
    unsigned char *runner;           /* who ran before each point (valid up to npoints) */
    unsigned char *enabled;          /* bit mask of the enabled threads at each point */
    unsigned endpoint;               /* point number at which the first thread ended */
    int race; char racetxt[300];
    int deadlock, diverged;
    unsigned shared;                 /* accesses to written shared memory */
} SchRun;
void sch_init(void (*body)(int tid, int arg));
void sch_run(SchRun *r, const int *args);
extern unsigned sch_hotcount;        /* bytes of static or foreign memory used by several threads and written, since the last sch_newcombo */
void sch_newcombo(void);
void sch_forget(void);
#endif
