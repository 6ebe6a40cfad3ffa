/*
 * A controlled scheduler: threads of the program under test run one at a time and switch only at scheduling points,
 * which are the pthread calls and (in instrumented sources) every memory access.
 */
#ifndef SCHED_H
#define SCHED_H
enum { SCHED_DFS, SCHED_RANDOM, SCHED_PCT };
struct sched_conf {
    int strategy;
    unsigned long long seed;
    int mem;            /* memory accesses of instrumented code are scheduling points */
    int spurious;       /* budget of spurious wake-ups */
    int preempt;        /* DFS: bound on preemptions; PCT: number of priority changes */
    long est;           /* PCT: estimated number of steps */
};
/* Runs body(arg) as thread 0 under the scheduler.  0 = completed, 1 = deadlock, 2 = did not end (the process must exit then). */
int sched_run(void (*body)(void *), void *arg, const struct sched_conf *c);
/* DFS: next schedule; 0 when the space is exhausted. */
int sched_dfs_next(void);
void sched_dfs_reset(void);
void sched_point(void);         /* a scheduling point of the harness itself */
int sched_self(void);           /* number of the calling thread, -1 outside */
long sched_steps(void);
int sched_live(void);           /* threads not ended, the first one apart */
const char *sched_trouble(void);    /* what every thread is blocked on, after a deadlock */
extern void (*sched_on_trouble)(int kind);  /* called instead of returning when the run cannot complete */
extern int sched_deny_create;   /* n: the n-th thread creation from now fails */
#endif
