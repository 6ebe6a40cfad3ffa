/* heap_run THREADS RANKS STRATEGY SEED COUNT PREEMPT EST: concurrent napr_heap_insert_r under the controlled scheduler, then extraction of everything.
 * RANKS: digits, thread t inserts those at positions = t modulo THREADS.  Prints every distinct final history once. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_heap.h"
#include "sched.h"
struct el { int id; int rank; };
static struct el els[4096];
static int nth, nel, pre;
static const char *ranks;
static napr_heap_t *h;
static apr_pool_t *root;
static char out[200000];
static int len, rcbad;
static int cmp(const void *a, const void *b) { return ((const struct el *) a)->rank - ((const struct el *) b)->rank; }
static void *worker(void *v)
{
    int t = (int) (long) v;
    for (int i = t; i < nel; i += nth)
        if (napr_heap_insert_r(h, &els[pre + i])) rcbad = 1;
    return NULL;
}
static void body(void *v)
{
    (void) v;
    apr_pool_t *p;
    pthread_t c[8];
    apr_pool_create(&p, root);
    h = napr_heap_make_r(p, cmp);
    for (int i = 0; i < pre; i++) napr_heap_insert_r(h, &els[i]);
    for (int i = 1; i < nth; i++) pthread_create(&c[i], NULL, worker, (void *) (long) i);
    worker(0);
    for (int i = 1; i < nth; i++) pthread_join(c[i], NULL);
    len = sprintf(out, "rc%d s%u", rcbad, napr_heap_size(h));
    struct el *e;
    for (int k = 0; k < pre + nel + 2; k++) { e = napr_heap_extract(h); len += sprintf(out + len, " %d", e ? e->id : 0); }
    apr_pool_destroy(p);
}
#define HS 4096
static char *seen[HS];
static void note(void)
{
    for (int i = 0; i < HS; i++) {
        if (!seen[i]) { seen[i] = strdup(out); return; }
        if (!strcmp(seen[i], out)) return;
    }
}
static long exe;
static void dump(int full) { for (int i = 0; i < HS && seen[i]; i++) printf("H %s\n", seen[i]); printf("N %ld %d\n", exe, full); fflush(stdout); }
static void trouble(int k) { sprintf(out, "rc%d s0 ", 90 + k); note(); exe++; dump(0); _exit(0); }
int main(int c, char **v)
{
    (void) c;
    struct sched_conf conf = { 0 };
    nth = atoi(v[1]); ranks = v[2]; nel = (int) strlen(ranks);
    conf.strategy = !strcmp(v[3], "dfs") ? SCHED_DFS : !strcmp(v[3], "pct") ? SCHED_PCT : SCHED_RANDOM;
    unsigned long long seed = strtoull(v[4], 0, 10);
    long count = atol(v[5]);
    conf.preempt = atoi(v[6]); conf.est = atol(v[7]); pre = atoi(v[8]); conf.mem = 1;
    for (int i = 0; i < pre + nel; i++) { els[i].id = i + 1; els[i].rank = i < pre ? i % 10 : ranks[i - pre] - '0'; }
    apr_initialize();
    apr_pool_create(&root, NULL);
    sched_on_trouble = trouble;
    sched_dfs_reset();
    int full = 0;
    for (long k = 0; k < count; k++) {
        conf.seed = seed + (unsigned long long) k;
        rcbad = 0;
        sched_run(body, NULL, &conf);
        note();
        exe++;
        if (conf.strategy == SCHED_DFS && !sched_dfs_next()) { full = 1; break; }
    }
    dump(full);
    return 0;
}
