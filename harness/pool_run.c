/*
 * pool_run WORKERS SCRIPT STRATEGY SEED COUNT MEM SPURIOUS PREEMPT EST
 * SCRIPT: one word per client thread (first: the main thread), separated by ','.  Letters: s submit, f submit a failing task,
 * n submit a task that submits another one, w wait, y yield.  The main thread joins the others, runs the rest of its word after '+',
 * and shuts the pool down.  A digit in front: the creation of that worker fails.  Prints every distinct history once: COUNT events.
 */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_threadpool.h"
#include "sched.h"

struct task { int id; char kind; unsigned magic; };
static char logbuf[65536];
static int loglen;
static void ev(const char *e, int a) { if (loglen < 65000) loglen += snprintf(logbuf + loglen, 100, "%s%d ", e, a); }
static napr_threadpool_t *tp;
static int fails, deny, nworkers, nclients, ntasks;
static struct task tasks[256];
static char script[8][64];
static const char *argscript;
static apr_pool_t *root;
static int ctxtoken;
static struct sched_conf conf;
static unsigned long long curseed;

static void submit(char kind)
{
    struct task *t = &tasks[ntasks];
    t->id = ++ntasks;
    t->kind = kind;
    t->magic = 0xfeed0000u + (unsigned) t->id;
    int id = t->id;
    ev("c", id);
    apr_status_t s = napr_threadpool_add(tp, t);
    ev(s == APR_SUCCESS ? "r" : "refused", id);
}
static apr_status_t process(void *ctx, void *data)
{
    struct task *t = data;
    if (ctx != (void *) &ctxtoken || t < tasks || t >= tasks + 256 || t->magic != 0xfeed0000u + (unsigned) t->id) {
        ev("bad", 0);
        return APR_SUCCESS;
    }
    int id = t->id;
    ev("b", id);
    sched_point();
    if (t->kind == 'n') submit('s');
    sched_point();
    ev("e", id);
    static const apr_status_t bad[] = { APR_EGENERAL, APR_ENOMEM, APR_EOF, APR_EACCES, APR_ENOENT, -1, 1, APR_TIMEUP, APR_EINTR, APR_INCOMPLETE, APR_EINVAL, APR_EAGAIN };
    return t->kind == 'f' ? bad[(id + fails) % (int) (sizeof bad / sizeof bad[0])] : APR_SUCCESS;
}
static void play(int who, const char *s)
{
    for (; *s && *s != '+'; s++) {
        if (*s == 's' || *s == 'f' || *s == 'n') submit(*s);
        else if (*s == 'w') {
            ev("W", who);
            apr_status_t st = napr_threadpool_wait(tp);
            ev(st == APR_SUCCESS ? "R" : "waitfailed", who);
        }
        else if (*s == 'y') sched_point();
    }
}
static void *client(void *v) { int k = (int) (long) v; play(k, script[k]); return NULL; }
static void body(void *v)
{
    (void) v;
    pthread_t c[8];
    apr_pool_t *pool;
    apr_pool_create(&pool, root);
    sched_deny_create = 0;
    if (deny) { ev("d", deny); sched_deny_create = deny; }
    apr_status_t is = napr_threadpool_init(&tp, &ctxtoken, (unsigned long) nworkers, process, pool);
    sched_deny_create = 0;
    if (is != APR_SUCCESS) { ev("D", sched_live()); return; }
    for (int i = 1; i < nclients; i++) pthread_create(&c[i], NULL, client, (void *) (long) i);
    play(0, script[0]);
    for (int i = 1; i < nclients; i++) pthread_join(c[i], NULL);
    char *plus = strchr(script[0], '+');
    if (plus) play(0, plus + 1);
    ev("X", 0);
    apr_status_t st = napr_threadpool_shutdown(tp);
    ev(st == APR_SUCCESS ? "Y" : "shutdownfailed", sched_live());
    apr_pool_destroy(pool);
}

#define HS (1 << 16)
static char *seen[HS];
static unsigned cnt[HS];
static unsigned long long exe;
static void note(const char *extra)
{
    unsigned long long h = 1469598103934665603ULL;
    if (extra) snprintf(logbuf + loglen, 3000, "%s", extra);
    for (char *p = logbuf; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ULL;
    unsigned i = (unsigned) (h & (HS - 1));
    for (unsigned k = 0; k < HS; k++, i = (i + 1) & (HS - 1)) {
        if (!seen[i]) { seen[i] = strdup(logbuf); cnt[i] = 1; return; }
        if (!strcmp(seen[i], logbuf)) { cnt[i]++; return; }
    }
}
static void dump(int complete)
{
    for (unsigned i = 0; i < HS; i++) if (seen[i]) printf("H %u %s\n", cnt[i], seen[i]);
    printf("N %llu %d\n", exe, complete);
    fflush(stdout);
}
static void on_trouble(int kind)
{
    char t[2500];
    snprintf(t, sizeof t, "%s seed=%llu %s", kind == 1 ? "deadlock0" : "endless0", curseed, sched_trouble());
    note(t);
    exe++;
    dump(0);
    _exit(0);
}
int main(int argc, char **v)
{
    (void) argc;
    nworkers = atoi(v[1]);
    argscript = v[2];
    char buf[512];
    if (*v[2] >= '1' && *v[2] <= '9') { deny = *v[2] - '0'; v[2]++; }
    snprintf(buf, sizeof buf, "%s", v[2]);
    for (char *p = strtok(buf, ","); p; p = strtok(NULL, ",")) snprintf(script[nclients++], 64, "%s", p);
    conf.strategy = !strcmp(v[3], "dfs") ? SCHED_DFS : !strcmp(v[3], "pct") ? SCHED_PCT : SCHED_RANDOM;
    unsigned long long seed = strtoull(v[4], 0, 10);
    long count = atol(v[5]);
    conf.mem = atoi(v[6]);
    conf.spurious = atoi(v[7]);
    conf.preempt = atoi(v[8]);
    conf.est = atol(v[9]);
    apr_initialize();
    apr_pool_create(&root, NULL);
    sched_on_trouble = on_trouble;
    sched_dfs_reset();
    int complete = 0;
    for (long k = 0; k < count; k++) {
        conf.seed = curseed = seed + (unsigned long long) k;
        loglen = 0;
        logbuf[0] = 0;
        ntasks = 0;
        fails = (int) (k % 12);
        sched_run(body, NULL, &conf);
        exe++;
        note(NULL);
        if (conf.strategy == SCHED_DFS && !sched_dfs_next()) { complete = 1; break; }
    }
    dump(complete);
    return 0;
}
