/* db_conc FILE INTRA KEYLEN SCRIPT STRATEGY SEED COUNT MEM SPURIOUS PREEMPT EST
 *
 * Threads work on one database under the controlled scheduler.  SCRIPT: one script per thread, separated by ","; thread 0
 * is "before|meanwhile+afterwards": the others run between "|" and "+".
 *   w a f  a write transaction: committed, aborted, committed with a failing system call
 *   o c    begin a write transaction and keep it; commit it
 *   r      a read transaction that reads everything twice
 *   l k e  begin a read transaction and keep it; read everything; end it
 *   h      begin a read transaction that thread 0 reads and ends at last
 *   y      a scheduling point
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_db.h"
#include "sched.h"
#define NK 6
#define NT 8
static char script[NT][128], path[4000];
static int nthreads, intra, keylen;
static apr_pool_t *root;
static napr_db_env_t *env;
static struct sched_conf conf;
static unsigned long long curseed;
static char logbuf[1 << 18];
static int loglen;
static unsigned counter;
static napr_db_txn_t *given[64]; static int givent[64], ngiven;
static __thread long fault;
static __thread int fault_errno = EIO;
static struct me { napr_db_txn_t *w, *l; int wid, lid; unsigned r; } me[NT];
static int ntx;
static unsigned char keys[NK][2100];

static void ev(const char *k, int n) { if (loglen < (int) sizeof(logbuf) - 4000) loglen += sprintf(logbuf + loglen, "%s%d ", k, n); }
static int failing(void) { return fault > 0 && --fault == 0; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (failing()) { errno = fault_errno; return -1; } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2 && failing()) { errno = fault_errno; return -1; } return syscall(SYS_write, fd, b, n); }
int fsync(int fd) { (void) fd; if (failing()) { errno = fault_errno; return -1; } return 0; }
int fdatasync(int fd) { return fsync(fd); }
int msync(void *a, size_t n, int f) { (void) a; (void) n; (void) f; if (failing()) { errno = fault_errno; return -1; } return 0; }
int ftruncate(int fd, off_t n) { if (failing()) { errno = fault_errno; return -1; } return (int) syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

static void scan(napr_db_txn_t *t, int id)
{
    napr_db_cursor_t *c = NULL;
    napr_db_val_t k, v;
    int n = 0, st = napr_db_cursor_open(t, &c);
    char b[2000]; int bn = 0;
    for (st = st ? st : (int) napr_db_cursor_get(c, &k, &v, NAPR_DB_FIRST); !st && n < 50; st = (int) napr_db_cursor_get(c, &k, &v, NAPR_DB_NEXT), n++) {
        unsigned x = 0;
        int ki = k.size == (size_t) keylen ? ((unsigned char *) k.data)[0] - 'a' + 1 : -1;
        if (ki > 0 && ki <= NK && memcmp(k.data, keys[ki - 1], k.size)) ki = -1;
        if (v.size >= 4) memcpy(&x, v.data, 4);
        for (size_t i = 4; i < v.size; i++) if (((unsigned char *) v.data)[i] != (unsigned char) (x + i)) x = 999999;
        if (bn < 1900) bn += sprintf(b + bn, ",%d,%u", ki, x);
    }
    if (c) napr_db_cursor_close(c);
    if (loglen < (int) sizeof(logbuf) - 4000) loglen += sprintf(logbuf + loglen, "s%d%.*s%s ", id, bn, b, st == APR_NOTFOUND ? "" : ",-1,-1");
}
static void change(napr_db_txn_t *t, int id, unsigned *r, int often)
{
    for (int i = 0; i < often; i++) {
        *r = *r * 1103515245u + 12345u;
        int k = (int) ((*r >> 16) % NK);
        napr_db_val_t kk = { .data = keys[k], .size = (size_t) keylen }, vv, gg;
        if ((*r >> 24) % 4 == 0) {
            apr_status_t s = napr_db_del(t, &kk, NULL);
            if (loglen < (int) sizeof(logbuf) - 4000) loglen += sprintf(logbuf + loglen, "d%d,%d,%d ", id, k + 1, s == APR_SUCCESS ? 0 : s == APR_NOTFOUND ? 1 : 2);
        } else {
            unsigned char b[600];
            unsigned x = ++counter;
            int n = 4 + (int) ((*r >> 20) % 3) * 250;
            memcpy(b, &x, 4);
            for (int j = 4; j < n; j++) b[j] = (unsigned char) (x + (unsigned) j);
            vv.data = b; vv.size = (size_t) n;
            if (napr_db_get(t, &kk, &gg) == APR_SUCCESS) napr_db_del(t, &kk, NULL);
            apr_status_t s = napr_db_put(t, &kk, &vv);
            if (loglen < (int) sizeof(logbuf) - 4000) loglen += sprintf(logbuf + loglen, "p%d,%d,%u,%d ", id, k + 1, x, s != APR_SUCCESS);
        }
    }
}
static void wbegin(struct me *m)
{
    m->wid = ++ntx;
    ev("B", m->wid);
    apr_status_t s = napr_db_txn_begin(env, 0, &m->w);
    ev(s ? "refused" : "b", m->wid);
    if (s) { m->w = NULL; return; }
    scan(m->w, m->wid);
    change(m->w, m->wid, &m->r, 1 + (int) (m->r >> 18) % 2);
    sched_point();
    scan(m->w, m->wid);
}
static void wend(struct me *m, char how)
{
    if (!m->w) return;
    if (how == 'f') { m->r = m->r * 1103515245u + 12345u; fault = 1 + (long) (m->r >> 20) % 6; static const int es[] = { EIO, ENOSPC, EDQUOT, EIO, EROFS, EFBIG }; fault_errno = es[(m->r >> 24) % 6]; }
    ev(how == 'a' ? "A" : "C", m->wid);
    apr_status_t s = how == 'a' ? napr_db_txn_abort(m->w) : napr_db_txn_commit(m->w);
    fault = how == 'f' && fault == 0 ? -1 : 0;
    ev(how == 'a' ? (s ? "refused" : "a") : s ? (fault == -1 ? "n" : "failed") : "c", m->wid);
    fault = 0;
    m->w = NULL;
}
static napr_db_txn_t *rbegin(int *id)
{
    napr_db_txn_t *t = NULL;
    *id = ++ntx;
    ev("R", *id);
    apr_status_t s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
    ev(s ? "refused" : "r", *id);
    return s ? NULL : t;
}
static void rend(napr_db_txn_t *t, int id)
{
    ev("E", id);
    apr_status_t s = id % 2 ? napr_db_txn_abort(t) : napr_db_txn_commit(t);
    ev(s ? "refused" : "e", id);
}
static void play(int who, const char *s)
{
    struct me *m = &me[who];
    int id;
    for (; *s && *s != '|' && *s != '+'; s++) {
        napr_db_txn_t *t;
        switch (*s) {
        case 'w': case 'a': case 'f': wbegin(m); wend(m, *s); break;
        case 'o': wbegin(m); break;
        case 'c': wend(m, 'w'); break;
        case 'r': if ((t = rbegin(&id))) { scan(t, id); sched_point(); scan(t, id); rend(t, id); } break;
        case 'l': m->l = rbegin(&m->lid); if (m->l) scan(m->l, m->lid); break;
        case 'k': if (m->l) scan(m->l, m->lid); break;
        case 'e': if (m->l) { scan(m->l, m->lid); rend(m->l, m->lid); m->l = NULL; } break;
        case 'h': if ((t = rbegin(&id))) { givent[ngiven] = id; given[ngiven++] = t; scan(t, id); } break;
        case 'y': sched_point(); break;
        }
    }
}
static void *thread(void *v) { int k = (int) (long) v; play(k, script[k]); return NULL; }
static unsigned dseed;
static void body(void *v)
{
    (void) v;
    pthread_t c[NT];
    apr_pool_t *pool;
    apr_pool_create(&pool, root);
    unlink(path);
    if (napr_db_env_create(&env, pool) || napr_db_env_set_mapsize(env, 256 * 4096) || napr_db_env_open(env, path, NAPR_DB_CREATE | (intra ? NAPR_DB_INTRAPROCESS_LOCK : 0))) { ev("refused", 0); return; }
    memset(me, 0, sizeof(me));
    ngiven = 0; ntx = 0; counter = 0;
    for (int i = 0; i < NT; i++) me[i].r = ((unsigned) i * 7919u + 17u) ^ (conf.strategy == SCHED_DFS ? dseed : (unsigned) curseed * 2654435761u);
    play(0, script[0]);
    for (int i = 1; i < nthreads; i++) pthread_create(&c[i], NULL, thread, (void *) (long) i);
    const char *bar = strchr(script[0], '|');
    if (bar) play(0, bar + 1);
    for (int i = 1; i < nthreads; i++) pthread_join(c[i], NULL);
    const char *plus = strchr(script[0], '+');
    if (plus) play(0, plus + 1);
    for (int i = 0; i < ngiven; i++) { scan(given[i], givent[i]); rend(given[i], givent[i]); }
    int id;
    napr_db_txn_t *t = rbegin(&id);
    if (t) { scan(t, id); rend(t, id); }
    napr_db_env_close(env);
    apr_pool_destroy(pool);
}

#define HS (1 << 16)
static char *seen[HS];
static unsigned cnt[HS];
static unsigned long long exe;
static void note(const char *extra)
{
    unsigned long long h = 1469598103934665603ULL;
    if (extra) snprintf(logbuf + loglen, 3000, "%s", extra);
    for (char *p = logbuf; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ULL;
    unsigned i = (unsigned) (h & (HS - 1));
    for (unsigned k = 0; k < HS; k++, i = (i + 1) & (HS - 1)) {
        if (!seen[i]) { seen[i] = strdup(logbuf); cnt[i] = 1; return; }
        if (!strcmp(seen[i], logbuf)) { cnt[i]++; return; }
    }
}
static void dump(int complete)
{
    for (unsigned i = 0; i < HS; i++) if (seen[i]) printf("H %u %s\n", cnt[i], seen[i]);
    printf("N %llu %d\n", exe, complete);
    fflush(stdout);
}
static void on_trouble(int kind)
{
    char t[2500];
    snprintf(t, sizeof t, "%s seed=%llu %s", kind == 1 ? "deadlock0" : "endless0", curseed, sched_trouble());
    note(t);
    exe++;
    dump(0);
    _exit(0);
}
int main(int argc, char **v)
{
    if (argc < 12) return 2;
    snprintf(path, sizeof path, "%s", v[1]);
    intra = atoi(v[2]);
    keylen = atoi(v[3]);
    for (int i = 0; i < NK; i++) { memset(keys[i], 'k', 2100); keys[i][0] = (unsigned char) ('a' + i); }
    char buf[1024];
    snprintf(buf, sizeof buf, "%s", v[4]);
    for (char *p = strtok(buf, ","); p; p = strtok(NULL, ",")) snprintf(script[nthreads++], 128, "%s", p);
    conf.strategy = !strcmp(v[5], "dfs") ? SCHED_DFS : !strcmp(v[5], "pct") ? SCHED_PCT : SCHED_RANDOM;
    unsigned long long seed = strtoull(v[6], 0, 10);
    long count = atol(v[7]);
    dseed = (unsigned) seed * 2654435761u;
    conf.mem = atoi(v[8]);
    conf.spurious = atoi(v[9]);
    conf.preempt = atoi(v[10]);
    conf.est = atol(v[11]);
    apr_initialize();
    apr_pool_create(&root, NULL);
    sched_on_trouble = on_trouble;
    sched_dfs_reset();
    int complete = 0;
    for (long k = 0; k < count; k++) {
        conf.seed = curseed = seed + (unsigned long long) k;
        loglen = 0;
        logbuf[0] = 0;
        sched_run(body, NULL, &conf);
        exe++;
        note(NULL);
        if (conf.strategy == SCHED_DFS && !sched_dfs_next()) { complete = 1; break; }
    }
    dump(complete);
    unlink(path);
    return 0;
}
