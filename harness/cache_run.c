/* cache_run FILE: plays histories on the real cache and prints what it answered.
 *
 * Input lines:
 *   K hex hex ...   paths; path i is the i-th (from 1)
 *   H tokens        one history on a fresh cache file; one JSON array per history
 * Tokens: O open  Q close  R begin read  E end read  W begin write  C commit  A abort  D look every path up
 *         P a,b,v  store v+k for every k in a..b
 *         g k  look up     p k,v store    m k mark    M a,b,t mark a..b from t threads    S sweep    F n fail the n-th system call
 *
 * Built with the controlled scheduler (-DSCHED), M runs its threads under it, with the seed given as last argument.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_cache.h"
#ifdef SCHED
#include "sched.h"
static struct sched_conf conf;
#endif
static char path[4000], lock[4010];
static char *K[60002]; static int nk;
static apr_pool_t *root;
static napr_cache_t *ca;
static long fault; static int faulted;
static int failing(void) { if (fault > 0 && --fault == 0) { faulted = 1; return 1; } return 0; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (failing()) { errno = EIO; return -1; } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2 && failing()) { errno = EIO; return -1; } return syscall(SYS_write, fd, b, n); }
int fsync(int fd) { (void) fd; if (failing()) { errno = EIO; return -1; } return 0; }
int fdatasync(int fd) { return fsync(fd); }
int msync(void *a, size_t n, int f) { (void) a; (void) n; (void) f; if (failing()) { errno = EIO; return -1; } return 0; }
int ftruncate(int fd, off_t n) { if (failing()) { errno = ENOSPC; return -1; } return (int) syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

static void entry(napr_cache_entry_t *e, long v)
{
    memset(e, 0, sizeof(*e));
    e->mtime = (apr_time_t) v * 1000003 + (v % 3 ? 0 : (apr_time_t) 1 << 50);
    e->ctime = v % 5 ? (apr_time_t) v * 77 + 1 : -(apr_time_t) v;
    e->size = v % 4 ? (apr_off_t) v * 13 : ((apr_off_t) 1 << 40) + v;
    if (v % 7 == 0) e->size = 0;
    if (v % 11 == 0) e->mtime = 0;
    if (v % 13 == 0) e->ctime = 0;
    if (v % 17 == 0) e->mtime = -e->mtime - v;
    if (v % 19 == 0) e->size = -(apr_off_t) v;
    if (v % 23 == 0) { e->mtime = INT64_MIN; e->ctime = INT64_MAX; e->size = INT64_MAX; }
    e->hash.low64 = (uint64_t) v * 0x9E3779B97F4A7C15ull;
    e->hash.high64 = v % 29 ? ~((uint64_t) v * 0xC2B2AE3D27D4EB4Full) : v % 2 ? 0 : ~(uint64_t) 0;
}
static long vid(const napr_cache_entry_t *e)
{
    napr_cache_entry_t x, y;
    memcpy(&y, e, sizeof(y));
    long v = (long) (y.hash.low64 * 0xF1DE83E19937733Dull);     /* inverse of the multiplier */
    if (v < 0 || v > 1000000) return -1;
    entry(&x, v);
    return memcmp(&x, &y, sizeof(x)) ? -1 : v;
}
static const char *rcname(apr_status_t s) { return s == APR_SUCCESS ? "ok" : s == APR_NOTFOUND ? "nf" : s == APR_EAGAIN || s == APR_EACCES || s == APR_EBUSY ? "busy" : s == APR_ENOSPC ? "full" : "err"; }
static int first;
static void evt(const char *n, const char *f, ...)
{
    va_list a;
    printf("%s{\"o\":\"%s\"", first ? "" : ",", n);
    first = 0;
    va_start(a, f);
    vprintf(f, a);
    va_end(a);
    printf("}");
}
struct job { int a, b, s; apr_status_t rc; };
static void *marker(void *p)
{
    struct job *j = p;
    for (int k = j->a; k <= j->b; k += j->s) {
        char *c = strdup(K[k]);         /* the caller's copy does not outlive the call */
        apr_status_t s = napr_cache_mark_visited(ca, c);
        if (s) j->rc = s;
        memset(c, 'x', strlen(c));
        free(c);
    }
    return NULL;
}
static struct job jobs[16]; static int njobs;
static void marking(void *u)
{
    pthread_t t[16];
    (void) u;
    for (int i = 0; i < njobs; i++) pthread_create(&t[i], NULL, marker, &jobs[i]);
    for (int i = 0; i < njobs; i++) pthread_join(t[i], NULL);
}
static void history(char *s)
{
    char *tok;
    const napr_cache_entry_t *e;
    napr_cache_entry_t n;
    apr_pool_t *p;
    int inr = 0, inw = 0;
    apr_pool_create(&p, root);
    unlink(path); unlink(lock);
    ca = NULL; fault = 0; first = 1;
    printf("[");
    for (tok = strtok(s, " \n"); tok; tok = strtok(NULL, " \n")) {
        char op = *tok++;
        long a = strtol(tok, &tok, 10), b = *tok == ',' ? strtol(tok + 1, &tok, 10) : 0, c = *tok == ',' ? strtol(tok + 1, &tok, 10) : 0;
        apr_status_t r;
        switch (op) {
        case 'O': r = napr_cache_open(&ca, path, root); evt("open", ",\"rc\":\"%s\"", rcname(r)); if (r) goto out; break;
        case 'Q': r = napr_cache_close(ca); ca = NULL; evt("close", ",\"rc\":\"%s\"", rcname(r)); break;
        case 'R': r = napr_cache_begin_read(ca, p); inr = !r; evt("beginr", ",\"rc\":\"%s\"", rcname(r)); break;
        case 'E': r = napr_cache_end_read(ca); inr = 0; evt("endr", ",\"rc\":\"%s\"", rcname(r)); break;
        case 'W': r = napr_cache_begin_write(ca, p); inw = !r; evt("beginw", ",\"rc\":\"%s\"", rcname(r)); break;
        case 'C': r = napr_cache_commit_write(ca); inw = 0; evt("commit", ",\"rc\":\"%s\",\"fault\":%d", rcname(r), faulted); faulted = 0; fault = 0; break;
        case 'A': r = napr_cache_abort_write(ca); inw = 0; evt("abort", ",\"rc\":\"%s\"", rcname(r)); break;
        case 'g': e = NULL; r = napr_cache_lookup_in_txn(ca, K[a], &e); evt("get", ",\"k\":%ld,\"v\":%ld,\"rc\":\"%s\"", a, r ? 0 : vid(e), rcname(r)); break;
        case 'p': entry(&n, b); { char *cp = strdup(K[a]); r = napr_cache_upsert_in_txn(ca, cp, &n); free(cp); memset(&n, 0x55, sizeof(n)); }
            evt("put", ",\"k\":%ld,\"v\":%ld,\"ks\":%d,\"rc\":\"%s\"", a, b, (int) strlen(K[a]), rcname(r)); break;
        case 'P': {
            apr_status_t bad = 0;
            for (long k = a; k <= b; k++) { entry(&n, c + k); r = napr_cache_upsert_in_txn(ca, K[k], &n); if (r) bad = r; }
            evt("fill", ",\"a\":%ld,\"b\":%ld,\"v\":%ld,\"rc\":\"%s\"", a, b, c, rcname(bad)); break; }
        case 'm': { char *cp = strdup(K[a]); r = napr_cache_mark_visited(ca, cp); memset(cp, 'x', strlen(cp)); free(cp); } evt("mark", ",\"a\":%ld,\"b\":%ld,\"rc\":\"%s\"", a, a, rcname(r)); break;
        case 'M':
            njobs = (int) c;
            for (int i = 0; i < njobs; i++) { jobs[i].a = (int) a + i; jobs[i].b = (int) b; jobs[i].s = njobs; jobs[i].rc = 0; }
#ifdef SCHED
            conf.seed++;
            if (sched_run(marking, NULL, &conf)) { evt("stuck", ",\"rc\":\"err\""); goto out; }
#else
            marking(NULL);
#endif
            for (int i = 1; i < njobs; i++) if (jobs[i].rc) jobs[0].rc = jobs[i].rc;
            evt("mark", ",\"a\":%ld,\"b\":%ld,\"rc\":\"%s\"", a, b, rcname(jobs[0].rc)); break;
        case 'S': r = napr_cache_sweep(ca); evt("sweep", ",\"rc\":\"%s\",\"fault\":%d", rcname(r), faulted); faulted = 0; fault = 0; break;
        case 'F': fault = a; faulted = 0; break;
        case 'D': {
            int any = 0;
            const char *rc = "ok";
            printf("%s{\"o\":\"all\",\"d\":[", first ? "" : ",");
            first = 0;
            for (int k = 1; k <= nk; k++) {
                r = napr_cache_lookup_in_txn(ca, K[k], &e);
                if (!r) printf("%s[%d,%ld]", any++ ? "," : "", k, vid(e));
                else if (r != APR_NOTFOUND) rc = rcname(r);
            }
            printf("],\"rc\":\"%s\"}", rc);
            break; }
        default: fprintf(stderr, "bad token %c\n", op); exit(2);
        }
    }
    if (inr) napr_cache_end_read(ca);
    if (inw) napr_cache_abort_write(ca);
    if (ca) napr_cache_close(ca);
  out:
    apr_pool_destroy(p);
    printf("]\n");
    fflush(stdout);
}
int main(int c, char **v)
{
    char *line = NULL; size_t cap = 0;
    snprintf(path, sizeof path, "%s", v[1]);
    snprintf(lock, sizeof lock, "%s.lock", v[1]);
#ifdef SCHED
    conf.strategy = SCHED_RANDOM; conf.mem = 1; conf.preempt = 6; conf.seed = c > 2 ? strtoull(v[2], 0, 10) : 1;
#else
    (void) c;
#endif
    apr_initialize();
    apr_pool_create(&root, NULL);
    while (getline(&line, &cap, stdin) > 0) {
        if (*line == 'K') {
            nk = 0;
            for (char *t = strtok(line + 1, " \n"); t; t = strtok(NULL, " \n")) {
                size_t m = *t == '-' ? 0 : strlen(t) / 2;
                nk++;
                free(K[nk]); K[nk] = calloc(m + 1, 1);
                for (size_t i = 0; i < m; i++) { unsigned x; sscanf(t + 2 * i, "%2x", &x); K[nk][i] = (char) x; }
            }
        } else if (*line == 'H') history(line + 1);
    }
    unlink(path); unlink(lock);
    return 0;
}
