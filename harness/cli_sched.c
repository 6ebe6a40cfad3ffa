/*
 * cli_sched STRATEGY SEED COUNT MEM SPURIOUS PREEMPT EST ARG...
 * The whole command, many times, its threads under the controlled scheduler (scheduling points: pthread calls, file opening, closing and
 * reading, image loading, and with MEM the memory accesses of the instrumented sources).  Prints every distinct outcome once:
 * "O <count> <exit status> <standard output, or with FT_SCHED_ERR standard error, in hex>", and "N <executions> <space exhausted>".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <apr_file_io.h>
#include <apr_mmap.h>
#include <puzzle.h>
#include "sched.h"

extern int ftwin_main(int argc, const char **argv);
extern apr_status_t __real_apr_file_open(apr_file_t **, const char *, apr_int32_t, apr_fileperms_t, apr_pool_t *);
apr_status_t __wrap_apr_file_open(apr_file_t **f, const char *n, apr_int32_t fl, apr_fileperms_t p, apr_pool_t *pool) { sched_point(); apr_status_t r = __real_apr_file_open(f, n, fl, p, pool); sched_point(); return r; }
extern apr_status_t __real_apr_file_close(apr_file_t *);
apr_status_t __wrap_apr_file_close(apr_file_t *f) { sched_point(); return __real_apr_file_close(f); }
extern apr_status_t __real_apr_file_read(apr_file_t *, void *, apr_size_t *);
apr_status_t __wrap_apr_file_read(apr_file_t *f, void *b, apr_size_t *n) { apr_status_t r = __real_apr_file_read(f, b, n); sched_point(); return r; }
extern apr_status_t __real_apr_mmap_delete(apr_mmap_t *);
apr_status_t __wrap_apr_mmap_delete(apr_mmap_t *m) { sched_point(); return __real_apr_mmap_delete(m); }
extern int __real_puzzle_fill_cvec_from_file(PuzzleContext *, PuzzleCvec *, const char *);
int __wrap_puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *f) { sched_point(); int r = __real_puzzle_fill_cvec_from_file(c, v, f); sched_point(); return r; }

static int argc_;
static const char **argv_;
static int rc_, out_, real_out;
static char *buf;
static size_t cap;
static struct outcome { int rc; size_t n; char *s; long count; } *seen;
static int nseen;
static long exe;

static void note(int rc, const char *s, size_t n)
{
    for (int i = 0; i < nseen; i++) if (seen[i].rc == rc && seen[i].n == n && !memcmp(seen[i].s, s, n)) { seen[i].count++; return; }
    seen = realloc(seen, sizeof *seen * (size_t) (nseen + 1));
    seen[nseen].rc = rc; seen[nseen].n = n; seen[nseen].count = 1;
    seen[nseen].s = malloc(n + 1);
    memcpy(seen[nseen].s, s, n);
    nseen++;
}
static void dump(int complete)
{
    fflush(stdout);
    dup2(real_out, 1);
    for (int i = 0; i < nseen; i++) {
        printf("O %ld %d ", seen[i].count, seen[i].rc);
        for (size_t k = 0; k < seen[i].n; k++) printf("%02x", (unsigned char) seen[i].s[k]);
        printf("\n");
    }
    printf("N %ld %d\n", exe, complete);
    fflush(stdout);
}
static void body(void *v)
{
    (void) v;
    rc_ = ftwin_main(argc_, argv_);
}
static void on_trouble(int kind)
{
    note(kind == 1 ? 1001 : 1002, sched_trouble(), strlen(sched_trouble()));
    exe++;
    dump(0);
    _exit(0);
}
int main(int argc, char **v)
{
    static struct sched_conf conf;
    conf.strategy = !strcmp(v[1], "dfs") ? SCHED_DFS : !strcmp(v[1], "pct") ? SCHED_PCT : SCHED_RANDOM;
    unsigned long long seed = strtoull(v[2], 0, 10);
    long count = atol(v[3]);
    conf.mem = atoi(v[4]);
    conf.spurious = atoi(v[5]);
    conf.preempt = atoi(v[6]);
    conf.est = atol(v[7]);
    argc_ = argc - 7;
    argv_ = (const char **) v + 7;
    argv_[0] = "ftwin";
    real_out = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    out_ = memfd_create("out", 0);
    /* the stream that is observed */
    int err = getenv("FT_SCHED_ERR") != NULL;
    dup2(err ? out_ : nul, 2);
    dup2(err ? nul : out_, 1);
    sched_on_trouble = on_trouble;
    sched_dfs_reset();
    int complete = 0;
    for (long k = 0; k < count; k++) {
        conf.seed = seed + (unsigned long long) k;
        if (ftruncate(out_, 0) || lseek(out_, 0, SEEK_SET)) return 2;
        sched_run(body, NULL, &conf);
        fflush(stdout);
        exe++;
        size_t n = (size_t) lseek(out_, 0, SEEK_END);
        if (n + 1 > cap) buf = realloc(buf, cap = n + 1);
        if (pread(out_, buf, n, 0) != (ssize_t) n) return 2;
        note(rc_, buf, n);
        if (nseen > 200) break;
        if (conf.strategy == SCHED_DFS && !sched_dfs_next()) { complete = 1; break; }
    }
    dump(complete);
    return 0;
}
