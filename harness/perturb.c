/* Linked with -Wl,--wrap: random delays around the worker's steps, to vary the schedule of the checksum workers. */
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <apr_file_io.h>
#include <apr_thread_mutex.h>
#include <apr_thread_cond.h>
static __thread unsigned s;
static void jitter(void)
{
    if (!s) {
        const char *e = getenv("FT_JITTER");
        s = (unsigned) (e ? atoi(e) : 1) * 2654435761u + (unsigned) (unsigned long) &s;
    }
    s = s * 1103515245u + 12345u;
    unsigned r = (s >> 16) & 15;
    if (r == 0) usleep(2000 + ((s >> 20) & 2047));
    else if (r < 5) usleep((s >> 20) & 127);
}
extern apr_status_t __real_apr_file_open(apr_file_t **, const char *, apr_int32_t, apr_fileperms_t, apr_pool_t *);
apr_status_t __wrap_apr_file_open(apr_file_t **f, const char *n, apr_int32_t fl, apr_fileperms_t p, apr_pool_t *pool) { jitter(); return __real_apr_file_open(f, n, fl, p, pool); }
extern apr_status_t __real_apr_thread_mutex_lock(apr_thread_mutex_t *);
apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m) { jitter(); return __real_apr_thread_mutex_lock(m); }
extern apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *);
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m) { apr_status_t r = __real_apr_thread_mutex_unlock(m); jitter(); return r; }
extern apr_status_t __real_apr_file_close(apr_file_t *);
apr_status_t __wrap_apr_file_close(apr_file_t *f) { jitter(); return __real_apr_file_close(f); }
#include <puzzle.h>
extern int __real_puzzle_fill_cvec_from_file(PuzzleContext *, PuzzleCvec *, const char *) __attribute__((weak));
int __wrap_puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *f) { jitter(); int r = __real_puzzle_fill_cvec_from_file(c, v, f); jitter(); return r; }
