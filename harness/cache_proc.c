/* cache_proc FILE: one process working on a cache, led by the lines of its standard input.
 *   open | close | put K V | all | quit
 * Before every system call the cache makes, it prints "@call" and waits for a line "go"; the answer to a command is a
 * line starting with "=".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_cache.h"
static int stepping;
static void say(const char *f, ...)
{
    char b[8000];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (syscall(SYS_write, 1, b, n) != n) _exit(3);
}
static void hear(char *b, int max)
{
    int n = 0;
    for (; n < max - 1; n++) { if (syscall(SYS_read, 0, b + n, 1) != 1) _exit(0); if (b[n] == '\n') break; }
    b[n] = 0;
}
static void step(const char *what) { char b[64]; if (!stepping) return; say("@%s\n", what); hear(b, sizeof b); }
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE step("open"); return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE step("open"); return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE step("open"); return (int) syscall(SYS_openat, d, p, fl, m); }
int close(int fd) { step("close"); return (int) syscall(SYS_close, fd); }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void *x = va_arg(a, void *); va_end(a); if (c == F_SETLK || c == F_SETLKW || c == F_OFD_SETLK) step("lock"); return (int) syscall(SYS_fcntl, fd, c, x); }
int fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); void *x = va_arg(a, void *); va_end(a); if (c == F_SETLK || c == F_SETLKW || c == F_OFD_SETLK) step("lock"); return (int) syscall(SYS_fcntl, fd, c, x); }
int flock(int fd, int o) { step("lock"); return (int) syscall(SYS_flock, fd, o); }
int ftruncate(int fd, off_t n) { step("truncate"); return (int) syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { step("truncate"); return (int) syscall(SYS_ftruncate, fd, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { step("write"); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { step("write"); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2) step("write"); return syscall(SYS_write, fd, b, n); }
int fsync(int fd) { (void) fd; step("sync"); return 0; }
int fdatasync(int fd) { (void) fd; step("sync"); return 0; }
int unlink(const char *p) { step("unlink"); return (int) syscall(SYS_unlink, p); }
int rename(const char *a, const char *b) { step("rename"); return (int) syscall(SYS_rename, a, b); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (fd >= 0) step("map"); return (void *) syscall(SYS_mmap, a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (fd >= 0) step("map"); return (void *) syscall(SYS_mmap, a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) { if (n > (1u << 28)) step("unmap"); return (int) syscall(SYS_munmap, a, n); }

#define NK 8
static void key(char *b, long k) { sprintf(b, "/path/%ld", k); }
static const char *rcname(apr_status_t s) { return s == APR_SUCCESS ? "ok" : s == APR_NOTFOUND ? "nf" : APR_STATUS_IS_EAGAIN(s) || APR_STATUS_IS_EACCES(s) || s == APR_FROM_OS_ERROR(EBUSY) ? "busy" : "fail"; }
static void died(int s) { say("=died %d\n", s); _exit(4); }
int main(int c, char **v)
{
    (void) c;
    char line[256], k[64];
    apr_pool_t *root, *p;
    napr_cache_t *ca = NULL;
    signal(SIGBUS, died); signal(SIGSEGV, died); signal(SIGABRT, died);
    apr_initialize();
    apr_pool_create(&root, NULL);
    for (;;) {
        hear(line, sizeof line);
        apr_pool_create(&p, root);
        stepping = 1;
        if (!strcmp(line, "open")) {
            apr_status_t s = napr_cache_open(&ca, v[1], root);
            stepping = 0;
            if (s) ca = NULL;
            say("=open %s\n", rcname(s));
        } else if (!strcmp(line, "close")) {
            apr_status_t s = napr_cache_close(ca);
            stepping = 0;
            ca = NULL;
            say("=close %s\n", rcname(s));
        } else if (!strncmp(line, "put ", 4)) {
            long kk, vv;
            napr_cache_entry_t e;
            sscanf(line + 4, "%ld %ld", &kk, &vv);
            memset(&e, 0, sizeof e);
            e.size = vv; e.mtime = vv + 1; e.ctime = vv + 2; e.hash.low64 = (uint64_t) vv; e.hash.high64 = ~(uint64_t) vv;
            key(k, kk);
            apr_status_t s = napr_cache_begin_write(ca, p);
            if (!s) { s = napr_cache_upsert_in_txn(ca, k, &e); if (s) napr_cache_abort_write(ca); else s = napr_cache_commit_write(ca); }
            stepping = 0;
            say("=put %s\n", rcname(s));
        } else if (!strcmp(line, "all")) {
            char b[1000];
            int n = 0;
            apr_status_t s = napr_cache_begin_read(ca, p), t;
            for (long i = 1; i <= NK && !s; i++) {
                const napr_cache_entry_t *e = NULL;
                key(k, i);
                t = napr_cache_lookup_in_txn(ca, k, &e);
                if (!t) n += sprintf(b + n, " %ld:%ld", i, e->mtime == e->size + 1 && e->ctime == e->size + 2 && e->hash.low64 == (uint64_t) e->size && e->hash.high64 == ~(uint64_t) e->size ? (long) e->size : -1L);
                else if (t != APR_NOTFOUND) s = t;
            }
            if (!s) s = napr_cache_end_read(ca);
            stepping = 0;
            say("=all %s%.*s\n", rcname(s), n, b);
        } else return 0;
        stepping = 0;
        apr_pool_destroy(p);
    }
}
