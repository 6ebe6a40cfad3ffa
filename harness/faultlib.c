/*
 * Preloaded into the command: injects file system faults and records calls that change files.
 *   FT_FAULTS = "path|kind|arg\n..."   kinds: stat open opendir mmap read short vanish shrink dtype delay alias (same inode number as arg, on another device)
 *   FT_CALLS  = file to which mutating calls are appended, one per line: "<call> <path>"
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <utime.h>

#define MAXR 64
static struct rule { char path[PATH_MAX]; char kind[16]; long arg; int done; } rules[MAXR];
static int nrules = -1;
static int callfd = -2;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long fdread[4096];
static int fdrule[4096];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static void load(void)
{
    pthread_mutex_lock(&mu);
    if (nrules < 0) {
        const char *e = getenv("FT_FAULTS");
        int n = 0;
        while (e && *e && n < MAXR) {
            const char *nl = strchr(e, '\n');
            size_t len = nl ? (size_t) (nl - e) : strlen(e);
            char buf[PATH_MAX + 64];
            if (len < sizeof buf) {
                memcpy(buf, e, len);
                buf[len] = 0;
                char *k = strrchr(buf, '|');
                if (k) {
                    *k = 0;
                    rules[n].arg = atol(k + 1);
                    char *p = strrchr(buf, '|');
                    if (p) {
                        *p = 0;
                        snprintf(rules[n].path, sizeof rules[n].path, "%s", buf);
                        snprintf(rules[n].kind, sizeof rules[n].kind, "%s", p + 1);
                        n++;
                    }
                }
            }
            e = nl ? nl + 1 : NULL;
        }
        nrules = n;
    }
    pthread_mutex_unlock(&mu);
}

static void absolute(const char *path, char *out)
{
    char tmp[PATH_MAX * 2];
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
    }
    /* lexical normalisation */
    size_t o = 0;
    char *s = tmp;
    out[0] = 0;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        size_t l = strcspn(s, "/");
        if (l == 1 && s[0] == '.') ;
        else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[o] != '/') o--; out[o] = 0; }
        else if (o + l + 2 < PATH_MAX) { out[o++] = '/'; memcpy(out + o, s, l); o += l; out[o] = 0; o = o; }
        s += l;
    }
    if (!out[0]) strcpy(out, "/");
}

/* a rule for "name*" covers every path beginning with name */
static int same(const char *rule, const char *path)
{
    size_t n = strlen(rule);
    return n && rule[n - 1] == '*' ? !strncmp(rule, path, n - 1) : !strcmp(rule, path);
}

static struct rule *find(const char *path, const char *kind)
{
    char a[PATH_MAX];
    load();
    if (nrules == 0 || !path) return NULL;
    absolute(path, a);
    for (int i = 0; i < nrules; i++)
        if (!strcmp(rules[i].kind, kind) && same(rules[i].path, a)) return &rules[i];
    return NULL;
}

static void called(const char *what, const char *path)
{
    if (callfd == -2) {
        const char *e = getenv("FT_CALLS");
        callfd = e ? (int) syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_APPEND | O_CLOEXEC) : -1;
    }
    if (callfd >= 0) {
        char a[PATH_MAX], line[PATH_MAX + 64];
        absolute(path ? path : "?", a);
        int n = snprintf(line, sizeof line, "%s %s\n", what, a);
        if (write(callfd, line, (size_t) n) < 0) {}
    }
}

static void hit(struct rule *r)
{
    static int hitfd = -2;
    if (hitfd == -2) {
        const char *e = getenv("FT_HITS");
        hitfd = e ? (int) syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_APPEND | O_CLOEXEC) : -1;
    }
    if (hitfd >= 0) {
        char line[32];
        int n = snprintf(line, sizeof line, "%d\n", (int) (r - rules));
        if (write(hitfd, line, (size_t) n) < 0) {}
    }
}

static void on_open(const char *path)
{
    struct rule *r = find(path, "vanish");
    if (r && !r->done) { r->done = 1; hit(r); syscall(SYS_unlink, path); }
    r = find(path, "shrink");
    if (r && !r->done) { r->done = 1; hit(r); syscall(SYS_truncate, path, r->arg); }
}

static void after_open(int fd, const char *path)
{
    if (fd < 0 || fd >= 4096) return;
    struct rule *r = find(path, "read");
    if (!r) r = find(path, "short");
    fdrule[fd] = r ? (int) (r - rules) + 1 : 0;
    fdread[fd] = 0;
    r = find(path, "mmap");
    if (r) fdrule[fd] = (int) (r - rules) + 1;
}

static int do_open(const char *path, int flags, mode_t mode, int (*real)(const char *, int, ...))
{
    struct rule *r = find(path, "open");
    if (r) { hit(r); errno = (int) r->arg; return -1; }
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) called("open-for-writing", path);
    on_open(path);
    int fd = real(path, flags, mode);
    after_open(fd, path);
    return fd;
}
#define OPENLIKE(name) int name(const char *path, int flags, ...) { mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, #name, const char *, int, ...); return do_open(path, flags, m, real); }
OPENLIKE(open)
OPENLIKE(open64)
int openat(int dfd, const char *path, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    REAL(int, "openat", int, const char *, int, ...);
    if (dfd == AT_FDCWD || path[0] == '/') {
        struct rule *r = find(path, "open");
        if (r) { hit(r); errno = (int) r->arg; return -1; }
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) called("open-for-writing", path);
        on_open(path);
        int fd = real(dfd, path, flags, m);
        after_open(fd, path);
        return fd;
    }
    return real(dfd, path, flags, m);
}
static void on_fopen(const char *path, const char *mode) { if (strpbrk(mode, "wa+")) called("open-for-writing", path); on_open(path); }
#define FSTATLIKE_DONE
FILE *fopen(const char *path, const char *mode)
{
    REAL(FILE *, "fopen", const char *, const char *);
    struct rule *r = find(path, "open");
    if (r) { hit(r); errno = (int) r->arg; return NULL; }
    on_fopen(path, mode);
    return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode)
{
    REAL(FILE *, "fopen64", const char *, const char *);
    struct rule *r = find(path, "open");
    if (r) { hit(r); errno = (int) r->arg; return NULL; }
    on_fopen(path, mode);
    return real(path, mode);
}
int close(int fd)
{
    REAL(int, "close", int);
    if (fd >= 0 && fd < 4096) fdrule[fd] = 0;
    return real(fd);
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (fd >= 0 && fd < 4096 && fdrule[fd] > 0) {
        struct rule *r = &rules[fdrule[fd] - 1];
        if (!strcmp(r->kind, "read")) {
            if (fdread[fd] >= r->arg) { hit(r); errno = EIO; return -1; }
            if ((long) n > r->arg - fdread[fd]) n = (size_t) (r->arg - fdread[fd]);
        }
        else if (!strcmp(r->kind, "short") && n > (size_t) r->arg) n = (size_t) r->arg;
        ssize_t k = real(fd, b, n);
        if (k > 0) fdread[fd] += k;
        return k;
    }
    return real(fd, b, n);
}
static int mmap_fails(int fd) { return fd >= 0 && fd < 4096 && fdrule[fd] > 0 && (!strcmp(rules[fdrule[fd] - 1].kind, "mmap") || !strcmp(rules[fdrule[fd] - 1].kind, "read")); }
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o)
{
    REAL(void *, "mmap", void *, size_t, int, int, int, off_t);
    if (mmap_fails(fd)) { errno = ENOMEM; return MAP_FAILED; }
    return real(a, l, p, f, fd, o);
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o)
{
    REAL(void *, "mmap64", void *, size_t, int, int, int, off_t);
    if (mmap_fails(fd)) { errno = ENOMEM; return MAP_FAILED; }
    return real(a, l, p, f, fd, o);
}
#define STATLIKE(name, T) int name(const char *path, T *st) { REAL(int, #name, const char *, T *); \
    struct rule *r = find(path, "stat"); if (r) { hit(r); errno = (int) r->arg; return -1; } \
    int rc = real(path, st); if (!rc && (r = find(path, "alias"))) { st->st_ino = (ino_t) r->arg; st->st_dev += 1; } return rc; }
STATLIKE(stat, struct stat)
STATLIKE(lstat, struct stat)
STATLIKE(stat64, struct stat64)
STATLIKE(lstat64, struct stat64)
int fstatat(int d, const char *path, struct stat *st, int fl)
{
    REAL(int, "fstatat", int, const char *, struct stat *, int);
    struct rule *r = (d == AT_FDCWD || path[0] == '/') ? find(path, "stat") : NULL;
    if (r) { hit(r); errno = (int) r->arg; return -1; }
    int rc = real(d, path, st, fl);
    if (!rc && (d == AT_FDCWD || path[0] == '/') && (r = find(path, "alias"))) { st->st_ino = (ino_t) r->arg; st->st_dev += 1; }
    return rc;
}
DIR *opendir(const char *path)
{
    REAL(DIR *, "opendir", const char *);
    struct rule *r = find(path, "opendir");
    if (r) { hit(r); errno = (int) r->arg; return NULL; }
    return real(path);
}
#define RD(name, T) T *name(DIR *d) { REAL(T *, #name, DIR *); T *e = real(d); load(); \
    if (e) for (int i = 0; i < nrules; i++) if (!strcmp(rules[i].kind, "dtype")) e->d_type = DT_UNKNOWN; return e; }
RD(readdir, struct dirent)
RD(readdir64, struct dirent64)

/* ---- calls that change the tree ---- */
#define M1(name, ...) REAL(int, #name, __VA_ARGS__)
int unlink(const char *p) { M1(unlink, const char *); called("unlink", p); return real(p); }
int remove(const char *p) { M1(remove, const char *); called("remove", p); return real(p); }
int rmdir(const char *p) { M1(rmdir, const char *); called("rmdir", p); return real(p); }
int mkdir(const char *p, mode_t m) { M1(mkdir, const char *, mode_t); called("mkdir", p); return real(p, m); }
int rename(const char *a, const char *b) { M1(rename, const char *, const char *); called("rename", a); called("rename", b); return real(a, b); }
int link(const char *a, const char *b) { M1(link, const char *, const char *); called("link", a); called("link", b); return real(a, b); }
int symlink(const char *a, const char *b) { M1(symlink, const char *, const char *); called("symlink", b); return real(a, b); }
int chmod(const char *p, mode_t m) { M1(chmod, const char *, mode_t); called("chmod", p); return real(p, m); }
int chown(const char *p, uid_t u, gid_t g) { M1(chown, const char *, uid_t, gid_t); called("chown", p); return real(p, u, g); }
int truncate(const char *p, off_t n) { M1(truncate, const char *, off_t); called("truncate", p); return real(p, n); }
int truncate64(const char *p, off64_t n) { M1(truncate64, const char *, off64_t); called("truncate", p); return real(p, n); }
int utime(const char *p, const struct utimbuf *t) { M1(utime, const char *, const struct utimbuf *); called("utime", p); return real(p, t); }
int utimes(const char *p, const struct timeval t[2]) { M1(utimes, const char *, const struct timeval *); called("utimes", p); return real(p, t); }
int unlinkat(int d, const char *p, int f) { M1(unlinkat, int, const char *, int); if (d == AT_FDCWD || p[0] == '/') called("unlinkat", p); return real(d, p, f); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { M1(utimensat, int, const char *, const struct timespec *, int); if (p && (d == AT_FDCWD || p[0] == '/')) called("utimensat", p); return real(d, p, t, f); }
static void on_fd(const char *what, int fd)
{
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n > 0) { p[n] = 0; if (p[0] == '/') called(what, p); }
}
int fchmod(int fd, mode_t m) { M1(fchmod, int, mode_t); on_fd("fchmod", fd); return real(fd, m); }
int ftruncate(int fd, off_t n) { M1(ftruncate, int, off_t); on_fd("ftruncate", fd); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { M1(ftruncate64, int, off64_t); on_fd("ftruncate", fd); return real(fd, n); }
int futimens(int fd, const struct timespec t[2]) { M1(futimens, int, const struct timespec *); on_fd("futimens", fd); return real(fd, t); }
int mkstemp(char *t) { REAL(int, "mkstemp", char *); int r = real(t); if (r >= 0) called("mkstemp", t); return r; }
int mkstemp64(char *t) { REAL(int, "mkstemp64", char *); int r = real(t); if (r >= 0) called("mkstemp", t); return r; }
int mkostemp(char *t, int f) { REAL(int, "mkostemp", char *, int); int r = real(t, f); if (r >= 0) called("mkstemp", t); return r; }
int openat64(int dfd, const char *path, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return openat(dfd, path, flags, m);
}
int linkat(int a, const char *p, int b, const char *q, int f) { M1(linkat, int, const char *, int, const char *, int); called("linkat", p); called("linkat", q); return real(a, p, b, q, f); }
int symlinkat(const char *t, int d, const char *q) { M1(symlinkat, const char *, int, const char *); called("symlinkat", q); return real(t, d, q); }
int mkdirat(int d, const char *q, mode_t m) { M1(mkdirat, int, const char *, mode_t); called("mkdirat", q); return real(d, q, m); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { M1(fchownat, int, const char *, uid_t, gid_t, int); called("fchownat", p); return real(d, p, u, g, f); }
int fchmodat(int d, const char *p, mode_t m, int f) { M1(fchmodat, int, const char *, mode_t, int); called("fchmodat", p); return real(d, p, m, f); }
int lchown(const char *p, uid_t u, gid_t g) { M1(lchown, const char *, uid_t, gid_t); called("lchown", p); return real(p, u, g); }
