/* db_run FILE: plays histories on the real database and prints what it answered.
 *
 * Input lines:
 *   K hex hex ...        keys, in byte order; key i is the i-th (from 1); "-" is the empty key
 *   G n size step       instead of K: keys number i are i * step, in so many digits
 *   V size size ...      values; value i has this size, contents depend on i
 *   B pages intra tokens one history on a fresh database file, map of so many pages
 * Tokens (numbers, then "," separated): see run().  One JSON array per history.
 *
 * The file is only reached through the calls below, which keep a journal of what was written and synchronised; stores
 * through the memory map are found by comparing with a shadow of the file.  Crash images are made from the journal.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_db.h"
#define PAGE_SIZE 4096

#define SECT 512
static char path[4096], ipath[4096];
static int nk, nv;
static struct { unsigned char *d; size_t n; } K[140002], V[5000];

/* ---- journal ---- */
enum { J_W, J_T, J_S, J_C, J_R };       /* write, size, sync, commit begins, commit returned */
struct ev { int kind; off_t off; size_t n; unsigned char *d; int ok; };
static struct ev *J;
static int nj, cj, journalling;
static dev_t fdev; static ino_t fino; static int known;
static unsigned char *shadow; static size_t sn;
static long fault_in; static int fault_kind, faulted;
static uint64_t wrote[65536]; static int nwrote;      /* pages written since the last page report */

static void jadd(int kind, off_t off, const void *d, size_t n, int ok)
{
    if (!journalling) return;
    if (nj == cj) J = realloc(J, sizeof(*J) * (size_t) (cj = cj ? 2 * cj : 1024));
    J[nj].kind = kind; J[nj].off = off; J[nj].n = n; J[nj].d = NULL; J[nj].ok = ok;
    if (d && n) { J[nj].d = malloc(n); memcpy(J[nj].d, d, n); }
    nj++;
}
static void shadow_size(size_t n)
{
    if (n > sn) { shadow = realloc(shadow, n); memset(shadow + sn, 0, n - sn); }
    sn = n;
}
static int ours(int fd)
{
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    if (!known) { struct stat pt; if (stat(path, &pt)) return 0; fdev = pt.st_dev; fino = pt.st_ino; known = 1; }
    return st.st_dev == fdev && st.st_ino == fino;
}
static void note_page(off_t off, size_t n)
{
    for (uint64_t p = (uint64_t) off / PAGE_SIZE; n && p <= ((uint64_t) off + n - 1) / PAGE_SIZE; p++)
        if (nwrote < 65536) wrote[nwrote++] = p;
}
/* stores made through the map since the last look */
static void look(int fd)
{
    struct stat st;
    if (!journalling || fstat(fd, &st)) return;
    if ((size_t) st.st_size != sn) { shadow_size((size_t) st.st_size); jadd(J_T, st.st_size, NULL, 0, 1); }
    unsigned char *b = malloc(sn + 1);
    size_t got = 0;
    while (got < sn) { ssize_t r = syscall(SYS_pread64, fd, b + got, sn - got, got); if (r <= 0) break; got += (size_t) r; }
    for (size_t o = 0; o < got; o += SECT) {
        size_t n = got - o < SECT ? got - o : SECT;
        if (memcmp(b + o, shadow + o, n)) { jadd(J_W, (off_t) o, b + o, n, 1); memcpy(shadow + o, b + o, n); note_page((off_t) o, n); }
    }
    free(b);
}
static int failing(void)
{
    if (fault_in > 0 && --fault_in == 0) { faulted = 1; return 1; }
    return 0;
}
static void did_write(int fd, off_t off, const void *d, size_t n)
{
    (void) fd;
    int grows = (size_t) off + n > sn;
    if (grows) shadow_size((size_t) off + n);
    memcpy(shadow + off, d, n);
    jadd(J_W, off, d, n, 1 + grows);
    note_page(off, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
{
    if (!journalling || !ours(fd)) return syscall(SYS_pwrite64, fd, b, n, off);
    look(fd);
    if (failing()) {
        if (fault_kind != 1 || n < 2) { errno = fault_kind == 2 ? ENOSPC : EIO; return -1; }
        n = n / 2;              /* a short write; the next call fails */
        fault_in = 1;
        fault_kind = 0;
    }
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, off);
    if (r > 0) did_write(fd, off, b, (size_t) r);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) { return pwrite(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n)
{
    if (!journalling || !ours(fd)) return syscall(SYS_write, fd, b, n);
    off_t off = lseek(fd, 0, SEEK_CUR);
    ssize_t r = pwrite(fd, b, n, off);
    if (r > 0) lseek(fd, off + r, SEEK_SET);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!journalling || !ours(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
    return t;
}
int ftruncate(int fd, off_t n)
{
    if (!journalling || !ours(fd)) return (int) syscall(SYS_ftruncate, fd, n);
    look(fd);
    if (failing()) { errno = fault_kind == 2 ? ENOSPC : EIO; return -1; }
    int r = (int) syscall(SYS_ftruncate, fd, n);
    if (!r) { shadow_size((size_t) n); jadd(J_T, n, NULL, 0, 1); }
    return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
static int sync_fd(int fd)
{
    if (!journalling || !ours(fd)) return 0;
    look(fd);
    if (failing()) { errno = EIO; return -1; }
    jadd(J_S, 0, NULL, SIZE_MAX, 1);
    return 0;
}
int fsync(int fd) { return sync_fd(fd); }
int fdatasync(int fd) { return sync_fd(fd); }
static napr_db_env_t *env;
static char *map_at; static size_t map_n;
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off)
{
    void *r = (void *) syscall(SYS_mmap, a, n, prot, fl, fd, off);
    if (fd >= 0 && r != MAP_FAILED && journalling && ours(fd)) { map_at = r; map_n = n; }
    return r;
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap(a, n, prot, fl, fd, off); }
int msync(void *a, size_t n, int f)
{
    char *base = map_at;
    if (!journalling || !base || (char *) a < base || (char *) a >= base + map_n || !(f & MS_SYNC)) return 0;
    int fd = open(path, O_RDONLY);
    look(fd);
    close(fd);
    if (failing()) { errno = EIO; return -1; }
    jadd(J_S, (char *) a - base, NULL, n, 1);
    return 0;
}

/* ---- names ---- */
static unsigned char vbyte(int v, size_t i) { return i < 4 ? (unsigned char) (v >> (8 * i)) : (unsigned char) (v * 131 + (int) i * 7 + (int) (i >> 8) * 29 + 3); }
static int vid(const unsigned char *d, size_t n)
{
    if (n >= 4) { int v = d[0] | d[1] << 8 | d[2] << 16 | (int) ((unsigned) d[3] << 24); return v >= 1 && v <= nv && V[v].n == n && !memcmp(V[v].d, d, n) ? v : -1; }
    for (int i = 1; i <= nv; i++) if (V[i].n == n && !memcmp(V[i].d, d, n)) return i;
    return -1;
}
static int kid(const unsigned char *d, size_t n)
{
    int lo = 1, hi = nk;
    while (lo <= hi) {
        int m = (lo + hi) / 2;
        size_t c = n < K[m].n ? n : K[m].n;
        int r = memcmp(d, K[m].d, c);
        if (!r) r = n < K[m].n ? -1 : n > K[m].n;
        if (!r) return m;
        if (r < 0) hi = m - 1; else lo = m + 1;
    }
    return -1;
}
static const char *rcname(apr_status_t s)
{
    return s == APR_SUCCESS ? "ok" : s == APR_NOTFOUND ? "nf" : s == APR_EEXIST ? "exist" : s == APR_ENOSPC ? "full" : "err";
}

/* ---- output ---- */
static char *ob; static size_t on, oc;
static void put(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void put(const char *f, ...)
{
    va_list a;
    if (on + 70000 > oc) ob = realloc(ob, oc = oc ? 2 * oc : 1 << 20);
    va_start(a, f); on += (size_t) vsnprintf(ob + on, 60000, f, a); va_end(a);
}
static int first;
static void evt(const char *name) { put("%s\n{\"o\":\"%s\"", first ? "" : ",", name); first = 0; }

static int is_open;
static napr_db_txn_t *T[200];
static napr_db_cursor_t *C[20]; static int Ct[20];
static struct held { int t; void *p; unsigned char *copy; size_t n; } *held; static int nheld;
static apr_pool_t *root, *ep;
static unsigned long pages_of_map; static unsigned flags_of_env;
static int wide;                /* a history of very many keys or commits: no journal, no page reports */

static void dump(napr_db_txn_t *t, int back)
{
    napr_db_cursor_t *c = NULL;
    napr_db_val_t k, v;
    long n = 0;
    int any = 0;
    apr_status_t s = napr_db_cursor_open(t, &c);
    put(",\"d\":[");
    if (!s) {
        for (s = napr_db_cursor_get(c, &k, &v, back ? NAPR_DB_LAST : NAPR_DB_FIRST); !s && n < 150000; s = napr_db_cursor_get(c, &k, &v, back ? NAPR_DB_PREV : NAPR_DB_NEXT), n++)
            put("%s[%d,%d]", any++ ? "," : "", kid(k.data, k.size), vid(v.data, v.size));
        napr_db_cursor_close(c);
    }
    put("],\"rc\":\"%s\"", n >= 150000 ? "endless" : s == APR_NOTFOUND ? "ok" : rcname(s));
}
/* the file format, read from the file itself */
static unsigned char *fb; static size_t fn, fcap;
static uint64_t num(const unsigned char *p, int n) { uint64_t r = 0; while (n--) r = r << 8 | p[n]; return r; }
#define U16(p) ((int) num(p, 2))
#define U64(p) num(p, 8)
enum { BRANCH = 1, LEAF = 2 };
static unsigned char *page(uint64_t pg) { return fb + pg * PAGE_SIZE; }
static unsigned char *node(uint64_t pg, int i)
{
    int o = U16(page(pg) + 18 + 2 * i);
    if (o < 18 || o > PAGE_SIZE - 4) { o = 18; }
    return page(pg) + o;
}
static void load(void)
{
    struct stat st;
    int fd = open(path, O_RDONLY);
    fn = 0;
    if (fd < 0 || fstat(fd, &st)) return;
    if ((size_t) st.st_size + PAGE_SIZE > fcap) fb = realloc(fb, fcap = (size_t) st.st_size + 64 * PAGE_SIZE);
    while (fn < (size_t) st.st_size) { ssize_t r = syscall(SYS_pread64, fd, fb + fn, (size_t) st.st_size - fn, fn); if (r <= 0) break; fn += (size_t) r; }
    close(fd);
}

/* ---- page report ---- */
static uint64_t plist[300000]; static int np; static const char *pbad;
static void walk(uint64_t pg, uint64_t last, int depth)
{
    if (pg < 2 || pg > last || depth > 40 || np >= 300000) { pbad = "page number out of range"; return; }
    plist[np++] = pg;
    unsigned char *p = page(pg);
    int n = U16(p + 10);
    if (U64(p) != pg) pbad = "page does not carry its number";
    if (n > 2039) { pbad = "too many entries"; return; }
    if (U16(p + 8) & BRANCH) { if (!n) pbad = "branch without children"; for (int i = 0; i < n && !pbad; i++) walk(U64(node(pg, i)), last, depth + 1); }
    else if (!(U16(p + 8) & LEAF)) pbad = "neither leaf nor branch";
}
static void plist_put(const char *n)
{
    put(",\"%s\":[", n);
    for (int i = 0; i < np; i++) put("%s%llu", i ? "," : "", (unsigned long long) plist[i]);
    put("]");
}
static void frees(uint64_t pg)
{
    int n = U16(page(pg) + 10);
    for (int i = 0; i < n; i++) {
        unsigned char *l = node(pg, i);
        if (U16(page(pg) + 8) & BRANCH) { frees(U64(l)); continue; }
        int ks = U16(l), ds = U16(l + 2);
        if (l + 4 + ks + ds > page(pg) + PAGE_SIZE) { pbad = "free list entry out of its page"; return; }
        for (int o = 0; o + 8 <= ds && np < 300000; o += 8) plist[np++] = U64(l + 4 + ks + o);
    }
}
static void pages(void)
{
    if (wide) return;
    load();
    evt("pages");
    pbad = fn < 2 * PAGE_SIZE ? "no meta pages" : NULL;
    const unsigned char *m0 = fb, *m1 = fb + PAGE_SIZE, *m = m0;
    if (!pbad) {
        int v0 = num(m0, 4) == 0xDECAFBAD, v1 = num(m1, 4) == 0xDECAFBAD;
        m = v0 && (!v1 || U64(m0 + 8) > U64(m1 + 8)) ? m0 : m1;
    }
    uint64_t rootp = pbad ? 0 : U64(m + 16), last = pbad ? 1 : U64(m + 24), fdb = pbad ? 0 : U64(m + 32);
    if (!pbad && fn < (last + 1) * PAGE_SIZE) pbad = "file shorter than its pages";
    put(",\"last\":%llu,\"size\":%llu", (unsigned long long) last, (unsigned long long) (fn / PAGE_SIZE));
    np = 0;
    if (rootp && !pbad) walk(rootp, last, 0);
    plist_put("main");
    np = 0;
    if (fdb && !pbad) walk(fdb, last, 0);
    plist_put("fdb");
    np = 0;
    if (fdb && !pbad) frees(fdb);
    plist_put("free");
    np = 0;
    int fd = open(path, O_RDONLY);
    look(fd);
    close(fd);
    for (int i = 0; i < nwrote; i++) {
        int dup = wrote[i] < 2;
        for (int j = 0; j < np && !dup; j++) dup = plist[j] == wrote[i];
        if (!dup) plist[np++] = wrote[i];
    }
    nwrote = 0;
    plist_put("wrote");
    put(",\"bad\":\"%s\",\"rc\":\"%s\"}", pbad ? pbad : "", pbad ? "bad" : "ok");
}

static apr_status_t open_env(const char *p)
{
    apr_status_t s;
    apr_pool_create(&ep, root);
    env = NULL;
    s = napr_db_env_create(&env, ep);
    if (!s) s = napr_db_env_set_mapsize(env, pages_of_map * PAGE_SIZE);
    if (!s) s = napr_db_env_open(env, p, flags_of_env);
    is_open = !s;
    return s;
}
static void close_env(void) { if (env) napr_db_env_close(env); env = NULL; apr_pool_destroy(ep); ep = NULL; }

/* ---- crash images ---- */
static uint64_t rs;
static uint64_t rnd(uint64_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? rs % n : 0; }
static char **seen; static int nseen, cseen;
static int fresh_line(const char *s)
{
    for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], s)) return 0;
    if (nseen == cseen) seen = realloc(seen, sizeof(*seen) * (size_t) (cseen = cseen ? 2 * cseen : 256));
    seen[nseen++] = strdup(s);
    return 1;
}
static long nimages;
static unsigned char *dur, *img; static size_t dn, in, dcap, icap;
static void grow(unsigned char **b, size_t *cap, size_t *n, size_t to)
{
    if (to > *cap) { *b = realloc(*b, to + 65536); memset(*b + *cap, 0, to + 65536 - *cap); *cap = to + 65536; }
    if (to > *n) { memset(*b + *n, 0, to - *n); }
    *n = to;
}
static void apply(unsigned char **b, size_t *cap, size_t *n, const struct ev *e, uint64_t mask)
{
    if (e->kind == J_T) { grow(b, cap, n, (size_t) e->off); return; }
    /* a write that did not extend the file itself is lost together with the change of size it relied on */
    if (e->ok == 1 && (size_t) e->off + e->n > *n) return;
    for (size_t o = 0, i = 0; o < e->n; i++) {
        size_t end = ((size_t) e->off + o) / SECT * SECT + SECT - (size_t) e->off;
        if (end > e->n) end = e->n;
        if (mask >> (i % 64) & 1) { if ((size_t) e->off + end > *n) grow(b, cap, n, (size_t) e->off + end); memcpy(*b + e->off + o, e->d + o, end - o); }
        o = end;
    }
}
static sigjmp_buf jb;
static void on_crash(int s) { siglongjmp(jb, s); }
static void recover(int at, int done, int pend, int follow)
{
    (void) at;
    char head[100], *keep = ob;
    size_t keepn = on, keepc = oc;
    int keepf = first, keepj = journalling;
    napr_db_env_t *ke = env; apr_pool_t *kp = ep;
    napr_db_txn_t *t = NULL;
    nimages++;
    journalling = 0;
    int fd = open(ipath, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (in) { size_t o = 0; while (o < in) { ssize_t r = syscall(SYS_pwrite64, fd, img + o, in - o, o); if (r <= 0) abort(); o += (size_t) r; } }
    close(fd);
    ob = NULL; on = oc = 0; first = 1;
    sprintf(head, ",\"done\":%d,\"pend\":%d", done, pend);
    evt("crash");
    put("%s", head);
    unsigned kf = flags_of_env;
    flags_of_env |= NAPR_DB_CREATE;
    int sig = sigsetjmp(jb, 1);
    if (!sig) {
        signal(SIGSEGV, on_crash); signal(SIGBUS, on_crash);
        apr_status_t s = open_env(ipath);
        put(",\"open\":\"%s\"", rcname(s));
        size_t d1 = on;
        if (!s && !(s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t))) { dump(t, 0); napr_db_txn_abort(t); }
        else put(",\"d\":[],\"rc\":\"%s\"", rcname(s));
        const char *fo = "ok";
        if (!s && follow) {
            /* the recovered database works: two more commits, each undoing the other */
            napr_db_val_t k = { .data = (void *) "\xff\xff\xff\xff zz", .size = 7 }, v = { .data = (void *) "zz", .size = 2 }, g;
            for (int i = 0; i < 2 && !s; i++) {
                if ((s = napr_db_txn_begin(env, 0, &t))) break;
                s = i ? napr_db_del(t, &k, NULL) : napr_db_put(t, &k, &v);
                if (s) { napr_db_txn_abort(t); break; }
                s = napr_db_txn_commit(t);
            }
            size_t d2 = on;
            if (!s && !(s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t))) {
                if (napr_db_get(t, &k, &g) != APR_NOTFOUND) fo = "there";
                dump(t, 0);
                if (on - d2 != d2 - d1 || memcmp(ob + d1, ob + d2, d2 - d1)) fo = "changed";
                on = d2;
                napr_db_txn_abort(t);
            }
            if (s && s != APR_ENOSPC) fo = rcname(s);
        }
        put(",\"follow\":\"%s\"}", fo);
        if (is_open) close_env(); else { env = NULL; apr_pool_destroy(ep); }
    } else {
        on = 0; first = 1;
        evt("crash");
        put("%s,\"open\":\"signal\",\"d\":[],\"rc\":\"signal\",\"follow\":\"ok\"}", head);
    }
    signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
    flags_of_env = kf;
    env = ke; ep = kp; is_open = 1;
    char *line = ob;
    if (on) line[on] = 0;
    int nw = fresh_line(line);
    size_t ln = on;
    ob = keep; on = keepn; oc = keepc; first = keepf; journalling = keepj;
    if (nw) { while (on + ln + 100 > oc) ob = realloc(ob, oc = oc ? 2 * oc : 1 << 20); put("%s", first ? "" : ","); first = 0; memcpy(ob + on, line, ln); on += ln; }
    free(line);
}
static void crashes(long per, uint64_t seed, int from)
{
    int *p = malloc(sizeof(int) * (size_t) (nj + 1)), n = 0, done = 0, pend = 0;
    rs = seed * 2654435761u + 88172645463325252ull;
    nseen = 0;
    dn = 0; in = 0;
    free(dur); dur = NULL; dcap = 0; free(img); img = NULL; icap = 0;
    for (int i = 0; i <= nj; i++) {
        /* crash before event i; p[0..n) are written but not synchronised */
        if (i >= from && (i == nj || J[i].kind != J_C)) for (long v = 0; v < 2 + 2 * n + (n ? per : 0); v++) {
            if (n == 0 && v > 0) break;
            if (v >= 2 && v < 2 + 2 * n && n > 8 && rnd((uint64_t) n) > 8) continue;
            in = 0;
            grow(&img, &icap, &in, dn);
            if (dn) memcpy(img, dur, dn);
            for (int j = 0; j < n; j++) {
                uint64_t m = v == 0 ? 0 : v == 1 ? ~0ull : v < 2 + n ? (v - 2 == j ? ~0ull : 0) : v < 2 + 2 * n ? (v - 2 - n == j ? 0 : ~0ull)
                    : rnd(3) == 0 ? 0 : rnd(2) ? ~0ull : rnd(4) == 0 ? rnd(0) | rs : rnd(2) ? (1ull << (1 + rnd(7))) - 1 : ~((1ull << (1 + rnd(7))) - 1);
                if (m) apply(&img, &icap, &in, &J[p[j]], m);
            }
            recover(i, done, pend, (int) (rnd(4) == 0));
        }
        if (i == nj) break;
        if (J[i].kind == J_W || J[i].kind == J_T) p[n++] = i;
        else if (J[i].kind == J_S) {
            int k = 0;
            for (int j = 0; j < n; j++) {
                const struct ev *e = &J[p[j]];
                /* a partial synchronisation keeps what lies outside pending */
                if (J[i].n == SIZE_MAX || e->kind == J_T || (e->off >= J[i].off && e->off + (off_t) e->n <= J[i].off + (off_t) J[i].n)) apply(&dur, &dcap, &dn, e, ~0ull);
                else p[k++] = p[j];
            }
            n = k;
        }
        else if (J[i].kind == J_C) pend = 1;
        else if (J[i].ok) { pend = 0; done++; }       /* a failed commit may still come to light */
    }
    free(p);
}

static void drop_held(int t) { for (int i = 0; i < nheld; i++) if (held[i].t == t) { free(held[i].copy); held[i--] = held[--nheld]; } }
static void history(char *s)
{
    char *tok;
    for (int i = 0; i < nj; i++) free(J[i].d);
    nj = 0; known = 0; sn = 0; nwrote = 0; nheld = 0; nimages = 0; fault_in = 0; faulted = 0;
    memset(T, 0, sizeof(T)); memset(C, 0, sizeof(C));
    unlink(path);
    pages_of_map = strtoul(strtok(s, " \n"), NULL, 10);
    int fl = atoi(strtok(NULL, " \n"));
    flags_of_env = NAPR_DB_CREATE | (fl & 1 ? NAPR_DB_INTRAPROCESS_LOCK : 0);
    wide = fl >> 1;
    on = 0; first = 1;
    put("[");
    journalling = !wide;
    apr_status_t rc = open_env(path);
    evt("open"); put(",\"rc\":\"%s\"}", rcname(rc));
    if (!rc) pages();
    while (!rc && (tok = strtok(NULL, " \n"))) {
        char op = *tok++;
        long a = strtol(tok, &tok, 10), b = *tok == ',' ? strtol(tok + 1, &tok, 10) : 0, c = *tok == ',' ? strtol(tok + 1, &tok, 10) : 0;
        napr_db_val_t k, v;
        apr_status_t r;
        if ((strchr("exgHDUG", op) && a > 0 && !T[a])) continue;
        switch (op) {
        case 'W': r = napr_db_txn_begin(env, 0, &T[0]); evt("begin"); put(",\"t\":0,\"rc\":\"%s\"}", rcname(r)); break;
        case 'r': r = napr_db_txn_begin(env, NAPR_DB_RDONLY, &T[a]); evt("begin"); put(",\"t\":%ld,\"rc\":\"%s\"}", a, rcname(r)); if (r) T[a] = NULL; break;
        case 'C': jadd(J_C, 0, NULL, 0, 0); r = napr_db_txn_commit(T[0]); T[0] = NULL;
            { int fd = open(path, O_RDONLY); if (fd >= 0) { look(fd); close(fd); } }
            jadd(J_R, 0, NULL, 0, !r); evt("commit"); put(",\"rc\":\"%s\",\"fault\":%d}", rcname(r), faulted); faulted = 0; fault_in = 0; if (!r) pages(); break;
        case 'A': r = napr_db_txn_abort(T[0]); T[0] = NULL; evt("abort"); put(",\"rc\":\"%s\"}", rcname(r)); break;
        case 'e': case 'x': drop_held((int) a); r = op == 'e' ? napr_db_txn_commit(T[a]) : napr_db_txn_abort(T[a]); T[a] = NULL; evt("end"); put(",\"t\":%ld,\"rc\":\"%s\"}", a, rcname(r)); break;
        case 'p': k.data = K[a].d; k.size = K[a].n; v.data = V[b].d; v.size = V[b].n;
            r = napr_db_put(T[0], &k, &v); evt("put"); put(",\"k\":%ld,\"v\":%ld,\"ks\":%zu,\"vs\":%zu,\"rc\":\"%s\"}", a, b, K[a].n, V[b].n, rcname(r)); break;
        case 'd': k.data = K[a].d; k.size = K[a].n; r = napr_db_del(T[0], &k, NULL); evt("del"); put(",\"k\":%ld,\"rc\":\"%s\"}", a, rcname(r)); break;
        case 'q': k.data = K[a].d; k.size = K[a].n; v.data = V[b].d; v.size = V[b].n;
            r = napr_db_del(T[0], &k, &v); evt("cdel"); put(",\"k\":%ld,\"v\":%ld,\"rc\":\"%s\"}", a, b, rcname(r)); break;
        case 'g': k.data = K[b].d; k.size = K[b].n; memset(&v, 0, sizeof(v)); r = napr_db_get(T[a], &k, &v);
            evt("get"); put(",\"t\":%ld,\"k\":%ld,\"v\":%d,\"rc\":\"%s\"}", a, b, r ? 0 : vid(v.data, v.size), rcname(r));
            if (!r && a > 0) { held = realloc(held, sizeof(*held) * (size_t) (nheld + 1)); held[nheld].t = (int) a; held[nheld].p = v.data; held[nheld].n = v.size; held[nheld].copy = malloc(v.size + 1); memcpy(held[nheld++].copy, v.data, v.size); }
            break;
        case 'H': { int ok = 1; for (int i = 0; i < nheld; i++) if (held[i].t == a && memcmp(held[i].p, held[i].copy, held[i].n)) ok = 0; evt("held"); put(",\"t\":%ld,\"rc\":\"%s\"}", a, ok ? "ok" : "changed"); break; }
        case 'D': case 'U': evt(op == 'D' ? "scan" : "back"); put(",\"t\":%ld", a); dump(T[a], op == 'U'); put("}"); break;
        case 'c': r = napr_db_cursor_open(T[b], &C[a]); Ct[a] = (int) b; evt("cursor"); put(",\"c\":%ld,\"t\":%ld,\"rc\":\"%s\"}", a, b, rcname(r)); break;
        case 'z': r = napr_db_cursor_close(C[a]); C[a] = NULL; evt("cclose"); put(",\"c\":%ld,\"rc\":\"%s\"}", a, rcname(r)); break;
        case 'f': case 'l': case 'n': case 'v': case 't': case 's': case 'S': {
            static const char *names[] = { "first", "last", "next", "prev", "set", "range", "current" };
            int o = op == 'f' ? NAPR_DB_FIRST : op == 'l' ? NAPR_DB_LAST : op == 'n' ? NAPR_DB_NEXT : op == 'v' ? NAPR_DB_PREV : op == 's' ? NAPR_DB_SET : op == 'S' ? NAPR_DB_SET_RANGE : NAPR_DB_GET_CURRENT;
            memset(&k, 0, sizeof(k)); memset(&v, 0, sizeof(v));
            if (op == 's' || op == 'S') { k.data = K[b].d; k.size = K[b].n; }
            r = napr_db_cursor_get(C[a], &k, &v, (napr_db_cursor_op_t) o);
            evt("cur"); put(",\"c\":%ld,\"t\":%d,\"m\":\"%s\",\"k\":%ld,\"rk\":%d,\"rv\":%d,\"rc\":\"%s\"}", a, Ct[a], names[o], b, r ? 0 : kid(k.data, k.size), r ? 0 : vid(v.data, v.size), rcname(r));
            break; }
        case 'O': close_env(); known = 0; rc = open_env(path); evt("open"); put(",\"rc\":\"%s\"}", rcname(rc)); if (!rc) pages(); break;
        case 'P': case 'E': {   /* puts or deletes of a whole range */
            long odd = 0;
            apr_status_t bad = APR_SUCCESS;
            for (long i = a; i <= b && !bad; i++) {
                int x = 1 + (int) ((c + 7 * i) % nv);
                k.data = K[i].d; k.size = K[i].n; v.data = V[x].d; v.size = V[x].n;
                if (op == 'E' && (i - a) % c) continue;
                r = op == 'P' ? napr_db_put(T[0], &k, &v) : napr_db_del(T[0], &k, NULL);
                if (r == (op == 'P' ? APR_EEXIST : APR_NOTFOUND)) odd++; else bad = r;
            }
            evt(op == 'P' ? "fill" : "clear"); put(",\"a\":%ld,\"b\":%ld,\"c\":%ld,\"nv\":%d,\"odd\":%ld,\"rc\":\"%s\"}", a, b, c, nv, odd, rcname(bad));
            break; }
        case 'G': {             /* all keys looked up */
            evt("all"); put(",\"t\":%ld,\"d\":[", a);
            const char *bad = "ok";
            for (int i = 1; i <= nk; i++) {
                k.data = K[i].d; k.size = K[i].n; memset(&v, 0, sizeof(v)); r = napr_db_get(T[a], &k, &v);
                if (r && r != APR_NOTFOUND) bad = rcname(r);
                put("%s%d", i > 1 ? "," : "", r ? 0 : vid(v.data, v.size));
            }
            put("],\"rc\":\"%s\"}", bad);
            break; }
        case 'Q': {             /* so many commits, each of one put of key a */
            apr_status_t bad = APR_SUCCESS;
            for (long i = 1; i <= b && !bad; i++) {
                int x = 1 + (int) (i % nv);
                k.data = K[a].d; k.size = K[a].n; v.data = V[x].d; v.size = V[x].n;
                if (!(bad = napr_db_txn_begin(env, 0, &T[0])) && !(bad = napr_db_put(T[0], &k, &v))) bad = napr_db_txn_commit(T[0]);
                T[0] = NULL;
            }
            evt("spin"); put(",\"k\":%ld,\"v\":%ld,\"rc\":\"%s\"}", a, 1 + b % nv, rcname(bad));
            break; }
        case 'Y': { int keep = wide; wide = 0; pages(); wide = keep; break; }
        case 'L': evt("level"); put(",\"mult\":%ld,\"slack\":%ld,\"rc\":\"ok\"}", a, b); break;
        case 'F': fault_in = a; fault_kind = (int) b; faulted = 0; break;
        case 'X': { int keep = journalling; { int fd = open(path, O_RDONLY); look(fd); close(fd); } crashes(a, (uint64_t) b, c ? (int) (nj * c / 100) : 0); journalling = keep; evt("crashed"); put(",\"images\":%ld,\"rc\":\"ok\"}", nimages); break; }
        default: fprintf(stderr, "bad token %c\n", op); exit(2);
        }
    }
    for (int i = 1; i < 200; i++) if (T[i]) napr_db_txn_abort(T[i]);
    if (T[0]) napr_db_txn_abort(T[0]);
    journalling = 0;
    if (is_open) close_env(); else { env = NULL; apr_pool_destroy(ep); ep = NULL; }
    for (int i = 0; i < nheld; i++) free(held[i].copy);
    nheld = 0;
    put("\n]");
    for (size_t i = 0; i < on; i++) if (ob[i] == '\n') ob[i] = ' ';
    fwrite(ob, 1, on, stdout);
    putchar('\n');
    fflush(stdout);
}

int main(int c, char **v)
{
    (void) c;
    char *line = NULL; size_t cap = 0;
    snprintf(path, sizeof(path), "%s", v[1]);
    snprintf(ipath, sizeof(ipath), "%s.img", v[1]);
    apr_initialize();
    apr_pool_create(&root, NULL);
    while (getline(&line, &cap, stdin) > 0) {
        if (*line == 'K' || *line == 'V') {
            int isk = *line == 'K', n = 0;
            for (char *t = strtok(line + 1, " \n"); t; t = strtok(NULL, " \n")) {
                n++;
                if (isk) {
                    size_t m = *t == '-' ? 0 : strlen(t) / 2;
                    free(K[n].d); K[n].d = malloc(m + 1); K[n].n = m;
                    for (size_t i = 0; i < m; i++) { unsigned x; sscanf(t + 2 * i, "%2x", &x); K[n].d[i] = (unsigned char) x; }
                } else {
                    size_t m = strtoul(t, NULL, 10);
                    free(V[n].d); V[n].d = malloc(m + 1); V[n].n = m;
                    for (size_t i = 0; i < m; i++) V[n].d[i] = vbyte(n, i);
                }
            }
            if (isk) nk = n; else nv = n;
        } else if (*line == 'G') {
            int size, step;
            sscanf(line + 1, "%d %d %d", &nk, &size, &step);
            for (int i = 1; i <= nk; i++) { free(K[i].d); K[i].d = malloc((size_t) size + 20); K[i].n = (size_t) size; sprintf((char *) K[i].d, "%0*d", size, i * step); }
        } else if (*line == 'B') history(line + 1);
    }
    unlink(path); unlink(ipath);
    return 0;
}
