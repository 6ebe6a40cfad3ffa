/* db_open FILE: opens, closes, uses and damages database files, and prints what the real database answered.
 *
 * One history per line of input, on a file that does not exist at first; one JSON array per history.  Tokens:
 *   o<flags>,<map>  open; flags: c create, r read only, i lock within the process; map: n large enough, e exactly as large as the newest
 *                   state needs, s one page too small, t one page, u none set.  After a success the contents are read.
 *   w<key>,<value>  a transaction: put and commit
 *   x               close
 *   d<which>,<how>  damage: which n newest, o older meta page, b both; how m magic, v version, z zeroes, g garbage, h one bit of the magic
 *   k               file of two blank pages       e  empty file        s<n> n bytes of the file remain
 *   p               the last page the newest state needs is cut off     q  so much more is appended
 *   g<n>            file of n bytes of garbage     y<n> file of n zero bytes, the last one not     R  the file is removed
 * The values are stored with bulk, so that a state has several pages.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_db.h"
#define PG 4096
#define NK 3
static const char *path;
static apr_pool_t *root, *pool;
static napr_db_env_t *env;
static int first;

struct image { int there; size_t n; unsigned char *d; };
static struct image get(void)
{
    struct image r = { 0, 0, NULL };
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0) return r;
    fstat(fd, &st);
    r.there = 1; r.n = (size_t) st.st_size; r.d = malloc(r.n + 1);
    if (pread(fd, r.d, r.n, 0) != (ssize_t) r.n) exit(2);
    close(fd);
    return r;
}
static void set(const unsigned char *d, size_t n)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, d, n) != (ssize_t) n) exit(2);
    close(fd);
}
static int same(struct image *a, struct image *b) { return a->there == b->there && a->n == b->n && !memcmp(a->d ? a->d : (unsigned char *) "", b->d ? b->d : (unsigned char *) "", a->n); }
static int valid(const unsigned char *m) { uint32_t g, v; memcpy(&g, m, 4); memcpy(&v, m + 4, 4); return g == 0xDECAFBAD && v == 1; }
static uint64_t u64(const unsigned char *m, int off) { uint64_t x; memcpy(&x, m + off, 8); return x; }
static int newest(struct image *f)      /* slot of the newest valid meta page */
{
    int a = valid(f->d), b = valid(f->d + PG);
    if (a && b) return u64(f->d, 8) > u64(f->d + PG, 8) ? 0 : 1;
    return a ? 0 : b ? 1 : -1;
}
static size_t needed(struct image *f) { int s = f->n >= 2 * PG ? newest(f) : -1; return s < 0 ? 2 : (size_t) u64(f->d + s * PG, 24) + 1; }
static void evt(const char *o) { printf("%s{\"o\":\"%s\"", first ? "" : ",", o); first = 0; }
static int handles(void)        /* descriptors and mappings of the file held by this process */
{
    char t[64], l[4096], real[4096];
    int n = 0;
    if (!realpath(path, real)) snprintf(real, sizeof(real), "%s", path);
    DIR *d = opendir("/proc/self/fd");
    for (struct dirent *e; (e = readdir(d));) {
        snprintf(t, sizeof(t), "/proc/self/fd/%.20s", e->d_name);
        ssize_t k = readlink(t, l, sizeof(l) - 1);
        if (k > 0) { l[k] = 0; n += !strcmp(l, real); }
    }
    closedir(d);
    FILE *m = fopen("/proc/self/maps", "r");
    while (fgets(l, sizeof(l), m)) n += strstr(l, real) != NULL;
    fclose(m);
    return n;
}
static apr_status_t put1(napr_db_txn_t *t, const char *kn, const void *d, size_t n)
{
    napr_db_val_t k = { strlen(kn), (void *) kn }, v = { n, (void *) d };
    napr_db_del(t, &k, NULL);
    return napr_db_put(t, &k, &v);
}
static void contents(void)
{
    napr_db_txn_t *t;
    apr_status_t r = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
    printf(",\"c\":[");
    for (int i = 1; i <= NK; i++) {
        char kn[16]; int x = 0; napr_db_val_t v = { 0 };
        snprintf(kn, sizeof(kn), "k%d", i);
        napr_db_val_t k = { strlen(kn), kn };
        if (r) x = 900;
        else {
            apr_status_t g = napr_db_get(t, &k, &v);
            if (g == APR_SUCCESS) x = v.size == 1500 && ((unsigned char *) v.data)[0] == ((unsigned char *) v.data)[1499] ? ((unsigned char *) v.data)[0] : 901;
            else if (g != APR_NOTFOUND) x = 902;
        }
        printf("%s%d", i > 1 ? "," : "", x);
    }
    printf("]");
    if (!r) napr_db_txn_abort(t);
}
static void history(char *s)
{
    char *tok, *save = NULL;
    unlink(path);
    first = 1;
    printf("[");
    for (tok = strtok_r(s, " \n", &save); tok; tok = strtok_r(NULL, " \n", &save)) {
        char op = *tok++;
        struct image f = get();
        switch (op) {
        case 'o': {
            char *map = strchr(tok, ',') + 1;
            unsigned fl = 0;
            for (char *q = tok; *q != ','; q++) fl |= *q == 'c' ? NAPR_DB_CREATE : *q == 'r' ? NAPR_DB_RDONLY : NAPR_DB_INTRAPROCESS_LOCK;
            size_t need = needed(&f), bytes = *map == 'n' ? (need + 400) * PG : *map == 'e' ? need * PG : *map == 's' ? (need - 1) * PG : *map == 't' ? PG : 0;
            apr_pool_create(&pool, root);
            if (napr_db_env_create(&env, pool) != APR_SUCCESS) exit(2);
            if (bytes && napr_db_env_set_mapsize(env, bytes) != APR_SUCCESS) exit(2);
            apr_status_t r = napr_db_env_open(env, path, fl);
            struct image g = get();
            evt("open");
            *strchr(tok, ',') = 0;
            printf(",\"create\":%s,\"ro\":%s,\"map\":\"%c\",\"small\":%s,\"rc\":\"%s\",\"same\":%s", strchr(tok, 'c') ? "true" : "false", strchr(tok, 'r') ? "true" : "false", *map,
                   bytes < need * PG || bytes < 2 * PG ? "true" : "false", r ? "no" : "ok", same(&f, &g) ? "true" : "false");
            if (r) { printf(",\"c\":[],\"held\":%d", handles()); env = NULL; apr_pool_destroy(pool); }
            else { contents(); printf(",\"held\":0"); }
            printf("}");
            free(g.d);
            break; }
        case 'w': {
            long k = strtol(tok, &tok, 10), v = strtol(tok + 1, NULL, 10);
            if (!env) break;
            napr_db_txn_t *t; unsigned char b[1500]; char kn[16];
            memset(b, (int) v, sizeof(b));
            apr_status_t r = napr_db_txn_begin(env, 0, &t);
            if (!r) {
                snprintf(kn, sizeof(kn), "k%ld", k);
                r = put1(t, kn, b, sizeof(b));
                for (int i = 0; i < 6 && !r; i++) { snprintf(kn, sizeof(kn), "bulk%d", i); r = put1(t, kn, b, sizeof(b)); }
                if (r) napr_db_txn_abort(t); else r = napr_db_txn_commit(t);
            }
            struct image g = get();
            evt("put"); printf(",\"k\":%ld,\"v\":%ld,\"rc\":\"%s\",\"same\":%s", k, v, r ? "no" : "ok", same(&f, &g) ? "true" : "false");
            contents();
            printf("}");
            free(g.d);
            break; }
        case 'x':
            if (!env) break;
            napr_db_env_close(env);
            env = NULL;
            evt("close"); printf(",\"held\":%d}", handles());
            apr_pool_destroy(pool);
            break;
        case 'd': {
            if (f.n < 2 * PG) break;
            int nw = newest(&f), done = 0;
            for (int slot = 0; slot < 2; slot++) {
                if (!(*tok == 'b' || (nw >= 0 && (*tok == 'n') == (slot == nw)))) continue;
                unsigned char *m = f.d + slot * PG;
                switch (tok[2]) {
                case 'm': memcpy(m, "\x7f" "ELF", 4); break;
                case 'h': m[nw & 3] ^= (unsigned char) (1 << (f.n / PG % 8)); break;
                case 'v': m[4 + (f.n / PG) % 4] += 1; break;
                case 'z': memset(m, 0, PG); break;
                case 'g': for (int i = 0; i < PG; i++) m[i] = (unsigned char) (i * 37 + 11 + slot); break;
                }
                done = 1;
            }
            if (done) { set(f.d, f.n); evt("damage"); printf(",\"which\":\"%c\",\"zero\":%s}", *tok, tok[2] == 'z' ? "true" : "false"); }
            break; }
        case 'k': { unsigned char z[2 * PG] = { 0 }; set(z, sizeof(z)); evt("blank"); printf("}"); break; }
        case 'e': set((unsigned char *) "", 0); evt("empty"); printf("}"); break;
        case 's': { size_t n = strtoul(tok, NULL, 10); if (f.there && n < f.n) { set(f.d, n); evt("short"); printf("}"); } break; }
        case 'p': if (f.n >= 2 * PG && newest(&f) >= 0 && needed(&f) > 2 && needed(&f) * PG <= f.n) { set(f.d, (needed(&f) - 1) * PG); evt("cut"); printf("}"); } break;
        case 'q': if (f.n >= 2 * PG && newest(&f) >= 0) { f.d = realloc(f.d, f.n + 3 * PG); memset(f.d + f.n, 0x5a, 3 * PG); set(f.d, f.n + 3 * PG); evt("longer"); printf("}"); } break;
        case 'g': case 'y': {
            size_t n = strtoul(tok, NULL, 10);
            unsigned char *b = calloc(1, n + 1);
            if (op == 'g') for (size_t i = 0; i < n; i++) b[i] = (unsigned char) (i * 131 + (i >> 8) + 1); else b[n - 1] = 1;
            set(b, n); free(b);
            evt("foreign"); printf("}");
            break; }
        case 'R': unlink(path); evt("remove"); printf("}"); break;
        }
        free(f.d);
    }
    if (env) { napr_db_env_close(env); env = NULL; apr_pool_destroy(pool); }
    printf("]\n");
    fflush(stdout);
}
int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0;
    if (argc < 2) return 2;
    path = argv[1];
    apr_initialize();
    apr_pool_create(&root, NULL);
    while (getline(&line, &cap, stdin) > 0) history(line);
    unlink(path);
    return 0;
}
