/*
 * Plays operation words into the real heap and hash table; one JSON list of answered operations per input line.
 *   H <cmp> <locked> op...      i<rank> insert, x extract, s size, n<k> element at k, a all positions and two beyond
 *   T <nel> <ffactor> <mode> op...   s<k> store unless present, f<k> search, r<k> remove, a iterate
 */
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_heap.h"
#include "napr_hash.h"
#include "key_hash.h"

struct el { int id; long rank; };
static int cmode;
static int cmp(const void *a, const void *b)
{
    long x = ((const struct el *) a)->rank, y = ((const struct el *) b)->rank;
    int r = x < y ? -1 : x > y;
    if (cmode == 1) return r * 0x7fffffff;
    if (cmode == 2) return -r;
    return r;
}
static void heap_line(char *s, apr_pool_t *pool)
{
    int n, locked, ids = 0, first = 1;
    sscanf(s, "%d %d%n", &cmode, &locked, &n);
    s += n;
    napr_heap_t *h = locked ? napr_heap_make_r(pool, cmp) : napr_heap_make(pool, cmp);
    printf("[");
    for (char *t = strtok(s, " \n"); t; t = strtok(NULL, " \n")) {
        long v = atol(t + 1);
        if (!first) printf(",");
        first = 0;
        if (*t == 'i') {
            struct el *e = apr_palloc(pool, sizeof *e);
            e->id = ++ids;
            e->rank = v;
            int rc = locked ? napr_heap_insert_r(h, e) : napr_heap_insert(h, e);
            printf("{\"op\":\"i\",\"id\":%d,\"r\":%ld,\"rc\":%d}", e->id, cmode == 2 ? -v : v, rc);
        }
        else if (*t == 'x') { struct el *e = napr_heap_extract(h); printf("{\"op\":\"x\",\"id\":%d}", e ? e->id : 0); }
        else if (*t == 's') printf("{\"op\":\"s\",\"n\":%u}", napr_heap_size(h));
        else if (*t == 'n') { struct el *e = napr_heap_get_nth(h, (unsigned) v); printf("{\"op\":\"n\",\"k\":%ld,\"id\":%d}", v, e ? e->id : 0); }
        else if (*t == 'a') {
            printf("{\"op\":\"a\",\"ids\":[");
            unsigned k = napr_heap_size(h) + 2;
            for (unsigned i = 0; i < k; i++) { struct el *e = napr_heap_get_nth(h, i); printf("%s%d", i ? "," : "", e ? e->id : 0); }
            printf("]}");
        }
    }
    printf("]\n");
}

/* ---- hash ---- */
struct ent { apr_off_t off; gid_t gid; int id, key; unsigned len; char s[]; };
static int hmode;
static unsigned keybytes(int k, char *buf, int str)
{
    /* distinct for distinct k; many are prefixes of others */
    unsigned n = 0;
    int run = k % 7, rest = k / 7;
    for (int i = 0; i < run; i++) buf[n++] = str ? 'a' : 0;
    if (rest) { buf[n++] = str ? 'b' : 1; while (rest) { buf[n++] = (char) ((str ? 'c' : 2) + rest % 5); rest /= 5; } }
    buf[n] = 0;
    return n;
}
static struct ent *mk(apr_pool_t *pool, int k, int id)
{
    char b[64];
    unsigned n = keybytes(k, b, hmode == 0);
    struct ent *e = apr_pcalloc(pool, sizeof *e + n + 1);
    e->id = id; e->key = k; e->len = n;
    e->off = (apr_off_t) k << (k % 3 == 0 ? 33 : 0); e->gid = (gid_t) k;
    memcpy(e->s, b, n + 1);
    return e;
}
static struct ent *back(void *p)    /* element pointer to entry */
{
    if (!p) return NULL;
    return hmode == 0 ? (struct ent *) ((char *) p - offsetof(struct ent, s)) : p;
}
static void *elem(struct ent *e) { return hmode == 0 ? (void *) e->s : (void *) e; }
static const void *c_key(const void *p) { return ((const struct ent *) p)->s; }
static apr_size_t c_len(const void *p) { return ((const struct ent *) p)->len; }
static int c_cmp(const void *a, const void *b, apr_size_t n) { return memcmp(a, b, n) ? (hmode & 1 ? -5 : 3) : 0; }
static apr_uint32_t fnv(const void *p, apr_size_t n)
{
    const unsigned char *q = p;
    apr_uint32_t h = 2166136261u;
    while (n--) h = (h ^ *q++) * 16777619u;
    return h ^ (h >> 15);
}
static apr_uint32_t c_hash(const void *p, apr_size_t n)
{
    apr_uint32_t h = fnv(p, n);
    switch (hmode) {
    case 1: return 42;
    case 2: return h & 3;
    case 3: return h << 20;
    case 4: return h << 8 | 0xff;
    default: return h;
    }
}
static const void *o_key(const void *p) { return &((const struct ent *) p)->off; }
static const void *g_key(const void *p) { return &((const struct ent *) p)->gid; }
static void hash_line(char *s, apr_pool_t *pool)
{
    unsigned long nel, ff;
    int n, ids = 0, first = 1;
    sscanf(s, "%lu %lu %d%n", &nel, &ff, &hmode, &n);
    s += n;
    napr_hash_create_args_t a = { .pool = pool, .nel = nel, .ffactor = ff, .get_key = c_key, .get_key_len = c_len, .key_cmp = c_cmp, .hash = c_hash };
    if (hmode == 6) { a.get_key = o_key; a.get_key_len = ft_fsize_get_key_len; a.key_cmp = apr_off_t_key_cmp; a.hash = apr_off_t_key_hash; }
    if (hmode == 7) { a.get_key = g_key; a.get_key_len = ft_gid_get_key_len; a.key_cmp = gid_t_key_cmp; a.hash = gid_t_key_hash; }
    napr_hash_t *h = hmode == 0 ? napr_hash_str_make(pool, nel, ff) : napr_hash_make_ex(&a);
    printf("[");
    for (char *t = strtok(s, " \n"); t; t = strtok(NULL, " \n")) {
        int k = atoi(t + 1);
        if (!first) printf(",");
        first = 0;
        if (*t == 'a') {
            int ok = 1;
            printf("{\"op\":\"a\",\"ids\":[");
            int f2 = 1, count = 0;
            for (napr_hash_index_t *ix = napr_hash_first(pool, h); ix && count++ < 100000; ix = napr_hash_next(ix)) {
                const void *key; apr_size_t len; void *v;
                napr_hash_this(ix, &key, &len, &v);
                struct ent *e = back(v);
                printf("%s%d", f2 ? "" : ",", e ? e->id : -1);
                f2 = 0;
                if (!e || (hmode < 6 && (key != e->s || len != e->len))) ok = 0;
            }
            printf("]},{\"op\":\"k\",\"ok\":%d}", ok);
            continue;
        }
        struct ent *probe = mk(pool, k, 0);
        const void *kb = hmode == 6 ? (void *) &probe->off : hmode == 7 ? (void *) &probe->gid : probe->s;
        apr_size_t kl = hmode == 6 ? sizeof probe->off : hmode == 7 ? sizeof probe->gid : probe->len;
        apr_uint32_t hv = 0;
        struct ent *e = back(napr_hash_search(h, kb, kl, &hv));
        printf("{\"op\":\"f\",\"k\":%d,\"id\":%d}", k, e ? (e->key == k ? e->id : -1) : 0);
        if (*t == 's' && !e) {
            e = mk(pool, k, ++ids);
            int rc = napr_hash_set(h, elem(e), hv);
            printf(",{\"op\":\"s\",\"k\":%d,\"id\":%d,\"rc\":%d}", k, e->id, rc);
        }
        else if (*t == 'r') {
            napr_hash_remove(h, elem(e && (k & 1) ? e : probe), hv);
            printf(",{\"op\":\"r\",\"k\":%d}", k);
        }
    }
    printf("]\n");
}
int main(void)
{
#ifndef __SANITIZE_ADDRESS__
    struct rlimit rl = { 768UL << 20, 768UL << 20 };
    setrlimit(RLIMIT_AS, &rl);
#endif
    static char line[4 << 20];
    apr_initialize();
    apr_pool_t *root;
    apr_pool_create(&root, NULL);
    while (fgets(line, sizeof line, stdin)) {
        apr_pool_t *p;
        apr_pool_create(&p, root);
        if (*line == 'H') heap_line(line + 1, p); else hash_line(line + 1, p);
        fflush(stdout);
        apr_pool_destroy(p);
    }
    return 0;
}
