/* Pool allocations as allocations of their own, so that AddressSanitizer sees their bounds; their first content is no zero (ASan's fill). */
#include <stdlib.h>
#include <string.h>
#include <apr_pools.h>
#include <apr_strings.h>
static size_t total;            /* nothing is given back */
static void *get(size_t n)
{
    if (__atomic_add_fetch(&total, n, __ATOMIC_RELAXED) > (size_t) 2 << 30) abort();
    return malloc(n ? n : 1);
}
void *__wrap_apr_palloc(apr_pool_t *p, apr_size_t n) { (void) p; return get(n); }
void *__wrap_apr_pcalloc(apr_pool_t *p, apr_size_t n) { (void) p; void *m = get(n); if (m) memset(m, 0, n); return m; }
char *__wrap_apr_pstrdup(apr_pool_t *p, const char *s) { (void) p; return s ? strdup(s) : NULL; }
void *__wrap_apr_pmemdup(apr_pool_t *p, const void *m, apr_size_t n) { (void) p; void *r = get(n); return m && r ? memcpy(r, m, n) : NULL; }
char *__wrap_apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n) { (void) p; return s ? strndup(s, n) : NULL; }
char *__wrap_apr_pstrmemdup(apr_pool_t *p, const char *s, apr_size_t n)
{
    (void) p;
    if (!s) return NULL;
    char *r = get(n + 1);
    if (r) { memcpy(r, s, n); r[n] = 0; }
    return r;
}
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "detect_leaks=0:verify_asan_link_order=0:exitcode=97:allocator_may_return_null=1"; }
