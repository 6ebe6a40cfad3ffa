/* Stand-in for the checksum: the real one reduced to one bit (collisions everywhere); linked with -Wl,--wrap. */
#include <string.h>
#include "oracle/xxhash.h"
extern XXH128_hash_t __real_XXH3_128bits(const void *p, size_t n);
extern XXH128_hash_t __real_XXH3_128bits_withSeed(const void *p, size_t n, XXH64_hash_t s);
extern XXH128_hash_t __real_XXH128(const void *p, size_t n, XXH64_hash_t s);
extern XXH128_hash_t __real_XXH3_128bits_digest(const XXH3_state_t *s);
static XXH128_hash_t weak(XXH128_hash_t h)
{
    XXH128_hash_t r;
    memset(&r, 0, sizeof r);
    r.low64 = h.low64 & 1;
    return r;
}
XXH128_hash_t __wrap_XXH3_128bits(const void *p, size_t n) { return weak(__real_XXH3_128bits(p, n)); }
XXH128_hash_t __wrap_XXH3_128bits_withSeed(const void *p, size_t n, XXH64_hash_t s) { return weak(__real_XXH3_128bits_withSeed(p, n, s)); }
XXH128_hash_t __wrap_XXH128(const void *p, size_t n, XXH64_hash_t s) { return weak(__real_XXH128(p, n, s)); }
XXH128_hash_t __wrap_XXH3_128bits_digest(const XXH3_state_t *s) { return weak(__real_XXH3_128bits_digest(s)); }
