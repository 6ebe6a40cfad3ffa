/* Reads "<len> <bytes>" blocks on stdin, prints the XXH128 of each: the independent oracle (own copy of xxHash). */
#include <stdio.h>
#include <stdlib.h>
#include "oracle/xxhash.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
int main(int c, char **v)
{
    for (int i = 1; i < c; i++) {       /* huge files, by name */
        struct stat st;
        int fd = open(v[i], O_RDONLY);
        if (fd < 0 || fstat(fd, &st)) return 1;
        void *p = mmap(0, (size_t) st.st_size, PROT_READ, MAP_SHARED, fd, 0);
        XXH128_hash_t h = XXH3_128bits(p, (size_t) st.st_size);
        printf("%016llx%016llx\n", (unsigned long long) h.high64, (unsigned long long) h.low64);
    }
    if (c > 1) return 0;
    unsigned long n;
    while (scanf("%lu", &n) == 1) {
        char *b = malloc(n + 1);
        getchar();
        if (fread(b, 1, n, stdin) != n) return 1;
        XXH128_hash_t h = XXH3_128bits(b, n);
        printf("%016llx%016llx\n", (unsigned long long) h.high64, (unsigned long long) h.low64);
        free(b);
    }
    return 0;
}
