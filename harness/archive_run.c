/* Lines "archive<TAB>member" on stdin; for each: the path returned by the extraction, or "-".
 * The requests are made one after the other by THREADS threads (each takes the next one). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <pthread.h>
#include <apr_general.h>
#include "ft_archive.h"
#include "ft_file.h"
static char *arc[4096], *mem[4096], *res[4096];
static int n, next;
static void *work(void *x)
{
    int i;
    (void) x;
    while ((i = __atomic_fetch_add(&next, 1, __ATOMIC_SEQ_CST)) < n) {
        apr_pool_t *pool;
        char *r;
        apr_pool_create(&pool, NULL);
        ft_file_t *f = ft_file_make(pool, arc[i], NULL);
        f->subpath = mem[i];
        r = ft_archive_untar_file(f, pool);
        res[i] = strdup(r ? r : "-");
        apr_pool_destroy(pool);
    }
    return NULL;
}
int main(void)
{
    static char line[65536];
    pthread_t t[16];
    int k, nt = getenv("THREADS") ? atoi(getenv("THREADS")) : 1;
    apr_initialize();
    setlocale(LC_CTYPE, "");
    while (n < 4096 && fgets(line, sizeof line, stdin)) {
        char *q;
        line[strcspn(line, "\n")] = 0;
        q = strchr(line, '\t');
        *q++ = 0;
        arc[n] = strdup(line);
        mem[n++] = strdup(q);
    }
    if (nt == 1)
        work(NULL);
    else {
        for (k = 0; k < nt; k++)
            pthread_create(&t[k], NULL, work, NULL);
        for (k = 0; k < nt; k++)
            pthread_join(t[k], NULL);
    }
    for (k = 0; k < n; k++)
        printf("%s\n", res[k]);
    return 0;
}
