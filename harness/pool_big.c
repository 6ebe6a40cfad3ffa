/*
 * pool_big WORKERS CLIENTS BATCHES TASKS NESTED GATE : the pool on real threads and at scale.  Every client submits TASKS tasks per
 * batch (each NESTED-th submits one more; GATE: none goes on
 * before all are submitted), then everybody is awaited.  Prints, per batch, "B accepted finished most" as seen when the
 * wait returns (most: how often one task has been run), then "G alive" after the shutdown.
 */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <dirent.h>
#include <unistd.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_threadpool.h"

struct task { int runs; char nested; };
static napr_threadpool_t *tp;
static struct task *tasks;
static int ntasks, accepted, finished, most, refused, strange, per, nested, gate, shut;
static int token;

static void submit(int nest)
{
    struct task *t = &tasks[__atomic_fetch_add(&ntasks, 1, __ATOMIC_SEQ_CST)];
    t->nested = (char) nest;
    if (napr_threadpool_add(tp, t) != APR_SUCCESS) __atomic_fetch_add(&refused, 1, __ATOMIC_SEQ_CST);
    else __atomic_fetch_add(&accepted, 1, __ATOMIC_SEQ_CST);
}
static apr_status_t process(void *ctx, void *data)
{
    struct task *t = data;
    if (ctx != (void *) &token) __atomic_fetch_add(&strange, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n(&shut, __ATOMIC_SEQ_CST)) usleep(100);
    int k = __atomic_add_fetch(&t->runs, 1, __ATOMIC_SEQ_CST);
    if (t->nested) submit(0);
    int m = __atomic_load_n(&most, __ATOMIC_SEQ_CST);
    while (k > m && !__atomic_compare_exchange_n(&most, &m, k, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
    if (k == 1) __atomic_fetch_add(&finished, 1, __ATOMIC_SEQ_CST);
    return APR_SUCCESS;
}
static void *client(void *v)
{
    (void) v;
    for (int i = 0; i < per; i++) submit(nested && i % nested == 0);
    return NULL;
}
int main(int argc, char **v)
{
    if (argc < 7) return 2;
    int workers = atoi(v[1]), clients = atoi(v[2]), batches = atoi(v[3]);
    apr_pool_t *pool;
    per = atoi(v[4]);
    nested = atoi(v[5]);
    gate = atoi(v[6]);
    tasks = calloc((size_t) clients * (size_t) batches * (size_t) per * 2 + 1, sizeof *tasks);
    apr_initialize();
    apr_pool_create(&pool, NULL);
    if (napr_threadpool_init(&tp, &token, (unsigned long) workers, process, pool) != APR_SUCCESS) return 3;
    for (int b = 0; b < batches; b++) {
        pthread_t t[64];
        for (int c = 1; c < clients; c++) if (pthread_create(&t[c], NULL, client, NULL)) return 3;
        __atomic_store_n(&shut, gate, __ATOMIC_SEQ_CST);
        client(NULL);
        for (int c = 1; c < clients; c++) pthread_join(t[c], NULL);
        __atomic_store_n(&shut, 0, __ATOMIC_SEQ_CST);
        apr_status_t s = napr_threadpool_wait(tp);
        printf("B %d %d %d\n", accepted, finished, s == APR_SUCCESS && !refused && !strange ? most : 99);
        fflush(stdout);
    }
    apr_status_t s = napr_threadpool_shutdown(tp);
    int alive = 99;
    for (int i = 0; i < 2000 && s == APR_SUCCESS && alive > 0; i++) {    /* a joined thread may show for a moment yet */
        DIR *d = opendir("/proc/self/task");
        alive = -3;                                 /* not counted: ".", ".." and this thread */
        while (d && readdir(d)) alive++;
        if (d) closedir(d);
        if (alive > 0) usleep(2000);
    }
    printf("G %d\n", alive);
    return 0;
}
