#define _GNU_SOURCE
#include "sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
enum op { O_NONE, O_STEP, O_LOCK, O_WAIT, O_JOIN, O_START, O_DONE, O_RDLOCK, O_WRLOCK };
struct thr {
    int id, op, woken, timed, prio;
    void *obj, *mx;
    int depth;          /* recursion to restore after a wait */
    int joined_by_os;
    pthread_t tid;
    sem_t sem;
    void *(*fn)(void *);
    void *arg;
};
static struct thr th[MAXT];
static int nth, active, cur;
static __thread struct thr *self;
static struct sched_conf C;
static long steps, lastpre;
static int spur_left, pre_left;
static char trouble[2048];
void (*sched_on_trouble)(int kind);

/* ---- model of the synchronisation objects, by address ---- */
struct mtx { void *p; int owner, depth, readers; };
#define MAXM 4096
static struct mtx mt[MAXM];
static int nm;
static struct mtx *M(void *p)
{
    for (int i = nm - 1; i >= 0; i--) if (mt[i].p == p) return &mt[i];
    for (int i = 0; i < nm; i++) if (mt[i].p && mt[i].owner < 0 && !mt[i].readers) { mt[i].p = p; mt[i].depth = 0; return &mt[i]; }
    if (nm == MAXM) { fprintf(stderr, "sched: too many mutexes\n"); _exit(70); }
    mt[nm].p = p; mt[nm].owner = -1; mt[nm].depth = 0; mt[nm].readers = 0;
    return &mt[nm++];
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

/* ---- strategies ---- */
static unsigned long long rs;
static unsigned rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) (rs >> 33); }
#define MAXD 200000
static struct { unsigned char pick, n, cost; } path[MAXD];
static int plen, ppos;
static int choose_dfs(int n, int costly)
{
    /* costly: picks above 0 use up one preemption */
    if (ppos == MAXD) return 0;
    if (ppos == plen) { path[plen].pick = 0; path[plen].n = (unsigned char) n; path[plen].cost = (unsigned char) costly; plen++; }
    if (path[ppos].n != n) path[ppos].n = (unsigned char) n;
    return path[ppos++].pick;
}
void sched_dfs_reset(void) { plen = ppos = 0; }
int sched_dfs_next(void)
{
    while (plen > 0) {
        int used = 0;
        for (int i = 0; i < plen - 1; i++) if (path[i].cost && path[i].pick) used++;
        int k = plen - 1;
        if (path[k].pick + 1 < path[k].n && (!path[k].cost || path[k].pick || used < C.preempt)) {
            path[k].pick++;
            return 1;
        }
        plen--;
    }
    return 0;
}
static int choose(int n, int costly)
{
    if (n <= 1) return 0;
    if (C.strategy == SCHED_DFS) return choose_dfs(n, costly);
    return (int) (rnd() % (unsigned) n);
}

static int enabled(struct thr *t)
{
    switch (t->op) {
    case O_STEP: case O_START: return 1;
    case O_LOCK: { struct mtx *m = M(t->obj); return m->owner < 0 || (m->owner == t->id && (((pthread_mutex_t *) t->obj)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
                   || (m->owner == t->id && (((pthread_mutex_t *) t->obj)->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP); }
    case O_WAIT: return t->woken && M(t->mx)->owner < 0;
    case O_JOIN: return th[(intptr_t) t->obj].op == O_DONE;
    case O_RDLOCK: return M(t->obj)->owner < 0;
    case O_WRLOCK: return M(t->obj)->owner < 0 && M(t->obj)->readers == 0;
    }
    return 0;
}
static void stuck(int kind)
{
    int o = 0;
    trouble[0] = 0;
    for (int i = 0; i < nth && o < 1900; i++)
        o += snprintf(trouble + o, sizeof trouble - (size_t) o, "t%d:%s%s ", i, (const char *[]) { "none", "step", "lock", "wait", "join", "start", "done", "rdlock", "wrlock" }[th[i].op],
                      th[i].op == O_WAIT ? (th[i].woken ? "(woken)" : "") : "");
    if (sched_on_trouble) sched_on_trouble(kind);
    fprintf(stderr, "sched: stuck %d %s\n", kind, trouble);
    _exit(kind == 1 ? 71 : 72);
}
const char *sched_trouble(void) { return trouble; }

/* Picks the next thread and hands over. */
static int pick(void)
{
    int cand[MAXT * 2], n = 0, curok = 0;
    steps++;
    if (steps > 400000) stuck(2);
    if (enabled(&th[cur])) { cand[n++] = cur; curok = 1; }
    for (int i = 0; i < nth; i++) if (i != cur && enabled(&th[i])) cand[n++] = i;
    if (n == 0) stuck(1);
    int fair = steps > 200000;
    int ns = 0, sp[MAXT];
    if (spur_left > 0 || 1)
        for (int i = 0; i < nth; i++) if (th[i].op == O_WAIT && !th[i].woken && (spur_left > 0 || th[i].timed)) sp[ns++] = i;
    if (C.strategy == SCHED_DFS) {
        int tot = n + ns;
        int k = choose(tot, curok);
        if (k < n) return cand[k];
        th[sp[k - n]].woken = th[sp[k - n]].timed ? 2 : 1;
        if (!th[sp[k - n]].timed) spur_left--;
        return pick();
    }
    if (ns && rnd() % 64 == 0) {
        int k = (int) (rnd() % (unsigned) ns);
        th[sp[k]].woken = th[sp[k]].timed ? 2 : 1;
        if (!th[sp[k]].timed) spur_left--;
        return pick();
    }
    if (C.strategy == SCHED_RANDOM || fair) {
        /* bursts: mostly continue */
        if (curok && !fair && C.preempt > 0 && rnd() % (unsigned) C.preempt) return cur;
        return cand[rnd() % (unsigned) n];
    }
    /* PCT */
    if (pre_left > 0 && C.est > 0 && rnd() % (unsigned) C.est < 3) {
        th[cur].prio = -(int) steps;
        pre_left--;
    }
    int b = cand[0];
    for (int i = 1; i < n; i++) if (th[cand[i]].prio > th[b].prio) b = cand[i];
    return b;
}
static void hand(struct thr *me)
{
    int k = pick();
    cur = k;
    if (&th[k] != me) {
        sem_post(&th[k].sem);
        if (me) while (sem_wait(&me->sem)) ;
    }
}
static void point(int op, void *obj)
{
    self->op = op;
    self->obj = obj;
    hand(self);
    self->op = O_NONE;
}
void sched_point(void) { if (self && active) point(O_STEP, NULL); }
int sched_self(void) { return self && active ? self->id : -1; }
int sched_live(void) { int k = 0; for (int i = 1; i < nth; i++) k += th[i].op != O_DONE; return k; }
long sched_steps(void) { return steps; }

int sched_run(void (*body)(void *), void *arg, const struct sched_conf *c)
{
    C = *c;
    rs = C.seed * 0x9E3779B97F4A7C15ULL + 12345;
    rnd();
    nth = 1;
    nm = 0;
    steps = 0;
    ppos = 0;
    spur_left = C.spurious;
    pre_left = C.preempt;
    memset(&th[0], 0, sizeof th[0]);
    sem_init(&th[0].sem, 0, 0);
    th[0].prio = 1 + (int) (rnd() % 1000);
    cur = 0;
    self = &th[0];
    active = 1;
    body(arg);
    /* let the threads that are still there run to their end */
    for (;;) {
        int left = 0;
        for (int i = 1; i < nth; i++) if (th[i].op != O_DONE) left = 1;
        if (!left) break;
        int en = 0;
        for (int i = 1; i < nth; i++) if (enabled(&th[i])) en = 1;
        if (!en) stuck(1);
        point(O_STEP, NULL);
    }
    active = 0;
    self = NULL;
    return 0;
}

/* ---- interposed calls ---- */
static void finish(void *v)
{
    struct thr *me = v;
    me->op = O_DONE;
    self = NULL;
    int k = pick();
    cur = k;
    sem_post(&th[k].sem);
}
static void *tramp(void *v)
{
    struct thr *me = v;
    void *r = NULL;
    while (sem_wait(&me->sem)) ;
    self = me;
    me->op = O_NONE;
    pthread_cleanup_push(finish, me);
    r = me->fn(me->arg);
    pthread_cleanup_pop(1);
    return r;
}
int sched_deny_create;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    REAL(int, "pthread_create", pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!self || !active) return real(t, a, fn, arg);
    if (nth == MAXT) return EAGAIN;
    if (sched_deny_create && !--sched_deny_create) return EAGAIN;
    struct thr *n = &th[nth];
    memset(n, 0, sizeof *n);
    n->id = nth;
    n->fn = fn;
    n->arg = arg;
    n->op = O_START;
    n->prio = 1 + (int) (rnd() % 1000);
    sem_init(&n->sem, 0, 0);
    int r = real(&n->tid, a, tramp, n);
    if (r) return r;
    *t = n->tid;
    nth++;
    point(O_STEP, NULL);
    return 0;
}
int pthread_join(pthread_t t, void **ret)
{
    REAL(int, "pthread_join", pthread_t, void **);
    if (self && active)
        for (int i = 1; i < nth; i++)
            if (!th[i].joined_by_os && pthread_equal(th[i].tid, t)) {
                point(O_JOIN, (void *) (intptr_t) i);
                th[i].joined_by_os = 1;
                break;
            }
    return real(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    REAL(int, "pthread_mutex_lock", pthread_mutex_t *);
    if (!self || !active) return real(m);
    point(O_LOCK, m);
    struct mtx *x = M(m);
    if (x->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    x->owner = self->id;
    x->depth++;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    REAL(int, "pthread_mutex_trylock", pthread_mutex_t *);
    if (!self || !active) return real(m);
    point(O_STEP, NULL);
    struct mtx *x = M(m);
    if (x->owner >= 0 && !(x->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
    x->owner = self->id;
    x->depth++;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    (void) ts;
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(int, "pthread_mutex_unlock", pthread_mutex_t *);
    if (!self || !active) return real(m);
    struct mtx *x = M(m);
    if (x->owner != self->id) {
        /* unlocking what one does not hold: undefined for plain mutexes; free it and go on */
        if ((m->__data.__kind & 3) != 0) return EPERM;
        x->depth = 1;
    }
    if (--x->depth <= 0) { x->depth = 0; x->owner = -1; }
    point(O_STEP, NULL);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    REAL(int, "pthread_mutex_destroy", pthread_mutex_t *);
    if (self && active) { for (int i = 0; i < nm; i++) if (mt[i].p == (void *) m) { mt[i].p = (void *) (intptr_t) 1; mt[i].owner = -1; mt[i].depth = 0; mt[i].readers = 0; } }
    return real(m);
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
    struct mtx *x = M(m);
    self->depth = x->depth;
    x->owner = -1;
    x->depth = 0;
    self->woken = 0;
    self->timed = timed;
    self->mx = m;
    point(O_WAIT, c);
    int how = self->woken;
    x = M(m);
    x->owner = self->id;
    x->depth = self->depth;
    return how == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REAL(int, "pthread_cond_wait", pthread_cond_t *, pthread_mutex_t *);
    if (!self || !active) return real(c, m);
    return cwait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    REAL(int, "pthread_cond_timedwait", pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!self || !active) return real(c, m, ts);
    return cwait(c, m, 1);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
    REAL(int, "pthread_cond_clockwait", pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (!self || !active) return real(c, m, k, ts);
    return cwait(c, m, 1);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    REAL(int, "pthread_cond_signal", pthread_cond_t *);
    if (!self || !active) return real(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if (th[i].op == O_WAIT && !th[i].woken && th[i].obj == (void *) c) w[n++] = i;
    if (n) th[w[choose(n, 0)]].woken = 1;
    point(O_STEP, NULL);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    REAL(int, "pthread_cond_broadcast", pthread_cond_t *);
    if (!self || !active) return real(c);
    for (int i = 0; i < nth; i++) if (th[i].op == O_WAIT && !th[i].woken && th[i].obj == (void *) c) th[i].woken = 1;
    point(O_STEP, NULL);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    REAL(int, "pthread_rwlock_rdlock", pthread_rwlock_t *);
    if (!self || !active) return real(m);
    point(O_RDLOCK, m);
    M(m)->readers++;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    REAL(int, "pthread_rwlock_wrlock", pthread_rwlock_t *);
    if (!self || !active) return real(m);
    point(O_WRLOCK, m);
    M(m)->owner = self->id;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(int, "pthread_rwlock_unlock", pthread_rwlock_t *);
    if (!self || !active) return real(m);
    struct mtx *x = M(m);
    if (x->owner == self->id) x->owner = -1;
    else if (x->readers) x->readers--;
    point(O_STEP, NULL);
    return 0;
}
int usleep(useconds_t u)
{
    REAL(int, "usleep", useconds_t);
    if (!self || !active) return real(u);
    point(O_STEP, NULL);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    REAL(int, "nanosleep", const struct timespec *, struct timespec *);
    if (!self || !active) return real(a, b);
    point(O_STEP, NULL);
    return 0;
}
int sched_yield(void)
{
    if (self && active) point(O_STEP, NULL);
    return 0;
}

/* ---- memory accesses: sources compiled with -fsanitize=thread call these; nothing of the sanitizer's runtime is linked ---- */
static inline void mem(void) { if (self && active && C.mem) point(O_STEP, NULL); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
#define RW(n) void __tsan_read##n(void *p) { (void) p; mem(); } void __tsan_write##n(void *p) { (void) p; mem(); } \
    void __tsan_unaligned_read##n(void *p) { (void) p; mem(); } void __tsan_unaligned_write##n(void *p) { (void) p; mem(); } \
    void __tsan_volatile_read##n(void *p) { (void) p; mem(); } void __tsan_volatile_write##n(void *p) { (void) p; mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void) p; (void) n; mem(); }
void __tsan_write_range(void *p, unsigned long n) { (void) p; (void) n; mem(); }
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; mem(); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int o) { (void) o; mem(); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int o) { (void) o; mem(); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = v; return r; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = r + v; return r; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = r - v; return r; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = r & v; return r; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = r | v; return r; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { (void) o; mem(); T r = *p; *p = r ^ v; return r; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void) o; (void) f; mem(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { (void) o; (void) f; mem(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void) o; (void) f; mem(); T r = *p; if (r == e) *p = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void) o; mem(); }
void __tsan_atomic_signal_fence(int o) { (void) o; }
