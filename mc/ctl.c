#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ctl.h"
#include <dlfcn.h>
#include <errno.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>

#define MT 8
#define NOBJ 512
#define R(ret, name, args) extern ret __real_##name args; ret __wrap_##name args
enum { RUN, BLK, COND, JOIN, DONE };
struct obj { const void *a; char kind; int id; int owner, depth, readers, done; int destroyed; uint32_t vc[MT]; };
struct thr { int id, st; struct obj *o; struct thr *jt; int signalled, timed, timedout, joined, detached, cancel; sem_t sem; pthread_t real; void *(*fn)(void *); void *arg, *ret; uint32_t vc[MT]; struct obj *wmx; };
extern int __real_sem_wait(sem_t *), __real_sem_post(sem_t *), __real_sem_init(sem_t *, int, unsigned);
static struct thr T[MT];
static struct obj O[NOBJ]; static int nO, kinds[128];
static __thread struct thr *me;
int sc_active, sc_spurious, sc_timeouts, sc_threads, sc_nocreate; long sc_points, sc_blocks; void (*sc_timed)(const struct timespec *), (*sc_timedout)(const struct timespec *);
static int preempt;

int sc_self(void) { return me ? me->id : -1; }
int sc_alive(void) { int n = 0; for (int i = 1; i < sc_threads; i++) n += T[i].st != DONE; return n; }
static struct obj *obj(const void *a, char kind) {
    for (int i = 0; i < nO; i++) if (O[i].a == a && O[i].kind == kind && !O[i].destroyed) return &O[i];
    if (nO == NOBJ) { fprintf(stderr, "too many synchronisation objects\n"); _exit(79); }
    struct obj *o = &O[nO++]; memset(o, 0, sizeof *o); o->a = a; o->kind = kind; o->owner = -1; o->id = kinds[(int)kind]++; return o;
}
static void vjoin(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void acq(struct obj *o) { vjoin(me->vc, o->vc); }
static void rel(struct obj *o) { vjoin(o->vc, me->vc); me->vc[me->id]++; }

static int enabled(struct thr *t) {
    switch (t->st) {
    case RUN: return 1;
    case BLK: return t->o->kind == 'r' ? (t->wmx ? t->o->owner < 0 && t->o->readers == 0 : t->o->owner < 0) : t->o->kind == 'o' ? t->o->done == 2 : t->o->kind == 's' ? t->o->depth > 0 : t->o->owner < 0;
    case COND: return t->signalled || t->cancel || (t->timed && sc_timeouts > 0) || sc_spurious > 0;
    case JOIN: return t->jt->st == DONE;
    }
    return 0;
}
static void say(const char *what, struct obj *o) { if (mc_logging) { if (o) mc_logf("  T%d %s %c%d", me->id, what, o->kind, o->id); else mc_logf("  T%d %s", me->id, what); } }
static void schedule(void) {
    struct thr *l[MT]; int n = 0, mine = 0;
    if (++sc_points > 20000) mc_fail("no end after 20000 scheduling points");
    if (me->st != DONE && enabled(me) && me->st != COND) { l[n++] = me; mine = 1; }
    /* threads that can go on come before wake-ups that need no cause */
    for (int pass = 0; pass < 2; pass++)
        for (int k = 1; k <= sc_threads; k++) { struct thr *t = &T[(me->id + k) % sc_threads]; if (t == me && (mine || t->st == DONE)) continue; if (!enabled(t)) continue; if ((t->st == COND && !t->signalled && !t->cancel) != pass) continue; l[n++] = t; }
    if (n == 0) {
        char b[300]; int x = 0; b[0] = 0;
        for (int i = 0; i < sc_threads; i++) if (T[i].st != DONE) x += snprintf(b + x, sizeof b - x, " T%d waits for %s", i, T[i].st == BLK ? "a lock" : T[i].st == COND ? "a signal" : "a thread");
        mc_fail("deadlock:%s", b);
    }
    if (mine && preempt <= 0) n = 1;
    unsigned c = n > 1 ? mc_choose(n) : 0;
    if (mine && c > 0) preempt--;
    struct thr *nx = l[c];
    if (nx->st == COND && !nx->signalled && !nx->cancel) { if (nx->timed && sc_timeouts > 0) { sc_timeouts--; nx->timedout = 1; } else sc_spurious--; nx->signalled = 1; }
    mc_step();
    if (nx != me) { int dead = me->st == DONE; sem_t *s = &me->sem; __real_sem_post(&nx->sem); if (!dead) while (__real_sem_wait(s)) ; }
}
static int on(void) { return sc_active && me; }
void sc_point(const char *what) { if (!on()) return; say(what, NULL); schedule(); }
void sc_event(const char *what, const void *a) { if (!on()) return; struct obj *o = obj(a, 'f'); schedule(); while (o->owner >= 0 && o->owner != me->id) { me->st = BLK; me->o = o; schedule(); me->st = RUN; } say(what, o); acq(o); rel(o); }
void sc_begin(int p) {
    preempt = p; sc_threads = 1; nO = 0; memset(kinds, 0, sizeof kinds); memset(T, 0, sizeof T); sc_points = sc_blocks = 0; sc_spurious = sc_timeouts = 0;
    me = &T[0]; me->st = RUN; me->vc[0] = 1; __real_sem_init(&me->sem, 0, 0); sc_active = 1;
}
void sc_drain(void) { for (int i = 1; i < sc_threads; i++) if (T[i].st != DONE) { me->jt = &T[i]; me->st = JOIN; schedule(); me->st = RUN; vjoin(me->vc, T[i].vc); } }
void sc_end(void) { if (sc_alive()) mc_fail("%d threads still there at the end", sc_alive()); sc_active = 0; me = NULL; }

/* ---- threads ---- */
static void thread_over(void *p) { struct thr *t = p; if (!me) return; t->st = DONE; say("ends", NULL); schedule(); me = NULL; }
static void *tramp(void *p) {
    struct thr *t = p; void *r;
    while (__real_sem_wait(&t->sem)) ;
    me = t;
    pthread_cleanup_push(thread_over, t);
    r = t->ret = t->fn(t->arg);
    pthread_cleanup_pop(1);
    return r;
}
static void stack_reused(struct thr *t);
R(int, pthread_create, (pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg)) {
    if (!on()) return __real_pthread_create(p, at, fn, arg);
    if (sc_nocreate > 0 && --sc_nocreate == 0) return EAGAIN;
    if (sc_threads == MT) { fprintf(stderr, "too many threads\n"); _exit(79); }
    struct thr *t = &T[sc_threads]; t->id = sc_threads; t->st = RUN; t->fn = fn; t->arg = arg; memcpy(t->vc, me->vc, sizeof t->vc); t->vc[t->id] = 1; me->vc[me->id]++; __real_sem_init(&t->sem, 0, 0);
    int r = __real_pthread_create(&t->real, NULL, tramp, t); if (r) { fprintf(stderr, "pthread_create\n"); _exit(79); }
    *p = t->real; stack_reused(t); sc_threads++; if (mc_logging) mc_logf("  T%d starts T%d", me->id, t->id);
    if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); if (d == PTHREAD_CREATE_DETACHED) t->detached = 1; }
    schedule(); return 0;
}
static struct thr *byreal(pthread_t p) { for (int i = sc_threads - 1; i > 0; i--) if (pthread_equal(T[i].real, p) && !T[i].joined) return &T[i]; return NULL; }
R(int, pthread_join, (pthread_t p, void **ret)) {
    if (!on()) return __real_pthread_join(p, ret);
    struct thr *t = byreal(p); if (!t) mc_fail("join of a thread that is not there (any more)"); if (t->detached) mc_fail("join of a detached thread");
    if (mc_logging) mc_logf("  T%d joins T%d", me->id, t->id);
    me->jt = t; me->st = JOIN; schedule(); me->st = RUN; t->joined = 1; vjoin(me->vc, t->vc);
    return __real_pthread_join(p, ret);
}
R(int, pthread_detach, (pthread_t p)) { if (!on()) return __real_pthread_detach(p); struct thr *t = byreal(p); if (!t) mc_fail("detach of a thread that is not there"); t->detached = 1; return __real_pthread_detach(p); }
extern void __real_pthread_exit(void *) __attribute__((noreturn));
R(int, pthread_cancel, (pthread_t p)) { if (!on()) return __real_pthread_cancel(p); struct thr *t = byreal(p); if (!t) mc_fail("cancellation of a thread that is not there (any more)"); schedule(); if (mc_logging) mc_logf("  T%d cancels T%d", me->id, t->id); t->cancel = 1; return 0; }
void __wrap_pthread_exit(void *v) { if (on()) me->ret = v; __real_pthread_exit(v); }

/* ---- mutexes ---- */
static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static int take(struct obj *o, int rec, int try) {
    if (o->owner == me->id) { if (rec == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; } if (rec == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (try) return EBUSY; say("relocks", o); }
    while (o->owner >= 0) { if (try) return EBUSY; me->st = BLK; me->o = o; schedule(); me->st = RUN; }
    o->owner = me->id; o->depth = 1; acq(o); return 0;
}
static void give(struct obj *o) { if (o->owner != me->id) mc_fail("unlock of a lock the thread does not hold"); if (--o->depth == 0) { o->owner = -1; rel(o); } }
R(int, pthread_mutex_init, (pthread_mutex_t *m, const pthread_mutexattr_t *a)) { int r = __real_pthread_mutex_init(m, a); if (on()) { for (int i = 0; i < nO; i++) if (O[i].a == m && O[i].kind == 'm') O[i].destroyed = 1; obj(m, 'm'); } return r; }
R(int, pthread_mutex_destroy, (pthread_mutex_t *m)) { if (!on()) return __real_pthread_mutex_destroy(m); struct obj *o = obj(m, 'm'); if (o->owner >= 0) mc_fail("a locked lock is destroyed"); o->destroyed = 1; return 0; }
R(int, pthread_mutex_lock, (pthread_mutex_t *m)) { if (!on()) return __real_pthread_mutex_lock(m); struct obj *o = obj(m, 'm'); schedule(); int r = take(o, mkind(m), 0); say("locks", o); return r; }
R(int, pthread_mutex_trylock, (pthread_mutex_t *m)) { if (!on()) return __real_pthread_mutex_trylock(m); struct obj *o = obj(m, 'm'); schedule(); int r = take(o, mkind(m), 1); say(r ? "finds taken" : "locks", o); return r; }
R(int, pthread_mutex_timedlock, (pthread_mutex_t *m, const struct timespec *ts)) { if (!on()) return __real_pthread_mutex_timedlock(m, ts); struct obj *o = obj(m, 'm'); schedule(); return take(o, mkind(m), 0); }
R(int, pthread_mutex_unlock, (pthread_mutex_t *m)) { if (!on()) return __real_pthread_mutex_unlock(m); struct obj *o = obj(m, 'm'); say("unlocks", o); give(o); return 0; }

/* ---- reader/writer locks ---- */
R(int, pthread_rwlock_init, (pthread_rwlock_t *m, const pthread_rwlockattr_t *a)) { if (!on()) return __real_pthread_rwlock_init(m, a); for (int i = 0; i < nO; i++) if (O[i].a == m && O[i].kind == 'r') O[i].destroyed = 1; obj(m, 'r'); return 0; }
R(int, pthread_rwlock_destroy, (pthread_rwlock_t *m)) { if (!on()) return __real_pthread_rwlock_destroy(m); obj(m, 'r')->destroyed = 1; return 0; }
static int rwtake(pthread_rwlock_t *m, int w) { struct obj *o = obj(m, 'r'); schedule(); while (o->owner >= 0 || (w && o->readers)) { me->st = BLK; me->o = o; me->wmx = w ? o : NULL; schedule(); me->st = RUN; me->wmx = NULL; } if (w) o->owner = me->id; else o->readers++; acq(o); say(w ? "write-locks" : "read-locks", o); return 0; }
R(int, pthread_rwlock_rdlock, (pthread_rwlock_t *m)) { return on() ? rwtake(m, 0) : __real_pthread_rwlock_rdlock(m); }
R(int, pthread_rwlock_wrlock, (pthread_rwlock_t *m)) { return on() ? rwtake(m, 1) : __real_pthread_rwlock_wrlock(m); }
R(int, pthread_rwlock_unlock, (pthread_rwlock_t *m)) { if (!on()) return __real_pthread_rwlock_unlock(m); struct obj *o = obj(m, 'r'); if (o->owner == me->id) o->owner = -1; else if (o->readers > 0) o->readers--; else mc_fail("unlock of a lock that is not held"); rel(o); say("unlocks", o); return 0; }
R(int, pthread_spin_init, (pthread_spinlock_t *m, int a)) { if (!on()) return __real_pthread_spin_init(m, a); obj((void *)m, 'm'); return 0; }
R(int, pthread_spin_destroy, (pthread_spinlock_t *m)) { if (!on()) return __real_pthread_spin_destroy(m); obj((void *)m, 'm')->destroyed = 1; return 0; }
R(int, pthread_spin_lock, (pthread_spinlock_t *m)) { if (!on()) return __real_pthread_spin_lock(m); struct obj *o = obj((void *)m, 'm'); schedule(); take(o, 0, 0); say("locks", o); return 0; }
R(int, pthread_spin_unlock, (pthread_spinlock_t *m)) { if (!on()) return __real_pthread_spin_unlock(m); struct obj *o = obj((void *)m, 'm'); say("unlocks", o); give(o); return 0; }

/* ---- semaphores of the code under test ---- */
R(int, sem_init, (sem_t *s, int sh, unsigned v)) { if (!on()) return __real_sem_init(s, sh, v); struct obj *o = obj(s, 's'); o->depth = v; return 0; }
R(int, sem_destroy, (sem_t *s)) { if (!on()) return __real_sem_destroy(s); obj(s, 's')->destroyed = 1; return 0; }
R(int, sem_wait, (sem_t *s)) { if (!on()) return __real_sem_wait(s); struct obj *o = obj(s, 's'); schedule(); while (o->depth == 0) { me->st = BLK; me->o = o; schedule(); me->st = RUN; } o->depth--; acq(o); say("takes", o); return 0; }
R(int, sem_post, (sem_t *s)) { if (!on()) return __real_sem_post(s); struct obj *o = obj(s, 's'); schedule(); o->depth++; rel(o); say("posts", o); return 0; }

/* ---- condition variables ---- */
R(int, pthread_cond_init, (pthread_cond_t *c, const pthread_condattr_t *a)) { int r = __real_pthread_cond_init(c, a); if (on()) { for (int i = 0; i < nO; i++) if (O[i].a == c && O[i].kind == 'c') O[i].destroyed = 1; obj(c, 'c'); } return r; }
R(int, pthread_cond_destroy, (pthread_cond_t *c)) { if (!on()) return __real_pthread_cond_destroy(c); struct obj *o = obj(c, 'c'); for (int i = 0; i < sc_threads; i++) if (T[i].st == COND && T[i].o == o && !T[i].signalled) mc_fail("a condition is destroyed while a thread waits for it"); o->destroyed = 1; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed) {
    struct obj *o = obj(c, 'c'), *x = obj(m, 'm'); int d = x->depth;
    if (x->owner != me->id) mc_fail("wait without holding the lock");
    say(timed ? "waits (with time-out) for" : "waits for", o);
    me->signalled = 0; me->timed = timed; me->timedout = 0; me->o = o; me->wmx = x; x->depth = 1; give(x);
    me->st = COND; schedule(); me->st = RUN;
    int to = me->timedout; me->timed = me->timedout = 0; me->wmx = NULL; say(to ? "timed out on" : "woke up from", o);
    while (x->owner >= 0) { me->st = BLK; me->o = x; schedule(); me->st = RUN; }
    x->owner = me->id; x->depth = d; acq(x);
    if (me->cancel) { say("is cancelled", NULL); me->ret = PTHREAD_CANCELED; __real_pthread_exit(PTHREAD_CANCELED); }
    return to ? ETIMEDOUT : 0;
}
R(int, pthread_cond_wait, (pthread_cond_t *c, pthread_mutex_t *m)) { return on() ? cwait(c, m, 0) : __real_pthread_cond_wait(c, m); }
R(int, pthread_cond_timedwait, (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)) { if (!on()) return __real_pthread_cond_timedwait(c, m, ts); struct timespec d = *ts; if (sc_timed) sc_timed(&d); if (d.tv_nsec < 0 || d.tv_nsec > 999999999) return EINVAL; int r = cwait(c, m, 1); if (r && sc_timedout) sc_timedout(&d); return r; }
static int csig(pthread_cond_t *c, int all) {
    struct obj *o = obj(c, 'c'); struct thr *w[MT]; int n = 0;
    schedule();
    for (int i = 0; i < sc_threads; i++) if (T[i].st == COND && T[i].o == o && !T[i].signalled) w[n++] = &T[i];
    say(all ? "broadcasts" : "signals", o);
    if (all) for (int i = 0; i < n; i++) w[i]->signalled = 1; else if (n) w[mc_choose(n)]->signalled = 1;
    return 0;
}
R(int, pthread_cond_signal, (pthread_cond_t *c)) { return on() ? csig(c, 0) : __real_pthread_cond_signal(c); }
R(int, pthread_cond_broadcast, (pthread_cond_t *c)) { return on() ? csig(c, 1) : __real_pthread_cond_broadcast(c); }

R(int, pthread_once, (pthread_once_t *c, void (*fn)(void))) {
    if (!on()) return __real_pthread_once(c, fn);
    struct obj *o = obj(c, 'o'); schedule();
    if (o->done == 0 && *c != PTHREAD_ONCE_INIT) o->done = 2;     /* done before the execution began */
    if (o->done == 0) { o->done = 1; say("runs once", o); fn(); o->done = 2; rel(o); return 0; }
    while (o->done != 2) { me->st = BLK; me->o = o; schedule(); me->st = RUN; }
    acq(o); return 0;
}
R(int, pthread_key_create, (pthread_key_t *k, void (*fn)(void *))) { if (on()) { schedule(); sc_race(k, sizeof *k, 1, "pthread_key_create"); } return __real_pthread_key_create(k, fn); }
R(void, flockfile, (FILE *f)) { if (!on()) { __real_flockfile(f); return; } struct obj *o = obj(f, 'f'); schedule(); take(o, PTHREAD_MUTEX_RECURSIVE, 0); say("locks", o); }
R(void, funlockfile, (FILE *f)) { if (!on()) { __real_funlockfile(f); return; } struct obj *o = obj(f, 'f'); say("unlocks", o); give(o); }
R(int, sched_yield, (void)) { if (on()) { schedule(); return 0; } return __real_sched_yield(); }
R(int, usleep, (useconds_t u)) { if (on()) { schedule(); return 0; } return __real_usleep(u); }
R(int, nanosleep, (const struct timespec *a, struct timespec *b)) { if (on()) { schedule(); return 0; } return __real_nanosleep(a, b); }

/* ---- memory: data races and use after release ---- */
#define NCELL (1 << 17)
struct cell { uintptr_t a; uint8_t wm[MT], rm[MT], freed; uint32_t wc[MT], rc[MT]; };
static struct cell *C; static int nC;
static struct cell *cell(uintptr_t g, int make) {
    if (!C) C = mmap(NULL, NCELL * sizeof *C, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uintptr_t h = (g * 0x9e3779b97f4a7c15ULL) >> 47;
    for (;; h = (h + 1) & (NCELL - 1)) { if (C[h].a == g) return &C[h]; if (!C[h].a) { if (!make) return NULL; if (++nC > NCELL * 3 / 4) { fprintf(stderr, "shadow memory full\n"); _exit(79); } C[h].a = g; return &C[h]; } }
}
static void where(void *pc, char *b, size_t n) { Dl_info i; if (pc && dladdr(pc, &i) && i.dli_sname) snprintf(b, n, "%s", i.dli_sname); else snprintf(b, n, "a static function"); }
static void access_(uintptr_t p, size_t n, int w, void *pc, const char *what) {
    if (!on() || !n) return;
    for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3; g++) {
        unsigned lo = g == p >> 3 ? p & 7 : 0, hi = g == (p + n - 1) >> 3 ? (p + n - 1) & 7 : 7; uint8_t m = (uint8_t)((0xff >> (7 - hi)) & (0xff << lo));
        struct cell *c = cell(g, 1); char b[100];
        if (c->freed & m) { where(pc, b, sizeof b); mc_fail("released memory is %s in %s", w ? "written" : "read", what ? what : b); }
        for (int t = 0; t < sc_threads; t++) if (t != me->id) {
            int cw = (c->wm[t] & m) && c->wc[t] > me->vc[t], cr = w && (c->rm[t] & m) && c->rc[t] > me->vc[t];
            if (cw || cr) { where(pc, b, sizeof b); if (mc_logging) mc_logf("  T%d %s what T%d %s", me->id, w ? "writes" : "reads", t, cw ? "wrote" : "read");
                mc_fail("data race: %s of memory another thread %s, in %s", w ? "write" : "read", cw ? "writes" : "reads", what ? what : b); }
        }
        uint32_t now = me->vc[me->id];
        if (w) { if (c->wc[me->id] != now) c->wm[me->id] = 0; c->wm[me->id] |= m; c->wc[me->id] = now; }
        else { if (c->rc[me->id] != now) c->rm[me->id] = 0; c->rm[me->id] |= m; c->rc[me->id] = now; }
    }
}
/* a thread that gets the stack (and thread-local memory) of one that has ended starts with a clean slate there */
static void stack_reused(struct thr *t) {
    int again = 0; for (int i = 1; i < t->id; i++) if (T[i].st == DONE && pthread_equal(T[i].real, t->real)) again = 1;
    if (!again || !C) return;
    pthread_attr_t a; void *b = NULL; size_t n = 0; if (pthread_getattr_np(t->real, &a)) return; pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a);
    uintptr_t lo = (uintptr_t)b >> 3, hi = ((uintptr_t)b + n) >> 3;
    for (int k = 0; k < NCELL; k++) if (C[k].a >= lo && C[k].a < hi) { memset(C[k].wm, 0, MT); memset(C[k].rm, 0, MT); C[k].freed = 0; }
}
void sc_race(const void *p, size_t n, int w, const char *what) { access_((uintptr_t)p, n, w, NULL, what); }
static void fresh(const void *p, size_t n) { if (!C || !n) return; for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) { struct cell *c = cell(g, 0); if (c) { memset(c->wm, 0, sizeof c->wm); memset(c->rm, 0, sizeof c->rm); c->freed = 0; } } }
#include <malloc.h>
R(void *, malloc, (size_t n)) { void *p = __real_malloc(n); if (p && sc_active) fresh(p, n); if (p && on()) sc_blocks++; return p; }
R(void *, calloc, (size_t a, size_t b)) { void *p = __real_calloc(a, b); if (p && sc_active && a * b < (1u << 20)) fresh(p, a * b); if (p && on()) sc_blocks++; return p; }
R(void *, realloc, (void *q, size_t n)) {
    if (!on() || !q) { void *p = __real_realloc(q, n); if (p && on()) sc_blocks++; return p; }
    size_t o = malloc_usable_size(q); access_((uintptr_t)q, o, 1, __builtin_return_address(0), "realloc");
    void *p = __real_malloc(n); fresh(p, n); memcpy(p, q, o < n ? o : n); return p;       /* the old block stays quarantined */
}
R(void, free, (void *p)) {
    if (!p) return;
    if (!on()) { __real_free(p); return; }
    sc_blocks--;
    size_t n = malloc_usable_size(p); access_((uintptr_t)p, n, 1, __builtin_return_address(0), NULL);
    for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n) >> 3; g++) cell(g, 1)->freed = 0xff;
}
R(char *, strdup, (const char *s)) { char *p = __real_strdup(s); if (p && on()) sc_blocks++; if (p && sc_active) { fresh(p, strlen(s) + 1); access_((uintptr_t)s, strlen(s) + 1, 0, __builtin_return_address(0), NULL); } return p; }

#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(N) \
 void __tsan_read##N(void *p) { access_((uintptr_t)p, N, 0, PC, NULL); } void __tsan_write##N(void *p) { access_((uintptr_t)p, N, 1, PC, NULL); } \
 void __tsan_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0, PC, NULL); } void __tsan_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1, PC, NULL); } \
 void __tsan_unaligned_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0, PC, NULL); } void __tsan_unaligned_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1, PC, NULL); } \
 void __tsan_unaligned_read##N(void *p) { access_((uintptr_t)p, N, 0, PC, NULL); } void __tsan_unaligned_write##N(void *p) { access_((uintptr_t)p, N, 1, PC, NULL); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_((uintptr_t)p, n, 0, PC, NULL); }
void __tsan_write_range(void *p, size_t n) { access_((uintptr_t)p, n, 1, PC, NULL); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_((uintptr_t)p, 8, 1, PC, NULL); }
/* atomics: a scheduling point, sequentially consistent, synchronising unless relaxed */
static struct obj *at(volatile void *p) { if (!on()) return NULL; schedule(); return obj((void *)p, 'a'); }
static void as(struct obj *o, int mo, int r, int w) { if (!o) return; if (mo == __ATOMIC_RELAXED) return; if (r) acq(o); if (w && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) rel(o); }
#define AT(B, TY) \
 TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { struct obj *o = at((void *)p); TY v = *p; as(o, mo, 1, 0); return v; } \
 void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { struct obj *o = at(p); *p = v; as(o, mo, 0, 1); } \
 TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = v; as(o, mo, 1, 1); return x; } \
 TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = x + v; as(o, mo, 1, 1); return x; } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = x - v; as(o, mo, 1, 1); return x; } \
 TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = x & v; as(o, mo, 1, 1); return x; } \
 TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = x | v; as(o, mo, 1, 1); return x; } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { struct obj *o = at(p); TY x = *p; *p = x ^ v; as(o, mo, 1, 1); return x; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fm) { struct obj *o = at(p); TY x = *p; if (x == *e) { *p = v; as(o, mo, 1, 1); return 1; } *e = x; as(o, fm, 1, 0); return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fm); } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fm) { struct obj *o = at(p); TY x = *p; if (x == e) { *p = v; as(o, mo, 1, 1); } else as(o, fm, 1, 0); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
