/* C45: locks, conditions, threads and callback tables of zt_threads over its pthread backend, under every schedule. */
#include "mc.h"
#include "ctl.h"
#include <zt.h>
#include <libzt/zt_threads.h>
#include <errno.h>
#include <sys/time.h>
static long long vnow; /* the clock, in microseconds */
#define R(ret, name, args, call) extern ret __real_##name args; ret __wrap_##name args { if (!sc_active) return __real_##name call;
R(time_t, time, (time_t *t), (t)) if (t) *t = vnow / 1000000; return vnow / 1000000; }
R(int, gettimeofday, (struct timeval *t, void *z), (t, z)) t->tv_sec = vnow / 1000000; t->tv_usec = vnow % 1000000; return 0; }
R(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t)) t->tv_sec = vnow / 1000000; t->tv_nsec = vnow % 1000000 * 1000; return 0; }
static zt_threads_mutex *mx, *mx2; static zt_threads_cond *cv; static int inside, shared, got, flag, woke, nonblock, reps, ready; static long long deadline, asked; static int timed;
static void on_timed(const struct timespec *t) { timed++; MC_CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "timed wait: deadline with %ld nanoseconds", t->tv_nsec); deadline = t->tv_sec * 1000000ll + t->tv_nsec / 1000; MC_CHECK(deadline == asked, "timed wait: deadline %lld us away from the right one", deadline - asked); }
static void on_timedout(const struct timespec *t) { long long d = t->tv_sec * 1000000ll + (t->tv_nsec + 999) / 1000; if (d > vnow) vnow = d; }
static void *locker(void *a) { (void)a;
    for (int k = 0; k < reps; k++) { int mode = (nonblock && (k + sc_self()) % 2 ? ZT_THREADS_LOCK_NONBLOCKING : ZT_THREADS_LOCK_BLOCKING) | (sc_self() % 2 ? ZT_THREADS_LOCK_DUMMY : 0); int r = zt_threads_lock(mode, mx);
        if (r) { MC_CHECK(mode & ZT_THREADS_LOCK_NONBLOCKING, "blocking lock returns %d", r); MC_LOG("T%d finds the lock taken", sc_self()); continue; }
        MC_CHECK(++inside == 1, "two threads hold the lock"); sc_race(&shared, sizeof shared, 1, "the shared counter"); shared++; sc_point("inside"); MC_CHECK(inside-- == 1, "two threads hold the lock"); got++; MC_CHECK(zt_threads_unlock(mode, mx) == 0, "unlock fails"); } return &inside; }
static void *waiter(void *a) { (void)a; MC_CHECK(!zt_threads_lock(0, mx), "lock"); ready++; sc_race(&flag, sizeof flag, 0, "the flag"); while (!flag) { int r = zt_threads_cond_wait(cv, mx, NULL); MC_CHECK(r == 0, "wait returns %d", r); MC_CHECK(!inside, "wait returns without the lock"); } inside++; sc_point("woken"); inside--; if (flag > 0) flag--; woke++; zt_threads_unlock(0, mx); return NULL; }
static void signaller(int all, int n, int held) { if (held) zt_threads_lock(0, mx); else { zt_threads_lock(0, mx); } inside++; sc_race(&flag, sizeof flag, 1, "the flag"); flag = all ? -1 : flag + n; inside--; if (!held) zt_threads_unlock(0, mx); for (int i = 0; i < (all ? 1 : n); i++) MC_CHECK(zt_threads_cond_signal(cv, all) == 0, "signal fails"); if (held) zt_threads_unlock(0, mx); }
static void *poster(void *a) { signaller((int)(intptr_t)a & 1, 1, (int)(intptr_t)a >> 1); return NULL; }
static void *trier(void *a) { (void)a; MC_CHECK(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, mx) != 0 && zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING | ZT_THREADS_LOCK_DUMMY, mx) != 0, "a lock held by another thread is taken"); MC_CHECK(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, mx2) == 0 && zt_threads_unlock(0, mx2) == 0, "a free lock is not taken"); return mx2; }
static unsigned long ids[8]; static int how;
static void *body(void *a) { intptr_t i = (intptr_t)a; ids[i] = zt_threads_id(); sc_point("running"); MC_CHECK(ids[i] == zt_threads_id(), "the id of a running thread changes"); if (how) zt_threads_end((void *)(i * 16 + 8)); return (void *)(i * 16 + 8); }
static void *held(void *a) { (void)a; zt_threads_lock(0, mx); zt_threads_unlock(0, mx); woke++; return NULL; }
static void cleanup(void *a) { (void)a; zt_threads_unlock(0, mx); }
static void *stuck(void *a) { (void)a; zt_threads_lock(0, mx); pthread_cleanup_push(cleanup, NULL); ready = 1; for (;;) zt_threads_cond_wait(cv, mx, NULL); pthread_cleanup_pop(0); return NULL; }
/* user callbacks that record what they are given */
static char trace[400]; static void tr(const char *n, long a, const void *p, const void *q) { sprintf(trace + strlen(trace), "%s(%ld,%ld,%ld) ", n, a, (long)p, (long)q); }
static void *u_alloc(int t) { tr("alloc", t, 0, 0); return (void *)11; } static void u_free(void *l, int t) { tr("free", t, l, 0); } static int u_lock(int m, void *l) { tr("lock", m, l, 0); return 21; } static int u_unlock(int m, void *l) { tr("unlock", m, l, 0); return 22; }
static void *u_calloc(int t) { tr("calloc", t, 0, 0); return (void *)12; } static void u_cfree(void *c) { tr("cfree", 0, c, 0); } static int u_sig(void *c, int b) { tr("signal", b, c, 0); return 23; } static int u_wait(void *c, void *l, struct timeval *t) { tr("wait", (long)t, c, l); return 24; }
static int u_start(void *t, void *a, void *(*cb)(void *), void *arg) { tr("start", (long)t, a, arg); MC_CHECK(cb == body, "start is given another function"); return 25; } static void u_end(void *a) { tr("end", 0, a, 0); } static int u_kill(void *t) { tr("kill", 0, t, 0); return 26; } static unsigned long u_id(void) { tr("id", 0, 0, 0); return (unsigned long)-27; } static int u_join(void *t, void **d) { tr("join", 0, t, d); return 28; } static int u_detach(void *t) { tr("detach", 0, t, 0); return 29; }
static char want[400]; static void w(int on, const char *n, long a, long p, long q) { if (on) sprintf(want + strlen(want), "%s(%ld,%ld,%ld) ", n, a, p, q); }
static void all_ops(int L, int C, int K) { /* L C: table set; K: mask of control callbacks */
    trace[0] = want[0] = 0; struct timeval tv; void *d; long T = (long)&tv;
    MC_CHECK(zt_threads_alloc_lock(3) == (L ? (void *)11 : NULL), "alloc_lock"); w(L, "alloc", 3, 0, 0); zt_threads_free_lock((void *)5, 4); w(L, "free", 4, 5, 0); MC_CHECK(zt_threads_lock(1, (void *)5) == (L ? 21 : 0), "lock"); w(L, "lock", 1, 5, 0); MC_CHECK(zt_threads_unlock(2, (void *)6) == (L ? 22 : 0), "unlock"); w(L, "unlock", 2, 6, 0);
    MC_CHECK(zt_threads_cond_alloc(7) == (C ? (void *)12 : NULL), "cond_alloc"); w(C, "calloc", 7, 0, 0); zt_threads_cond_free((void *)8); w(C, "cfree", 0, 8, 0); MC_CHECK(zt_threads_cond_signal((void *)8, 1) == (C ? 23 : 0), "signal"); w(C, "signal", 1, 8, 0); MC_CHECK(zt_threads_cond_wait((void *)8, (void *)5, &tv) == (C ? 24 : 0), "wait"); w(C, "wait", T, 8, 5);
    MC_CHECK(zt_threads_start((void *)1, (void *)2, body, (void *)3) == (K & 1 ? 25 : 0), "start"); w(K & 1, "start", 1, 2, 3); zt_threads_end((void *)4); w(K & 2, "end", 0, 4, 0); MC_CHECK(zt_threads_kill((void *)9) == (K & 4 ? 26 : 0), "kill"); w(K & 4, "kill", 0, 9, 0); MC_CHECK(zt_threads_id() == (K & 8 ? (unsigned long)-27 : 0), "id"); w(K & 8, "id", 0, 0, 0); MC_CHECK(zt_threads_join((void *)9, &d) == (K & 16 ? 28 : 0), "join"); w(K & 16, "join", 0, 9, (long)&d); MC_CHECK(zt_threads_detach((void *)9) == (K & 32 ? 29 : -1), "detach"); w(K & 32, "detach", 0, 9, 0);
    MC_CHECK(!strcmp(trace, want), "callbacks saw %s, must be %s", trace, want); mc_step();
}
static const long long NOW[] = { 0, 1, 999999, 500000, 1400000000999999ll, 1400000000000001ll }; static const struct timeval TV[] = { { 0, 0 }, { 0, 1 }, { 0, 999999 }, { 0, 500000 }, { 1, 0 }, { 3, 999999 }, { 86400, 500001 } };
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 5; mc_param("preemptions", 2, 3); mc_param("threads", 3, 3); }
void mc_run(void) {
    int mode = mc_choose(8), pb = mc_param("preemptions", 2, 3), nt, sel; pthread_t p[8]; zt_threads_thread *t[8]; mc_nontrivial();
    if (mode == 0) { /* callback tables */
        int kind = mc_choose(3), m = mc_choose(kind == 2 ? 64 : 16), prev = mc_choose(2); zt_threads_set_lock_callbacks(NULL); zt_threads_set_cond_callbacks(NULL); zt_threads_set_cntrl_callbacks(NULL); all_ops(0, 0, 0);
        struct zt_threads_lock_callbacks l = { u_alloc, u_free, u_lock, u_unlock }; struct zt_threads_cond_callbacks c = { u_calloc, u_cfree, u_sig, u_wait }; struct zt_threads_cntrl_callbacks k = { u_start, u_end, u_kill, u_id, u_join, u_detach };
        if (prev) { MC_CHECK(!zt_threads_set_lock_callbacks(&l) && !zt_threads_set_cond_callbacks(&c) && !zt_threads_set_cntrl_callbacks(&k), "a complete table is refused"); all_ops(1, 1, 63); }
        if (!(m & 1)) l.alloc = NULL, c.alloc = NULL, k.start = NULL; if (!(m & 2)) l.free = NULL, c.free = NULL, k.end = NULL; if (!(m & 4)) l.lock = NULL, c.signal = NULL, k.kill = NULL; if (!(m & 8)) l.unlock = NULL, c.wait = NULL, k.id = NULL; if (!(m & 16)) k.join = NULL; if (!(m & 32)) k.detach = NULL;
        int r = kind == 0 ? zt_threads_set_lock_callbacks(&l) : kind == 1 ? zt_threads_set_cond_callbacks(&c) : zt_threads_set_cntrl_callbacks(&k), ok = kind == 2 ? (m & 3) == 3 : m == 15; MC_LOG("table %d with callbacks %x", kind, m); MC_CHECK(r == (ok ? 0 : -1), "table %d with callbacks %x: %d", kind, m, r);
        all_ops(kind == 0 && ok ? 1 : prev, kind == 1 && ok ? 1 : prev, kind == 2 && ok ? m : prev ? 63 : 0); zt_threads_set_lock_callbacks(NULL); all_ops(0, kind == 1 && ok ? 1 : prev, kind == 2 && ok ? m : prev ? 63 : 0); zt_threads_set_cntrl_callbacks(NULL); all_ops(0, kind == 1 && ok ? 1 : prev, 0); zt_threads_set_cond_callbacks(NULL); all_ops(0, 0, 0); mc_state(mc_mix(kind * 2 + prev, m)); return; }
    MC_CHECK(zt_threads_use_pthreads() == 0, "use_pthreads fails"); vnow = 1400000000000000ll; sc_timed = on_timed; sc_timedout = on_timedout;
    switch (mode) {
    case 1: case 2: /* mutual exclusion, two locks independent, non-blocking never waits */
        nt = 2 + mc_choose(2); reps = nt == 2 ? 2 : 1; nonblock = mode == 2; if (nt == 3) pb--; sc_begin(pb); mx = zt_threads_alloc_lock(0); mx2 = zt_threads_alloc_lock(0); MC_CHECK(mx && mx2 && mx != mx2, "no lock"); if (nonblock) { MC_CHECK(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, mx) == 0 && zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, mx2) == 0, "a free lock is not taken"); zt_threads_unlock(0, mx2); void *d = NULL; t[0] = zt_threads_alloc_thread(); MC_CHECK(!zt_threads_start(t[0], NULL, trier, NULL) && !zt_threads_join(t[0], &d) && d == mx2, "start or join fails"); free(t[0]); zt_threads_lock(0, mx2); MC_CHECK(zt_threads_unlock(0, mx) == 0 && zt_threads_unlock(0, mx2) == 0, "unlock fails"); }
        for (int i = 0; i < nt; i++) { t[i] = zt_threads_alloc_thread(); MC_CHECK(t[i] && zt_threads_start(t[i], NULL, locker, NULL) == 0, "start fails"); } for (int i = 0; i < nt; i++) { void *d = NULL; MC_CHECK(zt_threads_join(t[i], &d) == 0 && d == &inside, "join gives something else than the thread returned"); free(t[i]); }
        MC_CHECK(shared == got && (nonblock ? got >= 1 : got == nt * reps), "%d of %d critical sections", got, nt * reps); zt_threads_free_lock(mx, 0); zt_threads_free_lock(mx2, 0); break;
    case 3: /* waiters are woken: one by one or all */
        nt = 1 + mc_choose(2); sel = mc_choose(4); if (nt == 2) pb--; sc_begin(pb); sc_spurious = mc_choose(2); mx = zt_threads_alloc_lock(0); cv = zt_threads_cond_alloc(0); MC_CHECK(mx && cv, "no condition"); for (int i = 0; i < nt; i++) { t[i] = zt_threads_alloc_thread(); zt_threads_start(t[i], NULL, waiter, NULL); } signaller(sel & 1, nt, sel >> 1); for (int i = 0; i < nt; i++) { MC_CHECK(zt_threads_join(t[i], NULL) == 0, "join fails"); free(t[i]); } MC_CHECK(woke == nt, "%d of %d waiters woken", woke, nt); zt_threads_cond_free(cv); zt_threads_free_lock(mx, 0); break;
    case 4: { /* waits with a time limit */
        sel = mc_choose(8); int ni = mc_choose(6), ti = mc_choose(7), lim = mc_choose(2); vnow = NOW[ni]; sc_begin(pb > 2 ? 2 : 1); sc_timeouts = sel >= 4 ? 1 : lim; mx = zt_threads_alloc_lock(0); cv = zt_threads_cond_alloc(0); int post = sel < 4; if (post) pthread_create(&p[0], NULL, poster, (void *)(intptr_t)sel); zt_threads_lock(0, mx); MC_LOG("now %lld us, limit %ld.%06ld s", vnow, (long)TV[ti].tv_sec, (long)TV[ti].tv_usec); int timeouts = 0; struct timeval tv = TV[ti]; long long begun = vnow;
        while (!flag) { asked = vnow + tv.tv_sec * 1000000ll + tv.tv_usec; int n0 = timed; inside--; inside++; int r = zt_threads_cond_wait(cv, mx, &tv); MC_CHECK(timed == n0 + 1, "a wait with a limit waits without one"); MC_CHECK(!memcmp(&tv, &TV[ti], sizeof tv), "the limit is changed"); MC_CHECK(r == 0 || r == 1, "a wait with a limit returns %d", r); if (r == 1) { timeouts++; MC_CHECK(vnow >= asked, "timed out early"); if (!post) break; } else MC_CHECK(vnow < asked || TV[ti].tv_sec + TV[ti].tv_usec == 0 || timeouts || begun == vnow, "a time-out is reported as a signal"); }
        MC_CHECK(inside == 0, "the lock is not held after the wait"); if (!post) MC_CHECK(timeouts == 1, "no time-out reported"); zt_threads_unlock(0, mx); if (post) pthread_join(p[0], NULL); zt_threads_cond_free(cv); zt_threads_free_lock(mx, 0); break; }
    case 5: /* starting, ending, joining, detaching; a start that fails */
        nt = 1 + mc_choose(3); how = mc_choose(2); sel = mc_choose(nt + 1); sc_begin(nt > 2 ? pb - 1 : pb); { int det = mc_choose(2), r; unsigned long my = zt_threads_id(); if (!det) sc_nocreate = sel; int failed = -1;
        for (int i = 0; i < nt; i++) { t[i] = zt_threads_alloc_thread(); r = zt_threads_start(t[i], NULL, body, (void *)(intptr_t)(i + 1)); int fails = !det && sel == i + 1; MC_CHECK(fails ? r == -1 : r == 0, "start returns %d%s", r, fails ? " when no thread can be made" : ""); if (fails) failed = i; if (det && sel == i + 1) MC_CHECK(zt_threads_detach(t[i]) == 0, "detach fails"); }
        for (int i = 0; i < nt; i++) { void *d = &d; if (i != failed && !(det && sel == i + 1)) { MC_CHECK(zt_threads_join(t[i], &d) == 0, "join fails"); MC_CHECK(d == (void *)(intptr_t)((i + 1) * 16 + 8), "join gives %p instead of what the thread returned", d); } free(t[i]); }
        sc_drain(); for (int i = 0; i < nt; i++) if (i != failed) { MC_CHECK(ids[i + 1] != my, "a thread has the id of its parent"); } MC_CHECK(zt_threads_id() == my, "the id of the main thread changes"); } break;
    case 6: /* a thread that waits is killed */
        sc_begin(pb); mx = zt_threads_alloc_lock(0); cv = zt_threads_cond_alloc(0); t[0] = zt_threads_alloc_thread(); t[1] = zt_threads_alloc_thread(); reps = 1; MC_CHECK(!zt_threads_start(t[0], NULL, stuck, NULL) && !zt_threads_start(t[1], NULL, locker, NULL), "start fails"); { void *d = NULL, *e = NULL; MC_CHECK(zt_threads_kill(t[0]) == 0, "kill fails"); MC_CHECK(zt_threads_join(t[0], &d) == 0 && d == PTHREAD_CANCELED, "a killed thread returns %p", d); MC_CHECK(zt_threads_join(t[1], &e) == 0 && e == &inside, "another thread died"); } free(t[0]); free(t[1]); zt_threads_cond_free(cv); zt_threads_free_lock(mx, 0); break;
    case 7: /* a thread that waits for a lock is detached */
        sc_begin(pb); mx = zt_threads_alloc_lock(0); t[0] = zt_threads_alloc_thread(); zt_threads_lock(0, mx); MC_CHECK(!zt_threads_start(t[0], NULL, held, NULL), "start fails"); MC_CHECK(zt_threads_detach(t[0]) == 0, "detach fails"); zt_threads_unlock(0, mx); sc_drain(); MC_CHECK(woke == 1, "a detached thread does not run to its end"); free(t[0]); zt_threads_free_lock(mx, 0); break;
    }
    sc_end(); MC_CHECK(sc_blocks == 0, "%ld blocks left", sc_blocks); mc_state(mc_mix(mode * 64 + got * 8 + woke, sc_points));
}
