/* C34: thread pool under every schedule (up to a preemption bound) of its real pthread backend. */
#include "mc.h"
#include "ctl.h"
#include <zt.h>
#include <libzt/zt_threads.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <unistd.h>
#define MAXI 6
static int quick_pb, maxth, maxit; static int pipefail, pipes;
extern int __real_pipe(int *);
int __wrap_pipe(int *p) { if (sc_active && ++pipes == pipefail) { errno = EMFILE; return -1; } return __real_pipe(p); }
static int item[MAXI], result[MAXI], nproc[MAXI], nout[MAXI], nfin[MAXI], ninit, marker[16], pattern, usecons, useinit, bad_init;
static zt_threadpool *tp; static int one, lasti = -1, lasto = -1, meet_in, meet_out; static sem_t rs, dn;
static int initof[16];
static void *w_init(void *a) { MC_CHECK(a == tp, "init callback gets something else than the pool"); int i = ninit++; initof[i] = sc_self(); sc_point("init"); return &marker[i]; }
static void own(void *d, const char *who) { if (!useinit) { MC_CHECK(d == NULL, "%s gets init data without an init callback", who); return; } int i = (int *)d - marker; MC_CHECK(i >= 0 && i < ninit && initof[i] == sc_self(), "%s gets the init data of another thread", who); }
static void *w_in(void *d, void *data) { int i = (int *)data - item; MC_CHECK(i >= 0 && i < MAXI && data == &item[i], "worker is given something that was never put in"); own(d, "input worker"); MC_LOG("T%d processes item %d", sc_self(), i); MC_CHECK(++nproc[i] == 1, "item processed %d times", nproc[i]); if (one) { MC_CHECK(i > lasti, "one worker processes item %d after item %d", i, lasti); lasti = i; } if (meet_in) { if (i == 0) sem_wait(&rs); else sem_post(&rs); sem_post(&dn); } sc_point("working"); return (pattern >> i) & 1 ? NULL : &result[i]; }
static void *w_out(void *d, void *data) { int i = (int *)data - result; MC_CHECK(i >= 0 && i < MAXI && data == &result[i], "output worker is given something that is no result"); own(d, "output worker"); MC_LOG("T%d outputs result %d", sc_self(), i); MC_CHECK(nproc[i] == 1, "result of an item that was not processed"); MC_CHECK(++nout[i] == 1, "result delivered %d times", nout[i]); if (one) { MC_CHECK(i > lasto, "result %d comes out after result %d", i, lasto); lasto = i; } if (meet_out) { if (i == 0) sem_wait(&rs); else sem_post(&rs); sem_post(&dn); } sc_point("output"); return i & 1 ? NULL : data; }
static void w_fin(void *d, void *data) { int i = (int *)data - result; MC_CHECK(i >= 0 && i < MAXI && !(i & 1), "finalize is given something else"); own(d, "finalize"); MC_CHECK(nout[i] == 1, "finalize before output"); MC_CHECK(++nfin[i] == 1, "finalised %d times", nfin[i]); }
static void put(int i) { MC_LOG("T%d puts item %d", sc_self(), i); int r = zt_threadpool_insert_iput(tp, &item[i]); MC_CHECK(r == 0, "insert fails with %d", r); }
static int first, last;
static void *producer(void *a) { for (int i = first; i < last; i++) put(i); return NULL; }
static void got(void *p) { int i = (int *)p - result; MC_CHECK(i >= 0 && i < MAXI && p == &result[i], "get returns something that is no result"); MC_LOG("T%d gets result %d", sc_self(), i); if (one) { MC_CHECK(i > lasto, "result %d comes out after result %d", i, lasto); lasto = i; } MC_CHECK(nproc[i] == 1, "result of an item that was not processed"); MC_CHECK(++nout[i] == 1, "result delivered %d times", nout[i]); }
static void *consumer(void *a) { for (int k = 0; k < 2; k++) { void *p = zt_threadpool_get_oput(tp); if (p) got(p); } return NULL; }
static int nfds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static int drainfd(int fd) { char b[64]; int n = 0, r; fcntl(fd, F_SETFL, O_NONBLOCK); while ((r = read(fd, b, sizeof b)) > 0) n += r; return n; }
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 9; quick_pb = mc_param("preemptions", 2, 3); maxth = mc_param("threads", 2, 2); maxit = mc_param("items", 2, 3); }
void mc_run(void) {
    int mode = mc_choose(10), n, nth, loop, spur = 0, early, prod = 0, cons = 0;
    zt_threads_use_pthreads(); 
    struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb);
    if (mode == 0) {                    /* creation with failing pipes */
        int pi = mc_choose(2), po = mc_choose(2); pipefail = mc_choose(3); int n0 = nfds(); sc_begin(0);
        MC_LOG("init(pipes %d %d), pipe call %d fails", pi, po, pipefail);
        tp = zt_threadpool_init(1, 1, pi, po); sc_active = 0;
        int fails = pipefail && pipefail <= pi + po;
        MC_CHECK(!!tp == !fails, "init with pipes %d %d %s although pipe call %d %s", pi, po, tp ? "succeeds" : "fails", pipefail, fails ? "fails" : "does not fail");
        MC_CHECK(nfds() == n0 + (fails ? 0 : 2 * (pi + po)), "init with pipes %d %d (call %d failing) changes the number of open descriptors by %d", pi, po, pipefail, nfds() - n0);
        if (tp) { MC_CHECK((zt_threadpool_iput_fd_reader(tp) >= 0) == pi && (zt_threadpool_oput_fd_reader(tp) >= 0) == po && (zt_threadpool_iput_fd_writer(tp) >= 0) == pi && (zt_threadpool_oput_fd_writer(tp) >= 0) == po, "pipe descriptors missing"); }
        mc_step(); mc_nontrivial(); mc_state(mc_mix(pi * 2 + po, pipefail)); return;
    }
    int pb = quick_pb, pipe_i = 0, pipe_o = 0, resets = 0, more = 0, fail = 0, started = 1;
    useinit = 0; nth = 1; loop = 1; early = 0; n = 1; pattern = 0;
    switch (mode) {
    case 1: n = mc_choose(maxit + 1); pattern = n ? mc_choose(2) : 0; early = mc_choose(2); more = early; break;              /* one worker and one output thread */
    case 2: loop = 0; n = mc_choose(maxit + 1); cons = mc_choose(2); more = 1; break;                                      /* results fetched by the user */
    case 3: loop = 0; nth = maxth; n = 1 + mc_choose(maxit); break;                                              /* several workers */
    case 4: nth = maxth; n = mc_choose(2); if (!mc_thorough) pb--; break;                                        /* several of both */
    case 5: loop = 0; prod = 1; n = 2; nth = 1; break;                                                           /* two producers */
    case 6: n = 2; pipe_i = mc_choose(2); pipe_o = mc_choose(2); useinit = 1; resets = mc_choose(2); pb--; break; /* pipes, init data, callbacks reset before */
    case 8: n = 2; nth = 2; loop = mc_choose(2); early = mc_choose(2); if (loop) meet_out = 1, pb -= 2; else meet_in = 1, pb--; break;                                     /* handlers that wait for each other: both threads have to work */
    case 9: nth = 1 + mc_choose(2); loop = mc_choose(2); n = mc_choose(2); early = 1; started = mc_choose(2); if (started) fail = 1 + mc_choose(nth * (1 + loop)); pb--; break;        /* a pool that cannot make its threads, or is never started */
    case 7: n = 1; loop = mc_choose(2); spur = 1; pb--; break;                                                   /* a spurious wake-up */
    }
    if (resets) { struct zt_threadpool_callbacks o; memset(&o, 0, sizeof o); o.init = w_init; o.finalize = w_fin; o.iput_worker = w_in; o.oput_worker = w_out; zt_threadpool_set_callbacks(&o); zt_threadpool_disable_iput_loop(); zt_threadpool_disable_oput_loop(); zt_threadpool_set_callbacks(NULL); }
    if (useinit) cb.init = w_init; cb.iput_worker = w_in; if (loop) cb.oput_worker = w_out; if (!resets) cb.finalize = w_fin;
    zt_threadpool_set_callbacks(&cb);
    if (!loop) zt_threadpool_disable_oput_loop();
    MC_LOG("pool of %d thread(s), %s, %d item(s), pattern %d, %s%s%s", nth, loop ? "output loop" : "no output loop", n, pattern, early ? "items put before start" : "", prod ? "two producers" : "", cons ? "consumer thread" : "");
    sc_begin(pb); sc_spurious = spur; one = nth == 1 && !prod; sem_init(&rs, 0, 0); sem_init(&dn, 0, 0);
    tp = zt_threadpool_init(nth, nth + more, pipe_i, pipe_o); MC_CHECK(tp, "init fails");
    pthread_t tprod, tcons; int i = 0;
    if (early) while (i < n) put(i++);
    if (fail || !started) { if (started) { sc_nocreate = fail; MC_LOG("thread creation %d fails", fail); int r = zt_threadpool_start(tp); MC_CHECK(r != 0, "start succeeds although thread creation %d fails", fail); } MC_CHECK(zt_threadpool_kill(tp) == 0, "kill fails"); MC_CHECK(sc_alive() == 0, "threads still alive after kill"); sc_end(); for (int k = 0; k < n; k++) MC_CHECK(nproc[k] <= 1 && (started && fail > 1 ? nproc[k] == 1 : 1), "item processed %d times", nproc[k]); mc_state(mc_mix(mode * 64 + fail, n)); mc_nontrivial(); return; }
    int s0 = sc_threads; MC_CHECK(zt_threadpool_start(tp) == 0, "start fails"); MC_CHECK(sc_threads - s0 == nth * (1 + loop), "start makes %d threads instead of %d", sc_threads - s0, nth * (1 + loop));
    if (prod) { first = 1; last = n; pthread_create(&tprod, NULL, producer, NULL); while (i < 1) put(i++); }
    if (cons) pthread_create(&tcons, NULL, consumer, NULL);
    if (!prod) while (i < n) put(i++);
    if (prod) pthread_join(tprod, NULL);
    if (meet_in || meet_out) for (int k = 0; k < n; k++) sem_wait(&dn);
    MC_LOG("kill");
    int r = zt_threadpool_kill(tp); MC_CHECK(r == 0, "kill returns %d", r);
    if (cons) pthread_join(tcons, NULL);
    MC_CHECK(sc_alive() == 0, "threads still alive after kill");
    if (!loop) { void *p; while ((p = zt_threadpool_get_oput(tp))) got(p); }
    for (int k = 0; k < n; k++) {
        MC_CHECK(nproc[k] == 1, "item put before the stop is never processed"); int res = !((pattern >> k) & 1);
        MC_CHECK(nout[k] == res, res ? "result lost at shutdown" : "result invented");
        MC_CHECK(nfin[k] == (loop && res && !(k & 1) && !resets), nfin[k] ? "finalised although no finalize callback is set (any more)" : "not finalised");
    }
    if (useinit) MC_CHECK(ninit == nth * (1 + loop), "init callback runs %d times for %d threads", ninit, nth * (1 + loop));
    if (pipe_i) { int b = drainfd(zt_threadpool_iput_fd_reader(tp)); MC_CHECK(b == n + 1, "%d bytes in the input pipe for %d items and the stop", b, n); }
    if (pipe_o) { int b = drainfd(zt_threadpool_oput_fd_reader(tp)); MC_CHECK(b == n + 1, "%d bytes in the output pipe for %d results and the stop", b, n); }
    sc_end(); if (n) mc_nontrivial(); mc_state(mc_mix(mode * 64 + n, sc_points));
}
