/* C49: threads that use separate values (or only read a common one) do not affect each other, under every schedule.
 * Every script is straight-line use of one part of the library on values of its own, folded into a fingerprint; two or
 * three threads run every pair (triple) of scripts under the controlled scheduler with the race detector, and each
 * thread's fingerprint must be what the same script gives alone. */
#include "mc.h"
#include "ctl.h"
#define ZT_WITH_GC
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <arpa/inet.h>
#define PT(n) sc_point(n)
#define WHO sc_self()
#include "parts.h"
static const script S[] = { PARTS };
#define NS (int)(sizeof S / sizeof *S)
static struct { int s, k; uint64_t h; } job[4];
static void *run(void *a) { int i = *(int *)a; job[i].h = S[job[i].s].f(job[i].k); return NULL; }
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 2; mc_param("threads", 2, 3); mc_param("preemptions", 1, 2); }
void mc_run(void) {
    int nt = 2, a = mc_choose(NS), b = a + mc_choose(NS - a), same; if (mc_param("threads", 2, 3) == 3 && a == b) nt = 2 + mc_choose(2); same = mc_choose(2); int pb = mc_param("preemptions", 1, 2); if (nt == 3) pb = 1;
    for (int i = 0; i < nt; i++) { job[i].s = i == 0 ? a : b; job[i].k = same ? 0 : i; } MC_LOG("%d threads: %s; %s%s", nt, S[a].n, S[b].n, same ? ", with the same data" : "");
    pthread_t p[3]; int id[3] = { 0, 1, 2 }; uint64_t h = 0; files(); common(); mc_nontrivial();
    sc_begin(pb); for (int i = 0; i < nt; i++) pthread_create(&p[i], NULL, run, &id[i]); for (int i = 0; i < nt; i++) pthread_join(p[i], NULL); sc_end();
    for (int i = 0; i < nt; i++) { uint64_t w = S[job[i].s].f(job[i].k); MC_CHECK(job[i].h == w, "'%s' gives another result while another thread runs '%s'", S[job[i].s].n, S[job[!i].s].n); h = mc_mix(h, w); }
    unfiles(); mc_state(mc_mix(mc_mix(a, b), mc_mix(same, h)));
}
