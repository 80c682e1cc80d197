/* C41: exit handlers registered by several threads at once, under every schedule. */
#include "mc.h"
#include "ctl.h"
#include <zt.h>
static void (*handler[16])(void); static int nh, ids[16], ev[64], nev, per, self;
int __wrap_atexit(void (*f)(void)) { sc_point("atexit"); if (nh < 16) handler[nh] = f; nh++; return 0; }
static void plain(void *d) { if (nev < 64) ev[nev] = (int *)d - ids; nev++; }
static void again(void *d) { if (nev < 64) ev[nev] = (int *)d - ids; nev++; zt_atexit(plain, (int *)d + 8); }
static void *reg(void *a) { int s = sc_self(); for (int k = 0; k < per; k++) { MC_LOG("T%d registers %d", s, s * 2 + k); zt_atexit(self ? again : plain, ids + s * 2 + k); } return NULL; }
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 3; mc_param("preemptions", 3, 5); }
void mc_run(void) {
    pthread_t p[3]; int nt = 1 + mc_choose(3), seen[16] = { 0 }, pos[16]; per = 1 + mc_choose(2); self = mc_choose(2); int pb = mc_param("preemptions", 3, 5); mc_nontrivial();
    if (nt == 3) pb--;
    int leaving = nt < 3 && mc_choose(2); /* the process is exiting meanwhile */
    sc_begin(pb); if (leaving) { zt_atexit(plain, ids + 0); zt_atexit(self ? again : plain, ids + 1); } for (int i = 0; i < nt; i++) pthread_create(&p[i], NULL, reg, NULL); if (leaving) while (nh > 0) { MC_LOG("exit calls a handler"); handler[--nh](); }
    for (int i = 0; i < nt; i++) pthread_join(p[i], NULL); sc_end();
    while (nh > 0) handler[--nh](); /* as exit() does */
    for (int i = 0; i < nev; i++) { MC_CHECK(ev[i] >= 0 && ev[i] < 16 && !seen[ev[i]]++, "a handler is called twice"); pos[ev[i]] = i; }
    if (leaving) MC_CHECK(seen[0] && seen[1] && pos[1] < pos[0], "handlers registered before the exit are not called in reverse order");
    for (int s = 1; s <= nt; s++) for (int k = 0; k < per; k++) { MC_CHECK(seen[s * 2 + k], "a handler registered by a thread is never called"); if (self) MC_CHECK(seen[s * 2 + k + 8] && (leaving || pos[s * 2 + k + 8] == pos[s * 2 + k] + 1), "a handler registered by a handler is not called next"); if (k && !leaving) MC_CHECK(pos[s * 2 + k] < pos[s * 2 + k - 1], "handlers of one thread are not called in reverse order"); }
    mc_state(mc_hash(nev, ev, nev * sizeof *ev));
}
