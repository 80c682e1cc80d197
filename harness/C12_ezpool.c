/* C12: hierarchical pools: every create/alloc/destroy history up to a depth. */
#include "mc.h"
#include <zt.h>
#define NP 5
#define NA 8
static int depth; static char hist[400];
static struct { zt_ez_mempool *p; int parent, alive; } P[NP + 4]; static int np;
static struct { char *p; size_t n; int pool, live, kind, stamp, freed; } A[NA]; static int na;
static void note(const char *f, int a, int b) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%d,%d)", f, a, b); MC_LOG("%s", hist); }
static char oops[60]; static char extbuf[NA][8];
static void cb(void *p) {
    for (int i = 0; i < na; i++) if (A[i].p == p && A[i].live) { A[i].freed++; if (A[i].kind == 1) free(p); return; }
    snprintf(oops, sizeof oops, "free callback called for memory that is not live");
}
static int under(int x, int top) { while (x >= 0) { if (x == top) return 1; x = P[x].parent; } return 0; }
static void verify(void) {
    MC_CHECK(!oops[0], "%s: %s", hist, oops);
    for (int i = 0; i < na; i++) if (A[i].live) {
        MC_CHECK(A[i].freed == 0, "%s: live allocation %d was freed", hist, i);
        if (A[i].kind == 3 || A[i].kind == 4) MC_CHECK(!strcmp(A[i].p, A[i].kind == 3 ? "dup" : ""), "%s: duplicated string changed", hist);
        else for (size_t k = 0; k < A[i].n; k++) MC_CHECK(A[i].p[k] == (char)(A[i].stamp + k), "%s: allocation %d changed at %zu", hist, i, k);
    }
    for (int i = 0; i < np; i++) if (P[i].alive) MC_CHECK(P[i].p->parent == (P[i].parent < 0 ? NULL : P[P[i].parent].p), "%s: parent link of pool %d", hist, i);
}
static long nodes(void) { long n = 0; for (int i = 0; i < np; i++) n += P[i].alive; for (int i = 0; i < na; i++) if (A[i].live) n += 1 + (A[i].kind != 2); return n; }
static void destroy(int k) {
    zt_ez_mempool_destroy(P[k].p);
    for (int i = 0; i < na; i++) if (A[i].live && under(A[i].pool, k)) { MC_CHECK(A[i].freed == (A[i].kind == 1 || A[i].kind == 2), "%s: callback of allocation %d ran %d times", hist, i, A[i].freed); A[i].live = 0; }
    for (int i = np - 1; i >= 0; i--) if (P[i].alive && under(i, k)) P[i].alive = 2;
    for (int i = 0; i < np; i++) if (P[i].alive == 2) P[i].alive = 0;
}
void mc_setup(void) { depth = mc_param("depth", 6, 7); mc_shard_depth = 4; mc_pure = 1; }
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = oops[0] = 0; np = na = 0;
    P[0].p = zt_ez_mempool_init(NULL); P[0].parent = -1; P[0].alive = 1; np = 1;
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(3);
        int ops = 0, sel[NP + 4]; for (int i = 0; i < np; i++) if (P[i].alive) sel[ops++] = i;
        if (op == 0) {
            if (np >= NP) mc_prune(); int k = (int)mc_choose(ops + 1) - 1; note("pool-under", k < 0 ? -1 : sel[k], 0);
            P[np].p = zt_ez_mempool_init(k < 0 ? NULL : P[sel[k]].p); P[np].parent = k < 0 ? -1 : sel[k]; P[np].alive = 1; MC_CHECK(P[np].p, "%s failed", hist); np++;
        } else if (op == 1) {
            if (!ops || na >= NA) mc_prune(); int k = sel[mc_choose(ops)], kind = mc_choose(6); note("alloc", k, kind);
            A[na].pool = k; A[na].live = 1; A[na].kind = kind == 5 ? 2 : kind; A[na].freed = 0; A[na].stamp = 16 * na + 3; A[na].n = kind == 0 ? 5 : 1;
            char *p;
            if (kind == 0 || kind == 1) {
                p = zt_ez_mempool_alloc(P[k].p, A[na].n, kind ? cb : NULL); MC_CHECK(p, "%s failed", hist); for (size_t i = 0; i < A[na].n; i++) MC_CHECK(p[i] == 0, "%s: fresh memory is not zero", hist);
            } else if (kind == 2) { p = extbuf[na]; MC_CHECK(zt_ez_mempool_add_buffer(P[k].p, p, 1, cb) == 0, "%s failed", hist); }
            else if (kind == 3 || kind == 4) { p = zt_ez_mempool_strdup(P[k].p, kind == 3 ? "dup" : ""); MC_CHECK(p, "%s failed", hist); A[na].n = 0; }
            else { MC_CHECK(zt_ez_mempool_add_buffer(P[k].p, NULL, 1, cb) == -1 && zt_ez_mempool_add_buffer(P[k].p, extbuf[na], 0, cb) == -1, "%s: empty buffers are refused", hist); A[na].live = 0; p = extbuf[na]; }
            for (int i = 0; i < na; i++) if (A[i].live && A[na].live) MC_CHECK(A[i].p != p, "%s: returned a live allocation", hist);
            A[na].p = p; for (size_t i = 0; i < A[na].n; i++) p[i] = (char)(A[na].stamp + i);
            na++; mc_nontrivial();
        } else { if (!ops) mc_prune(); int k = sel[mc_choose(ops)]; note("destroy", k, 0); destroy(k); }
        mc_step(); verify();
        MC_CHECK(mc_live_blocks() - live0 == nodes(), "%s: %ld heap blocks live, want %ld", hist, mc_live_blocks() - live0, nodes());
        uint64_t h = 7; for (int i = 0; i < np; i++) h = mc_mix(h, P[i].alive * 16 + P[i].parent + 1); for (int i = 0; i < na; i++) h = mc_mix(h, A[i].live * 64 + A[i].pool * 8 + A[i].kind); mc_state(h);
    }
    for (int i = 0; i < np; i++) if (P[i].alive && P[i].parent < 0) { destroy(i); verify(); }
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left at the end", hist, mc_live_blocks() - live0);
}
