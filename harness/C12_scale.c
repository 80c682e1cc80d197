/* C12 (scale): wide and deep hierarchies with many allocations of every size. */
#include "mc.h"
#include <zt.h>
#define MN 200
static int maxn; static zt_ez_mempool *P[MN]; static int par[MN], alive[MN], np; static struct { char *p; size_t n; int pool, kind, freed, live; } A[MN * 4]; static int na; static char oops[60];
static void cb(void *p) { for (int i = 0; i < na; i++) if (A[i].p == p && A[i].live) { A[i].freed++; if (A[i].kind == 1) free(p); return; } snprintf(oops, sizeof oops, "callback for memory that is not live"); }
static int under(int x, int top) { while (x >= 0) { if (x == top) return 1; x = par[x]; } return 0; }
static void is(const char *what, long live0) { long w = 0; MC_CHECK(!oops[0], "%s: %s", what, oops); for (int i = 0; i < np; i++) w += alive[i]; for (int i = 0; i < na; i++) if (A[i].live) { w += 1 + (A[i].kind != 2); MC_CHECK(!A[i].freed, "%s: live allocation %d is freed", what, i); for (size_t k = 0; k < A[i].n; k++) MC_CHECK(A[i].p[k] == (char)(i * 7 + k * 3 + (k >> 8) + 1), "%s: allocation %d changed at %zu", what, i, k); } MC_CHECK(mc_live_blocks() - live0 == w, "%s: %ld heap blocks live, must be %ld", what, mc_live_blocks() - live0, w); mc_step(); }
static void destroy(int k) { zt_ez_mempool_destroy(P[k]); for (int i = 0; i < na; i++) if (A[i].live && under(A[i].pool, k)) { MC_CHECK(A[i].freed == (A[i].kind == 1 || A[i].kind == 2), "callback of allocation %d runs %d times", i, A[i].freed); A[i].live = 0; } for (int i = 0; i < np; i++) if (alive[i] && under(i, k)) alive[i] = 0; }
void mc_setup(void) { maxn = mc_param("pools", 26, 60); mc_shard_depth = 3; }
void mc_run(void) {
    long live0 = mc_live_blocks(); na = np = 0; oops[0] = 0; int shape = mc_choose(5), n = 1 + mc_choose(maxn), ka = mc_choose(6), ord = mc_choose(5); static const int AL[] = { 0, 1, 2, 3, 9, 20 }; static const size_t S[] = { 1, 2, 7, 8, 16, 31, 100, 255, 256, 257, 1000, 4096, 70000 }; if (AL[ka] * n > MN * 4 - 10) mc_prune();
    MC_LOG("%d pools in shape %d, %d allocations each, destroyed in order %d", n, shape, AL[ka], ord); static char ext[MN * 4][2];
    for (int i = 0; i < n; i++) { par[i] = i == 0 ? -1 : shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? (i - 1) / 5 : i % 3 ? i - 1 - i % 2 : -1; P[i] = zt_ez_mempool_init(par[i] < 0 ? NULL : P[par[i]]); alive[i] = 1; np++; MC_CHECK(P[i], "init"); }
    for (int r = 0; r < AL[ka]; r++) for (int i = 0; i < n; i++) {
        int k = na, kind = (i + r) % 4; size_t z = S[(i + r * 3) % 13]; A[k].pool = i; A[k].kind = kind; A[k].freed = 0; A[k].n = z; char *p;
        if (kind < 2) { p = zt_ez_mempool_alloc(P[i], z, kind ? cb : NULL); for (size_t b = 0; b < z; b++) MC_CHECK(p[b] == 0, "fresh memory is not zero"); } else if (kind == 2) { p = ext[k]; A[k].n = 2; MC_CHECK(zt_ez_mempool_add_buffer(P[i], p, 2, cb) == 0, "add_buffer"); } else { char *s = malloc(z + 1); for (size_t b = 0; b < z; b++) s[b] = 'a' + (b + k) % 26; s[z] = 0; p = zt_ez_mempool_strdup(P[i], s); MC_CHECK(!strcmp(p, s), "strdup of %zu characters differs", z); free(s); }
        A[k].p = p; A[k].live = 1; na++; for (size_t b = 0; b < A[k].n; b++) p[b] = (char)(k * 7 + b * 3 + (b >> 8) + 1); mc_nontrivial();
    }
    is("built", live0); int cnt = 0;
    for (int k = 0; k < n; k++) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : ord == 2 ? (k * 7 + n / 2) % n : ord == 3 ? (n / 2 + k) % n : (k % 2 ? n - 1 - k / 2 : k / 2); if (!alive[i]) continue; destroy(i); cnt++; is("destroyed", live0); if (cnt == 2 && n > 3) for (int j = 0; j < np; j++) if (alive[j]) { P[np] = zt_ez_mempool_init(P[j]); par[np] = j; alive[np] = 1; np++; is("one more", live0); break; } }
    for (int i = 0; i < np; i++) if (alive[i]) { destroy(i); is("rest destroyed", live0); } MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); mc_state(mc_mix(mc_mix(shape, n), ka * 5 + ord));
}
