/* C13/C14 (scale): big object graphs; a cut, a move and a protection change after every number of increments. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_gc.h>
#define MX 400
#define MR 64
typedef struct obj { zt_gc_collectable_t mark; int id, nr; struct obj *ref[MR]; } obj;
static obj *O[MX]; static int prot[MX], rel[MX], n, maxn, destroying, dis; static zt_gc_t *gc; static char R[MX]; static const char *st;
static void dfs(int i) { if (R[i]) return; R[i] = 1; for (int k = 0; k < O[i]->nr; k++) if (O[i]->ref[k]) dfs(O[i]->ref[k]->id); }
static void reach(void) { memset(R, 0, sizeof R); for (int i = 0; i < n; i++) if (O[i] && prot[i]) dfs(i); }
static obj *chk(void *v, const char *w) { obj *o = v; for (int i = 0; i < n; i++) if (O[i] == o) return o; MC_CHECK(0, "%s: %s callback for an object that is not managed", st, w); return NULL; }
static void mark(zt_gc_t *g, void *p, void *v) { (void)p; obj *o = chk(v, "mark"); for (int k = 0; k < o->nr; k++) if (o->ref[k]) zt_gc_mark(g, o->ref[k]); }
static void release(zt_gc_t *g, void *p, void **v) { (void)g; (void)p; obj *o = chk(*v, "release"); int i = o->id; if (!destroying) { reach(); MC_CHECK(!R[i], "%s: reachable object %d of %d released", st, i, n); MC_CHECK(!dis, "%s: released while disabled", st); } rel[i]++; O[i] = NULL; prot[i] = 0; free(o); *v = NULL; }
static obj *mk(int p) { obj *o = calloc(1, sizeof *o); o->id = n; O[n] = o; prot[n] = 1; rel[n] = 0; n++; zt_gc_prepare(gc, o); if (p) zt_gc_protect(gc, o); else { zt_gc_register(gc, o); prot[n - 1] = 0; } mc_step(); return o; }
static void ln(obj *a, obj *b) { a->ref[a->nr++] = b; }
void mc_setup(void) { maxn = mc_param("objects", 24, 40); mc_shard_depth = 4; }
void mc_run(void) {
    static const int M[] = { 1, 2, 3, 7, 20 }, A[] = { 1, 2, 3, 8, 1000 }; long live0 = mc_live_blocks(); n = destroying = dis = 0; st = "build"; int shape = mc_choose(6), z = 1 + mc_choose(maxn + 2); if (z > maxn) z = z == maxn + 1 ? 60 : 300; int m = mc_choose(5), a = mc_choose(5), act = mc_choose(4); if (z > 100 && (shape == 1 || shape == 4)) mc_prune();
    MC_LOG("shape %d, %d objects, %d marks per scan, %d allocations before one, action %d", shape, z, M[m], A[a], act); gc = zt_gc_init(&n, mark, release, M[m], A[a]); obj *root = mk(1);
    for (int i = 1; i < z; i++) { int p = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? i - 1 : shape == 4 ? 0 : (i - 1) / 3; obj *o = mk(0); MC_CHECK(O[p] != NULL, "object %d is gone", p); ln(O[p], o); }
    if (shape == 3 && z > 1) { ln(O[z - 1], root); zt_gc_mark(gc, root); } if (shape == 4) for (int i = 1; i + 1 < z; i++) { ln(O[i], O[i + 1]); zt_gc_mark(gc, O[i + 1]); }
    int inc = z < 40 ? mc_choose(z / M[m] + 3) : mc_choose(3) * z / 3 / M[m]; for (int i = 0; i < inc; i++) { st = "increments"; zt_gc_collect(gc, 0); mk(0); if (n > MX - 40) break; mc_step(); } /* lost objects drive the automatic collection */
    int at = z > 1 ? (z < 40 ? 1 + mc_choose(z - 1 > 6 ? 6 : z - 1) * (z - 1) / (z - 1 > 6 ? 6 : z - 1) : z / 2) : 0; if (at >= z) at = z - 1; st = "action";
    if (at) { int p = -1, k = 0; for (int i = 0; i < z && p < 0; i++) for (k = 0; k < O[i]->nr; k++) if (O[i]->ref[k] == O[at]) { p = i; break; } MC_CHECK(p >= 0, "structure"); MC_LOG("after %d increments, object %d", inc, at);
        if (act == 0) O[p]->ref[k] = NULL;              /* cut */
        else if (act == 1) { O[p]->ref[k] = NULL; ln(root, O[at]); zt_gc_mark(gc, O[at]); }      /* move below the root, which may have been scanned */
        else if (act == 2) { prot[at] = 1; zt_gc_protect(gc, O[at]); O[p]->ref[k] = NULL; }      /* protect, then cut */
        else { prot[at] = 1; zt_gc_protect(gc, O[at]); zt_gc_collect(gc, 0); O[p]->ref[k] = NULL; zt_gc_collect(gc, 0); ln(root, O[at]); zt_gc_mark(gc, O[at]); zt_gc_unprotect(gc, O[at]); prot[at] = 0; } }
    st = "afterwards"; for (int i = 0; i < 3; i++) { zt_gc_collect(gc, 0); mk(0); }
    if (m % 2) { st = "disabled"; int d = 1 + z % 3; for (int i = 0; i < d; i++) { dis++; zt_gc_disable(gc); } mk(0); zt_gc_collect(gc, 1); zt_gc_collect(gc, 0); mk(0); for (int i = 0; i < d; i++) { if (i == d - 1) dis = 0; zt_gc_enable(gc); } dis = 0; }
    st = "full"; reach(); char was[MX]; memcpy(was, R, sizeof was); for (int k = 0; k < 3; k++) { zt_gc_collect(gc, 1); mc_step(); }
    for (int i = 0; i < n; i++) {
        MC_CHECK(!was[i] || O[i], "reachable object %d of %d is gone", i, n);
#ifdef LIVE
        MC_CHECK(was[i] || !O[i], "unreachable object %d of %d is still there", i, n); MC_CHECK(rel[i] == !was[i], "object %d released %d times", i, rel[i]);
#endif
    }
    st = "destroy"; destroying = 1; zt_gc_destroy(gc); for (int i = 0; i < n; i++) { MC_CHECK(!O[i] && rel[i] == 1, "object %d released %d times", i, rel[i]); }
#ifdef LIVE
    MC_CHECK(mc_live_blocks() == live0, "%ld blocks left", mc_live_blocks() - live0);
#endif
    if (z > 2) mc_nontrivial(); mc_state(mc_mix(mc_mix(shape, z), mc_mix(m * 5 + a, act * 100 + inc)));
}
