/* C11: pool groups in every descriptor order, and heaps. */
#include "mc.h"
#include <zt.h>
#define ML 8
static int depth; static char hist[500];
static struct { char *p; size_t n; int stamp; int pool; } L[ML]; static int nl, stamp;
static int fail_at, nalloc, watch;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (watch && fail_at && ++nalloc == fail_at) return NULL; return __real_malloc(n); }
static void note(const char *f, int a) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%d)", f, a); MC_LOG("%s", hist); }
static const size_t SZ[] = { 1100, 1400, 2100, 1400 };
static const size_t RQ[] = { 0, 1, 1100, 1101, 1400, 1401, 2100, 2101, 100000 };
static const int perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
static char *names[] = { "small", "middle", "large", "middle2" };
static void verify(void) {
    for (int j = 0; j < nl; j++) {
        for (size_t i = 0; i < L[j].n; i++) MC_CHECK(L[j].p[i] == (char)(L[j].stamp * 31 + i), "%s: contents of element %d changed", hist, j);
        for (int k = 0; k < j; k++) MC_CHECK(L[j].p + L[j].n <= L[k].p || L[k].p + L[k].n <= L[j].p, "%s: live elements overlap", hist);
    }
}
/* live elements of a pool, observed through its statistics with small pages (elts 1 => 1 element pages when large) */
void mc_setup(void) { depth = mc_param("depth", 4, 5); mc_shard_depth = 5; zt_mem_pool *w = zt_mem_pool_init("warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w); }
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = 0; nl = stamp = fail_at = nalloc = watch = 0;
    int mode = mc_choose(4);
    if (mode == 3) {                                    /* heaps */
        zt_mem_heap *h[3]; size_t n[3]; static const size_t hs[] = { 0, 1, 7, 8, 1000, 70000 };
        for (int i = 0; i < 3; i++) { n[i] = hs[mc_choose(6)]; note("heap", n[i]); h[i] = zt_mem_heap_init(i == 1 ? NULL : i ? "two" : "", n[i]); MC_CHECK(h[i] != NULL, "%s failed", hist); memset(zt_mem_heap_get_data(h[i]), 'a' + i, n[i]); }
        for (int i = 0; i < 3; i++) { char *d = zt_mem_heap_get_data(h[i]); for (size_t k = 0; k < n[i]; k++) MC_CHECK(d[k] == 'a' + i, "%s: heap %d changed at %zu", hist, i, k); MC_CHECK(!strcmp(zt_mem_heap_get_name(h[i]), i == 1 ? "*unknown*" : i ? "two" : ""), "%s: name of heap %d", hist, i); }
        for (int i = 0; i < 3; i++) { zt_mem_heap_destroy(&h[i]); MC_CHECK(h[i] == NULL, "heap handle left"); }
        zt_mem_heap_destroy(NULL); MC_CHECK(zt_mem_heap_get_name(NULL) == NULL, "name of no heap");
        mc_step(); mc_nontrivial();
        MC_CHECK(mc_live_blocks() == live0, "%s: heap memory left", hist); return;
    }
    /* 0: three pools; 1: two pools with a terminating NULL name in the middle of the array; 2: creation with failing malloc */
    const int *pm = perms[mc_choose(6)]; int n = 3, dup = mode == 0 ? (int)mc_choose(2) : 0;
    zt_mem_pool_desc d[4]; memset(d, 0, sizeof d); int idx[4];
    for (int i = 0; i < 3; i++) { idx[i] = pm[i]; d[i].name = names[pm[i]]; d[i].elts = 1; d[i].size = SZ[pm[i]]; }
    if (dup) { idx[3] = 3; d[3].name = names[3]; d[3].elts = 2; d[3].size = SZ[3]; n = 4; }
    int asked = n; if (mode == 1) { n = mc_choose(3); d[n].name = NULL; asked = 3; }
    if (mode == 2) fail_at = 1 + mc_choose(12);
    snprintf(hist, sizeof hist, "group[%d] order %d%d%d dup %d fail %d:", n, pm[0], pm[1], pm[2], dup, fail_at); MC_LOG("%s", hist);
    watch = 1; zt_mem_pool_group *g = zt_mem_pool_group_init(d, asked); watch = 0;
    if (!g) {
        MC_CHECK(mode == 2 && nalloc >= fail_at, "%s init failed", hist);
        for (int i = 0; i < 4; i++) MC_CHECK(zt_mem_pool_get(names[i]) == NULL, "%s: pool %s survives the failed init", hist, names[i]);
        MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left after the failed init", hist, mc_live_blocks() - live0);
        mc_nontrivial(); return;
    }
    MC_CHECK(mode != 2 || nalloc < fail_at, "%s: init succeeded although memory ran out", hist);
    zt_mem_pool *pool[4]; for (int i = 0; i < n; i++) { pool[i] = zt_mem_pool_get(d[i].name); MC_CHECK(pool[i], "%s: pool %s is not registered", hist, d[i].name); }
    if (mode == 2) { MC_CHECK(zt_mem_pool_group_destroy(g) == 0, "%s destroy", hist); MC_CHECK(mc_live_blocks() == live0, "%s: blocks left", hist); return; }
    for (int k = 0; k < depth; k++) {
        int op = nl ? mc_choose(2) : 0;
        if (op == 0) {
            size_t r = RQ[mc_choose(9)]; note("alloc", r);
            int want = -1; for (int i = 0; i < n; i++) if (r <= d[i].size && (want < 0 || d[i].size < d[want].size)) want = i;
            zt_mem_pool_stats b[4], a; for (int i = 0; i < n; i++) zt_mem_pool_get_stats(pool[i], &b[i]);
            char *p = zt_mem_pool_group_alloc(g, r);
            MC_CHECK((p != NULL) == (want >= 0), "%s returned %s", hist, p ? "an element" : "NULL");
            if (p) {
                /* the element is really as big as its pool's elements: which pools changed is read from the release below */
                L[nl].p = p; L[nl].n = r; L[nl].stamp = ++stamp; L[nl].pool = want; for (size_t i = 0; i < r; i++) p[i] = (char)(stamp * 31 + i);
                nl++; mc_nontrivial();
            }
            /* only a pool of the smallest fitting size may have changed, and each pool's live count is visible in pages in use */
            for (int i = 0; i < n; i++) { zt_mem_pool_get_stats(pool[i], &a); int fits = want >= 0 && d[i].size == d[want].size;
                if (!fits) MC_CHECK(a.pages == b[i].pages && a.free_pages == b[i].free_pages, "%s was served from the pool of size %zu", hist, d[i].size); }
        } else {
            int j = mc_choose(nl); note("release", j); void *p = L[j].p; L[j] = L[--nl]; zt_mem_pool_group_release(&p);
        }
        mc_step(); verify();
        /* pools without live elements have only free pages, pools with live ones have a used page */
        for (int i = 0; i < n; i++) { int mine = 0; for (int j = 0; j < nl; j++) mine += d[L[j].pool].size == d[i].size; zt_mem_pool_stats s; zt_mem_pool_get_stats(pool[i], &s);
            if (!mine) MC_CHECK(s.pages == s.free_pages, "%s: pool of size %zu has used pages without live elements", hist, d[i].size);
            else { int used = 0; for (int q = 0; q < n; q++) if (d[q].size == d[i].size) { zt_mem_pool_get_stats(pool[q], &s); used += s.pages > s.free_pages; } MC_CHECK(used > 0, "%s: no used page of size %zu", hist, d[i].size); } }
        mc_state(mc_mix(nl, mc_hash(mode, hist, strlen(hist) > 40 ? 40 : strlen(hist))));
    }
    int want = nl ? -1 : 0, r = zt_mem_pool_group_destroy(g); verify();
    MC_CHECK((r == 0) == (want == 0), "%s destroy with %d live elements returned %d", hist, nl, r);
    while (nl) { void *p = L[--nl].p; zt_mem_pool_release(&p); }
    for (int i = 0; i < n; i++) { zt_mem_pool *q = zt_mem_pool_get(d[i].name); if (q) MC_CHECK(want == -1 && zt_mem_pool_destroy(&q) == 0, "%s: pool %s left after destroy", hist, d[i].name); }
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
