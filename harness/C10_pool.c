/* C10: memory pools.  Pages are observed where the pool takes them from and
 * gives them back to the system allocator, so overlap, membership and the page
 * statistics are judged against what really happened. */
#include "mc.h"
#include <zt.h>
#define ML 12
static int depth; static char hist[500];
typedef struct { char *a; size_t n; int live; } page;
static page pages[32]; static int npg, watch; static size_t watch_size[2]; static int fail_at, nalloc;
static struct { char *p; int pool; int stamp; } L[ML]; static int nl, stamp;
void *__real_malloc(size_t); void __real_free(void *);
static char oops[80];
void *__wrap_malloc(size_t n) {
    if (!watch) return __real_malloc(n);
    if (fail_at && ++nalloc == fail_at) return NULL;
    char *p = __real_malloc(n);
    if (n == watch_size[0] || n == watch_size[1]) { if (npg < 32) pages[npg++] = (page){ p, n, 1 }; }
    return p;
}
void __wrap_free(void *p) {
    if (watch) for (int i = 0; i < npg; i++) if (pages[i].live && pages[i].a == p) {
        for (int j = 0; j < nl; j++) if (L[j].p >= pages[i].a && L[j].p < pages[i].a + pages[i].n) snprintf(oops, sizeof oops, "page released while element %d on it is live", j);
        pages[i].live = 0;
    }
    __real_free(p);
}
static zt_mem_pool *P[2]; static zt_mem_pool_stats st0[2]; static size_t esz[2]; static int policy[2], np, alive[2]; static size_t allocs0[2], frees0[2];
static const struct { int elts; size_t size; } cfgs[] = { { 2, 2100 }, { 1, 2100 }, { 3, 1300 }, { 0, 2100 }, { 4, 1300 }, { 2, 2010 }, { 100, 40 } };
static int cbret;
static int cb(size_t a, size_t b, size_t c, int flags, void *d) { (void)a; (void)b; (void)c; if (d != &cbret || flags != 0x40) snprintf(oops, sizeof oops, "release callback got wrong arguments"); return cbret; }
static void note(const char *f, int a, int b) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%d,%d)", f, a, b); MC_LOG("%s", hist); }
static char fillc(int j, size_t i) { return (char)(L[j].stamp * 31 + i); }
static void verify(void) {
    MC_CHECK(!oops[0], "%s: %s", hist, oops);
    size_t used[2] = { 0, 0 }, tot[2] = { 0, 0 };
    for (int j = 0; j < nl; j++) {
        for (size_t i = 0; i < esz[L[j].pool]; i++) MC_CHECK(L[j].p[i] == fillc(j, i), "%s: contents of live element %d changed at byte %zu", hist, j, i);
        for (int k = 0; k < j; k++) MC_CHECK(L[j].p + esz[L[j].pool] <= L[k].p || L[k].p + esz[L[k].pool] <= L[j].p, "%s: live elements overlap", hist);
        int in = 0;
        for (int g = 0; g < npg; g++) if (pages[g].live && L[j].p >= pages[g].a && L[j].p + esz[L[j].pool] <= pages[g].a + pages[g].n) in++;
        MC_CHECK(in == 1, "%s: element %d does not lie inside a page", hist, j);
    }
    for (int g = 0; g < npg; g++) if (pages[g].live) {
        int q = np == 2 && pages[g].n == watch_size[1]; int u = 0;
        for (int j = 0; j < nl; j++) if (L[j].p >= pages[g].a && L[j].p < pages[g].a + pages[g].n) { u++; MC_CHECK(L[j].pool == q, "%s: element on a page of another pool", hist); }
        tot[q]++; if (u) used[q]++;
        MC_CHECK(u <= (int)st0[q].elts_per_page, "%s: more elements on a page than fit", hist);
    }
    for (int q = 0; q < np; q++) {
        char nm[8]; snprintf(nm, sizeof nm, "pool%d", q);
        MC_CHECK(zt_mem_pool_get(nm) == (alive[q] ? P[q] : NULL), "%s: lookup of %s", hist, nm);
        if (!alive[q]) { MC_CHECK(tot[q] == 0, "%s: %zu pages left after destroy", hist, tot[q]); continue; }
        zt_mem_pool_stats s; MC_CHECK(zt_mem_pool_get_stats(P[q], &s) == ZT_PASS, "%s: stats", hist);
        MC_CHECK(s.pages == tot[q], "%s: pages %zu, really %zu", hist, s.pages, tot[q]);
        MC_CHECK(s.free_pages == tot[q] - used[q], "%s: free pages %zu, really %zu", hist, s.free_pages, tot[q] - used[q]);
        MC_CHECK(s.page_allocs - s.page_frees == s.pages, "%s: %zu page allocs - %zu page frees != %zu pages", hist, s.page_allocs, s.page_frees, s.pages);
        MC_CHECK(s.page_allocs >= allocs0[q] && s.page_frees >= frees0[q], "%s: page counters go back", hist); allocs0[q] = s.page_allocs; frees0[q] = s.page_frees;
        MC_CHECK(s.elt_size == esz[q] && s.elts_per_page == st0[q].elts_per_page && s.page_size == st0[q].page_size && s.requested_elts == st0[q].requested_elts && s.actual_elts == st0[q].actual_elts, "%s: fixed statistics changed", hist);
        mc_state(mc_mix(mc_mix(tot[q], used[q]), mc_mix(nl, q)));
    }
}
void mc_setup(void) { depth = mc_param("depth", 6, 7); mc_shard_depth = 5; zt_mem_pool *w = zt_mem_pool_init("warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w); }
static void mk(int q, int c) {
    char nm[8]; snprintf(nm, sizeof nm, "pool%d", q);
    policy[q] = mc_choose(3); esz[q] = cfgs[c].size;
    /* learn the page size first (it depends only on elts and size) */
    zt_mem_pool *t = zt_mem_pool_init("probe", cfgs[c].elts, cfgs[c].size, NULL, NULL, 0); zt_mem_pool_stats s; zt_mem_pool_get_stats(t, &s); watch_size[q] = s.page_size;
    MC_CHECK(zt_mem_pool_destroy(&t) == 0 && t == NULL, "destroy of an unused pool");
    watch = 1; nalloc = 0;
    P[q] = zt_mem_pool_init(nm, cfgs[c].elts, cfgs[c].size, policy[q] == 2 ? cb : NULL, policy[q] == 2 ? &cbret : NULL, policy[q] == 1 ? POOL_NEVER_FREE : policy[q] == 2 ? 0x40 : 0);
    watch = 0;
}
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = oops[0] = 0; npg = nl = stamp = 0; watch_size[0] = watch_size[1] = 1; fail_at = 0; memset(allocs0, 0, sizeof allocs0); memset(frees0, 0, sizeof frees0); alive[0] = alive[1] = 0; P[0] = P[1] = NULL;
    int mode = mc_choose(3), c0 = mc_choose(mode == 1 ? 2 : 7);   /* 0: one pool; 1: two pools; 2: one pool, malloc fails once */
    np = mode == 1 ? 2 : 1;
    if (mode == 2) fail_at = 1 + mc_choose(5);
    snprintf(hist, sizeof hist, "mode %d elts %d size %zu fail %d:", mode, cfgs[c0].elts, cfgs[c0].size, fail_at);
    mk(0, c0);
    if (mode == 1) mk(1, c0 == 0 ? 2 : 4);
    for (int q = 0; q < np; q++) {
        if (!P[q]) { MC_CHECK(mode == 2, "pool init failed"); alive[q] = 0; continue; }
        alive[q] = 1; zt_mem_pool_get_stats(P[q], &st0[q]);
        MC_CHECK(st0[q].pages >= 1 && st0[q].elt_size == esz[q] && st0[q].elts_per_page >= 1 && st0[q].requested_elts == (size_t)cfgs[q ? (c0 == 0 ? 2 : 4) : c0].elts, "%s initial statistics", hist);
        MC_CHECK(st0[q].page_size >= st0[q].elts_per_page * esz[q], "%s page too small for its elements", hist);
    }
    verify();
    int d = 0;
    for (; d < depth && (alive[0] || alive[1]); d++) {
        int q = np == 2 && alive[0] && alive[1] ? (int)mc_choose(2) : !alive[0];
        int rel[ML], nr = 0; for (int j = 0; j < nl; j++) if (L[j].pool == q) rel[nr++] = j;
        int op = mc_choose(nr ? 4 : 3); if (!nr && op) op++;
        watch = 0;
        if (op == 0) {
            note("alloc", q, 0); size_t pg = 0, usedelts = 0; for (int g = 0; g < npg; g++) pg += pages[g].live && pages[g].n == watch_size[q]; for (int j = 0; j < nl; j++) usedelts += L[j].pool == q;
            int before = npg, na = nalloc; watch = 1; char *p = zt_mem_pool_alloc(P[q]); watch = 0;
            MC_CHECK((npg > before || nalloc > na) ? usedelts == pg * st0[q].elts_per_page : 1, "%s: took a new page although a free element exists", hist);
            if (!p) { MC_CHECK(fail_at && nalloc == fail_at && na < nalloc, "%s failed", hist); }
            else { L[nl].p = p; L[nl].pool = q; L[nl].stamp = ++stamp; nl++; for (size_t i = 0; i < esz[q]; i++) p[i] = fillc(nl - 1, i); mc_nontrivial(); }
        } else if (op == 1) {
            int j = rel[mc_choose(nr)];
            cbret = policy[q] == 2 ? (int)mc_choose(2) : 0; note("release", j, cbret);
            void *p = L[j].p; char *a = L[j].p; int others = 0; size_t g, live = 0;
            for (g = 0; (int)g < npg; g++) if (pages[g].live && a >= pages[g].a && a < pages[g].a + pages[g].n) break;
            L[j] = L[--nl];
            for (int k = 0; k < nl; k++) others += L[k].p >= pages[g].a && L[k].p < pages[g].a + pages[g].n;
            watch = 1; zt_mem_pool_release(&p); watch = 0; live = pages[g].live;
            int want = !(others == 0 && (policy[q] == 0 || (policy[q] == 2 && cbret)));
            MC_CHECK((int)live == want, "%s: the page is %s with %d live elements (policy %d)", hist, live ? "kept" : "returned", others, policy[q]);
        } else if (op == 2) {
            note("free-pages", q, 0); watch = 1; MC_CHECK(zt_mem_pool_release_free_pages(P[q]) == 0, "%s", hist); watch = 0;
            for (int g = 0; g < npg; g++) if (pages[g].live && pages[g].n == watch_size[q]) { int u = 0; for (int j = 0; j < nl; j++) u += L[j].p >= pages[g].a && L[j].p < pages[g].a + pages[g].n; MC_CHECK(u, "%s: a page without live elements was kept", hist); }
        } else {
            note("destroy", q, 0); int mine = 0; for (int j = 0; j < nl; j++) mine += L[j].pool == q;
            watch = 1; int r = zt_mem_pool_destroy(&P[q]); watch = 0;
            MC_CHECK((r == 0) == (mine == 0), "%s with %d live elements returned %d", hist, mine, r);
            if (r == 0) { MC_CHECK(P[q] == NULL, "%s leaves the handle", hist); alive[q] = 0; }
        }
        mc_step(); verify();
    }
    while (nl) { void *p = L[--nl].p; cbret = 0; watch = 1; zt_mem_pool_release(&p); watch = 0; }
    verify();
    for (int q = 0; q < np; q++) if (alive[q]) { watch = 1; int r = zt_mem_pool_destroy(&P[q]); watch = 0; MC_CHECK(r == 0, "%s: final destroy failed", hist); alive[q] = 0; }
    verify();
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
