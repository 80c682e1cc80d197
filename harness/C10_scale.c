/* C10 (scale): pools with many elements and pages, released in many orders; many pools with similar names. */
#include "mc.h"
#include <zt.h>
#define MP 1200
#define ML 1100
static struct { char *a; size_t n; int live, used; } pg[MP]; static int npg, watch; static size_t wsz; static char *L[ML]; static int st[ML], stamp, maxn; static char oops[80];
void *__real_malloc(size_t); void __real_free(void *);
static struct { size_t el; } E;
void *__wrap_malloc(size_t n) { char *p = __real_malloc(n); if (watch && n == wsz && npg < MP) { pg[npg].a = p; pg[npg].n = n; pg[npg].live = 1; pg[npg++].used = 0; } return p; }
void __wrap_free(void *p) { if (watch) for (int i = 0; i < npg; i++) if (pg[i].live && pg[i].a == p) { if (pg[i].used) snprintf(oops, sizeof oops, "page with %d live elements given back", pg[i].used); pg[i].live = 0; } __real_free(p); }
static int page_of(char *p) { for (int i = 0; i < npg; i++) if (pg[i].live && p >= pg[i].a && p + E.el <= pg[i].a + pg[i].n) return i; return -1; }
static void fill(int i) { for (size_t k = 0; k < E.el; k++) L[i][k] = (char)(st[i] * 31 + (st[i] >> 6) + k); }
static void is(zt_mem_pool *P, const char *what, int n) {
    int tot = 0, fre = 0; MC_CHECK(!oops[0], "%s: %s", what, oops); for (int i = 0; i < n; i++) if (L[i]) for (size_t k = 0; k < E.el; k++) MC_CHECK(L[i][k] == (char)(st[i] * 31 + (st[i] >> 6) + k), "%s: element %d changed at %zu", what, i, k);
    for (int i = 0; i < npg; i++) if (pg[i].live) { tot++; fre += !pg[i].used; } zt_mem_pool_stats s; zt_mem_pool_get_stats(P, &s); MC_CHECK((int)s.pages == tot && (int)s.free_pages == fre && s.page_allocs - s.page_frees == s.pages && s.elt_size == E.el, "%s: %zu pages, %zu free, %zu - %zu; really %d, %d", what, s.pages, s.free_pages, s.page_allocs, s.page_frees, tot, fre); mc_step();
}
static void get(zt_mem_pool *P, int i, size_t epp) { int before = npg, used = 0, tot = 0; for (int k = 0; k < npg; k++) if (pg[k].live) { tot++; used += pg[k].used; } watch = 1; L[i] = zt_mem_pool_alloc(P); watch = 0; int g = L[i] ? page_of(L[i]) : -1; MC_CHECK(g >= 0, "element %d does not lie in a page of the pool", i); MC_CHECK(npg == before || used == tot * (int)epp, "a new page is taken with %d of %d elements in use", used, tot * (int)epp); pg[g].used++; MC_CHECK(pg[g].used <= (int)epp, "%d elements on a page for %zu", pg[g].used, epp); st[i] = ++stamp; fill(i); }
static void put(int i, int keep) { int g = page_of(L[i]); void *p = L[i]; L[i] = NULL; pg[g].used--; watch = 1; zt_mem_pool_release(&p); watch = 0; MC_CHECK(pg[g].live == (pg[g].used > 0 || keep), "page with %d live elements is %s", pg[g].used, pg[g].live ? "kept" : "given back"); }
static void names(void) {
    static const char *pre[] = { "", "a", "pool-number-", "a-common-prefix-of-sixteen-and-more-characters-", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789-" };
    int k = mc_choose(5), n = 1 + mc_choose(24), style = mc_choose(4), ord = mc_choose(3); zt_mem_pool *P[40]; char nm[40][400]; MC_LOG("%d pools named '%.20s..', style %d, destroyed in order %d", n, pre[k], style, ord);
    for (int i = 0; i < n; i++) { if (style == 0) snprintf(nm[i], 400, "%s%d", pre[k], i); else if (style == 1) { snprintf(nm[i], 400, "%sx", pre[k]); int l = strlen(nm[i]); memset(nm[i] + l, 'y', i); nm[i][l + i] = 0; } else if (style == 3) { /* differ in the case of a letter only */ snprintf(nm[i], 400, "%sabcde", pre[k]); int l = strlen(nm[i]) - 5; for (int b = 0; b < 5; b++) if (i >> b & 1) nm[i][l + b] -= 32; } else snprintf(nm[i], 400, "%c%s", 'A' + i, pre[k]); char *c = mc_dupn(nm[i], strlen(nm[i]) + 1); P[i] = zt_mem_pool_init(c, 1 + i % 3, 8 << (i % 10), NULL, NULL, 0); free(c); MC_CHECK(P[i], "init"); }
    int left = n; char gone[40] = { 0 };
    while (left) { for (int i = 0; i < n; i++) MC_CHECK(zt_mem_pool_get(nm[i]) == (gone[i] ? NULL : P[i]), "lookup of pool %d (of %d, %d left) is wrong", i, n, left); int at = ord == 0 ? n - left : ord == 1 ? left - 1 : (left * 7) % n; while (gone[at]) at = (at + 1) % n; zt_mem_pool *q = P[at]; MC_CHECK(zt_mem_pool_destroy(&q) == 0, "destroy"); gone[at] = 1; left--; mc_step(); }
    for (int i = 0; i < n; i++) MC_CHECK(zt_mem_pool_get(nm[i]) == NULL, "pool %d is found after its end", i); mc_state(mc_mix(mc_mix(k, n), style * 3 + ord + 0));
}
void mc_setup(void) { maxn = mc_param("elements", 40, 90); mc_shard_depth = 4; zt_mem_pool *w = zt_mem_pool_init("warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w); }
void mc_run(void) {
    long live0 = mc_live_blocks(); npg = stamp = 0; oops[0] = 0; mc_nontrivial();
    if (mc_choose(2)) { names(); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); return; }
    static const struct { int e; size_t s; } C[] = { { 1, 2100 }, { 2, 2100 }, { 3, 2500 }, { 5, 4096 }, { 1, 5000 }, { 16, 2048 }, { 1, 1300 }, { 1, 400 }, { 7, 1000 }, { 1, 100 }, { 200, 64 }, { 1000, 8 }, { 0, 1 }, { 1, 24 }, { 300, 500 } };
    int c = mc_choose(15), nk = mc_choose(maxn + 4), n = nk < maxn ? nk : (int[]){ 130, 257, 600, 1025 }[nk - maxn], ord = mc_choose(6), pol = mc_choose(2); E.el = C[c].s; zt_mem_pool *t = zt_mem_pool_init("probe", C[c].e, C[c].s, NULL, NULL, 0); zt_mem_pool_stats s; zt_mem_pool_get_stats(t, &s); wsz = s.page_size; zt_mem_pool_destroy(&t); if (n > 300 && C[c].s > 1200) mc_prune();
    MC_LOG("elts %d size %zu: %d elements, release order %d, policy %d", C[c].e, C[c].s, n, ord, pol); watch = 1; zt_mem_pool *P = zt_mem_pool_init("scale", C[c].e, C[c].s, NULL, NULL, pol ? POOL_NEVER_FREE : 0); watch = 0; size_t epp = s.elts_per_page; is(P, "new", 0);
    for (int i = 0; i < n; i++) { get(P, i, epp); if (i % 10 == 0) is(P, "allocated", i + 1); } is(P, "all allocated", n);
    if (n) { zt_mem_pool *q = P; watch = 1; int r = ord == 5 ? zt_mem_pool_destroy(&q) : -1; watch = 0; MC_CHECK(r == -1 && q == P, "destroyed with %d live elements", n); is(P, "destroy refused", n); }
    int step = ord == 2 ? 3 : ord == 3 ? 7 : 1;         /* release: first to last, last to first, every 3rd, every 7th, odd ones */
    for (int k = 0; k < n; k++) { int i = ord == 1 ? n - 1 - k : ord == 4 || ord == 5 ? k : (k * step) % (n + (n % step == 0)); if (i >= n || !L[i]) continue; if (ord == 4 && i % 2 == 0) continue; if (ord == 5 && i % 10 == 3) continue; if ((ord == 2 || ord == 3) && k > n * 2 / 3) continue; put(i, pol); if (k % 10 == 0) is(P, "released", n); } is(P, "some released", n);
    if (n % 2) { watch = 1; MC_CHECK(zt_mem_pool_release_free_pages(P) == 0, "release_free_pages"); watch = 0; for (int i = 0; i < npg; i++) MC_CHECK(!pg[i].live || pg[i].used, "a page without live elements is kept"); is(P, "free pages released", n); }
    for (int i = 0; i < n; i++) if (!L[i]) get(P, i, epp); is(P, "reused", n); for (int i = n - 1; i >= 0; i--) put(i, pol); is(P, "all released", n);
    if (n % 3 == 0) { watch = 1; zt_mem_pool_release_free_pages(P); watch = 0; for (int i = 0; i < npg; i++) MC_CHECK(!pg[i].live, "a page is kept"); is(P, "everything released", n); get(P, 0, epp); is(P, "one again", 1); put(0, pol); }
    watch = 1; int r = zt_mem_pool_destroy(&P); watch = 0; MC_CHECK(r == 0 && P == NULL, "final destroy returns %d", r); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); mc_state(mc_mix(mc_mix(c, n), ord * 2 + pol));
}
