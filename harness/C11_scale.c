/* C11 (scale): groups of many pools in many orders, every request size; heaps of every name and size. */
#include "mc.h"
#include <zt.h>
#define MP 24
static int maxp; static const size_t SZ[MP] = { 8, 16, 24, 32, 48, 64, 65, 100, 127, 128, 255, 256, 257, 500, 512, 1000, 1024, 1025, 1300, 2048, 2100, 3000, 4096, 10000 };
void mc_setup(void) { maxp = mc_param("pools", 12, 20); mc_shard_depth = 3; zt_mem_pool *w = zt_mem_pool_init("warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w); }
static int used(zt_mem_pool *p) { zt_mem_pool_stats s; zt_mem_pool_get_stats(p, &s); return s.pages - s.free_pages; }
void mc_run(void) {
    long live0 = mc_live_blocks(); mc_nontrivial();
    if (mc_choose(2)) {                                 /* heaps */
        int nl = mc_choose(300), ns = mc_choose(12); static const size_t S[] = { 0, 1, 7, 8, 9, 63, 100, 255, 256, 4097, 65536, 1000001 }; char nm[301]; for (int i = 0; i < nl; i++) nm[i] = 'a' + i % 26; nm[nl] = 0; MC_LOG("heap of %zu bytes, name of %d characters", S[ns], nl); char *c = mc_dupn(nm, nl + 1); zt_mem_heap *h = zt_mem_heap_init(c, S[ns]), *o = zt_mem_heap_init("other", 16); free(c); char *d = zt_mem_heap_get_data(h); memset(d, 0x5a, S[ns]); memset(zt_mem_heap_get_data(o), 0x22, 16); MC_CHECK(!strcmp(zt_mem_heap_get_name(h), nm), "name of %d characters is changed", nl); for (size_t i = 0; i < S[ns]; i++) MC_CHECK(d[i] == 0x5a, "byte %zu changed", i); zt_mem_heap_destroy(&o); MC_CHECK(!strcmp(zt_mem_heap_get_name(h), nm), "name changes"); zt_mem_heap_destroy(&h); MC_CHECK(mc_live_blocks() == live0, "heap memory left"); mc_step(); mc_state(mc_mix(nl, ns)); return;
    }
    int n = 1 + mc_choose(maxp), kind = mc_choose(4), rot = mc_choose(n), base = mc_choose(3), term = mc_choose(2); zt_mem_pool_desc d[MP + 1]; memset(d, 0, sizeof d); char nm[MP][40]; size_t size[MP]; zt_mem_pool *pool[MP];
    for (int i = 0; i < n; i++) { int r = (i + rot) % n, k = kind == 0 ? r : kind == 1 ? n - 1 - r : kind == 2 ? (r * 5) % n : r / 2 * 2; size[i] = SZ[base == 0 ? k : base == 1 ? MP - n + k : (k * (MP - 1)) / (n > 1 ? n - 1 : 1)]; snprintf(nm[i], sizeof nm[i], "group-member-number-%d-of-%d", i, n); d[i].name = nm[i]; d[i].elts = 1 + i % 4; d[i].size = size[i]; }
    MC_LOG("group of %d pools, order %d rotated by %d, sizes from %d, %s", n, kind, rot, base, term ? "ended by a descriptor without a name" : "counted");
    zt_mem_pool_group *g = zt_mem_pool_group_init(d, n + term); MC_CHECK(g != NULL, "init fails"); for (int i = 0; i < n; i++) { pool[i] = zt_mem_pool_get(nm[i]); MC_CHECK(pool[i] != NULL, "pool %d is not registered", i); }
    struct { char *p; size_t n; int s; } L[MP * 3 + 3]; int nl = 0, asked = 0;
    for (int k = 0; k <= n; k++) for (int e = -1; e <= 1; e++) {                    /* sizes around every element size, and beyond all */
        size_t r = k < n ? size[k] + e : 20000 + e; int want = -1, w0 = 0, w1 = 0; for (int i = 0; i < n; i++) if (r <= size[i] && (want < 0 || size[i] < size[want])) want = i;
        for (int i = 0; i < n; i++) { if (want >= 0 && size[i] == size[want]) w0 += used(pool[i]); }
        int u[MP]; for (int i = 0; i < n; i++) u[i] = used(pool[i]); char *p = zt_mem_pool_group_alloc(g, r); asked++; MC_CHECK(!!p == (want >= 0), "request for %zu is %s", r, p ? "served" : "refused"); mc_step();
        for (int i = 0; i < n; i++) { if (want < 0 || size[i] != size[want]) MC_CHECK(used(pool[i]) == u[i], "request for %zu is served from the pool for %zu", r, size[i]); else w1 += used(pool[i]); }
        if (p) { MC_CHECK(w1 >= w0 && w1 > 0, "request for %zu leaves its pool unused", r); L[nl].p = p; L[nl].n = size[want]; L[nl].s = k * 3 + e; memset(p, L[nl].s, size[want]); nl++; }
    }
    for (int i = 0; i < nl; i++) for (size_t k = 0; k < L[i].n; k++) MC_CHECK(L[i].p[k] == (char)L[i].s, "element %d of %d changed", i, nl);
    int fail = nl && n % 2; if (!fail) while (nl) { int j = (nl * 5) % nl; void *p = L[j].p; L[j] = L[--nl]; zt_mem_pool_group_release(&p); }
    int r = zt_mem_pool_group_destroy(g); MC_CHECK((r == 0) == !nl, "destroy with %d live elements returns %d", nl, r); while (nl) { void *p = L[--nl].p; zt_mem_pool_release(&p); }
    for (int i = 0; i < n; i++) { zt_mem_pool *q = zt_mem_pool_get(nm[i]); if (q) MC_CHECK(fail && zt_mem_pool_destroy(&q) == 0, "pool %d is left", i); } MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); mc_state(mc_mix(mc_mix(n, kind), rot * 8 + base * 2 + term));
}
