/* C01: a table behaves as an associative map for every operation history. */
#include "mc.h"
#define ZT_WITH_GC
#include <zt.h>
#include <errno.h>

#define NK 4
struct cfg { const char *name; zt_table_hash_func_cb h; zt_table_compare_cb c; int keykind; };
static unsigned long h_const(const void *k, size_t n, void *cd) { (void)k; (void)n; (void)cd; return 7; }
static unsigned long h_high(const void *k, size_t n, void *cd) { (void)n; (void)cd; return ((unsigned long)(uintptr_t)k << 40) | 5; }
static unsigned long h_two(const void *k, size_t n, void *cd) { (void)n; (void)cd; return ((uintptr_t)k & 1) ? 0x80000001UL : 0xffffffffffffffffUL; }
static struct cfg cfgs[] = {
    { "hash_int/compare_int",       zt_table_hash_int,    zt_table_compare_int,    0 },
    { "all-collide/compare_int",    h_const,              zt_table_compare_int,    0 },
    { "two-chains/compare_int",     h_two,                zt_table_compare_int,    0 },
    { "64-bit hash/compare_int",    h_high,               zt_table_compare_int,    0 },
    { "hash_string/compare_string", zt_table_hash_string, zt_table_compare_string, 1 },
    { "hash_buff/compare_buff",     zt_table_hash_buff,   zt_table_compare_buff,   2 },
    { "all-collide/compare_buff",   h_const,              zt_table_compare_buff,   2 },
    { "all-collide/compare_string", h_const,              zt_table_compare_string, 1 },
    { "all-collide/compare_string_case", h_const,         zt_table_compare_string_case, 3 },
};
#define NCFG (sizeof cfgs / sizeof *cfgs)
static const size_t hints[] = { 10, 0, 1, 2, 3, 5, 7, 16 };
#define NHINT (sizeof hints / sizeof *hints)
static int depth, nk, small_hints;
static const char *strs[NK] = { "a", "ab", "b", "" };
static const char *cstrs[NK] = { "Key", "keY2", "b", "" };
static const char *cstrs_alt[NK] = { "kEY", "KEy2", "B", "" };
static const char bufs[NK][4] = { { 1, 0, 2, 3 }, { 1, 0, 2, 4 }, { 1, 0, 3, 3 }, { 0, 0, 0, 0 } };
static const long ints[NK] = { 1, 2, 256, 0 };

/* model: newest first */
static struct { int k; long v; } M[32]; static int nm;
static int kind;
static const void *key_of(int k, size_t *len, int alt) {
    switch (kind) {
    case 0: *len = sizeof(long); return (void *)ints[k];
    case 1: *len = strlen(strs[k]); return alt ? strs[k] : strs[k];
    case 3: *len = strlen(cstrs[k]); return alt ? cstrs_alt[k] : cstrs[k];
    default: *len = 4; return bufs[k];
    }
}
static int key_index(const void *p, size_t len) {
    for (int k = 0; k < nk; k++) { size_t l; const void *q = key_of(k, &l, 0); if (q == p && l == len) return k; }
    return -1;
}
static int seen[32][2]; static int nseen, badseen; static int stopat; static zt_table *T; static int delmode;
static void m_del(int k) { for (int i = 0; i < nm; i++) if (M[i].k == k) { for (; i + 1 < nm; i++) M[i] = M[i + 1]; nm--; return; } }
static int iter(void *key, size_t kl, void *d, size_t dl, void *param) {
    if (param != (void *)&M || dl != 8) badseen = 1;
    int k = key_index(key, kl); if (k < 0 || nseen >= 31) { badseen = 1; return 9; }
    seen[nseen][0] = k; seen[nseen][1] = (int)(long)d; nseen++;
    if (stopat && nseen == stopat) return 42 + stopat;
    return 0;
}
static int iter_del(void *key, size_t kl, void *d, size_t dl, void *param) {
    int r = iter(key, kl, d, dl, param);
    if (r) return r;
    int k = key_index(key, kl); size_t l; const void *q = key_of(k, &l, 0);
    void *got = zt_table_del(T, q, l);
    if (got != d) badseen = 2;
    return 0;
}
static void check_all(zt_table *t, const char *when) {
    for (int k = 0; k < nk; k++) {
        size_t l; const void *q = key_of(k, &l, 1);
        long want = 0; for (int i = 0; i < nm; i++) if (M[i].k == k) { want = M[i].v; break; }
        errno = 0;
        void *g = zt_table_get(t, q, l);
        MC_CHECK((long)g == want, "%s: get(key %d) = %ld, want %ld", when, k, (long)g, want);
        MC_CHECK(want || errno == ENOENT, "%s: get(absent key %d) errno %d, want ENOENT", when, k, errno);
    }
    nseen = badseen = stopat = 0;
    int r = zt_table_for_each(t, iter, M);
    MC_CHECK(r == 0 && !badseen, "%s: for_each returned %d bad %d", when, r, badseen);
    MC_CHECK(nseen == nm, "%s: for_each visited %d entries, table holds %d", when, nseen, nm);
    for (int i = 0; i < nm; i++) {
        int c = 0, w = 0;
        for (int j = 0; j < nseen; j++) c += seen[j][0] == M[i].k && seen[j][1] == (int)M[i].v;
        for (int j = 0; j < nm; j++) w += M[j].k == M[i].k && M[j].v == M[i].v;
        MC_CHECK(c == w, "%s: for_each visited entry (key %d,value %ld) %d times", when, M[i].k, M[i].v, c);
    }
}
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm);
    depth = mc_param("depth", 5, 6); nk = mc_param("keys", 3, NK); small_hints = mc_param("hints", 3, (int)NHINT);
    mc_shard_depth = 4;
}
static uint64_t mstate(int ci, int flags) { uint64_t h = mc_mix(ci, flags); for (int i = 0; i < nm; i++) h = mc_mix(h, M[i].k * 100 + M[i].v); return h; }
void mc_run(void) {
    static const int flagset[4] = { 0, ZT_TABLE_SIZE_USE_HINT, ZT_TABLE_ALLOW_DUP_KEYS, ZT_TABLE_SIZE_USE_HINT | ZT_TABLE_ALLOW_DUP_KEYS };
    int ci = mc_choose(NCFG), fl = flagset[mc_choose(4)];
    size_t hint = hints[mc_choose(small_hints)];
    struct cfg *c = &cfgs[ci];
    kind = c->keykind; nm = 0;
    MC_LOG("table_init(%s, hint %zu, flags %d)", c->name, hint, fl);
    long live0 = mc_live_blocks();
    zt_mem_pool *shared_pool = zt_table_pool_init(2);
    zt_table *t = T = zt_table_init("t", c->h, c->c, hint, fl, NULL);
    MC_CHECK(t != NULL, "table_init failed (hint %zu flags %d)", hint, fl);
    check_all(t, "empty");
    for (int d = 0; d < depth; d++) {
        unsigned op = mc_choose(2 * nk);
        int k = op % nk; size_t l; const void *q = key_of(k, &l, 0);
        char when[100];
        if (op < (unsigned)nk) {
            long v = d + 1; int present = 0; for (int i = 0; i < nm; i++) present |= M[i].k == k;
            MC_LOG("set(key %d, %ld)", k, v);
            int r = zt_table_set(t, q, l, (void *)v, 8);
            if (present && !(fl & ZT_TABLE_ALLOW_DUP_KEYS)) MC_CHECK(r == 1, "%s: set of existing key returned %d, want 1", c->name, r);
            else {
                MC_CHECK(r == 0, "%s: set returned %d, want 0", c->name, r);
                for (int i = nm; i > 0; i--) M[i] = M[i - 1];
                M[0].k = k; M[0].v = v; nm++;
            }
            snprintf(when, sizeof when, "%s after set", c->name);
        } else {
            long want = 0; for (int i = 0; i < nm; i++) if (M[i].k == k) { want = M[i].v; break; }
            MC_LOG("del(key %d)", k);
            const void *qa = key_of(k, &l, 1);
            errno = 0;
            void *g = zt_table_del(t, qa, l);
            MC_CHECK((long)g == want, "%s: del(key) = %ld, want %ld", c->name, (long)g, want);
            MC_CHECK(want || errno == ENOENT, "%s: del(absent) errno %d", c->name, errno);
            m_del(k);
            snprintf(when, sizeof when, "%s after del", c->name);
        }
        mc_step();
        check_all(t, when);
        mc_state(mstate(ci, fl));
    }
    if (nm >= 2) mc_nontrivial();
    /* iteration stops on, and returns, a non-zero callback result */
    if (nm > 1) {
        nseen = badseen = 0; stopat = 1 + nm / 2;
        if (stopat >= nm) stopat = nm - 1;
        int r = zt_table_for_each(t, iter, M);
        MC_CHECK(r == 42 + stopat && nseen == stopat, "for_each with callback stopping at %d: returned %d after %d visits", stopat, r, nseen);
    }
    /* copy: every entry of the source reaches the destination, without
       replacing what is there unless duplicates are allowed */
    {
        zt_table *t2 = zt_table_init("t2", c->h, c->c, hint, 0, NULL);
        size_t l; const void *q = key_of(0, &l, 0);
        zt_table_set(t2, q, l, (void *)99L, 8);
        int any = zt_table_copy(t, t2);
        MC_CHECK(any == (nm > 0), "copy returned %d for a table of %d entries", any, nm);
        for (int k = 0; k < nk; k++) {
            q = key_of(k, &l, 0);
            long g = (long)zt_table_get(t2, q, l); int ok = 0;
            if (k == 0) ok = g == 99;
            else { int pres = 0; for (int i = 0; i < nm; i++) if (M[i].k == k) { pres = 1; ok |= M[i].v == g; } if (!pres) ok = g == 0; }
            MC_CHECK(ok, "after copy get(key %d) = %ld", k, g);
        }
        zt_table_destroy(t2);
        check_all(t, "source after copy");
    }
    /* the visited entry may be deleted from inside the callback (without duplicates) */
    if (!(fl & ZT_TABLE_ALLOW_DUP_KEYS)) {
        nseen = badseen = stopat = 0; int had = nm;
        zt_table_for_each(t, iter_del, M);
        MC_CHECK(!badseen && nseen == had, "for_each deleting each entry: visited %d of %d (bad %d)", nseen, had, badseen);
        nm = 0; check_all(t, "after deleting all from for_each");
    }
    zt_table_destroy(t);
    MC_CHECK(zt_mem_pool_destroy(&shared_pool) == 0, "table headers still in use after every table was destroyed");
    MC_CHECK(mc_live_blocks() == live0, "destroy leaves %ld heap blocks behind", mc_live_blocks() - live0);
}
