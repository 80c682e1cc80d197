/* C02: set algebra over every combination of small sets and histories. */
#include "mc.h"
#include <zt.h>
#define NE 4
static int ne, nops;
/* the elements, as pointers handed to the library */
static char longs[NE][40] = { "alpha-element-longer-than-a-word", "alpha-element-longer-than-a-worx", "b", "" };
static const char shorts[NE][4] = { "a", "ab", "b", "c" };
static int kind;                        /* 0 ints, 1 short strings, 2 long strings, 3 buffers */
static const void *elt(int i, size_t *l) {
    static const long iv[NE] = { 1, 2, 0, 256 };
    static const char bv[NE][3] = { { 1, 0, 2 }, { 1, 0, 3 }, { 0, 0, 0 }, { 9, 9, 9 } };
    switch (kind) {
    case 0: *l = sizeof(long); return (void *)iv[i];
    case 1: *l = strlen(shorts[i]); return shorts[i];
    case 2: *l = strlen(longs[i]); return longs[i];
    default: *l = 3; return bv[i];
    }
}
static zt_table_compare_cb cmps[] = { zt_table_compare_int, zt_table_compare_string, zt_table_compare_string, zt_table_compare_buff };
static int destroyed;
static void destroy_cb(void *d) { (void)d; destroyed++; }
static zt_set *mk(unsigned m, int d) {
    zt_set *s = zt_set_init(cmps[kind], d ? destroy_cb : NULL, NULL);
    for (int i = 0; i < ne; i++) if (m & (1u << i)) { size_t l; const void *e = elt(i, &l); zt_set_insert(s, e, l); }
    return s;
}
static unsigned gotmask; static int visits, badv;
static int it(void *d, void *p) {
    visits++;
    if (p != &gotmask) badv = 1;
    for (int i = 0; i < ne; i++) { size_t l; if (elt(i, &l) == d) { gotmask |= 1u << i; return 0; } }
    badv = 1; return 0;
}
static int it_stop(void *d, void *p) { (void)d; return ++*(int *)p == 1 ? 7 : 0; }
static void is(zt_set *s, unsigned m, const char *what) {
    gotmask = 0; visits = badv = 0;
    int r = zt_set_for_each(s, it, &gotmask);
    MC_CHECK(r == 0 && !badv && gotmask == m && visits == __builtin_popcount(m), "%s: members %#x (visited %d), want %#x", what, gotmask, visits, m);
    MC_CHECK(s->length == __builtin_popcount(m), "%s: length %ld, want %d", what, s->length, __builtin_popcount(m));
    for (int i = 0; i < ne; i++) {
        size_t l; const void *e = elt(i, &l);
        int b = zt_set_is_member(s, e, l);
        MC_CHECK(!!b == !!(m & (1u << i)), "%s: is_member(%d) = %d, set %#x", what, i, b, m);
    }
}
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm); ne = mc_param("elts", 3, 4); nops = mc_param("depth", 5, 7); mc_shard_depth = 3; }
void mc_run(void) {
    kind = mc_choose(4);
    int mode = mc_choose(2);
    long live0 = mc_live_blocks();
    zt_mem_pool *shared_pool = zt_table_pool_init(2);
    if (mode == 0) {                    /* algebra: every A, B, initial R */
        unsigned a = mc_choose(1u << ne), b = mc_choose(1u << ne), r = mc_choose(1u << ne);
        int op = mc_choose(4);
        static const char *on[] = { "union", "intersection", "difference", "predicates" };
        MC_LOG("kind %d: A=%#x B=%#x R(initial)=%#x op %s", kind, a, b, r, on[op]);
        zt_set *A = mk(a, 0), *B = mk(b, 0), *R = mk(r, 0);
        char w[80]; snprintf(w, sizeof w, "%s of %#x,%#x into %#x", on[op], a, b, r);
        int rc = 0; unsigned want = r;
        if (op == 0) { rc = zt_set_union(R, A, B); want |= a | b; }
        if (op == 1) { rc = zt_set_intersection(R, A, B); want |= a & b; }
        if (op == 2) { rc = zt_set_difference(R, A, B); want |= a & ~b; }
        if (op == 3) {
            int s = zt_set_is_subset(A, B), e = zt_set_is_equal(A, B);
            MC_CHECK(!!s == ((a & ~b) == 0), "is_subset(%#x,%#x) = %d", a, b, s);
            MC_CHECK(!!e == (a == b), "is_equal(%#x,%#x) = %d", a, b, e);
            int n = 0; int sr = zt_set_for_each(A, it_stop, &n);
            MC_CHECK(a ? (sr == 7 && n == 1) : (sr == 0 && n == 0), "for_each does not stop on a non-zero result (set %#x)", a);
        }
        MC_CHECK(rc == 0, "%s returned %d", w, rc);
        is(R, want, w); is(A, a, "A afterwards"); is(B, b, "B afterwards");
        mc_state(mc_mix(mc_mix(a, b), mc_mix(r, want * 8 + op)));
        if (a & b) mc_nontrivial();
        mc_step();
        zt_set_destroy(A); zt_set_destroy(B); zt_set_destroy(R);
    } else {                            /* insert / remove histories */
        unsigned m = 0; zt_set *s = mk(0, 1); destroyed = 0;
        for (int d = 0; d < nops; d++) {
            unsigned op = mc_choose(2 * ne); int i = op % ne; size_t l; const void *e = elt(i, &l);
            if (op < (unsigned)ne) {
                MC_LOG("insert(%d)", i);
                int r = zt_set_insert(s, e, l);
                MC_CHECK(r == !!(m & (1u << i)), "insert(%d) into %#x returned %d", i, m, r);
                m |= 1u << i;
            } else {
                void *p = (void *)e;
                MC_LOG("remove(%d)", i);
                int r = zt_set_remove(s, &p);
                if (m & (1u << i)) MC_CHECK(r == 0 && p == e, "remove(member %d) from %#x returned %d", i, m, r);
                else MC_CHECK(r != 0, "remove(non-member) from %#x reported success", m);
                m &= ~(1u << i);
            }
            mc_step();
            is(s, m, "history");
            mc_state(mc_mix(m, kind * 77));
        }
        mc_nontrivial();
        zt_set_destroy(s);
        MC_CHECK(destroyed == __builtin_popcount(m), "destroy callback ran %d times for %d members", destroyed, __builtin_popcount(m));
    }
    MC_CHECK(zt_mem_pool_destroy(&shared_pool) == 0, "table headers still in use after every table was destroyed");
    MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left after destroy", mc_live_blocks() - live0);
}
