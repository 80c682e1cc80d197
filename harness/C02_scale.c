/* C02 (scale): the algebra on sets of every size, results into one of the operands too. */
#include "mc.h"
#include <zt.h>
#define MAXE 420
static char text[MAXE][100]; static int kind, maxn; static char got[MAXE]; static int visits, badv, destroyed;
static const void *elt(int i, size_t *l) { switch (kind) { case 0: *l = sizeof(long); return (void *)(long)(i * 3 + 1); case 1: *l = strlen(text[i]); return text[i]; default: *l = 2 + i % 90; return text[i]; } }
static void destroy_cb(void *d) { destroyed++; }
static int it(void *d, void *p) { visits++; if (p != got) badv = 1; for (int i = 0; i < MAXE; i++) { size_t l; if (elt(i, &l) == d) { got[i]++; return 0; } } badv = 1; return 0; }
static zt_set *mk(const char *m, int d) { static zt_table_compare_cb C[] = { zt_table_compare_int, zt_table_compare_string, zt_table_compare_buff }; zt_set *s = zt_set_init(C[kind], d ? destroy_cb : NULL, NULL); for (int i = 0; i < MAXE; i++) if (m[i]) { size_t l; const void *e = elt(i, &l); MC_CHECK(zt_set_insert(s, e, l) == 0, "element %d refused", i); } return s; }
static void is(zt_set *s, const char *m, const char *what) {
    int n = 0; memset(got, 0, MAXE); visits = badv = 0; int r = zt_set_for_each(s, it, got); for (int i = 0; i < MAXE; i++) { n += m[i]; MC_CHECK(got[i] == m[i], "%s: member %d is visited %d times", what, i, got[i]); size_t l; const void *e = elt(i, &l); MC_CHECK(!!zt_set_is_member(s, e, l) == m[i], "%s: membership of %d is wrong", what, i); }
    MC_CHECK(r == 0 && !badv && visits == n && s->length == n, "%s: %d members visited, length %ld, must be %d", what, visits, (long)s->length, n); mc_step();
}
static void range(char *m, int lo, int hi, int step) { memset(m, 0, MAXE); for (int i = lo; i < hi; i += step) m[i] = 1; }
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm); maxn = mc_param("elements", 30, 80); mc_shard_depth = 4; for (int i = 0; i < MAXE; i++) sprintf(text[i], "%03d-and-then-a-long-tail-that-is-the-same-for-every-element-and-goes-on-and-on-and-on-and-on-%d", i, i % 7); }
void mc_run(void) {
    kind = mc_choose(3); int n = mc_choose(maxn + 3), m, lo; static const int big[] = { 130, 200, 300 }; char a[MAXE], b[MAXE], r[MAXE];
    if (n < maxn) { m = mc_choose(n < 12 ? 14 : 3); if (n >= 12) m = m == 0 ? n : m == 1 ? n / 2 : n + 1; lo = mc_choose(3) * (n / 2); } else { n = big[n - maxn]; m = n - 1 + mc_choose(3); lo = mc_choose(2) * n / 3; }
    int step = 1 + mc_choose(2), op = mc_choose(4), al = op < 3 ? mc_choose(3) : 0; range(a, 0, n, 1); range(b, lo, lo + m, step); range(r, n / 2, n / 2 + 3, 1); if (al == 1) memcpy(r, a, MAXE); if (al == 2) memcpy(r, b, MAXE);
    MC_LOG("kind %d: A = 0..%d, B = %d..%d step %d, operation %d, into %s", kind, n - 1, lo, lo + m - 1, step, op, al == 0 ? "a third set" : al == 1 ? "A" : "B");
    long live0 = mc_live_blocks(); zt_mem_pool *sp = zt_table_pool_init(2); destroyed = 0; zt_set *A = mk(a, 1), *B = mk(b, 0), *R = al == 0 ? mk(r, 0) : al == 1 ? A : B; char w[MAXE]; memcpy(w, r, MAXE); int rc = 0;
    if (op == 0) { rc = zt_set_union(R, A, B); for (int i = 0; i < MAXE; i++) w[i] |= a[i] | b[i]; }
    else if (op == 1) { rc = zt_set_intersection(R, A, B); for (int i = 0; i < MAXE; i++) w[i] |= a[i] & b[i]; }
    else if (op == 2) { rc = zt_set_difference(R, A, B); for (int i = 0; i < MAXE; i++) w[i] |= a[i] & !b[i]; }
    else { int s1 = 1, s2 = 1; for (int i = 0; i < MAXE; i++) { if (a[i] && !b[i]) s1 = 0; if (b[i] && !a[i]) s2 = 0; } MC_CHECK(!!zt_set_is_subset(A, B) == s1 && !!zt_set_is_subset(B, A) == s2, "subset of %d and %d elements is wrong", n, m); MC_CHECK(!!zt_set_is_equal(A, B) == (s1 && s2) && !!zt_set_is_equal(B, A) == (s1 && s2), "equality of %d and %d elements is wrong", n, m); }
    MC_CHECK(rc == 0, "operation %d returns %d", op, rc); mc_step(); is(R, w, "result"); if (al != 1) is(A, a, "A afterwards"); if (al != 2) is(B, b, "B afterwards");
    int na = 0; if (op == 3) { for (int i = MAXE - 1; i >= 0; i -= 1 + n % 3) { size_t l; void *e = (void *)elt(i, &l), *p = e; int x = zt_set_remove(A, &p); MC_CHECK(a[i] ? x == 0 && p == e : x != 0, "removal of %d of %d returns %d", i, n, x); a[i] = 0; } is(A, a, "A after removals"); memcpy(w, a, MAXE); }
    char *ma = al == 1 || op == 3 ? w : a; for (int i = 0; i < MAXE; i++) na += ma[i]; int d0 = destroyed; zt_set_destroy(A); MC_CHECK(d0 == 0 && destroyed == na, "destroy callback runs %d times for %d members", destroyed, na); zt_set_destroy(B); if (al == 0) zt_set_destroy(R);
    MC_CHECK(zt_mem_pool_destroy(&sp) == 0, "table headers still in use"); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); if (n) mc_nontrivial(); mc_state(mc_mix(mc_mix(n, m), mc_mix(lo * 4 + op, kind * 6 + al * 2 + step)));
}
