/* C05: every cons list over a small alphabet up to a length, every operation. */
#include "mc.h"
#include <zt.h>
#define MX 9
static int maxlen, alpha; static char tags[MX * 2];
static int v[MX], w[MX];
typedef struct { int key, id; } cell_t; static cell_t cells[MX * 2];
static zt_llist mk(const int *keys, int n, int base) { zt_llist l = NULL; for (int i = n - 1; i >= 0; i--) { cells[base + i] = (cell_t){ keys[i], base + i }; l = zt_llist_cons(&cells[base + i], l); } return l; }
static int got[MX * 2];
static int flat(zt_llist l) { int n = 0; while (l) { MC_CHECK(n < 2 * MX, "list does not end"); got[n++] = (int)((cell_t *)zt_llist_head(l) - cells); l = zt_llist_tail(l); } return n; }
static char txt[100];
static const char *S(const char *op, int n) { int o = snprintf(txt, sizeof txt, "%s [", op); for (int i = 0; i < n; i++) o += snprintf(txt + o, sizeof txt - o, "%d", v[i]); snprintf(txt + o, sizeof txt - o, "]"); return txt; }
/* the comparator convention of the code: non-zero when b-before-a must not swap, i.e. cmp(l2,l1) true -> take l1 */
static int cmp_gt(void *a, void *b) { return ((cell_t *)a)->key > ((cell_t *)b)->key; }
static int cmp_ge(void *a, void *b) { return ((cell_t *)a)->key >= ((cell_t *)b)->key; }
void mc_setup(void) { maxlen = mc_param("length", 7, 8); alpha = mc_param("alphabet", 3, 4); mc_pure = 1; mc_shard_depth = 5; }
static void sorted(int n, const char *t, int total) {
    MC_CHECK(n == total, "%s: %d elements, want %d", t, n, total);
    unsigned seen = 0;
    for (int i = 0; i < n; i++) { MC_CHECK(!(seen & (1u << got[i])), "%s: element appears twice", t); seen |= 1u << got[i]; if (i) MC_CHECK(cells[got[i - 1]].key <= cells[got[i]].key, "%s: result is not ordered", t); }
}
void mc_run(void) {
    int op = mc_choose(11);
    int n = mc_choose(maxlen + 1);
    for (int i = 0; i < n; i++) v[i] = op == 0 || op == 1 || op == 10 ? (int)mc_choose(alpha) : i;   /* values only matter to sorting */
    long live0 = mc_live_blocks();
    for (int i = 0; i < 2 * MX; i++) cells[i].id = i;
    MC_LOG("op %d on list of %d", op, n);
    mc_step(); if (n > 1) mc_nontrivial();
    zt_llist l;
    switch (op) {
    case 0: case 10: {
        l = zt_llist_sort(mk(v, n, 0), op ? cmp_ge : cmp_gt); const char *t = S("sort", n);
        sorted(flat(l), t, n); zt_llist_free(l); break; }
    case 1: {                               /* merge of two sorted lists */
        int m = mc_choose(n + 1);           /* v[0..m) and v[m..n), sorted by construction */
        for (int i = 1; i < n; i++) if (i != m && v[i] < v[i - 1]) mc_prune();
        l = zt_llist_nmerge(mk(v, m, 0), mk(v + m, n - m, m), mc_choose(2) ? cmp_ge : cmp_gt);
        sorted(flat(l), S("merge", n), n); zt_llist_free(l); break; }
    case 2: {
        l = mk(v, n, 0); zt_llist r = zt_llist_reverse(l);
        MC_CHECK(flat(l) == n, "reverse changed its argument"); for (int i = 0; i < n; i++) MC_CHECK(got[i] == i, "reverse changed its argument");
        MC_CHECK(flat(r) == n, "%s length", S("reverse", n)); for (int i = 0; i < n; i++) MC_CHECK(got[i] == n - 1 - i, "%s order", S("reverse", n));
        zt_llist_free(l); MC_CHECK(flat(r) == n, "reverse shares cells"); for (int i = 0; i < n; i++) MC_CHECK(got[i] == n - 1 - i, "reverse shares cells");
        zt_llist rr = zt_llist_reverse(r); MC_CHECK(flat(rr) == n, "double reverse"); for (int i = 0; i < n; i++) MC_CHECK(got[i] == i, "double reverse is not the identity");
        zt_llist_free(r); zt_llist_free(rr); break; }
    case 3: {
        l = zt_llist_nreverse(mk(v, n, 0));
        MC_CHECK(flat(l) == n, "%s length", S("nreverse", n)); for (int i = 0; i < n; i++) MC_CHECK(got[i] == n - 1 - i, "%s order", S("nreverse", n));
        MC_CHECK(mc_live_blocks() == live0 + n, "nreverse allocates or loses cells");
        zt_llist_free(l); break; }
    case 4: {                               /* split into a front and a back half */
        l = mk(v, n, 0); zt_llist b = zt_llist_split(l);
        if (n == 0) { MC_CHECK(b == NULL, "split of the empty list"); break; }
        if (n == 1) { MC_CHECK(b == l && flat(l) == 1, "split of a singleton returns it"); zt_llist_free(l); break; }
        int a = flat(l); for (int i = 0; i < a; i++) MC_CHECK(got[i] == i, "%s: front", S("split", n));
        int c = flat(b); for (int i = 0; i < c; i++) MC_CHECK(got[i] == a + i, "%s: back", S("split", n));
        MC_CHECK(a + c == n && a > 0 && c > 0, "%s: sizes %d+%d", S("split", n), a, c);
        zt_llist_free(l); zt_llist_free(b); break; }
    case 5: {                               /* nth / nthtail at every index */
        if (!n) mc_prune();
        l = mk(v, n, 0); int i = mc_choose(n);
        MC_CHECK(zt_llist_nth(l, i) == &cells[i], "nth %d of %d", i, n);
        zt_llist t = zt_llist_nthtail(l, i); int k = flat(t);
        MC_CHECK(k == n - i - 1, "nthtail %d of %d has %d elements", i, n, k); for (int j = 0; j < k; j++) MC_CHECK(got[j] == i + 1 + j, "nthtail %d of %d", i, n);
        zt_llist_free(l); break; }
    case 6: {                               /* pop until empty, once more */
        l = mk(v, n, 0);
        for (int i = 0; i < n; i++) { MC_CHECK(zt_llist_pop(&l) == &cells[i], "pop %d of %d", i, n); MC_CHECK(flat(l) == n - i - 1, "pop leaves a wrong list"); MC_CHECK(mc_live_blocks() == live0 + n - i - 1, "pop does not release its cell"); }
        MC_CHECK(l == NULL && zt_llist_pop(&l) == NULL && l == NULL, "pop of the empty list"); break; }
    case 7: {                               /* ppop / ppush move cells */
        l = mk(v, n, 0); zt_llist r = NULL;
        for (int i = 0; i < n; i++) { zt_llist c = zt_llist_ppop(&l); MC_CHECK(c && zt_llist_head(c) == &cells[i], "ppop %d of %d", i, n); zt_llist q = zt_llist_ppush(c, &r); MC_CHECK(q == r && r == c, "ppush result"); MC_CHECK(flat(r) == i + 1 && flat(l) == n - i - 1, "ppush/ppop lengths"); }
        MC_CHECK(zt_llist_ppop(&l) == NULL && l == NULL, "ppop of the empty list");
        flat(r); for (int i = 0; i < n; i++) MC_CHECK(got[i] == n - 1 - i, "ppush order"); zt_llist_free(r); break; }
    case 8: {                               /* push */
        l = NULL; for (int i = 0; i < n; i++) { zt_llist q = zt_llist_push(&cells[i], &l); MC_CHECK(q == l, "push result"); MC_CHECK(flat(l) == i + 1, "push length"); for (int j = 0; j <= i; j++) MC_CHECK(got[j] == i - j, "push order"); }
        zt_llist_free(l); break; }
    default: l = mk(v, n, 0); MC_CHECK(flat(l) == n, "cons"); for (int i = 0; i < n; i++) MC_CHECK(got[i] == i, "cons order"); zt_llist_free(l);
    }
    mc_state(mc_mix(op * 100 + n, mc_hash(1, v, n * sizeof *v)));
    MC_CHECK(mc_live_blocks() == live0, "%ld cells left", mc_live_blocks() - live0);
}
