/* C02 (match): sets whose notion of equality is the user's: equal elements are at different addresses and look different. */
#include "mc.h"
#include <zt.h>
#define NC 4   /* classes of equal elements */
#define NV 3   /* variants of each */
struct rec { long junk; int id; };
static struct rec recs[NC * NV]; static char words[NC * NV][24]; static int cd, kind, depth, badcd, badlen;
static const void *elt(int i, size_t *l) { if (kind == 0) { *l = strlen(words[i]); return words[i]; } *l = kind == 1 ? sizeof(struct rec) : 2 + i; return &recs[i]; }
static int by_id(const void *a, size_t al, const void *b, size_t bl, void *c) { if (c != &cd) badcd = 1; if (kind == 1 && (al != sizeof(struct rec) || bl != sizeof(struct rec))) badlen = 1; return ((const struct rec *)a)->id == ((const struct rec *)b)->id; }
static int by_case(const void *a, size_t al, const void *b, size_t bl, void *c) { if (c != &cd) badcd = 1; return al == bl && strncasecmp(a, b, al) == 0; }
static int got[NC * NV], visits;
static int it(void *d, void *p) { visits++; for (int i = 0; i < NC * NV; i++) { size_t l; if (elt(i, &l) == d) got[i]++; } return 0; }
static int destroyed; static void destroy_cb(void *d) { destroyed++; }
static zt_set *mk(int d) { return kind == 0 && d == 2 ? zt_set_init(zt_table_compare_string_case, NULL, &cd) : zt_set_init(kind == 0 ? by_case : by_id, d ? destroy_cb : NULL, &cd); }
/* rep[c]: the variant that stands for class c, -1 if none */
static void is(zt_set *s, const int *rep, const char *what) {
    int n = 0; memset(got, 0, sizeof got); visits = 0; MC_CHECK(zt_set_for_each(s, it, NULL) == 0, "%s: iteration", what);
    for (int c = 0; c < NC; c++) { n += rep[c] >= 0; for (int v = 0; v < NV; v++) { size_t l; const void *e = elt(c * NV + v, &l); MC_CHECK(got[c * NV + v] == (rep[c] == v), "%s: element %d.%d is visited %d times", what, c, v, got[c * NV + v]); MC_CHECK(!!zt_set_is_member(s, e, l) == (rep[c] >= 0), "%s: membership of %d.%d is wrong", what, c, v); } }
    MC_CHECK(visits == n && zt_set_size(s) == n, "%s: %d visited, length %ld, must be %d", what, visits, (long)zt_set_size(s), n); MC_CHECK(!badcd && !badlen, "%s: match gets the wrong %s", what, badcd ? "data" : "length");
}
static int ins(zt_set *s, int *rep, int c, int v) { size_t l; const void *e = elt(c * NV + v, &l); int r = zt_set_insert(s, e, l), w = rep[c] >= 0; if (!w) rep[c] = v; mc_step(); return r == w; }
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm); depth = mc_param("depth", 4, 5); mc_shard_depth = 3;
    static const char *W[NC] = { "alpha-and-the-rest", "b", "", "alpha-and-the-resu" }; for (int c = 0; c < NC; c++) for (int v = 0; v < NV; v++) { char *w = words[c * NV + v]; strcpy(w, W[c]); for (char *p = w; *p; p++) if (v && ((p - w) % 2 == v - 1) && *p >= 'a' && *p <= 'z') *p -= 32; recs[c * NV + v] = (struct rec){ 77 * (c * NV + v) + 5, c * 1000003 }; } }
void mc_run(void) {
    kind = mc_choose(3); int mode = mc_choose(2); badcd = badlen = destroyed = 0; long live0 = mc_live_blocks(); zt_mem_pool *sp = zt_table_pool_init(2); MC_LOG("elements: %s", kind == 0 ? "words, regardless of case" : kind == 1 ? "records by number" : "records by number, lengths that differ");
    if (mode == 0) { int rep[NC] = { -1, -1, -1, -1 }; zt_set *s = mk(mc_choose(2) ? 1 : 2); int d = 0, cb = s->destroy != NULL;
        for (int i = 0; i < depth; i++) { int op = mc_choose(NC * NV + NC); if (op < NC * NV) { MC_LOG("insert %d.%d", op / NV, op % NV); MC_CHECK(ins(s, rep, op / NV, op % NV), "insert of %d.%d: wrong result", op / NV, op % NV); } else { int c = op - NC * NV; if (rep[c] < 0) mc_prune(); size_t l; void *e = (void *)elt(c * NV + rep[c], &l), *p = e; MC_LOG("remove %d.%d", c, rep[c]); MC_CHECK(zt_set_remove(s, &p) == 0 && p == e, "removal of member %d.%d fails", c, rep[c]); rep[c] = -1; mc_step(); }
            is(s, rep, "set"); mc_state(mc_hash(kind, rep, sizeof rep)); if (i) mc_nontrivial(); }
        MC_CHECK(destroyed == d, "destroy callback on a living set"); int n = 0; for (int c = 0; c < NC; c++) n += rep[c] >= 0; zt_set_destroy(s); MC_CHECK(destroyed == (cb ? n : 0), "destroy callback runs %d times for %d members", destroyed, n);
    } else { /* algebra on sets that hold different variants */
        int op = mc_choose(4), a[NC], b[NC], r[NC] = { -1, -1, -1, -1 }; zt_set *A = mk(0), *B = mk(0), *R = mk(0); for (int c = 0; c < NC; c++) a[c] = b[c] = -1; for (int c = 0; c < 3; c++) { int k = mc_choose(5); if (k & 1 && k < 4) ins(A, a, c, 0); if (k & 2) ins(B, b, c, 1); if (k == 4) { ins(A, a, c, 2); ins(B, b, c, 2); } } int pre = mc_choose(3); if (pre) ins(R, r, pre - 1, 2); MC_LOG("A %d %d %d B %d %d %d, operation %d, result holds %d", a[0], a[1], a[2], b[0], b[1], b[2], op, pre - 1);
        int rc = op == 0 ? zt_set_union(R, A, B) : op == 1 ? zt_set_intersection(R, A, B) : op == 2 ? zt_set_difference(R, A, B) : 0; MC_CHECK(rc == 0, "operation %d returns %d", op, rc); int sub = 1, sup = 1, n = 0;
        memset(got, 0, sizeof got); visits = 0; zt_set_for_each(R, it, NULL);
        for (int c = 0; c < NC; c++) { int ina = a[c] >= 0, inb = b[c] >= 0, in = (op == 0 ? ina || inb : op == 1 ? ina && inb : op == 2 ? ina && !inb : 0) || r[c] >= 0, k = 0; if (ina && !inb) sub = 0; if (inb && !ina) sup = 0; n += in; for (int v = 0; v < NV; v++) { size_t l; const void *e = elt(c * NV + v, &l); k += got[c * NV + v]; MC_CHECK(!!zt_set_is_member(R, e, l) == in, "operation %d: membership of %d.%d is wrong", op, c, v); if (got[c * NV + v]) MC_CHECK(v == a[c] || v == b[c] || v == r[c], "operation %d: element %d.%d comes from nowhere", op, c, v); } MC_CHECK(k == in, "operation %d: class %d is there %d times", op, c, k); if (r[c] >= 0) MC_CHECK(got[c * NV + r[c]], "operation %d: what the result held is replaced", op); }
        MC_CHECK(visits == n && zt_set_size(R) == n, "operation %d: %d elements, length %ld, must be %d", op, visits, (long)zt_set_size(R), n);
        if (op == 3) { MC_CHECK(!!zt_set_is_subset(A, B) == sub && !!zt_set_is_subset(B, A) == sup, "subset is wrong"); MC_CHECK(!!zt_set_is_equal(A, B) == (sub && sup) && !!zt_set_is_equal(B, A) == (sub && sup), "equality is wrong"); }
        is(A, a, "A afterwards"); is(B, b, "B afterwards"); mc_step(); mc_nontrivial(); mc_state(mc_mix(mc_hash(op, a, sizeof a), mc_hash(pre, b, sizeof b))); zt_set_destroy(A); zt_set_destroy(B); zt_set_destroy(R); }
    MC_CHECK(zt_mem_pool_destroy(&sp) == 0, "table headers still in use"); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0);
}
