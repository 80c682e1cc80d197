/* C09: pointer array against an unordered/ordered model, all histories up to a depth, small and around the growth threshold. */
#include "mc.h"
#include <zt.h>
#define NP 3
static int depth; static char hist[300]; static int vals[NP + 40];
static void *m[200]; static int mc_, freed[NP + 40];
static void fcb(void *p) { freed[(int *)p - vals]++; }
static void note(const char *f, int a, int b) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%d,%d)", f, a, b); MC_LOG("%s", hist); }
static void verify(zt_ptr_array *a) {
    MC_CHECK(zt_ptr_array_length(a) == mc_, "%s: length %d, want %d", hist, zt_ptr_array_length(a), mc_);
    MC_CHECK(a->size >= mc_ && (!!zt_ptr_array_is_full(a)) == (a->count == a->size), "%s: size %d", hist, a->size);
    for (int i = 0; i < mc_; i++) MC_CHECK(zt_ptr_array_get_idx(a, i) == m[i], "%s: element %d is wrong", hist, i);
    MC_CHECK(zt_ptr_array_get_idx(a, -1) == (mc_ ? m[mc_ - 1] : NULL), "%s: last element", hist);
    static const int bad[] = { 0, 1, 1000, -2, INT32_MIN, INT32_MAX };
    for (int i = 0; i < 6; i++) { int x = i < 2 ? mc_ + bad[i] : bad[i]; MC_CHECK(zt_ptr_array_get_idx(a, x) == NULL, "%s: get of index %d (of %d)", hist, x, mc_); }
    char **out = (char **)malloc((mc_ + !mc_) * sizeof *out);
    MC_CHECK(zt_ptr_array_copy_data(a, out) == 0 && !memcmp(out, m, mc_ * sizeof *out), "%s: copy_data", hist); free(out);
    mc_state(mc_hash(mc_, m, mc_ < 190 ? mc_ * sizeof *m : 0));
}
void mc_setup(void) { depth = mc_param("depth", 4, 5); mc_pure = 1; mc_shard_depth = 4; }
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = 0; mc_ = 0; memset(freed, 0, sizeof freed);
    int cb = mc_choose(2), start = (int[]){ 0, 31 }[mc_choose(2)];
    zt_ptr_array *a = zt_ptr_array_init(&vals, cb ? fcb : NULL);
    for (int i = 0; i < start; i++) { zt_ptr_array_add(a, &vals[NP + i]); m[mc_++] = &vals[NP + i]; }
    snprintf(hist, sizeof hist, "cb=%d start=%d", cb, start); verify(a);
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(6);
        switch (op) {
        case 0: { int k = mc_choose(NP); note("add", k, 0); MC_CHECK(zt_ptr_array_add(a, &vals[k]) == 0, "%s failed", hist); m[mc_++] = &vals[k]; break; }
        case 1: { int k = mc_choose(NP + 1); void *p = k < NP ? (void *)&vals[k] : (void *)&vals[NP]; note("del", k, 0); int f0 = freed[k < NP ? k : NP], hits = 0;
            int r = zt_ptr_array_del(a, p);
            /* every occurrence goes; order of the others is unspecified (the last one moves in), so compare as multisets */
            void *want[200]; int wn = 0; for (int i = 0; i < mc_; i++) if (m[i] != p) want[wn++] = m[i]; else hits++;
            MC_CHECK((r == 0) == (hits > 0), "%s returned %d for %d occurrences", hist, r, hits);
            MC_CHECK(a->count == wn, "%s: %d elements left, want %d", hist, a->count, wn);
            char used[200] = { 0 };
            for (int i = 0; i < wn; i++) { void *x = zt_ptr_array_get_idx(a, i); int j; for (j = 0; j < wn; j++) if (!used[j] && want[j] == x) break; MC_CHECK(j < wn, "%s: unexpected element left", hist); used[j] = 1; m[i] = x; }
            mc_ = wn;
            MC_CHECK(freed[k < NP ? k : NP] - f0 == (cb ? hits : 0), "%s: free callback ran %d times for %d removed", hist, freed[k < NP ? k : NP] - f0, hits); break; }
        case 2: { int s[] = { 0, mc_ - 1, mc_, -1 }; int i = s[mc_choose(4)], j = s[mc_choose(4)]; note("move", i, j);
            int ok = i >= 0 && i < mc_ && j >= 0 && j < mc_; int r = zt_ptr_array_move_idx_to_idx(a, i, j);
            MC_CHECK((r == 0) == ok, "%s (of %d) returned %d", hist, mc_, r); if (ok) m[j] = m[i]; break; }
        case 3: { int k = mc_choose(4); note("resize", k, 0); int s0 = a->size; int r = zt_ptr_array_resize(a, (int[]){ 0, 1, INT32_MAX, -1 }[k]);
            MC_CHECK(r == (k >= 2 ? -1 : 0), "%s returned %d", hist, r); MC_CHECK(a->size == s0 + (k == 0 ? ZT_PTR_ARRAY_DEFAULT_SIZE : k == 1), "%s: size %d", hist, a->size); break; }
        case 4: { int n = (int[]){ 0, 2, 40 }[mc_choose(3)]; if (mc_ + n > 190) mc_prune(); note("cat", n, 0); zt_ptr_array *s = zt_ptr_array_init(NULL, NULL);
            for (int i = 0; i < n; i++) zt_ptr_array_add(s, &vals[i]);
            MC_CHECK(zt_ptr_array_cat(a, s) == 0, "%s failed", hist); MC_CHECK(s->count == n, "%s changed its source", hist);
            for (int i = 0; i < n; i++) { MC_CHECK(zt_ptr_array_get_idx(s, i) == &vals[i], "%s changed its source", hist); m[mc_++] = &vals[i]; }
            zt_ptr_array_free(s, 0); break; }
        default: note("null", 0, 0); zt_ptr_array_add(a, NULL); MC_CHECK(zt_ptr_array_del(a, NULL) == -1 && zt_ptr_array_del(NULL, a) == -1 && zt_ptr_array_cat(a, NULL) == -1 && zt_ptr_array_resize(NULL, 0) == -1 && zt_ptr_array_free(NULL, 1) == -1, "NULL arguments are refused");
        }
        mc_step(); verify(a); if (mc_) mc_nontrivial();
    }
    memset(freed, 0, sizeof freed); int cnt[NP + 40] = { 0 }; for (int i = 0; i < mc_; i++) cnt[(int *)m[i] - vals]++;
    zt_ptr_array_free(a, cb);
    for (int i = 0; i < NP + 40; i++) MC_CHECK(freed[i] == (cb ? cnt[i] : 0), "%s free: callback ran %d times for %d entries", hist, freed[i], cnt[i]);
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
