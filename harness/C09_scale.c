/* C09 (scale): arrays of every length: growth, removal of every element, concatenation of every pair of lengths. */
#include "mc.h"
#include <zt.h>
#define MX 2400
static int v[MX], fr[MX], maxn; static void *m[MX]; static int ml;
static void fcb(void *p) { fr[(int *)p - v]++; }
static void is(zt_ptr_array *a, const char *what, int ordered) {
    MC_CHECK(zt_ptr_array_length(a) == ml && a->size >= ml, "%s: length %d of %d, must be %d", what, a->count, a->size, ml); char **o = malloc((ml + 1) * sizeof *o); MC_CHECK(zt_ptr_array_copy_data(a, o) == 0, "%s: copy_data", what);
    static int c[MX]; memset(c, 0, sizeof c); for (int i = 0; i < ml; i++) { void *x = zt_ptr_array_get_idx(a, i); MC_CHECK(x == o[i], "%s: get and copy_data differ", what); if (ordered) MC_CHECK(x == m[i], "%s: element %d is wrong", what, i); else { c[(int *)x - v]++; c[(int *)m[i] - v]--; } } for (int i = 0; i < MX; i++) MC_CHECK(c[i] == 0, "%s: element %d is there %+d times too often", what, i, c[i]);
    if (!ordered) memcpy(m, o, ml * sizeof *m); free(o); MC_CHECK(zt_ptr_array_get_idx(a, ml) == NULL && zt_ptr_array_get_idx(a, -1) == (ml ? m[ml - 1] : NULL), "%s: ends", what); mc_step();
}
void mc_setup(void) { maxn = mc_param("elements", 135, 300); mc_shard_depth = 3; }
void mc_run(void) {
    long live0 = mc_live_blocks(); memset(fr, 0, sizeof fr); ml = 0; int op = mc_choose(3), cb = mc_choose(2), nk = mc_choose(maxn + 4), n = nk < maxn ? nk : (int[]){ 255, 257, 600, 1025 }[nk - maxn]; MC_LOG("operation %d with %d elements, callback %d", op, n, cb); zt_ptr_array *a = zt_ptr_array_init(NULL, cb ? fcb : NULL); int dup = op == 1 ? mc_choose(3) : 0;
    for (int i = 0; i < n; i++) { int k = dup == 0 ? i : dup == 1 ? i / 2 : i % 7; MC_CHECK(zt_ptr_array_add(a, &v[k]) == 0, "add fails"); m[ml++] = &v[k]; if (i % 16 == 0) is(a, "add", 1); } is(a, "added", 1);
    if (op == 0) { int nb = mc_choose(maxn / 5 + 3), k = nb < maxn / 5 ? nb * 5 + n % 5 : (int[]){ 256, 700, 1100 }[nb - maxn / 5], same = mc_choose(4) == 0; zt_ptr_array *b = same ? a : zt_ptr_array_init(NULL, NULL); if (!same) { for (int i = 0; i < k; i++) { zt_ptr_array_add(b, &v[MX - 1 - i]); m[ml++] = &v[MX - 1 - i]; } MC_CHECK(zt_ptr_array_cat(a, b) == 0, "cat fails"); is(a, "concatenated", 1); MC_CHECK(b->count == k, "source has %d elements, must be %d", b->count, k); zt_ptr_array_free(b, 0); } }
    else if (op == 1) {                                 /* remove in some order until nothing is left */
        int ord = mc_choose(4), step = ord == 2 ? 7 : ord == 3 ? 11 : 1; for (int i = 0, left = n; left > 0 && i < n + 5; i++) { int k = ord == 0 ? i : ord == 1 ? n - 1 - i : (i * step) % (n + (n % step == 0)); if (k < 0 || k >= MX) continue; int hits = 0, w = 0; void *x[MX]; for (int j = 0; j < ml; j++) if (m[j] == &v[k]) hits++; else x[w++] = m[j]; int f0 = fr[k], r = zt_ptr_array_del(a, &v[k]); memcpy(m, x, w * sizeof *m); ml = w; MC_CHECK((r == 0) == (hits > 0) && fr[k] - f0 == (cb ? hits : 0), "removal of %d returns %d and frees %d, it is there %d times", k, r, fr[k] - f0, hits); left -= hits; if (n < 70 || i % 16 == 0) is(a, "removed", 0); } is(a, "all removed", 0); memset(fr, 0, sizeof fr);
    } else { int g = mc_choose(5); static const int G[] = { 0, 1, 33, 100, 1000 }; int s0 = a->size; MC_CHECK(zt_ptr_array_resize(a, G[g]) == 0 && a->size == s0 + (G[g] ? G[g] : ZT_PTR_ARRAY_DEFAULT_SIZE), "resize by %d: %d", G[g], a->size); is(a, "resized", 1); for (int i = 0; i < n; i += 1 + n / 9) { int j = (i * 3 + 1) % n; MC_CHECK(zt_ptr_array_move_idx_to_idx(a, i, j) == 0, "move %d to %d", i, j); m[j] = m[i]; is(a, "moved", 1); } while (!zt_ptr_array_is_full(a)) { zt_ptr_array_add(a, &v[ml]); m[ml] = &v[ml]; ml++; } is(a, "filled up", 1); zt_ptr_array_add(a, &v[0]); m[ml++] = &v[0]; is(a, "one more", 1); }
    int c[MX] = { 0 }; for (int i = 0; i < ml; i++) c[(int *)m[i] - v]++; zt_ptr_array_free(a, cb ? 1 + (ml & 1) : 0); for (int i = 0; i < MX; i++) MC_CHECK(fr[i] == (cb ? c[i] : 0), "free visits element %d %d times, it is there %d times", i, fr[i], c[i]);
    MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); if (n) mc_nontrivial(); mc_state(mc_mix(mc_mix(op, n), cb * 3 + dup));
}
