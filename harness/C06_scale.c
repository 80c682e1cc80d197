/* C06 (scale): arrays of every length and element size. */
#include "mc.h"
#include <zt.h>
static int maxn; static const int SZ[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 64, 100, 255, 256, 257, 1000 }, BIG[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 65535, 65536, 65537 };
static unsigned char *m; static size_t ml, sz;
static void pat(unsigned char *p, size_t n, int seed) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)((i * 7 + (i >> 8) * 13 + seed * 31) | 1); }
static void is(zt_array_t a, const char *what) {
    MC_CHECK(zt_array_length(a) == ml && zt_array_size(a) == sz, "%s: length %zu size %zu, must be %zu, %zu", what, zt_array_length(a), zt_array_size(a), ml, sz);
    if (ml) MC_CHECK(!memcmp(zt_array_data(a), m, ml * sz), "%s: contents differ", what);
    char *e = malloc(sz); for (size_t i = 0; i < ml; i = i < 300 || i + 300 >= ml ? i + 1 : ml - 300) { MC_CHECK(zt_array_get(a, i) == zt_array_data(a) + i * sz, "%s: get(%zu)", what, i); MC_CHECK(zt_array_elem_copy(a, i, e) == e && !memcmp(e, m + i * sz, sz), "%s: element %zu", what, i); }
    free(e); mc_step();
}
void mc_setup(void) { maxn = mc_param("length", 70, 140); mc_shard_depth = 3; m = malloc(70000L * 1000); }
void mc_run(void) {
    long live0 = mc_live_blocks(); sz = SZ[mc_choose(sizeof SZ / sizeof *SZ)]; int nb = sizeof BIG / sizeof *BIG, k = mc_choose(maxn + nb); size_t n = k < maxn ? k : BIG[k - maxn]; if (n > 5000 && sz > 16) mc_prune();
    int op = mc_choose(6); MC_LOG("%zu elements of %zu bytes, operation %d", n, sz, op); zt_array_t a; ml = n;
    if (op == 0) {                                      /* fill from the end, then overwrite some */
        memset(m, 0, n * sz); a = zt_array_new(n, sz); is(a, "new"); unsigned char *e = malloc(sz);
        for (size_t i = n; i-- > 0; ) { pat(e, sz, i + 3); memcpy(m + i * sz, e, sz); MC_CHECK(zt_array_put(a, i, e) == e, "put returns something else"); } is(a, "filled");
        for (size_t i = 0; i < n; i += 1 + n / 7) { pat(e, sz, i + 99); memcpy(m + i * sz, e, sz); zt_array_put(a, i, e); is(a, "overwritten"); } free(e);
    } else {
        pat(m, n * sz, 5); int copy = n == 0 || mc_choose(2); char *d = mc_dupn(m, n * sz); if (sz == 1 && n && op == 5) { free(d); d = malloc(n + 1); memcpy(d, m, n); d[n] = 0; a = zt_array_with_cstr(d); copy = 1; } else a = zt_array_with(d, n, sz, copy);
        if (copy) { memset(d, 0, n * sz); free(d); } is(a, "with");
        size_t to[] = { 0, 1, n / 2, n ? n - 1 : 0, n, n + 1, n + 7, n * 2, n * 3 + 5, 255, 256, 257, 1024 };
        if (op == 1 || op == 5) { size_t t = to[mc_choose(13)]; if (t * sz > 60000000) mc_prune(); if (t > n) memset(m + n * sz, 0, (t - n) * sz); zt_array_resize(a, t); ml = t; is(a, "resized"); if (t > n) { pat(m + n * sz, (t - n) * sz, 8); for (size_t i = n; i < t; i++) zt_array_put(a, i, m + i * sz); is(a, "filled up"); } }
        else if (op == 2) { size_t t = to[mc_choose(13)]; if (t * sz > 60000000) mc_prune(); zt_array_t c = zt_array_copy(a, t); is(a, "original"); if (n) memset(zt_array_data(a), 0, n * sz); zt_array_free(&a); a = c; if (t > n) memset(m + n * sz, 0, (t - n) * sz); ml = t; is(a, "copy"); }
        else if (op == 3) { size_t t = to[mc_choose(13)]; size_t z = mc_choose(2) ? sz : 3; if (t * z > 60000000 || (!t)) mc_prune(); int cp = mc_choose(2); pat(m, t * z, 17); d = mc_dupn(m, t * z); zt_array_set_data(a, d, t, z, cp); if (cp) { memset(d, 0, t * z); free(d); } ml = t; sz = z; is(a, "new data"); }
        else for (size_t t = n; ; t = t * 2 / 3) { MC_CHECK(zt_array_set_length(a, t) == ml, "set_length does not return the old length"); ml = t; is(a, "shortened"); if (!t) break; }
    }
    zt_array_free(&a); MC_CHECK(a == NULL && mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); if (n) mc_nontrivial(); mc_state(mc_mix(mc_mix(n, sz), op));
}
