/* C01 (scale): tables of every size over several pages of nodes, and every pair of keys from wide families. */
#include "mc.h"
#define ZT_WITH_GC
#include <zt.h>
#include <errno.h>
#define MAXN 400
static int maxn, nextra; static char tag[] = "cdata"; static int badcd;
static unsigned long h_mod3(const void *k, size_t n, void *cd) { if (cd != tag) badcd = 1; return (uintptr_t)k % 3 * 0x100000001UL; }
static unsigned long h_same(const void *k, size_t n, void *cd) { if (cd != tag) badcd = 1; return 0xdeadbeef; }
static int c_int(const void *a, size_t al, const void *b, size_t bl, void *cd) { if (cd != tag) badcd = 1; return a == b && al == bl; }
static char text[MAXN][120]; static int val[MAXN], seen[MAXN], nseen, bad, stop, strkeys; static zt_table *T; static int del;
static const void *key(int i, size_t *l) { if (!strkeys) { *l = sizeof(long); return (void *)(long)(i * 0x10001L); } *l = strlen(text[i]); return text[i]; }
static int it(void *k, size_t kl, void *d, size_t dl, void *p) { int i = (int *)d - val; if (p != &T || i < 0 || i >= MAXN) { bad = 1; return 99; } size_t l; const void *q = key(i, &l); if (q != k || l != kl || dl != (size_t)i + 1) bad = 1; seen[i]++; nseen++; if (del && zt_table_del(T, k, kl) != d) bad = 2; return nseen == stop ? -7 : 0; }
static char in[MAXN]; static int count;
static void look(int i, const char *when) { size_t l; const void *q = key(i, &l); errno = 0; void *g = zt_table_get(T, q, l); MC_CHECK(g == (in[i] ? &val[i] : NULL), "%s: %s key %d of %d is %s", when, in[i] ? "present" : "absent", i, count, g ? "found with a value" : "not found"); MC_CHECK(in[i] || errno == ENOENT, "%s: errno %d for an absent key", when, errno); }
static void walk(zt_table *t, const char *when) { memset(seen, 0, sizeof seen); nseen = bad = 0; stop = -1; int r = zt_table_for_each(t, it, &T); MC_CHECK(r == 0 && !bad && nseen == count, "%s: for_each over %d entries visits %d, returns %d%s", when, count, nseen, r, bad ? ", with wrong arguments" : ""); for (int i = 0; i < MAXN; i++) MC_CHECK(seen[i] == in[i], "%s: for_each visits entry %d of %d %d times", when, i, count, seen[i]); mc_step(); }
static const struct { const char *n; zt_table_hash_func_cb h; zt_table_compare_cb c; int s; } CF[] = { { "int", zt_table_hash_int, zt_table_compare_int, 0 }, { "string", zt_table_hash_string, zt_table_compare_string, 1 }, { "buffer", zt_table_hash_buff, zt_table_compare_buff, 1 }, { "three chains", h_mod3, c_int, 0 }, { "one chain", h_same, c_int, 0 } };
static int order(int p, int k, int n) { switch (p) { case 0: return k; case 1: return n - 1 - k; case 2: return k < (n + 1) / 2 ? 2 * k : 2 * (k - (n + 1) / 2) + 1; default: return k & 1 ? n / 2 + (k + 1) / 2 - (n & 1 ? 0 : 1) : n / 2 - k / 2 - (n & 1 ? 0 : 1); } }
static void sizes(void) {
    int ci = mc_choose(5), fl = mc_choose(2) * ZT_TABLE_SIZE_USE_HINT; static const size_t H[] = { 0, 3, 16, 200 }; size_t hint = H[mc_choose(4)]; int n = mc_choose(maxn + nextra + 1), p = mc_choose(3); if (n > maxn) { static const int big[] = { 127, 128, 129, 200, 256, 257, 300 }; n = big[(n - maxn - 1) % 7]; }
    strkeys = CF[ci].s; memset(in, 0, sizeof in); count = 0; MC_LOG("%s keys, hint %zu, flags %d: %d entries, removed in order %d", CF[ci].n, hint, fl, n, p); badcd = 0;
    long live0 = mc_live_blocks(); zt_mem_pool *sp = zt_table_pool_init(2);
    static char longname[1500]; memset(longname, 'n', sizeof longname - 1);
    zt_table *t = T = zt_table_init(n % 3 == 0 ? NULL : n % 3 == 1 ? "name" : longname, CF[ci].h, CF[ci].c, hint, fl, tag); MC_CHECK(t, "no table");
    for (int k = 0; k < n; k++) { size_t l; const void *q = key(k, &l); int r = zt_table_set(t, q, l, &val[k], k + 1); MC_CHECK(r == 0, "entry %d refused (%d)", k, r); in[k] = 1; count++; if (k >= n - 3 || k % 16 == 0) { for (int i = 0; i <= k; i++) look(i, "after insertion"); if (k + 1 < MAXN) look(k + 1, "after insertion"); } }
    walk(t, "filled"); for (int k = 0; k < n; k++) { size_t l; const void *q = key(k, &l); MC_CHECK(zt_table_set(t, q, l, &val[0], 1) == 1, "key %d of %d accepted twice", k, n); } walk(t, "after refused duplicates");
    if (n) { static const int st[] = { 1, 2 }; for (int z = 0; z < 4; z++) { memset(seen, 0, sizeof seen); nseen = bad = 0; stop = z < 2 ? st[z] : z == 2 ? (n + 1) / 2 : n; if (stop > n) continue; int r = zt_table_for_each(t, it, &T); MC_CHECK(r == -7 && nseen == stop, "for_each stopped at %d of %d: %d visits, returns %d", stop, n, nseen, r); } }
    { zt_table *u = zt_table_init("copy", CF[ci].h, CF[ci].c, 0, 0, tag); int any = zt_table_copy(t, u); MC_CHECK(any == (n > 0), "copy of %d entries returns %d", n, any); T = u; walk(u, "copy"); for (int i = 0; i < n; i++) look(i, "copy"); zt_table_destroy(u); T = t; walk(t, "after copying"); }
    if (p == 2 && n % 2) { nseen = bad = 0; stop = -1; del = 1; zt_table_for_each(t, it, &T); del = 0; MC_CHECK(!bad && nseen == n, "for_each removing each of %d entries visits %d (%d)", n, nseen, bad); memset(in, 0, sizeof in); count = 0; walk(t, "emptied from for_each"); }
    else for (int k = 0; k < n; k++) { int i = order(p, k, n); size_t l; const void *q = key(i, &l); void *g = zt_table_del(t, q, l); MC_CHECK(g == &val[i], "removal %d of %d (key %d) returns %s", k, n, i, g ? "another value" : "nothing"); in[i] = 0; count--; errno = 0; MC_CHECK(!zt_table_del(t, q, l) && errno == ENOENT, "key %d removed twice", i); if (k % 8 == 0 || k > n - 4) { walk(t, "after removal"); for (int j = 0; j < n; j++) look(j, "after removal"); } if (k == n / 2 && p == 1) { int r = zt_table_set(t, q, l, &val[i], i + 1); MC_CHECK(r == 0, "removed key refused"); in[i] = 1; count++; look(i, "put back"); q = key(i, &l); MC_CHECK(zt_table_del(t, q, l) == &val[i], "entry put back not removed"); in[i] = 0; count--; } }
    MC_CHECK(!badcd, "callback called without the user's data"); zt_table_destroy(t); MC_CHECK(zt_mem_pool_destroy(&sp) == 0, "table headers still in use"); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left by a table of %d entries", mc_live_blocks() - live0, n);
    if (n > 1) mc_nontrivial(); mc_state(mc_mix(ci * 8 + p, mc_mix(hint * 2 + fl, n)));
}
/* two keys that hash alike are told apart exactly when they differ */
static unsigned long h_one(const void *k, size_t n, void *cd) { return 7; }
static void pair(zt_table_hash_func_cb h, zt_table_compare_cb c, const void *a, size_t al, const void *b, size_t bl, int same, const char *what, int x, int y) {
    zt_table *t = zt_table_init("p", h, c, 4, 0, NULL); int v = 1, w = 2; MC_CHECK(zt_table_set(t, a, al, &v, 1) == 0, "first key refused"); int r = zt_table_set(t, b, bl, &w, 1); mc_step();
    MC_CHECK(r == same, "%s (%d,%d): second key is %s", what, x, y, r ? "taken for the first" : "not recognised as the first"); MC_CHECK(zt_table_get(t, a, al) == &v && zt_table_get(t, b, bl) == (same ? &v : &w), "%s (%d,%d): wrong value", what, x, y);
    MC_CHECK(zt_table_del(t, b, bl) == (same ? &v : &w), "%s (%d,%d): wrong entry removed", what, x, y); MC_CHECK(zt_table_get(t, a, al) == (same ? NULL : &v), "%s (%d,%d): wrong entry left", what, x, y); if (!same) { zt_table_del(t, a, al); MC_CHECK(!zt_table_get(t, a, al), "entry stays"); } zt_table_destroy(t);
}
/* no datum is a datum like any other: it is found, shadows older ones, and is removed */
static void nodatum(zt_table_hash_func_cb h, zt_table_compare_cb c, const void *a, size_t al, int x) {
    for (int dup = 0; dup < 2; dup++) { zt_table *t = zt_table_init("n", h, c, 4, dup ? ZT_TABLE_ALLOW_DUP_KEYS : 0, NULL); int v = 1;
        if (dup) MC_CHECK(zt_table_set(t, a, al, &v, 1) == 0, "key %d refused", x); MC_CHECK(zt_table_set(t, a, al, NULL, 0) == 0, "key %d without a datum refused", x); if (!dup) MC_CHECK(zt_table_set(t, a, al, &v, 1) == 1, "key %d that has no datum accepted again", x); mc_step();
        errno = 0; MC_CHECK(zt_table_get(t, a, al) == NULL && errno == 0, "key %d without a datum: not found (%d), or an older datum found", x, errno); MC_CHECK(zt_table_del(t, a, al) == NULL && errno == 0, "key %d without a datum: removal removes something else (%d)", x, errno);
        MC_CHECK(zt_table_get(t, a, al) == (dup ? &v : NULL) && (dup || errno == ENOENT), "key %d: wrong entry left", x); errno = 0; MC_CHECK(zt_table_del(t, a, al) == (dup ? &v : NULL) && (dup || errno == ENOENT), "key %d: wrong entry removed", x); zt_table_destroy(t); }
}
static void pairs(void) {
    int kind = mc_choose(4), real = mc_choose(2), x = mc_choose(kind == 0 ? 66 : 100); mc_nontrivial(); mc_state(mc_mix(kind * 2 + real, x)); MC_LOG("pairs of kind %d with %d", kind, x);
    if (kind == 0) for (int y = 0; y < 66; y++) { long a = x < 64 ? 1L << x : x == 64 ? 0 : -1, b = y < 64 ? 1L << y : y == 64 ? 0 : -1; static const int IL[] = { 8, 9, 12, 16, 40, 64, 4096 }; for (int li = 0; li < (x < 8 ? 7 : 1); li++) { int l = IL[li]; pair(real ? zt_table_hash_int : h_one, zt_table_compare_int, (void *)a, l, (void *)b, l, a == b, "integers", x, y); } if (x == y) pair(real ? zt_table_hash_int : h_one, zt_table_compare_int, (void *)a, 8, (void *)b, 4, 0, "integers of different widths", x, y); if (x == y) nodatum(real ? zt_table_hash_int : h_one, zt_table_compare_int, (void *)a, 8, x); }
    else for (int y = 0; y < 100; y++) { /* strings of length y differing at position x (none when x >= y) */
        for (int m = 0; m < (kind < 3 && x < y ? 3 : 1); m++) { char *a = malloc(y + 1), *b = malloc(y + 1); for (int i = 0; i < y; i++) a[i] = b[i] = 'a' + i % 26; a[y] = b[y] = 0; if (x < y) b[x] ^= kind == 3 ? 1 : (int[]){ 0x80, 1, 0x20 }[m];
        if (kind == 1) pair(real ? zt_table_hash_string : h_one, zt_table_compare_string, a, y, b, y, x >= y, "strings", x, y);
        else if (kind == 2) { if (x < y && x + 1 < y) a[x + 1] = b[x + 1] = 0; pair(real ? zt_table_hash_buff : h_one, zt_table_compare_buff, a, y, b, y, x >= y, "buffers", x, y); }
        else { if (x < y) { b[x] ^= 1 ^ 0x20; if (real && y) b[y - 1] ^= 0; } pair(h_one, zt_table_compare_string_case, a, y, b, y, 1, "strings differing in case", x, y); if (x < y) { b[x] = '#'; pair(h_one, zt_table_compare_string_case, a, y, b, y, 0, "strings", x, y); } }
        if (kind < 3 && y && x == 0) { b[0] = a[0]; pair(real ? kind == 1 ? zt_table_hash_string : zt_table_hash_buff : h_one, kind == 1 ? zt_table_compare_string : zt_table_compare_buff, a, y, b, kind == 1 ? (b[y - 1] = 0, y - 1) : y - 1, 0, "one key a prefix of the other", x, y); }
        if (x == 0 && !m) nodatum(real && kind < 3 ? kind == 1 ? zt_table_hash_string : zt_table_hash_buff : h_one, kind == 1 ? zt_table_compare_string : kind == 2 ? zt_table_compare_buff : zt_table_compare_string_case, a, y, y);
        free(a); free(b); } }
}
void mc_setup(void) { zt_mem_pool *warm = zt_table_pool_init(2); zt_mem_pool_destroy(&warm); maxn = mc_param("entries", 72, 140); nextra = mc_thorough ? 7 : 4; mc_shard_depth = 4; for (int i = 0; i < MAXN; i++) sprintf(text[i], "%s%d", i % 2 ? "a-rather-long-common-prefix-of-all-the-keys-used-here-so-that-they-differ-late-" : "", i); }
void mc_run(void) { if (mc_choose(2)) sizes(); else pairs(); }
