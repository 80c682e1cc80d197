/* C17: slices of every short string at every pair of positions, against the mathematical slice. */
#include "mc.h"
#include <zt.h>
static int maxlen;
static const unsigned char AB[] = { 'a', 0xe9, ' ', 0xff };
/* the slice [i:j] of s: positions count from the end when negative, are limited to the string, and may be given in either order */
static size_t ref(const char *s, long i, long j, const char **from) {
    long n = strlen(s); if (!n) { *from = s; return 0; }
    if (i < 0) i += n; if (j < 0) j += n;
    if (i < 0) i = 0; if (j < 0) j = 0; if (i >= n) i = n - 1; if (j >= n) j = n - 1;
    if (i > j) { long t = i; i = j; j = t; }
    *from = s + i; return j - i + 1;
}
static char *str(int max, int letters) { int n = mc_choose(max + 1); char b[16]; for (int i = 0; i < n; i++) b[i] = AB[mc_choose(letters)]; b[n] = 0; return mc_dupn(b, n + 1); }
static long idx(size_t n, int over) { return (long)mc_choose(2 * n + 2 * over + 1) - (long)n - over; }
static char key[200];
static const char *sh(const char *s) { static char b[4][64]; static int k; char *o = b[k++ & 3]; int n = 0; for (; *s && n < 50; s++) n += *s > 32 && *s < 127 ? sprintf(o + n, "%c", *s) : sprintf(o + n, "\\x%02x", (unsigned char)*s); o[n] = 0; return o; }
static void eat(char *got, const char *want, const char *what) { MC_CHECK(got && !strcmp(got, want), "%s of %s is %s, must be %s", what, key, got ? sh(got) : "NULL", sh(want)); free(got); mc_step(); }
void mc_setup(void) { maxlen = mc_param("length", 4, 5); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    static char want[4096]; const char *p, *q, *r; size_t n, m, l; long live0 = mc_live_blocks();
    switch (mc_choose(4)) {
    case 0: {
        char *s = str(maxlen, 3), *c = mc_dupn(s, strlen(s) + 1); long i = idx(strlen(s), 2), j = idx(strlen(s), 2); n = ref(s, i, j, &p);
        snprintf(key, sizeof key, "'%s'[%ld:%ld]", sh(s), i, j); MC_LOG("%s", key);
        memcpy(want, p, n); want[n] = 0; eat(zt_cstr_sub(s, i, j), want, "sub");
        for (int k = 0; k < 4; k++) { size_t o = 0; for (int t = 0; t < k; t++) { memcpy(want + o, p, n); o += n; } want[o] = 0; eat(zt_cstr_dup(s, i, j, k), want, "dup"); }
        for (size_t t = 0; t < n; t++) want[t] = p[n - 1 - t]; want[n] = 0; eat(zt_cstr_reverse(s, i, j), want, "reverse");
        MC_CHECK(zt_cstr_len(s, i, j) == n, "length of %s is %zu, must be %zu", key, zt_cstr_len(s, i, j), n);
        ref(s, i, i, &q); MC_CHECK(zt_cstr_pos(s, i) == (size_t)(q - s), "position %ld of '%s' is %zu", i, sh(s), zt_cstr_pos(s, i));
        for (size_t sz = 0; sz <= n + 2; sz++) { char *b = malloc(sz + !sz); memset(b, '!', sz + !sz); l = zt_cstr_copy(s, i, j, b, sz); size_t w = sz < n ? sz : n; MC_CHECK(l == w && !memcmp(b, p, w), "copy of %s into %zu bytes: %zu", key, sz, l); for (size_t t = w; t < sz + !sz; t++) MC_CHECK(b[t] == '!', "copy of %s into %zu bytes wrote more", key, sz); free(b); }
        MC_CHECK(!strcmp(s, c), "%s: input changed", key); free(s); free(c); if (n) mc_nontrivial(); break; }
    case 1: {
        char *s = str(2, 2), *t = str(2, 2); long i = idx(strlen(s), 1), j = idx(strlen(s), 1), k = idx(strlen(t), 1), e = idx(strlen(t), 1); n = ref(s, i, j, &p); m = ref(t, k, e, &q);
        snprintf(key, sizeof key, "'%s'[%ld:%ld] '%s'[%ld:%ld]", sh(s), i, j, sh(t), k, e); MC_LOG("%s", key);
        memcpy(want, p, n); memcpy(want + n, q, m); want[n + m] = 0; eat(zt_cstr_cat(s, i, j, t, k, e), want, "cat"); eat(zt_cstr_catv(s, (int)i, (int)j, t, (int)k, (int)e, NULL), want, "catv");
        free(s); free(t); if (n && m) mc_nontrivial(); break; }
    case 2: {
        static const struct { int i, j; } R[] = { { 0, -1 }, { 1, 1 }, { -2, -3 }, { 5, 0 } };
        int k = mc_choose(5); char *s[4]; int a[4]; size_t o = 0; int ko = snprintf(key, sizeof key, "pieces");
        for (int t = 0; t < k; t++) { s[t] = str(k > 3 ? 1 : 2, 2); a[t] = mc_choose(k > 2 ? 3 : 4); n = ref(s[t], R[a[t]].i, R[a[t]].j, &r); memcpy(want + o, r, n); o += n; ko += snprintf(key + ko, sizeof key - ko, " '%s'[%d:%d]", sh(s[t]), R[a[t]].i, R[a[t]].j); }
        want[o] = 0; MC_LOG("%s", key);
#define P(t) s[t], R[a[t]].i, R[a[t]].j
        char *g = k == 0 ? zt_cstr_catv(NULL) : k == 1 ? zt_cstr_catv(P(0), NULL) : k == 2 ? zt_cstr_catv(P(0), P(1), NULL) : k == 3 ? zt_cstr_catv(P(0), P(1), P(2), NULL) : zt_cstr_catv(P(0), P(1), P(2), P(3), NULL);
        eat(g, want, "catv"); for (int t = 0; t < k; t++) free(s[t]); if (o > 1) mc_nontrivial(); break; }
    case 3: {
        int mode = mc_choose(2); char s[260], from[8], to[8];
        if (mode == 0) { /* every byte value, every single replacement of a neighbourhood */
            int v = 1 + mc_choose(255), w = 1 + mc_choose(255); for (int i = 0; i < 255; i++) s[i] = i + 1; s[255] = 0; from[0] = v; from[1] = 0; to[0] = w; to[1] = 0; n = 255; p = s;
            for (size_t t = 0; t < n; t++) want[t] = s[t] == from[0] ? to[0] : s[t]; want[n] = 0; snprintf(key, sizeof key, "all bytes with %d for %d", w, v); MC_LOG("%s", key); eat(zt_cstr_map(s, 0, -1, from, to), want, "map"); }
        else { /* sets of replacements; the last one given for a character counts */
            char *u = str(3, 3); int k = mc_choose(3); for (int t = 0; t < k; t++) { from[t] = AB[mc_choose(3)]; to[t] = AB[mc_choose(4)]; } from[k] = to[k] = 0; long i = idx(strlen(u), 1), j = idx(strlen(u), 1); n = ref(u, i, j, &p);
            for (size_t t = 0; t < n; t++) { want[t] = p[t]; for (int x = 0; x < k; x++) if (p[t] == from[x]) want[t] = to[x]; } want[n] = 0;
            snprintf(key, sizeof key, "'%s'[%ld:%ld] from '%s' to '%s'", sh(u), i, j, sh(from), sh(to)); MC_LOG("%s", key);
            char *f = mc_dupn(from, k + 1), *o = mc_dupn(to, k + 1); eat(zt_cstr_map(u, i, j, f, o), want, "map"); if (!k) eat(zt_cstr_map(u, i, j, NULL, NULL), want, "map without sets"); free(f); free(o); free(u); }
        MC_CHECK(!zt_cstr_map(NULL, 0, -1, "a", "b"), "map of NULL"); mc_nontrivial(); break; }
    }
    MC_CHECK(mc_live_blocks() == live0, "%s: memory left", key); mc_state(mc_hash(0, key, strlen(key)));
}
