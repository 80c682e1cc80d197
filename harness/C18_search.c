/* C18: every search and comparison on every short string, slice and pattern, against its definition. */
#include "mc.h"
#include <zt.h>
static int maxlen, plen;
static const unsigned char AB[] = { 'a', 'b', 0xe9 };
static long B, E;  /* slice of the reference: [B, E) */
static void ref(const char *s, long i, long j) { long n = strlen(s); if (!n) { B = E = 0; return; }
    if (i < 0) i += n; if (j < 0) j += n; if (i < 0) i = 0; if (j < 0) j = 0; if (i >= n) i = n - 1; if (j >= n) j = n - 1; if (i > j) { long t = i; i = j; j = t; } B = i; E = j + 1; }
static char *str(int min, int max, int letters) { int n = min + mc_choose(max - min + 1); char b[16]; for (int i = 0; i < n; i++) b[i] = AB[mc_choose(letters)]; b[n] = 0; return mc_dupn(b, n + 1); }
static long idx(size_t n, int over) { return (long)mc_choose(2 * n + 2 * over + 1) - (long)n - over; }
static const char *sh(const char *s) { static char b[4][64]; static int k; char *o = b[k++ & 3]; int n = 0; for (; *s && n < 50; s++) n += *s > 32 && *s < 127 ? sprintf(o + n, "%c", *s) : sprintf(o + n, "\\x%02x", (unsigned char)*s); o[n] = 0; return o; }
static char key[200]; static int sgn(long v) { return (v > 0) - (v < 0); }
#define EQ(call, want) do { long g_ = (long)(call), w_ = (want); MC_CHECK(g_ == w_, "%s: %s is %ld, must be %ld", key, #call, g_, w_); mc_step(); } while (0)
static long firstof(const char *s, const char *set) { for (long i = B; i < E; i++) for (const char *p = set; *p; p++) if (s[i] == *p) return i; return -1; }
static long lastof(const char *s, const char *set) { for (long i = E - 1; i >= B; i--) for (const char *p = set; *p; p++) if (s[i] == *p) return i; return -1; }
void mc_setup(void) { maxlen = mc_param("length", 5, 6); plen = mc_param("pattern", 3, 4); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    int mode = mc_choose(4);
    if (mode == 0) { /* find */
        char *s = str(0, maxlen, 2), *t = str(0, plen, 2); long i = idx(strlen(s), 1), j = idx(strlen(s), 1); ref(s, i, j); long f = -1, l = -1, m = strlen(t);
        for (long k = B; m && k + m <= E; k++) if (!memcmp(s + k, t, m)) { if (f < 0) f = k; l = k; }
        snprintf(key, sizeof key, "'%s' in '%s'[%ld:%ld]", sh(t), sh(s), i, j); MC_LOG("%s", key);
        EQ(zt_cstr_find(s, i, j, t), f); EQ(zt_cstr_rfind(s, i, j, t), l); if (f >= 0) mc_nontrivial(); free(s); free(t);
    } else if (mode == 1) { /* character and set searches */
        char *s = str(0, maxlen - 1, 3), *t = str(0, 2, 3); long i = idx(strlen(s), 1), j = idx(strlen(s), 1); ref(s, i, j); long f = firstof(s, t), l = lastof(s, t);
        snprintf(key, sizeof key, "any of '%s' in '%s'[%ld:%ld]", sh(t), sh(s), i, j); MC_LOG("%s", key);
        EQ(zt_cstr_upto(s, i, j, t), f); EQ(zt_cstr_rupto(s, i, j, t), l); EQ(zt_cstr_any(s, i, j, t), f); EQ(zt_cstr_rany(s, i, j, t), l);
        if (strlen(t) == 1) { EQ(zt_cstr_chr(s, i, j, *t), f < 0 ? 0 : f); EQ(zt_cstr_rchr(s, i, j, *t), l < 0 ? 0 : l); EQ(zt_cstr_chr(s, i, j, (unsigned char)*t), f < 0 ? 0 : f); EQ(zt_cstr_rchr(s, i, j, (unsigned char)*t), l < 0 ? 0 : l); }
        if (f >= 0) mc_nontrivial(); free(s); free(t);
    } else if (mode == 2) { /* compare whole strings and slices */
        char *s = str(0, 3, 3), *t = str(0, 3, 3); long i = idx(strlen(s), 0), j = mc_choose(2) ? -1 : (long)mc_choose(2), k = mc_choose(3), e = mc_choose(2) ? -1 : (long)mc_choose(2);
        ref(s, i, j); long b = B, n = E - B; ref(t, k, e); long m = E - B, c = n < m ? n : m; int w = 0;
        for (long x = 0; x < c && !w; x++) w = sgn((int)(unsigned char)s[b + x] - (int)(unsigned char)t[B + x]);
        if (!w) w = sgn(n - m);
        snprintf(key, sizeof key, "'%s'[%ld:%ld] with '%s'[%ld:%ld]", sh(s), i, j, sh(t), k, e); MC_LOG("%s", key);
        EQ(sgn(zt_cstr_cmp(s, i, j, t, k, e)), w); if (c) mc_nontrivial(); free(s); free(t);
    } else { /* every byte value */
        int v = 1 + mc_choose(255), w = 1 + mc_choose(255); char s[4] = { v, w, v, 0 }, t[2] = { v, 0 }, u[2] = { w, 0 }; snprintf(key, sizeof key, "bytes %d %d", v, w); MC_LOG("%s", key);
        EQ(zt_cstr_find(s, 0, -1, u), v == w ? 0 : 1); EQ(zt_cstr_rfind(s, 0, -1, t), 2); EQ(zt_cstr_chr(s, 1, -1, v), v == w ? 1 : 2); EQ(zt_cstr_rchr(s, 0, 1, v), v == w); EQ(zt_cstr_upto(s, 1, 2, t), v == w ? 1 : 2); EQ(zt_cstr_any(s, 1, 2, t), v == w ? 1 : 2); EQ(zt_cstr_rany(s, 0, 1, t), v == w); EQ(zt_cstr_rupto(s, 0, 1, t), v == w);
        EQ(sgn(zt_cstr_cmp(t, 0, -1, u, 0, -1)), sgn(v - w)); mc_nontrivial();
    }
    mc_state(mc_hash(mode, key, strlen(key)));
}
