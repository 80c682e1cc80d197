/* C23/C24 (scale): wide and precise fields, long strings, many conversions; every sink with long texts. PART selects the property. */
#include "mc.h"
#include <malloc.h>
#include <limits.h>
#include <math.h>
#include <float.h>
#include <zt.h>
static char key[300]; static char want[2200000], got[2200000];
static const int Z[] = { 20, 42, 43, 44, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000 };
#define NZ (int)(sizeof Z / sizeof *Z)
#if PART == 23
static const int D[] = { 0, -1, 42, INT_MAX, INT_MIN, 1000000000 }; static const unsigned U[] = { 0, 1, 0777, 0x80000000u, UINT_MAX, 0xabcdef }; static const double F[] = { 0.0, -1.5, DBL_MAX, 1e-300, 123456.789, INFINITY };
void mc_setup(void) { mc_param("widths", NZ, NZ); mc_pure = 1; mc_shard_depth = 3; }
static void eq(size_t gl, size_t wl) { MC_CHECK(gl == wl, "%s gives %zu characters, must give %zu", key, gl, wl); for (size_t i = 0; i <= wl; i++) MC_CHECK(got[i] == want[i], "%s differs at %zu: %d, must be %d", key, i, got[i], want[i]); mc_step(); }
void mc_run(void) {
    int mode = mc_choose(4);
    if (mode < 2) { /* one conversion, wide and precise: the width and the precision written out or given */
        int conv = mc_choose(9); char cv = "dcuoxsfeg"[conv]; int fl = mc_choose(16), w = mc_choose(NZ + 1), star = mc_choose(3), p = cv == 'c' ? 0 : mc_choose(4), v = mc_choose(cv == 's' ? 8 : 6), P = 0; if ((cv == 'c' || cv == 's') && (fl & 8)) return; if (w == NZ && star) return; int W = w < NZ ? Z[w] : 0;
        if (mode == 0) { P = p == 0 ? -1 : p == 1 ? 1 : p == 2 ? 20 : 99; } else { if (strchr("feg", cv)) return; if (W > 5000) return; P = p == 0 ? W : p == 1 ? (W * 3 + 1) / 2 : p == 2 ? 255 + v : 4096; }
        char f[60], g[60], *o = f; *o++ = '%'; for (int i = 0; i < 4; i++) if (fl & 1 << i) *o++ = "+ -0"[i]; if (W) o += star ? sprintf(o, "*") : sprintf(o, "%d", W); if (P >= 0 && cv != 'c') o += sprintf(o, ".%d", P); *o++ = cv; *o = 0; strcpy(g, f); int wa = star == 2 ? -W : W; size_t gl; int wl;
        snprintf(key, sizeof key, "format '%s' width %d of value %d", f, wa, v); MC_LOG("%s", key);
#define GO(x) do { if (W && star) { wl = snprintf(want, sizeof want, g, wa, x); gl = zt_fmt_sprintf(got, sizeof got, f, wa, x); } else { wl = snprintf(want, sizeof want, g, x); gl = zt_fmt_sprintf(got, sizeof got, f, x); } } while (0)
        switch (cv) { case 'd': GO(D[v]); break; case 'c': GO("a\xe9%~ 0"[v]); break; case 'u': case 'o': case 'x': GO(U[v]); break; case 's': { static const int SL[] = { 0, 1, 43, 99, 255, 256, 300, 5000 }; char *s = malloc(SL[v] + 1); for (int i = 0; i < SL[v]; i++) s[i] = 1 + (i * 7) % 255; s[SL[v]] = 0; GO(s); free(s); break; } default: GO(F[v]); }
        eq(gl, wl); if (cv == 's' && P >= 0 && !star) { /* exactly the characters asked for, not terminated */ char *u = malloc(P); memset(u, 'u', P); GO(u); free(u); eq(gl, wl); } mc_nontrivial(); mc_state(mc_hash(1, key, strlen(key)));
    } else if (mode == 2) { /* many conversions of changing kind */
        int n = 1 + mc_choose(24), rot = mc_choose(6), lit = mc_choose(4); char f[3000], *o = f, *w = want; static const int LIT[] = { 0, 1, 30, 100 }; long a[25]; double x[25]; char st[25][40]; int no = 0;
        /* each group: %d %s %x %c %-6u| %g */ memset(a, 0, sizeof a); for (int i = 0; i < n; i++) { int k = (i + rot) % 5; for (int t = 0; t < LIT[lit]; t++) *o++ = *w++ = 'A' + (i + t) % 26; switch (k) { case 0: a[no++] = -i * 1000 + 7; w += sprintf(w, "%5d", -i * 1000 + 7); o += sprintf(o, "%%5d"); break; case 1: sprintf(st[i], "<%d>", i); a[no++] = (long)st[i]; w += sprintf(w, "%s", st[i]); o += sprintf(o, "~s"); break; case 2: a[no++] = i * 77777; w += sprintf(w, "%08x", i * 77777); o += sprintf(o, "%%08x"); break; case 3: a[no++] = 'a' + i; *w++ = 'a' + i; o += sprintf(o, "~c"); break; case 4: a[no++] = i; w += sprintf(w, "%-6u|", i); o += sprintf(o, "%%-6u|"); break; } } *o = *w = 0; (void)x;
        snprintf(key, sizeof key, "%d conversions from %d on, literals of %d", n, rot, LIT[lit]); MC_LOG("%s", key);
#define A(i) a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4]
        size_t gl = zt_fmt_sprintf(got, sizeof got, f, A(0), A(5), A(10), A(15), A(20)); eq(gl, w - want); mc_nontrivial(); mc_state(mc_hash(2, want, w - want));
    } else { /* integers and doubles interleaved, long literals */
        int n = mc_choose(9), l = mc_choose(NZ); if (n > 8) return; char *f = malloc(Z[l] + 200), *w = want; memset(f, 'L', Z[l]); strcpy(f + Z[l], ""); memcpy(w, f, Z[l]); w += Z[l]; for (int i = 0; i < n; i++) { strcat(f + Z[l], "%d %.3f;"); w += sprintf(w, "%d %.3f;", i * 3, i / 8.0); } *w = 0; snprintf(key, sizeof key, "%d pairs behind %d characters", n, Z[l]); MC_LOG("%s", key);
#define Q(i) (i) * 3, (i) / 8.0
        size_t gl = zt_fmt_sprintf(got, sizeof got, f, Q(0), Q(1), Q(2), Q(3), Q(4), Q(5), Q(6), Q(7)); eq(gl, w - want); free(f); mc_nontrivial(); mc_state(mc_mix(n, l));
    }
}
#else
struct sink { char *b; size_t n, cap; };
static int put(int c, void *cl) { struct sink *s = cl; if (s->n < s->cap) s->b[s->n] = c; s->n++; return c; }
static const int BIG[] = { 1200, 2040, 4088, 8184, 16376, 32760, 65528, 131064, 262136, 1048568 };   /* each with the next 16 */
void mc_setup(void) { mc_param("growth", 10, 10); mc_shard_depth = 2; }
void mc_run(void) {
    int b = mc_choose(10), k = mc_choose(16), how = mc_choose(4); size_t l = BIG[b] + k, wl = l, r; char *s = malloc(l + 1), *f = malloc(l + 20); const char *fm; int w = 0;
    for (size_t i = 0; i < l; i++) s[i] = 1 + (i * 13 + (i >> 9)) % 255; s[l] = 0;
    if (how == 0) { fm = "%s"; memcpy(want, s, l + 1); }
    else if (how == 1) { fm = "~*d"; s[0] = 0; w = l; sprintf(want, "%*d", w, 77); }
    else if (how == 2) { for (size_t i = 0; i + 2 < l; i++) f[i] = 'a' + (i * 5 + (i >> 8)) % 26; strcpy(f + l - 2, "%%~~"); fm = f; memcpy(want, f, l - 2); strcpy(want + l - 2, "%~"); }
    else { fm = "%s%s%s"; s[l / 3] = 0; memcpy(want, s, l / 3); memcpy(want + l / 3, s, l / 3); memcpy(want + l / 3 * 2, s, l / 3); wl = l / 3 * 3; want[wl] = 0; }
    snprintf(key, sizeof key, "%zu characters, kind %d", wl, how); MC_LOG("%s", key); long live = mc_live_blocks();
#define ARGS (how == 1 ? (long)w : (long)s), (how == 1 ? 77L : (long)s), (long)s
    struct sink q = { got, 0, sizeof got }; r = zt_fmt_format(put, &q, fm, ARGS); MC_CHECK(r == wl && q.n == wl && !memcmp(got, want, wl), "%s to a function: %zu, %zu", key, r, q.n); mc_step();
    char *m = NULL; size_t ml; FILE *st = open_memstream(&m, &ml); r = zt_fmt_fprintf(st, fm, ARGS); fclose(st); MC_CHECK(ml == wl && !memcmp(m, want, wl) && r == wl, "%s to a stream: %zu, returned %zu", key, ml, r); free(m); mc_step();
    char *p = zt_fmt_strprintf(fm, ARGS); MC_CHECK(p && !memcmp(p, want, wl) && p[wl] == 0, "%s allocated is wrong", key); MC_CHECK(malloc_usable_size(p) == wl + 1, "%s allocated %zu bytes", key, malloc_usable_size(p)); free(p); mc_step();
    size_t SZ[] = { wl, wl + 1, wl + 2, wl * 2, wl / 2, 256, 257, 1024 }; for (int i = 0; i < 8; i++) { size_t sz = SZ[i], n = sz - 1 < wl ? sz - 1 : wl; p = malloc(sz); memset(p, '!', sz); r = zt_fmt_sprintf(p, sz, fm, ARGS); MC_CHECK(r == n && !memcmp(p, want, n) && !p[n], "%s in %zu bytes: %zu", key, sz, r); free(p); mc_step(); }
    MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); free(s); free(f); mc_nontrivial(); mc_state(mc_mix(l, how));
}
#endif
