/* C17..C22 (scale): the string functions on long strings, long patterns, long sets and many pieces, against their definitions. PART selects the property. */
#include "mc.h"
#include <errno.h>
#include <limits.h>
#include <zt.h>
static int dense;
static const size_t BIG[] = { 61, 124, 253, 509, 1021, 2045, 4093, 8189, 16381, 32765, 65533 };   /* each with the next 6 lengths */
#define NBIG (int)(sizeof BIG / sizeof *BIG)
static size_t len(int maxbig) { int k = mc_choose(dense + maxbig * 6); return k < dense ? (size_t)k : BIG[(k - dense) / 6] + (k - dense) % 6; }
static void fill(char *s, size_t n, int pat) { for (size_t i = 0; i < n; i++) s[i] = pat == 0 ? 'a' + (i * 7 + (i >> 5) + (i >> 8) * 3) % 26 : pat == 1 ? 'a' : pat == 2 ? (char)(1 + (i * 31 + (i >> 7)) % 255) : "ab"[i % 2]; s[n] = 0; }
static char key[300];
static char *mk(size_t n, int pat) { char *s = malloc(n + 1); fill(s, n, pat); return s; }
static long B, E;
static void slice(const char *s, long i, long j) { long n = strlen(s); if (!n) { B = E = 0; return; } if (i < 0) i += n; if (j < 0) j += n; if (i < 0) i = 0; if (j < 0) j = 0; if (i >= n) i = n - 1; if (j >= n) j = n - 1; if (i > j) { long t = i; i = j; j = t; } B = i; E = j + 1; }
static long pos(size_t n, int k) { long P[] = { 0, -1, 1, (long)n / 2, -(long)n / 3, (long)n - 1, (long)n, (long)n + 1000, -(long)n, -(long)n - 1, 127, 128, 255, 256, -256, 32768, 65535, 65536, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN }; return P[k]; }
#define NPOS 22
static int sgn(long v) { return (v > 0) - (v < 0); }
#define EQ(call, want) do { long g_ = (long)(call), w_ = (long)(want); MC_CHECK(g_ == w_, "%s: %s is %ld, must be %ld", key, #call, g_, w_); mc_step(); } while (0)
static void eat(char *got, const char *want, size_t n, const char *what) { MC_CHECK(got, "%s: %s gives nothing", key, what); MC_CHECK(strlen(got) == n, "%s: %s has %zu characters, must have %zu", key, what, strlen(got), n); for (size_t i = 0; i < n; i++) MC_CHECK(got[i] == want[i], "%s: %s differs at %zu", key, what, i); free(got); mc_step(); }
void mc_setup(void) { dense = mc_param("dense lengths", 60, 300); mc_pure = 1; mc_shard_depth = 2; }
#if PART == 17
void mc_run(void) {
    int mode = mc_choose(4); long live = mc_live_blocks();
    if (mode == 0) { size_t n = len(NBIG); int pat = mc_choose(2) * 2, a = mc_choose(NPOS), b = mc_choose(NPOS); char *s = mk(n, pat), *c = mk(n, pat); long i = pos(n, a), j = pos(n, b); slice(s, i, j); size_t m = E - B; snprintf(key, sizeof key, "string of %zu (%d), [%ld:%ld]", n, pat, i, j); MC_LOG("%s", key);
        eat(zt_cstr_sub(s, i, j), s + B, m, "sub"); char *w = malloc(m * 3 + 1); for (size_t t = 0; t < m; t++) w[t] = s[E - 1 - t]; eat(zt_cstr_reverse(s, i, j), w, m, "reverse"); for (int t = 0; t < 3; t++) memcpy(w + t * m, s + B, m); eat(zt_cstr_dup(s, i, j, 3), w, 3 * m, "dup 3"); EQ(zt_cstr_len(s, i, j), m); slice(s, i, i); EQ(zt_cstr_pos(s, i), B); slice(s, i, j);
        for (size_t t = 0; t < m; t++) w[t] = s[B + t] == 'q' ? '*' : s[B + t] == 'b' ? 'c' : s[B + t] == 'c' ? 'b' : s[B + t]; eat(zt_cstr_map(s, i, j, "qbc", "*cb"), w, m, "map"); memset(w, '!', m + 1); EQ(zt_cstr_copy(s, i, j, w, m), m); MC_CHECK(!memcmp(w, s + B, m) && w[m] == '!', "%s: copy", key); if (m) { memset(w, '!', m); EQ(zt_cstr_copy(s, i, j, w, m - 1), m - 1); MC_CHECK(!memcmp(w, s + B, m - 1) && w[m - 1] == '!', "%s: short copy", key); }
        MC_CHECK(!strcmp(s, c), "%s: input changed", key); free(s); free(c); free(w); if (m > 1) mc_nontrivial(); mc_state(mc_mix(mc_mix(n, i), j));
    } else if (mode == 1) { /* many copies */ static const int N[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4096, 65536 }; int k = N[mc_choose(25)]; size_t n = mc_choose(12); char *s = mk(n, 0); long i = mc_choose(3), j = -1 - mc_choose(2); slice(s, i, j); size_t m = E - B; snprintf(key, sizeof key, "%d times a string of %zu[%ld:%ld]", k, n, i, j); MC_LOG("%s", key); char *w = malloc(m * k + 1); for (int t = 0; t < k; t++) memcpy(w + t * m, s + B, m); eat(zt_cstr_dup(s, i, j, k), w, m * k, "dup"); free(w); free(s); mc_nontrivial(); mc_state(mc_mix(k, n * 10 + i));
    } else if (mode == 2) { /* many pieces and long pieces */ int k = mc_choose(13), z = mc_choose(9), r = mc_choose(4); static const size_t Z[] = { 0, 1, 5, 20, 63, 100, 256, 1500, 30000 }; static const int R[4][2] = { { 0, -1 }, { 1, -2 }, { 3, 3 }, { -1, 0 } }; char *s[12] = { 0 }, *w = malloc(12 * 30020 + 1); int a[12] = { 0 }, b[12] = { 0 }; size_t o = 0; snprintf(key, sizeof key, "%d pieces of about %zu, [%d:%d]", k, Z[z], R[r][0], R[r][1]); MC_LOG("%s", key);
        for (int t = 0; t < k; t++) { s[t] = mk(Z[z] + (t * 5) % 12, t % 2 * 2); a[t] = R[(r + t) % 4][0]; b[t] = R[(r + t) % 4][1]; slice(s[t], a[t], b[t]); memcpy(w + o, s[t] + B, E - B); o += E - B; }
#define P(t) s[t], a[t], b[t]
        eat(zt_cstr_catv(P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), NULL), w, o, "catv"); if (k >= 2) { slice(s[0], a[0], b[0]); size_t x = E - B; memcpy(w, s[0] + B, x); slice(s[1], a[1], b[1]); memcpy(w + x, s[1] + B, E - B); eat(zt_cstr_cat(P(0), P(1)), w, x + E - B, "cat"); }
        for (int t = 0; t < k; t++) free(s[t]); free(w); mc_nontrivial(); mc_state(mc_mix(k * 10 + z, r));
    } else { /* long replacement lists */ int k = mc_choose(256), rot = 1 + mc_choose(40), dup = mc_choose(2); char from[600], to[600], s[256], w[256]; int o = 0; for (int v = 1; v < 256; v++) s[v - 1] = w[v - 1] = v; s[255] = w[255] = 0; for (int d = 0; d <= dup; d++) for (int v = 1; v <= k; v++) { from[o] = v; to[o++] = 1 + (v + rot * (d + 1)) % 255; } from[o] = to[o] = 0; for (int v = 1; v <= k; v++) w[v - 1] = 1 + (v + rot * (dup + 1)) % 255; snprintf(key, sizeof key, "map of %d characters by %d, %d times", k, rot, dup + 1); MC_LOG("%s", key); eat(zt_cstr_map(s, 0, -1, from, to), w, 255, "map"); mc_nontrivial(); mc_state(mc_mix(k, rot * 2 + dup)); }
    MC_CHECK(mc_live_blocks() == live, "%s: memory left", key);
}
#elif PART == 18
void mc_run(void) {
    int mode = mc_choose(3); size_t n = len(NBIG - 2);
    if (mode == 0) { /* a pattern taken from the string, with near misses around it */
        int pat = mc_choose(4), mk_ = mc_choose(16), how = mc_choose(9), sl = mc_choose(8); static const size_t M[] = { 1, 2, 3, 5, 8, 16, 17, 32, 64, 65, 128, 255, 256, 257, 300, 1025 }; size_t m = M[mk_]; char *s = mk(n, pat), *t = malloc(m + 1); size_t at = n > m ? (how % 3 == 0 ? n - m : how % 3 == 1 ? 0 : (n - m) / 2) : 0;
        for (size_t i = 0; i < m; i++) t[i] = at + i < n ? s[at + i] : 'z'; t[m] = 0; if (how >= 6) t[how == 6 ? m - 1 : how == 7 ? 0 : m / 2] ^= 3; if (!strlen(t) || strlen(t) != m) t[m - 1] = 'x'; m = strlen(t);
        long i = pos(n, sl < 4 ? 0 : sl), j = pos(n, sl < 4 ? 1 + sl : 1 + sl % 3); slice(s, i, j); long f = -1, l = -1; for (long k = B; k + (long)m <= E; k++) if (s[k] == *t && !memcmp(s + k, t, m)) { if (f < 0) f = k; l = k; }
        snprintf(key, sizeof key, "pattern of %zu (kind %d) in string of %zu (%d)[%ld:%ld]", m, how, n, pat, i, j); MC_LOG("%s", key); EQ(zt_cstr_find(s, i, j, t), f); EQ(zt_cstr_rfind(s, i, j, t), l); if (f >= 0) mc_nontrivial(); free(s); free(t);
    } else if (mode == 1) { /* one or two marked characters in a long string; long sets */
        int w = mc_choose(5), sl = mc_choose(10), sn = mc_choose(6); char *s = mk(n, 1); static const int SN[] = { 1, 2, 10, 64, 128, 250 }; char set[256]; int o = 0; for (int v = 255; v > 0 && o < SN[sn] - 1; v--) if (v != 'a') set[o++] = v; set[o++] = 'Z'; set[o] = 0; if (n) { if (w < 4) s[w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n / 2 : n / 3] = 'Z'; if (w == 3) s[n - 1 - n / 5] = (char)(SN[sn] > 1 ? 255 : 'Z'); }
        long i = pos(n, sl), j = pos(n, (sl * 3 + 1) % NPOS); slice(s, i, j); long f = -1, l = -1, cf = 0, cl = 0, hit = 0; for (long k = B; k < E; k++) if (s[k] != 'a') { if (f < 0) f = k; l = k; if (s[k] == 'Z') { if (!hit) cf = k; hit = 1; cl = k; } }
        snprintf(key, sizeof key, "set of %d in string of %zu, marks %d, [%ld:%ld]", SN[sn], n, w, i, j); MC_LOG("%s", key); EQ(zt_cstr_upto(s, i, j, set), f); EQ(zt_cstr_any(s, i, j, set), f); EQ(zt_cstr_rupto(s, i, j, set), l); EQ(zt_cstr_rany(s, i, j, set), l); EQ(zt_cstr_chr(s, i, j, 'Z'), cf); EQ(zt_cstr_rchr(s, i, j, 'Z'), cl); if (f >= 0) mc_nontrivial(); free(s);
    } else { /* compare strings that differ late, or not at all */
        int d = mc_choose(7), v = mc_choose(4), more = mc_choose(4); size_t n2 = n + (more == 1) + (more == 2) * 256 + (more == 3) * 300; char *s = mk(n, 2), *t = mk(n2, 2); size_t at = d == 0 ? 0 : d == 1 ? n / 2 : d == 2 ? n - 1 : d == 3 ? n / 4 : d == 4 ? 255 : d == 5 ? 1024 : n; if (n && at < n) { unsigned char x = v == 0 ? s[at] + 1 : v == 1 ? 0x80 : v == 2 ? 0x7f : 0xff; if (!x) x = 1; t[at] = x; }
        size_t k = 0; while (k < n && s[k] == t[k]) k++; int w = k < n ? sgn((int)(unsigned char)s[k] - (int)(unsigned char)t[k]) : sgn((long)n - (long)n2); snprintf(key, sizeof key, "strings of %zu and %zu, difference at %zu (%d)", n, n2, at, v); MC_LOG("%s", key);
        if (n2) { EQ(sgn(zt_cstr_cmp(s, 0, -1, t, 0, -1)), w); EQ(sgn(zt_cstr_cmp(t, 0, -1, s, 0, -1)), -w); EQ(zt_cstr_cmp(t, 0, -1, t, 0, -1), 0); } if (n > 1) { slice(s, 1, -2); long b = B, m = E - B; slice(t, 1, -2); long m2 = E - B, c = m < m2 ? m : m2, x = 0; while (x < c && s[b + x] == t[B + x]) x++; w = x < c ? sgn((int)(unsigned char)s[b + x] - (int)(unsigned char)t[B + x]) : sgn(m - m2); EQ(sgn(zt_cstr_cmp(s, 1, -2, t, 1, -2)), w); mc_nontrivial(); } free(s); free(t);
    }
    mc_state(mc_hash(mode, key, strlen(key)));
}
#elif PART == 19
static int in(char c, const char *set) { for (; *set; set++) if (c == *set) return 1; return 0; }
void mc_run(void) {
    size_t core = len(NBIG - 4); int pre = mc_choose(8), post = mc_choose(8), nl = mc_choose(5), pat = mc_choose(2); static const int RUN[] = { 0, 1, 2, 15, 64, 255, 256, 1100 }; size_t n = RUN[pre] + core + RUN[post]; char *b = malloc(n + 3); for (int i = 0; i < RUN[pre]; i++) b[i] = " \t"[(i / 3) % 2]; fill(b + RUN[pre], core, 0); if (pat && core > 4) { b[RUN[pre] + core / 2] = ' '; b[RUN[pre] + core / 3] = '\n'; b[RUN[pre] + core - 2] = '\t'; } for (int i = 0; i < RUN[post]; i++) b[RUN[pre] + core + i] = "\t "[(i / 2) % 2]; b[n] = 0;
    if (nl && RUN[post]) { char *p = b + RUN[pre] + core; if (nl == 1) p[RUN[post] - 1] = '\n'; if (nl == 2) *p = '\n'; if (nl == 3) p[RUN[post] / 2] = '\n'; if (nl == 4) memset(p, '\n', RUN[post]); }
    snprintf(key, sizeof key, "%d blanks, text of %zu (%d), %d blanks with newline %d", RUN[pre], core, pat, RUN[post], nl); MC_LOG("%s", key); static const char *S[] = { " \t\n", "\n", "abcdefghijklmnopqrstuvwxyz", " ", "xyz \t\n\r" };
    char *s = mc_dupn(b, n + 1);
    for (int k = 0; k < 5; k++) { size_t a = 0, last = n; while (a < n && in(b[n - 1 - a], S[k])) a++; for (size_t i = n; i-- > 0;) if (in(b[i], S[k])) { last = i; break; } if (a < 300 || k == 0) EQ(zt_cstr_rspn(s, S[k]), a); if (n - last < 2000 || k == 1) EQ(zt_cstr_rcspn(s, S[k]), last); }
    char *w = malloc(n + 2); strcpy(w, b); if (n && w[n - 1] == '\n') w[n - 1] = 0; MC_CHECK(zt_cstr_chomp(s) == s && !strcmp(s, w), "%s: chomp leaves %zu characters", key, strlen(s)); free(s); s = mc_dupn(b, n + 1); size_t f = 0, e = n; int k = 0; while (in(b[f], " \t")) f++; while (e > f && in(b[e - 1], " \t\n")) { if (b[e - 1] == '\n') k = 1; e--; } memcpy(w, b + f, e - f); if (k) w[e - f] = '\n'; w[e - f + k] = 0;
    MC_CHECK(zt_cstr_strip(s) == s && !strcmp(s, w), "%s: strip leaves %zu characters, must leave %zu", key, strlen(s), strlen(w)); free(s); free(b); free(w); if (n > 1) mc_nontrivial(); mc_state(mc_hash(0, key, strlen(key)));
}
#elif PART == 20
static char **want; static int nw, cap; static void add(const char *p, size_t n) { if (nw == cap) want = realloc(want, (cap = cap * 2 + 64) * sizeof *want); char *c = malloc(n + 1); memcpy(c, p, n); c[n] = 0; want[nw++] = c; }
static void eat2(zt_ptr_array *a, int how) { MC_CHECK(a, "%s: nothing", key); for (int i = 0; i < nw; i++) { char *g = zt_ptr_array_get_idx(a, i); MC_CHECK(g && !strcmp(g, want[i]), "%s: piece %d of %d is '%.30s', must be '%.30s'", key, i, nw, g ? g : "(none)", want[i]); } MC_CHECK(!zt_ptr_array_get_idx(a, nw), "%s: more than %d pieces", key, nw); EQ(how ? zt_cstr_cut_free(a) : zt_cstr_split_free(a), 0); for (int i = 0; i < nw; i++) free(want[i]); nw = 0; free(want); want = NULL; cap = 0; }
void mc_run(void) {
    int how = mc_choose(3), pieces = mc_choose(how ? 90 : 150), pl = mc_choose(how ? 4 : 8), edge = mc_choose(4), sets = mc_choose(how ? 2 : 4), gap = mc_choose(3); if (pieces > 80) pieces = (pieces - 80) * (how ? 20 : 61); static const int PL[] = { 1, 3, 9, 40, 0, 255, 256, 2000 }; static const int GAP[] = { 1, 2, 9 }; if (pieces * PL[pl] > 300000) pl = 0;
    static const char *SETS[] = { "/", "/", " \t\n/,;:|!?=+", "/,;:" }; char sep[260]; if (sets == 3) { int o = 0; for (int v = 255; v > 127; v--) sep[o++] = v; sep[o++] = '/'; sep[o] = 0; } else strcpy(sep, SETS[sets]); int sn = strlen(sep);
    char *b = malloc((size_t)pieces * (PL[pl] + 22 + GAP[gap]) + 64); size_t n = 0; if (edge & 1) for (int i = 0; i < GAP[gap]; i++) b[n++] = sep[i % sn]; for (int p = 0; p < pieces; p++) { if (p) for (int i = 0; i < GAP[gap]; i++) b[n++] = sep[(p * 3 + i) % sn]; for (int i = 0; i < PL[pl] + p % 3; i++) b[n++] = 'a' + (p + i * 5) % 26; } if (edge & 2) for (int i = 0; i < GAP[gap]; i++) b[n++] = sep[(i + 1) % sn]; b[n] = 0;
    char *s = mc_dupn(b, n + 1); long live = mc_live_blocks(); nw = 0; snprintf(key, sizeof key, "%s %d pieces of %d with %d separators of %d kinds, edges %d", how == 0 ? "split" : how == 1 ? "cut" : "tok", pieces, PL[pl], GAP[gap], sn, edge); MC_LOG("%s", key);
    if (how == 0) { for (size_t i = 0; i < n;) { if (strchr(sep, b[i])) { i++; continue; } size_t e = i; while (e < n && !strchr(sep, b[e])) e++; add(b + i, e - i); i = e; } eat2(zt_cstr_split(s, sep), 0); }
    else if (how == 1) { for (size_t i = 0; i + 1 < n; i++) if (b[i] == '/') add(b + i + !sets, n - i - !sets); eat2(zt_cstr_cut(s, '/', sets), 1); }
    else { size_t m = n && b[n - 1] == '/' ? n - 1 : n; add(b, m); for (size_t p = m; p-- > 1;) if (b[p] == '/') add(b, p); eat2(zt_cstr_tok(s, '/', sets), 1); }
    MC_CHECK(!strcmp(s, b), "%s: input changed", key); free(b); MC_CHECK(mc_live_blocks() - live == -1, "%s: memory left", key); free(s); if (pieces > 1) mc_nontrivial(); mc_state(mc_hash(how, key, strlen(key)));
}
#elif PART == 21
void mc_run(void) {
    int mode = mc_choose(2);
    if (mode == 0) { size_t n = len(NBIG); int room = mc_choose(5), up = mc_choose(2), bad = mc_choose(6); unsigned char *d = malloc(n + !n); for (size_t i = 0; i < n; i++) d[i] = i * 29 + (i >> 8) * 3; char *w = malloc(2 * n + 1); for (size_t i = 0; i < n; i++) sprintf(w + 2 * i, "%02x", d[i]); w[2 * n] = 0; size_t hl = room == 0 ? 2 * n : room == 1 ? 2 * n + 1 : room == 2 ? n : room == 3 ? (n ? 2 * n - 1 : 0) : n / 2 + 7; char *h = malloc(hl + !hl); memset(h, '!', hl + !hl); size_t x = hl / 2 < n ? hl / 2 : n; snprintf(key, sizeof key, "%zu bytes with %zu of hex, case %d, bad %d", n, hl, up, bad); MC_LOG("%s", key);
        EQ(zt_binary_to_hex(d, n, h, hl), 2 * x); MC_CHECK(!memcmp(h, w, 2 * x), "%s: hex differs", key); for (size_t i = 2 * x; i < hl; i++) MC_CHECK(h[i] == '!', "%s: hex wrote at %zu", key, i); free(h);
        if (up) for (size_t i = 0; i < 2 * n; i++) if (w[i] >= 'a') w[i] -= 32; size_t at = bad == 1 ? 0 : bad == 2 ? 2 * n - 1 : bad == 3 ? n : bad == 4 ? n / 3 : 0; if (bad && bad < 5 && n) w[at] = "gG:/"[bad - 1]; size_t tl = bad == 5 && n ? 2 * n - 1 : 2 * n; int isbad = bad && n; char *t = mc_dupn(w, tl); unsigned char *o = malloc(n + 1); memset(o, '!', n + 1); errno = 0; size_t r = zt_hex_to_binary(t, tl, o, n + 1); MC_CHECK(r == (isbad ? 0 : n), "%s: binary of %zu bytes", key, r); if (isbad) EQ(errno, EINVAL); else MC_CHECK(!memcmp(o, d, n) && o[n] == '!', "%s: binary differs", key); errno = 0; EQ(zt_hex_to_binary(t, tl, NULL, 0), isbad ? 0 : n); if (!isbad && n) { memset(o, '!', n); EQ(zt_hex_to_binary(t, tl, o, n - 1), n - 1); MC_CHECK(!memcmp(o, d, n - 1) && o[n - 1] == '!', "%s: short binary", key); }
        free(t); free(o); free(w); free(d); if (n > 1) mc_nontrivial(); mc_state(mc_hash(0, key, strlen(key)));
    } else { /* numbers at large offsets */ static const int V[] = { 0, 7, -7, 42, -999, 1000, INT_MAX, INT_MIN, 123456789, -1000000000 }; int v = V[mc_choose(10)]; size_t off = len(NBIG); int slack = mc_choose(4); char t[20]; int d = sprintf(t, "%d", v); size_t sz = off + d + slack; char *b = malloc(sz); memset(b, '!', sz); snprintf(key, sizeof key, "%d at %zu in %zu", v, off, sz); MC_LOG("%s", key); EQ(zt_cstr_itoa(b, v, off, sz), slack ? (long)(off + d) : -1); for (size_t i = 0; i < sz; i++) { char w = slack && i >= off && i <= off + d ? t[i - off] : '!'; MC_CHECK(b[i] == w, "%s: byte %zu is %d", key, i, b[i]); } free(b); mc_nontrivial(); mc_state(mc_mix(v, off * 4 + slack)); }
}
#elif PART == 22
static void refbase(const char *p, char *o) { size_t n = strlen(p); if (!n) { *o = 0; return; } while (n > 1 && p[n - 1] == '/') n--; if (n == 1 && *p == '/') { strcpy(o, "/"); return; } size_t s = n; while (s > 0 && p[s - 1] != '/') s--; memcpy(o, p + s, n - s); o[n - s] = 0; }
static void refdir(const char *p, char *o) { size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') n--; while (n > 0 && p[n - 1] != '/') n--; if (!n) { strcpy(o, "."); return; } while (n > 1 && p[n - 1] == '/') n--; memcpy(o, p, n); o[n] = 0; }
static void cut(const char *want, size_t sz, const char *got, const char *what) { size_t w = strlen(want); if (w >= sz) w = sz - 1; MC_CHECK(memchr(got, 0, sz), "%s: %s in %zu not terminated", key, what, sz); MC_CHECK(strlen(got) == w && !memcmp(got, want, w), "%s: %s in %zu has %zu characters, must have %zu", key, what, sz, strlen(got), w); mc_step(); }
void mc_run(void) {
    static const int C[] = { 0, 1, 2, 5, 14, 63, 255, 256, 1023, 4095, 4096, 9000 }; int c = C[mc_choose(12)], deep = mc_choose(10), base = C[mc_choose(12)], tail = mc_choose(4), abs_ = mc_choose(2); static const int DP[] = { 0, 1, 2, 3, 10, 60, 128, 300, 2000, 4100 }; static const int TL[] = { 0, 1, 2, 300 }; if ((long)DP[deep] * (c + 1) > 40000) return;
    char *p = malloc(DP[deep] * (c + 2) + base + 400), *w = malloc(DP[deep] * (c + 2) + base + 400), *x = malloc(DP[deep] * (c + 2) + base + 800); size_t n = 0; if (abs_) p[n++] = '/'; for (int i = 0; i < DP[deep]; i++) { for (int k = 0; k < c; k++) p[n++] = k % 7 == 6 ? '.' : 'a' + (i + k) % 26; p[n++] = '/'; } for (int k = 0; k < base; k++) p[n++] = 'A' + k % 26; if (base > 4) memcpy(p + n - 4, ".txt", 4); for (int k = 0; k < TL[tail]; k++) p[n++] = '/'; p[n] = 0; char *s = mc_dupn(p, n + 1); snprintf(key, sizeof key, "path of %d directories of %d, name of %d, %d slashes behind, %s", DP[deep], c, base, TL[tail], abs_ ? "absolute" : "relative"); MC_LOG("%s", key);
    size_t SZ[] = { n + 1, n + 2, n ? n : 1, 1, 2, n / 2 + 1, n + 500, 4096, 4097, 255, 256 };
    for (int k = 0; k < 11; k++) { size_t sz = SZ[k]; char *o = malloc(sz); memset(o, '!', sz); refdir(p, w); MC_CHECK(zt_cstr_dirname(o, sz, s) == o, "%s: result", key); cut(w, sz, o, "dirname"); memset(o, '!', sz); refbase(p, w); if (*p) { zt_cstr_basename(o, sz, s, NULL); cut(w, sz, o, "basename"); } memset(o, '!', sz); zt_cstr_basename(o, sz, s, ".txt"); strcpy(x, w); if (strlen(x) > 4 && !strcmp(x + strlen(x) - 4, ".txt")) x[strlen(x) - 4] = 0; if (*p) cut(x, sz, o, "basename without .txt"); free(o);
        /* a long suffix: the whole name but its first character */ if (strlen(w) > 1 && *w != '/') { char *sf = mc_dupn(w + 1, strlen(w)); o = malloc(sz); zt_cstr_basename(o, sz, s, sf); strcpy(x, w); x[1] = 0; cut(x, sz, o, "basename without a long suffix"); free(sf); sf = mc_dupn(w, strlen(w) + 1); zt_cstr_basename(o, sz, s, sf); cut(w, sz, o, "basename without itself"); *sf ^= 1; free(sf); free(o); } }
    long live = mc_live_blocks(); size_t e = n, q; while (e && p[e - 1] == '/') e--; for (q = 0; p[q] == '/'; q++) ; memcpy(x, p, e); x[e] = '/'; strcpy(x + e + 1, "x//y"); char *g = zt_cstr_path_append(s, "//x//y"); MC_CHECK(g && !strcmp(g, x), "%s: appended to", key); free(g); sprintf(x, "q/r/%s", p + q); g = zt_cstr_path_append("q/r//", s); MC_CHECK(g && !strcmp(g, x), "%s: appended", key); free(g); MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); EQ(zt_cstr_abspath(s), p[0] == '/' || (p[0] == '.' && p[1] == '/')); MC_CHECK(!strcmp(s, p), "%s: changed", key);
    free(s); free(p); free(w); free(x); if (n > 2) mc_nontrivial(); mc_state(mc_hash(22, key, strlen(key)));
}
#endif
