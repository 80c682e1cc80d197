/* C23: every format specification from the supported flags, widths, precisions and conversions on boundary values, against C printf. */
#include "mc.h"
#include <float.h>
#include <limits.h>
#include <math.h>
#include <zt.h>
static char key[300];
static void eq(const char *got, size_t gl, const char *want, size_t wl) { MC_CHECK(gl == wl && !memcmp(got, want, wl) && got[gl] == 0, "%s is '%s' (%zu), must be '%s' (%zu)", key, got, gl, want, wl); mc_step(); }
static const char *W[] = { "", "1", "2", "5", "12", "*", "*", "*" }; static const int WA[] = { 0, 0, 0, 0, 0, 7, -7, 0 };
static const char *P[] = { "", ".", ".0", ".1", ".2", ".5", ".12", ".*", ".*", ".*", ".99" }; static const int PA[] = { 0, 0, 0, 0, 0, 0, 0, 3, -3, 0, 0 };
static const int D[] = { 0, 1, -1, 9, -10, 42, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 100000 }, C[] = { 'a', ' ', 0xe9, 0, '%' };
static const unsigned U[] = { 0, 1, 7, 8, 9, 255, 0x80000000u, UINT_MAX };
static const double F[] = { 0.0, -0.0, 1.0, -1.5, 0.1, 0.5, 2.5, 9.999999999, 123456.789, 1e15, 1e-5, 1.23e-200, 1e100, DBL_MAX, -DBL_MAX, DBL_MIN, INFINITY, -INFINITY, NAN, 99999.95, 1e6, 0.00001234 };
static const char *S[] = { "", "a", "hello", "hello world!!", "\xe9\xff%d~" };
static const char *TOK[] = { "a", "%%", "%~", "~%", "~~", "%d", "~x", "~s", "\xe9", "\n" };
static int ntok;
void mc_setup(void) { ntok = mc_param("tokens", 5, 6); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    char f[80], g[80], want[2048], got[2048]; size_t gl; int wl;
    if (mc_choose(2)) { /* literals, escapes and conversions in sequence */
        int n = mc_choose(ntok + 1), a[8], na = 0; char fm[80] = "", *w = want; f[0] = 0;
        struct { int i; const char *s; } A[8]; memset(A, 0, sizeof A); const char *ss[8] = { 0 }; int is[8] = { 0 };
        for (int i = 0; i < n; i++) { a[i] = mc_choose(10); strcat(fm, TOK[a[i]]); switch (a[i]) { case 5: w += sprintf(w, "%d", -7 + i); na++; break; case 6: w += sprintf(w, "%x", 100 + i); na++; break; case 7: w += sprintf(w, "str%d", i); na++; break; case 1: case 3: *w++ = '%'; break; case 2: case 4: *w++ = '~'; break; default: *w++ = TOK[a[i]][0]; } } *w = 0;
        if (n) strcpy(f, fm); snprintf(key, sizeof key, "format '%s'", f); MC_LOG("%s", key);
        char str[8][8]; long arg[8] = { 0 }; int k = 0; for (int i = 0; i < n; i++) { sprintf(str[i], "str%d", i); if (a[i] == 5) arg[k++] = -7 + i; else if (a[i] == 6) arg[k++] = 100 + i; else if (a[i] == 7) arg[k++] = (long)str[i]; }
        (void)A; (void)ss; (void)is; char *e = mc_dupn(f, strlen(f) + 1);
        gl = zt_fmt_sprintf(got, sizeof got, e, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6], arg[7]); eq(got, gl, want, w - want); free(e); if (na) mc_nontrivial(); mc_state(mc_hash(0, want, w - want)); return;
    }
    int fl = mc_choose(16), w = mc_choose(8), p = mc_choose(11), conv = mc_choose(10), dup = mc_choose(3); const char cv = "dcuoxsfegp"[conv]; char *o = f;
    if ((cv == 'c' || cv == 's') && (fl & 8)) return;          /* printf leaves these undefined */
    if (cv == 'c' && p) return; if (cv == 'p' && (fl & 3 || p)) return;
    *o++ = dup == 1 ? '~' : '%'; for (int i = 0; i < 4; i++) { int b = dup == 2 ? 3 - i : i; if (fl & 1 << b) { *o++ = "+ -0"[b]; if (dup == 2) *o++ = "+ -0"[b]; } } o += sprintf(o, "%s%s", W[w], P[p]); *o++ = cv; *o = 0; sprintf(g, "%%%s", f + 1);
#define GO(label, v, pv) do { snprintf(key, sizeof key, "format '%s' width %d precision %d of " label, f, WA[w], PA[p], pv); MC_LOG("%s", key); \
    if (W[w][0] == '*' && P[p][0] && P[p][1] == '*') { wl = snprintf(want, sizeof want, g, WA[w], PA[p], v); gl = zt_fmt_sprintf(got, sizeof got, f, WA[w], PA[p], v); } \
    else if (W[w][0] == '*') { wl = snprintf(want, sizeof want, g, WA[w], v); gl = zt_fmt_sprintf(got, sizeof got, f, WA[w], v); } \
    else if (P[p][0] && P[p][1] == '*') { wl = snprintf(want, sizeof want, g, PA[p], v); gl = zt_fmt_sprintf(got, sizeof got, f, PA[p], v); } \
    else { wl = snprintf(want, sizeof want, g, v); gl = zt_fmt_sprintf(got, sizeof got, f, v); } eq(got, gl, want, wl); } while (0)
    if (p == 10 && cv != 'f' && cv != 'e' && cv != 'g' && cv != 's') return;
    switch (cv) {
    case 'd': { int i = mc_choose(sizeof D / sizeof *D); GO("%d", D[i], D[i]); break; }
    case 'c': { int i = mc_choose(sizeof C / sizeof *C); GO("character %d", C[i], C[i]); break; }
    case 'u': case 'o': case 'x': { int i = mc_choose(sizeof U / sizeof *U); GO("%u", U[i], U[i]); break; }
    case 's': { int i = mc_choose(sizeof S / sizeof *S); GO("'%s'", S[i], S[i]);
        int pr = p == 0 || p == 8 ? -1 : p == 7 ? 3 : p == 9 || p == 1 ? 0 : atoi(P[p] + 1); int sl = strlen(S[i]); if (pr >= 0 && sl >= pr) { char *u = mc_dupn(S[i], pr); GO("unterminated %d characters", u, pr); free(u); }   /* exactly the characters the precision asks for */
        if (W[w][0] && w != 6) { /* '#': the width skips characters instead */ char h[90]; int sk = W[w][0] == '*' ? WA[w] : atoi(W[w]); const char *from = sk < sl ? S[i] + sk : S[i]; if (w != 7 || 1) { sprintf(h, "%%#%s%s", f + 1, ""); snprintf(want, sizeof want, "%s", from); if (pr >= 0 && (int)strlen(want) > pr) want[pr] = 0; snprintf(key, sizeof key, "format '%s' of '%s'", h, S[i]); MC_LOG("%s", key);
            if (W[w][0] == '*' && P[p][0] && P[p][1] == '*') gl = zt_fmt_sprintf(got, sizeof got, h, WA[w], PA[p], S[i]); else if (W[w][0] == '*') gl = zt_fmt_sprintf(got, sizeof got, h, WA[w], S[i]); else if (P[p][0] && P[p][1] == '*') gl = zt_fmt_sprintf(got, sizeof got, h, PA[p], S[i]); else gl = zt_fmt_sprintf(got, sizeof got, h, S[i]); eq(got, gl, want, strlen(want)); } } break; }
    case 'p': { static void *const V[] = { NULL, (void *)1, (void *)0xffffffff, (void *)0x7fffffffffff, (void *)~0ul }; int i = mc_choose(5); g[strlen(g) - 1] = 0; strcat(g, "lx"); GO("pointer %p", V[i], V[i]); break; }
    default: { int i = mc_choose(sizeof F / sizeof *F); GO("%.20g", F[i], F[i]); }
    }
    mc_nontrivial(); mc_state(mc_hash(1, want, wl));
}
