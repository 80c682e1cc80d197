/* C30: text forms of UUIDs: round trips, buffer sizes, corrupted, truncated, extended and overflowing texts. */
#include "mc.h"
#include <zt.h>
typedef unsigned __int128 u128;
static const char AL[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", *FN[] = { "standard", "short", "base62", "hashable" };
static const size_t LEN[] = { 36, 32, 22, 22 };
static u128 H[64]; static int nh;
static void half(u128 v, char *o) { for (int i = 10; i >= 0; i--) { o[i] = AL[(int)(v % 62)]; v /= 62; } }
static u128 get(const unsigned char *p) { u128 v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
static void two(u128 a, u128 b, int f, char *o) { half(a, o); if (f == 3) for (int i = 0; i < 5; i++) { char c = o[i]; o[i] = o[10 - i]; o[10 - i] = c; } half(b, o + 11); o[22] = 0; }
static void print(const unsigned char *u, int f, char *o) {
    if (f >= 2) { two(get(u), get(u + 8), f, o); return; }
    for (int i = 0; i < 16; i++) { if (!f && (i == 4 || i == 6 || i == 8 || i == 10)) *o++ = '-'; *o++ = AL[u[i] >> 4]; *o++ = AL[u[i] & 15]; } *o = 0;
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int parse(const char *s, int f, unsigned char *u) { /* 1 iff valid */
    if (strlen(s) != LEN[f]) return 0;
    if (f >= 2) { for (int k = 0; k < 2; k++) { u128 v = 0; for (int i = 0; i < 11; i++) { const char *q = strchr(AL, s[11 * k + (f == 3 && !k ? 10 - i : i)]); if (!q) return 0; v = v * 62 + (q - AL); } if (v >> 64) return 0; for (int i = 0; i < 8; i++) u[8 * k + i] = v >> (56 - 8 * i); } return 1; }
    int n = 0; for (size_t i = 0; i < LEN[f]; i++) { if (!f && (i == 8 || i == 13 || i == 18 || i == 23)) { if (s[i] != '-') return 0; continue; } int h = hexv(s[i]); if (h < 0) return 0; u[n / 2] = n & 1 ? u[n / 2] | h : h << 4; n++; } return 1;
}
static void judge(const char *s, int f) {
    unsigned char w[16]; int ok = parse(s, f, w); size_t n = strlen(s); char *t = mc_dupn(s, n + 1); zt_uuid_t u; memset(&u, 0x5a, sizeof u);
    int v = zt_uuid_isvalid(t, f), r = zt_uuid_fromstr(t, &u, f);
    if (ok) { MC_CHECK(v == 0, "valid %s text '%s' declared invalid", FN[f], s); MC_CHECK(r == 0, "valid %s text '%s' not parsed", FN[f], s); MC_CHECK(!memcmp(u.data.bytes, w, 16), "%s text '%s' parsed to another value", FN[f], s); mc_nontrivial(); }
    else { MC_CHECK(v != 0, "malformed %s text '%s' declared valid", FN[f], s); MC_CHECK(r != 0, "malformed %s text '%s' parsed", FN[f], s); }
    MC_CHECK(!memcmp(t, s, n + 1), "%s text '%s' changed", FN[f], s); free(t); mc_step(); mc_state(mc_hash(f, s, n));
}
static void value(const unsigned char *b, int f) {
    char w[40], *s = NULL; zt_uuid_t u, z; memcpy(u.data.bytes, b, 16); print(b, f, w); size_t n = strlen(w);
    ssize_t r = zt_uuid_tostr(&u, &s, f); MC_CHECK(r == (ssize_t)n && s && !strcmp(s, w), "%s text of a value is '%s' (%zd), must be '%s'", FN[f], s ? s : "NULL", r, w);
    MC_CHECK(zt_uuid_isvalid(s, f) == 0, "%s text '%s' declared invalid", FN[f], w); memset(&z, 0, sizeof z); MC_CHECK(zt_uuid_fromstr(s, &z, f) == 0 && !memcmp(z.data.bytes, b, 16) && zt_uuid_cmp(&z, &u) == 0, "%s text '%s' does not parse back", FN[f], w);
    zt_free(s); MC_CHECK(!memcmp(u.data.bytes, b, 16), "value changed by printing"); mc_step(); mc_state(mc_hash(f, b, 16));
    if (f < 2) { for (char *q = w; *q; q++) if (*q >= 'a') *q -= 32; judge(w, f); }
}
static const unsigned char V[][16] = { { 0 }, { 0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff }, { 0x55,0x0e,0x84,0,0xe2,0x9b,0x41,0xd4,0xa7,0x16,0x44,0x66,0x55,0x44,0,0 }, { 0,0,0,0,0,0,0,1,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe } };
void mc_setup(void) { mc_pure = 1; mc_shard_depth = 3; u128 p = 1; H[nh++] = 0; for (int i = 0; i < 11; i++, p *= 62) { H[nh++] = p - (i > 0); H[nh++] = p; H[nh++] = p + 1; } H[nh++] = 61; u128 M = (u128)1 << 64; H[nh++] = M - 62; H[nh++] = M - 2; H[nh++] = M - 1; H[nh++] = M; H[nh++] = M + 1; H[nh++] = M + 61; H[nh++] = M + M / 2; H[nh++] = 2 * M; H[nh++] = p - 62; H[nh++] = p - 1; H[nh++] = (u128)1 << 63; H[nh++] = (u128)1 << 32; }
void mc_run(void) {
    int mode = mc_choose(8), f = mc_choose(4); unsigned char b[16]; char s[64];
    if (mode == 0) { memset(b, (int[]){ 0, 0xff, 0x80, 0x5a }[mc_choose(4)], 16); b[mc_choose(16)] = mc_choose(256); value(b, f); }
    else if (mode == 1) { u128 x = H[mc_choose(nh)], y = H[mc_choose(nh)]; two(x, y, f < 2 ? f + 2 : f, s); if (f >= 2) judge(s, f); if ((x | y) >> 64) return; for (int i = 0; i < 8; i++) b[i] = x >> (56 - 8 * i), b[8 + i] = y >> (56 - 8 * i); value(b, f); }
    else if (mode == 2) { /* every single byte replaced by every other */ print(V[mc_choose(4)], f, s); s[mc_choose(LEN[f])] = mc_choose(256); MC_LOG("text '%s'", s); judge(s, f); }
    else if (mode == 3) { /* shortened, lengthened, one byte inserted */ print(V[mc_choose(4)], f, s); int k = mc_choose(LEN[f] + 1), op = mc_choose(3); if (op == 0) s[k] = 0; else { char ins = "0-Gz \n"[mc_choose(6)]; int t = op == 1 ? 1 : 1 + mc_choose(4); if (op == 2) k = LEN[f]; memmove(s + k + t, s + k, LEN[f] - k + 1); memset(s + k, ins, t); } MC_LOG("text '%s'", s); judge(s, f); }
    else if (mode == 4) { /* two bytes replaced by notable ones */ static const char N[] = "0-gGZz@[`{/:xX+ "; print(V[2], f, s); int i = mc_choose(LEN[f]), j = mc_choose(LEN[f]); s[i] = N[mc_choose(16)]; s[j] = N[mc_choose(16)]; MC_LOG("text '%s'", s); judge(s, f); }
    else if (mode == 7) { /* the order of two values that differ in one or two bytes */
        static const unsigned char C[] = { 0, 1, 'A', 'a', 0x7f, 0x80, 0xff }; zt_uuid_t x, y; memcpy(x.data.bytes, V[f], 16); memcpy(y.data.bytes, V[f], 16); int i = mc_choose(16), j = mc_choose(16); x.data.bytes[i] = C[mc_choose(7)]; y.data.bytes[i] = C[mc_choose(7)]; if (j > i) { x.data.bytes[j] = C[mc_choose(7)]; y.data.bytes[j] = C[mc_choose(7)]; } int w = 0; for (int k = 0; k < 16 && !w; k++) w = x.data.bytes[k] - y.data.bytes[k];
        int r = zt_uuid_cmp(&x, &y), q = zt_uuid_cmp(&y, &x); MC_CHECK((r == 0) == (w == 0) && (r < 0) == (w < 0), "values that differ by %d at byte %d compare as %d", w, i, r); MC_CHECK((q < 0) == (w > 0) && (q == 0) == (w == 0), "swapped values compare as %d", q); mc_step(); mc_state(mc_mix(i * 16 + j, w)); }
    else if (mode == 5) { /* a form read as another form */ print(V[mc_choose(4)], mc_choose(4), s); judge(s, f); }
    else { /* caller's buffers of every size */
        const unsigned char *v = V[mc_choose(4)]; char w[40]; print(v, f, w); size_t n = mc_choose(LEN[f] + 4), g = n; zt_uuid_t u; memcpy(u.data.bytes, v, 16); char *o = malloc(n ? n : 1); memset(o, 0x5a, n);
        MC_LOG("%s text into %zu bytes", FN[f], n); ssize_t r = zt_uuid_fillstr(&u, o, &g, f);
        if (n <= LEN[f]) { MC_CHECK(r == 0 && g == LEN[f] + 1, "%s text into %zu bytes: %zd, size %zu", FN[f], n, r, g); for (size_t i = 0; i < n; i++) MC_CHECK(o[i] == 0x5a, "%s text into %zu bytes: byte %zu written", FN[f], n, i); }
        else { MC_CHECK(r == (ssize_t)LEN[f] && !strcmp(o, w), "%s text into %zu bytes: %zd '%s'", FN[f], n, r, o); MC_CHECK(g == n, "%s text into %zu bytes: size now %zu", FN[f], n, g); for (size_t i = LEN[f] + 1; i < n; i++) MC_CHECK(o[i] == 0x5a, "%s text into %zu bytes: byte %zu written", FN[f], n, i); mc_nontrivial(); }
        g = 0; MC_CHECK(zt_uuid_fillstr(NULL, o, &g, f) == 0 && g == LEN[f] + 1, "%s size query without value", FN[f]); g = 0; MC_CHECK(zt_uuid_fillstr(&u, NULL, &g, f) == 0 && g == LEN[f] + 1, "%s size query without buffer", FN[f]); MC_CHECK(zt_uuid_fillstr(&u, o, NULL, f) < 0, "%s without size", FN[f]);
        char *x; MC_CHECK(zt_uuid_tostr(NULL, &x, f) < 0 && zt_uuid_tostr(&u, NULL, f) < 0 && zt_uuid_isvalid(NULL, f) != 0, "%s: missing arguments accepted", FN[f]); free(o); mc_step(); mc_state(mc_hash(f, w, n)); }
}
