/* C15/C16 (scale): encoding and decoding of long byte strings of every length class, with blanks, line breaks and damage anywhere in the text. */
#include "mc.h"
#include <zt.h>
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
    A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", A32H[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV", A16[] = "0123456789ABCDEF";
static struct { const char *name; zt_base_definition_t **def; const char *alpha; int bits, group, pad; } D[] = {
    { "64", &zt_base64_rfc, A64, 6, 4, 1 }, { "64nopad", &zt_base64_rfc_nopad, A64, 6, 4, 0 }, { "64uri", &zt_base64_uri, A64U, 6, 4, 1 },
    { "32", &zt_base32_rfc, A32, 5, 8, 1 }, { "32hex", &zt_base32_hex, A32H, 5, 8, 1 }, { "16", &zt_base16_rfc, A16, 4, 2, 0 } };
static const size_t L[] = { 45, 57, 64, 76, 100, 127, 191, 255, 383, 511, 767, 1023, 2047, 3071, 4095, 16383, 32767, 49151, 65535, 98304, 131071, 262144 };
#define NL (int)(sizeof L / sizeof *L)
static int dense, spots;
static size_t ref(int d, const unsigned char *in, size_t n, char *out, int pad) {
    size_t o = 0; unsigned acc = 0; int nb = 0;
    for (size_t i = 0; i < n; i++) { acc = (acc << 8 | in[i]) & 0xffffff; nb += 8; while (nb >= D[d].bits) { nb -= D[d].bits; out[o++] = D[d].alpha[acc >> nb & ((1 << D[d].bits) - 1)]; } }
    if (nb) out[o++] = D[d].alpha[acc << (D[d].bits - nb) & ((1 << D[d].bits) - 1)];
    if (pad && D[d].bits != 4) while (o % D[d].group) out[o++] = '=';
    out[o] = 0; return o;
}
void mc_setup(void) { dense = mc_param("dense lengths", 180, 700); spots = mc_param("spots", 5, 9); mc_pure = 1; mc_shard_depth = 2; }
void mc_run(void) {
    int d = mc_choose(6), li = mc_choose(dense + NL * 6), pat = mc_choose(3); size_t n = li < dense ? (size_t)li + 1 : L[(li - dense) / 6] + (li - dense) % 6;
    int deco = mc_choose(4);   /* 0 canonical; 1 lines of 76 with CRLF; 2 a blank at each of a few spots; 3 damage at a few spots */
    int spot = deco > 1 ? mc_choose(spots) : 0, ch = deco > 1 ? mc_choose(deco == 2 ? 7 : 4) : 0;
    unsigned char *in = malloc(n); for (size_t i = 0; i < n; i++) in[i] = pat == 0 ? (i * 37 + (i >> 8) * 11 + 5) : pat == 1 ? 0xff - (i % 251) : (i * i + (i >> 3)) ^ 0x80;
    char *want = malloc(n * 2 + 16); size_t wl = ref(d, in, n, want, D[d].pad); zt_base_definition_t *def = *D[d].def; void *out; char *ob; size_t ol; int r; char key[100];
    snprintf(key, sizeof key, "base%s of %zu bytes of pattern %d, decoration %d at spot %d with %d", D[d].name, n, pat, deco, spot, ch); MC_LOG("%s", key); long live0 = mc_live_blocks();
    if (deco == 0) {
        out = ob = malloc(wl); ol = wl; r = zt_base_encode(def, in, n, &out, &ol); MC_CHECK(r == 0 && ol == wl && out == ob, "encode %s: %d, %zu, must be %zu", key, r, ol, wl);
        for (size_t i = 0; i < wl; i++) MC_CHECK(ob[i] == want[i], "encode %s: character %zu is %d, must be %d", key, i, ob[i], want[i]); free(ob);
        ol = 0x7fffffff; r = zt_base_encode(def, in, n, NULL, &ol); MC_CHECK(r == 0 && ol == wl, "encode size of %s: %d, %zu", key, r, ol);
        out = ob = malloc(wl); memset(ob, '!', wl); ol = wl - 1; r = zt_base_encode(def, in, n, &out, &ol); MC_CHECK(r == -2 && ol == wl, "encode %s one byte short: %d, %zu", key, r, ol); for (size_t i = 0; i < wl; i++) MC_CHECK(ob[i] == '!', "encode %s one byte short wrote", key); free(ob);
        out = NULL; ol = 0; r = zt_base_encode(def, in, n, &out, &ol); MC_CHECK(r == 0 && ol == wl && out && !memcmp(out, want, wl) && !((char *)out)[wl], "encode %s into allocated space: %d, %zu", key, r, ol); free(out); mc_step();
    }
    /* the text to decode */
    char *t = malloc(wl * 2 + 400); size_t tl = 0; int bad = 0; size_t at = deco > 1 ? (spot == 0 ? 0 : spot == 1 ? wl : spot == 2 ? wl / 2 : spot == 3 ? wl - 1 - wl / 4 : spot == 4 ? wl / 3 : (wl * (spot + 1) / 11)) : 0;
    for (size_t i = 0; i <= wl; i++) {
        if (deco == 1 && i && i % 76 == 0) { t[tl++] = '\r'; t[tl++] = '\n'; }
        if (deco == 2 && i == at) { int k = ch == 4 ? 9 : ch == 6 ? 300 : ch == 5 ? 12 : 1; while (k--) t[tl++] = " \t\n=\r=="[ch]; }
        if (deco == 3 && i == at) { static const unsigned char X[] = { '!', 0x80, 0, 0xff }; t[tl++] = X[ch]; bad = 1; }
        if (i < wl) t[tl++] = want[i];
    }
    char *s = mc_dupn(t, tl);
    ol = 1; r = zt_base_decode(def, s, tl, NULL, &ol); size_t q = ol; MC_CHECK(r == 0 && q >= n && q <= tl, "decode size of %s: %d, %zu", key, r, q);
    out = ob = malloc(q); memset(ob, '!', q); ol = q; r = zt_base_decode(def, s, tl, &out, &ol); MC_CHECK(r == (bad ? -1 : 0) && out == ob, "decode of %s: %d", key, r);
    if (!bad) { MC_CHECK(ol == n, "decode of %s: %zu bytes", key, ol); for (size_t i = 0; i < n; i++) MC_CHECK((unsigned char)ob[i] == in[i], "decode of %s: byte %zu is %d, must be %d", key, i, ob[i], in[i]); for (size_t i = n; i < q; i++) MC_CHECK(ob[i] == '!', "decode of %s wrote behind its result", key); }
    memset(ob, '!', q); ol = q - 1; r = zt_base_decode(def, s, tl, &out, &ol); MC_CHECK(r == -2 && ol == q, "decode of %s one byte short: %d, %zu, must be -2 and %zu", key, r, ol, q); for (size_t i = 0; i < q; i++) MC_CHECK(ob[i] == '!', "decode of %s one byte short wrote", key); free(ob);
    out = NULL; ol = 0; r = zt_base_decode(def, s, tl, &out, &ol); MC_CHECK(r == (bad ? -1 : 0), "decode of %s into allocated space: %d", key, r); if (!bad) MC_CHECK(ol == n && !memcmp(out, in, n) && !((char *)out)[n], "decode of %s into allocated space: %zu bytes", key, ol); free(out);
    MC_CHECK(!memcmp(s, t, tl), "decode of %s changed its input", key); free(s); free(t); mc_step(); MC_CHECK(mc_live_blocks() == live0, "%s: memory left", key); free(want); free(in); mc_nontrivial(); mc_state(mc_mix(mc_mix(d, n), deco * 100 + spot * 10 + ch));
}
