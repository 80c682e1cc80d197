/* C15: encoding and decoding of every short byte string in every base, against an independent bit-level reference. */
#include "mc.h"
#include <zt.h>
static int maxlen, alen;
static const unsigned char AB[] = { 0x00, 0xff, 0x80, 0x5a, 0x7f, 0x01 };
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
    A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", A32H[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV", A16[] = "0123456789ABCDEF";
static zt_base_definition_t np[6];
static struct { const char *name; zt_base_definition_t **def; const char *alpha; int bits, group, pad; } D[] = {
    { "64", &zt_base64_rfc, A64, 6, 4, 1 }, { "64nopad", &zt_base64_rfc_nopad, A64, 6, 4, 0 }, { "64uri", &zt_base64_uri, A64U, 6, 4, 1 },
    { "32", &zt_base32_rfc, A32, 5, 8, 1 }, { "32hex", &zt_base32_hex, A32H, 5, 8, 1 }, { "16", &zt_base16_rfc, A16, 4, 2, 0 },
    { "64uri-nopad", NULL, A64U, 6, 4, 0 }, { "32-nopad", NULL, A32, 5, 8, 0 }, { "32hex-nopad", NULL, A32H, 5, 8, 0 } };
static size_t ref(int d, const unsigned char *in, size_t n, char *out, int pad) {
    size_t o = 0, bits = n * 8;
    for (size_t b = 0; b < bits; b += D[d].bits) { int v = 0; for (int k = 0; k < D[d].bits; k++) { size_t p = b + k; v = v * 2 + (p < bits ? (in[p / 8] >> (7 - p % 8)) & 1 : 0); } out[o++] = D[d].alpha[v]; }
    if (pad) while (o % D[d].group) out[o++] = '=';
    out[o] = 0; return o;
}
void mc_setup(void) { maxlen = mc_param("length", 6, 8); alen = mc_param("alphabet", 5, 6); mc_pure = 1; mc_shard_depth = 3;
    static zt_base_definition_t *p[3]; zt_base_definition_t *src[] = { zt_base64_uri, zt_base32_rfc, zt_base32_hex };
    for (int i = 0; i < 3; i++) { memcpy((void *)&np[i], src[i], sizeof np[i]); ZT_BIT_UNSET(np[i].flags, zt_base_encode_with_padding); p[i] = &np[i]; D[6 + i].def = &p[i]; } }
void mc_run(void) {
    int d = mc_choose(9), how = mc_choose(4); unsigned char in[64]; size_t n;
    if (how == 0) { n = mc_choose(3); for (size_t i = 0; i < n; i++) in[i] = mc_choose(256); }                  /* all strings of up to 2 bytes */
    else if (how == 1) { n = 3 + mc_choose(maxlen - 2); for (size_t i = 0; i < n; i++) in[i] = AB[mc_choose(alen)]; }
    else if (how == 2) { n = 3 + mc_choose(9); int at = mc_choose(n), v = mc_choose(256), fill = AB[mc_choose(2)]; memset(in, fill, n); in[at] = v; }  /* every byte value at every place */
    else { n = mc_choose(41); int f = mc_choose(4); for (size_t i = 0; i < n; i++) in[i] = f == 0 ? i * 37 + 11 : f == 1 ? 0xff - i : f == 2 ? 0 : 0xff; }
    char want[200], key[120]; size_t wl = ref(d, in, n, want, D[d].pad);
    int o = snprintf(key, sizeof key, "base%s of %zu bytes ", D[d].name, n); for (size_t i = 0; i < n && o < 100; i++) o += snprintf(key + o, sizeof key - o, "%02x", in[i]);
    MC_LOG("%s", key); zt_base_definition_t *def = *D[d].def;
    char *src = mc_dupn(in, n); long live0 = mc_live_blocks(); void *out; size_t ol; int r;
    /* exact space */
    out = malloc(wl + !wl); char *ob = out; memset(ob, 0x21, wl + !wl); ol = wl; r = zt_base_encode(def, src, n, &out, &ol);
    MC_CHECK(r == 0 && ol == wl && out == ob && !memcmp(ob, want, wl), "encode %s: result %d, %zu bytes, want %s", key, r, ol, want);
    if (!wl) MC_CHECK(ob[0] == 0x21, "encode %s wrote into the empty buffer", key);
    free(ob);
    if (n) {
        /* one byte too little: refused, nothing written, size reported */
        out = ob = malloc(wl - 1 + (wl == 1)); memset(ob, 0x21, wl - 1 + (wl == 1)); ol = wl - 1;
        if (wl > 1) { r = zt_base_encode(def, src, n, &out, &ol); MC_CHECK(r == -2 && ol == wl, "encode %s into %zu bytes: result %d size %zu", key, wl - 1, r, ol); for (size_t i = 0; i + 1 < wl; i++) MC_CHECK(ob[i] == 0x21, "encode %s into %zu bytes wrote", key, wl - 1); }
        free(ob);
        /* larger space: only the text is written */
        out = ob = malloc(wl + 5); memset(ob, 0x21, wl + 5); ol = wl + 5; r = zt_base_encode(def, src, n, &out, &ol);
        MC_CHECK(r == 0 && ol == wl && !memcmp(ob, want, wl), "encode %s into spare space: %d, %zu", key, r, ol); for (int i = 1; i < 5; i++) MC_CHECK(ob[wl + i] == 0x21, "encode %s wrote behind the text", key); free(ob);
        /* size queries */
        ol = 100000; r = zt_base_encode(def, src, n, NULL, &ol); MC_CHECK(r == 0 && ol == wl, "encode size of %s: %d, %zu", key, r, ol);
        out = NULL; ol = 100000; r = zt_base_encode(def, src, n, &out, &ol); MC_CHECK(r == 0 && ol == wl && !out, "encode size (empty pointer) of %s: %d, %zu", key, r, ol);
        /* the named forms are the same */
        if (d < 6) { out = ob = malloc(wl); ol = wl; r = d == 0 ? zt_base64_encode(src, n, &out, &ol) : d == 1 ? zt_base64_encode_nopad(src, n, &out, &ol) : d == 2 ? zt_base64_encode_uri(src, n, &out, &ol) : d == 3 ? zt_base32_encode(src, n, &out, &ol) : d == 4 ? zt_base32_encode_hex(src, n, &out, &ol) : zt_base16_encode(src, n, &out, &ol); MC_CHECK(r == 0 && ol == wl && !memcmp(ob, want, wl), "encode %s by the named form: %d, %zu", key, r, ol); free(ob); }
        /* allocated */
        out = NULL; ol = 0; r = zt_base_encode(def, src, n, &out, &ol); MC_CHECK(r == 0 && ol == wl && out && !memcmp(out, want, wl) && ((char *)out)[wl] == 0, "encode %s into allocated space: %d, %zu", key, r, ol); free(out);
    }
    /* decoding: the canonical text, with and without padding, must invert it */
    for (int pad = 0; pad < 2; pad++) {
        char t[200]; size_t tl = ref(d, in, n, t, pad && D[d].bits != 4); char *txt = mc_dupn(t, tl); size_t q = 0;
        ol = 7; r = zt_base_decode(def, txt, tl, NULL, &ol); MC_CHECK(r == 0 && ol >= n && (tl || ol == 0), "decode size of %s: %d, %zu", t, r, ol); q = ol;
        out = ob = malloc(q + !q); ol = q; r = zt_base_decode(def, txt, tl, &out, &ol); MC_CHECK(r == 0 && ol == n && out == ob && !memcmp(ob, in, n), "decode of %s: result %d, %zu bytes, want %zu", t, r, ol, n); free(ob);
        if (d < 6 && d != 1) { out = ob = malloc(q + !q); ol = q; r = d == 0 ? zt_base64_decode(txt, tl, &out, &ol) : d == 2 ? zt_base64_decode_uri(txt, tl, &out, &ol) : d == 3 ? zt_base32_decode(txt, tl, &out, &ol) : d == 4 ? zt_base32_decode_hex(txt, tl, &out, &ol) : zt_base16_decode(txt, tl, &out, &ol); MC_CHECK(r == 0 && ol == n && !memcmp(ob, in, n), "decode of %s by the named form: %d, %zu", t, r, ol); free(ob); }
        if (tl) { out = NULL; ol = 0; r = zt_base_decode(def, txt, tl, &out, &ol); MC_CHECK(r == 0 && ol == n && out && !memcmp(out, in, n) && ((char *)out)[n] == 0, "decode of %s into allocated space: %d, %zu", t, r, ol); free(out); }
        free(txt);
    }
    MC_CHECK(!memcmp(src, in, n), "%s: input changed", key);
    MC_CHECK(mc_live_blocks() == live0, "%s: memory left", key);
    free(src); mc_step(); if (n > 1) mc_nontrivial(); mc_state(mc_hash(d, in, n));
}
