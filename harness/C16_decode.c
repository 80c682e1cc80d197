/* C16: decoding of every short text over an alphabet of valid, padding, blank, invalid and high characters, with every output size. */
#include "mc.h"
#include <zt.h>
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
    A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", A32H[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV", A16[] = "0123456789ABCDEF";
static struct { const char *name; zt_base_definition_t **def; const char *alpha; int bits; } D[] = {
    { "64", &zt_base64_rfc, A64, 6 }, { "64nopad", &zt_base64_rfc_nopad, A64, 6 }, { "64uri", &zt_base64_uri, A64U, 6 },
    { "32", &zt_base32_rfc, A32, 5 }, { "32hex", &zt_base32_hex, A32H, 5 }, { "16", &zt_base16_rfc, A16, 4 } };
static const unsigned char TX[] = { 'B', '=', 'U', ' ', '!', 0xff, '-', '/', 0 };
static int maxlen, longlen, nch;
void mc_setup(void) { maxlen = mc_param("length", 5, 6); longlen = mc_param("symbols", 10, 12); nch = mc_param("chars", 9, 9); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    int d = mc_choose(6), how = mc_choose(3); unsigned char in[64]; size_t n;
    if (how == 0) { n = mc_choose(maxlen + 1); for (size_t i = 0; i < n; i++) in[i] = TX[mc_choose(nch)]; }
    else if (how == 1) { n = 1 + mc_choose(longlen); int at = mc_choose(n), v = mc_choose(256); for (size_t i = 0; i < n; i++) in[i] = D[d].alpha[(i * 7 + 5) % (1 << D[d].bits)]; in[at] = v; }   /* every character everywhere */
    else { n = 1 + mc_choose(longlen); for (size_t i = 0; i < n; i++) { int c = mc_choose(3); in[i] = c == 0 ? (unsigned char)D[d].alpha[1] : c == 1 ? (unsigned char)D[d].alpha[(1 << D[d].bits) - 1] : '='; } }
    /* reference: drop blanks and padding, then all symbols valid and the count possible */
    unsigned char want[64]; size_t wn = 0; int bad = 0, acc = 0, nb = 0, sym = 0;
    for (size_t i = 0; i < n; i++) {
        if (in[i] == '=' || in[i] == ' ' || in[i] == '\t' || in[i] == '\r' || in[i] == '\n') continue;
        const char *p = in[i] ? strchr(D[d].alpha, in[i]) : NULL; if (!p) { bad = 1; break; }
        acc = (acc << D[d].bits | (int)(p - D[d].alpha)) & 0xffff; nb += D[d].bits; sym++; if (nb >= 8) { nb -= 8; want[wn++] = acc >> nb; }
    }
    if (nb >= D[d].bits) bad = 1;                      /* a whole symbol left over: no byte string encodes to that many symbols */
    char key[160]; int o = snprintf(key, sizeof key, "base%s \"", D[d].name); for (size_t i = 0; i < n; i++) o += snprintf(key + o, sizeof key - o, in[i] > 32 && in[i] < 127 ? "%c" : "\\x%02x", in[i]); snprintf(key + o, sizeof key - o, "\"");
    MC_LOG("%s", key); zt_base_definition_t *def = *D[d].def; char *src = mc_dupn(in, n); void *out; char *ob; size_t ol; int r;
    long live0 = mc_live_blocks();
    ol = 3; MC_CHECK(zt_base_decode(def, src, n, NULL, &ol) == 0, "size query of %s failed", key); size_t q = ol;
    MC_CHECK(bad || q >= wn, "size query of %s says %zu, needs %zu", key, q, wn); MC_CHECK(q <= n, "size query of %s says %zu", key, q);
    for (size_t sz = 0; sz <= q + 1; sz++) {
        out = ob = malloc(sz + !sz); memset(ob, 0x21, sz + !sz); ol = sz; r = zt_base_decode(def, src, n, &out, &ol);
        MC_CHECK(out == ob, "%s changed the output pointer", key);
        if (n && sz < q) { MC_CHECK(r == -2 && ol == q, "%s into %zu bytes: result %d size %zu, want -2 and %zu", key, sz, r, ol, q); for (size_t i = 0; i < sz; i++) MC_CHECK(ob[i] == 0x21, "%s into %zu bytes wrote something", key, sz); }
        else if (bad) MC_CHECK(r == -1, "%s is malformed but gives %d (%zu bytes)", key, r, ol);
        else { MC_CHECK(r == 0 && ol == wn, "%s: result %d, %zu bytes, want %zu", key, r, ol, wn); MC_CHECK(!memcmp(ob, want, wn), "%s: wrong bytes", key); for (size_t i = wn; i < sz; i++) MC_CHECK(ob[i] == 0x21, "%s writes behind its result", key); }
        free(ob); mc_step();
    }
    if (n) {
        out = NULL; ol = 0; r = zt_base_decode(def, src, n, &out, &ol); MC_CHECK(r == (bad ? -1 : 0), "%s into allocated space: %d", key, r); if (!bad) MC_CHECK(out && ol == wn && !memcmp(out, want, wn), "%s into allocated space", key); free(out);
        out = NULL; ol = 50; r = zt_base_decode(def, src, n, &out, &ol); MC_CHECK(r == 0 && ol == q && !out, "%s without a buffer but with a size: %d, %zu", key, r, ol);
        MC_CHECK(zt_base_decode(def, src, n, &out, NULL) == -1, "missing size is refused");
    }
    MC_CHECK(!memcmp(src, in, n), "%s: input changed", key);
    MC_CHECK(mc_live_blocks() == live0, "%s: memory left", key); free(src);
    if (n > 1) mc_nontrivial(); mc_state(mc_hash(d, in, n));
}
