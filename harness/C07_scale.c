/* C07 (scale): items of every size, many of them, written in every kind of chunks and read back in others. */
#include "mc.h"
#include <zt.h>
static int maxn; static const int SZ[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 33, 64, 100, 127 }, BIG[] = { 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1024, 4097, 65537 };
void mc_setup(void) { maxn = mc_param("items", 40, 100); mc_shard_depth = 3; }
static size_t item(unsigned char *p, size_t i, size_t sz) { for (size_t k = 0; k < sz; k++) p[k] = (unsigned char)(i * 11 + k * 3 + (i >> 8) + 1); return sz; }
static void rev(unsigned char *p, size_t n) { for (size_t i = 0; i < n / 2; i++) { unsigned char t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; } }
/* a bytes, back to position p, then n items of a size, and more after them: every overlap with the end of what is there */
static void overlap(void) {
    long live0 = mc_live_blocks(); int flip = mc_choose(2), a = mc_choose(maxn / 2), p = mc_choose(a + 1), n = 1 + mc_choose(9), sz = (int[]){ 1, 2, 3, 4, 8, 16 }[mc_choose(6)]; static unsigned char img[2000]; unsigned char it[400]; int len = a, at = p + n * sz;
    MC_LOG("%d bytes, from position %d on %d items of %d bytes, flip %d", a, p, n, sz, flip); zt_bstream_t bs = zt_bstream_new(); bs->flipendian = flip; for (int i = 0; i < a; i++) { img[i] = (unsigned char)(i * 7 + 1); zt_bstream_write_byte(bs, (char)img[i]); } zt_bstream_rewind(bs);
    for (int i = 0; i < p; i++) { char c; zt_bstream_read_byte(bs, &c); MC_CHECK((unsigned char)c == img[i], "byte %d is read wrong", i); }
    for (int i = 0; i < n; i++) { item(it + i * sz, i + 40, sz); memcpy(img + p + i * sz, it + i * sz, sz); if (flip) rev(img + p + i * sz, sz); } if (at > len) len = at; char *b = mc_dupn(it, n * sz); zt_bstream_write(bs, b, n, sz, 0); MC_CHECK(!memcmp(b, it, n * sz), "write changed its argument"); free(b);
    MC_CHECK(zt_bstream_rewind(bs) == (size_t)at, "position after the write"); char *all = malloc(len + 1); zt_bstream_read(bs, all, len, 1, 0); MC_CHECK(!memcmp(all, img, len), "what is stored differs"); for (int i = 0; i < 3; i++) { zt_bstream_write_byte(bs, (char)(img[len] = (unsigned char)(90 + i))); len++; }
    zt_bstream_t c = zt_bstream_clone(bs); MC_CHECK(zt_bstream_rewind(c) == (size_t)len, "position of a clone"); all = realloc(all, len); zt_bstream_read(c, all, len, 1, 0); MC_CHECK(!memcmp(all, img, len), "a clone holds something else"); free(all); zt_bstream_free(&c); zt_bstream_free(&bs); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); mc_step(); mc_nontrivial(); mc_state(mc_mix(mc_mix(a, p), n * 32 + sz * 2 + flip));
}
void mc_run(void) {
    if (mc_choose(2)) { overlap(); return; }
    long live0 = mc_live_blocks(); int mode = mc_choose(4), flip = mc_choose(2), nb = sizeof BIG / sizeof *BIG, k = mc_choose(maxn + nb); size_t n = k < maxn ? k : BIG[k - maxn], sz = mode == 3 ? 8 : SZ[mc_choose(sizeof SZ / sizeof *SZ)]; if (n * sz > 300000) mc_prune();
    int wc = mode == 3 ? 0 : mc_choose(4), rc = mode == 3 ? 0 : mc_choose(3); static const size_t CH[] = { 1, 3, 17, 1 << 30 }; if (mode == 0 && n * sz > 20000 && wc < 3) mc_prune();
    MC_LOG("%zu items of %zu bytes, mode %d, flip %d, write chunks %zu, read chunks %zu", n, sz, mode, flip, CH[wc], CH[rc + 1]);
    unsigned char *all = malloc(n * sz + 1), *img = malloc(n * sz + 1); for (size_t i = 0; i < n; i++) item(all + i * sz, i, sz); memcpy(img, all, n * sz); if (flip) for (size_t i = 0; i < n; i++) rev(img + i * sz, sz);
    zt_bstream_t bs = zt_bstream_new(); bs->flipendian = flip;
    if (mode == 3) {                                    /* a mix of typed writes, cyclic; read back typed, on a clone and on the original */
        size_t at = 0;
        for (int pass = 0; pass < 3; pass++) {
            if (pass) MC_CHECK(zt_bstream_rewind(bs) == at, "position after pass %d is wrong", pass); at = 0; zt_bstream_t s = bs; if (pass == 1) { s = zt_bstream_clone(bs); }
            for (size_t i = 0; i < n; i++) {
                uint64_t v = (i + 1) * 0x9e3779b97f4a7c15ull; float f = i * 1.5f - 3; double d = i * 1.25 - 7; char c; uint8_t a; uint16_t b; uint32_t e; uint64_t g; float h; double q;
                switch (i % 7) {
                case 0: if (!pass) zt_bstream_write_byte(s, (char)v); else { zt_bstream_read_byte(s, &c); MC_CHECK(c == (char)v, "item %zu (byte) is wrong", i); } at += 1; break;
                case 1: if (!pass) zt_bstream_write_uint8(s, (uint8_t)v); else { zt_bstream_read_uint8(s, &a); MC_CHECK(a == (uint8_t)v, "item %zu (uint8) is wrong", i); } at += 1; break;
                case 2: if (!pass) zt_bstream_write_uint16(s, (uint16_t)v); else { zt_bstream_read_uint16(s, &b); MC_CHECK(b == (uint16_t)v, "item %zu (uint16) is wrong", i); } at += 2; break;
                case 3: if (!pass) zt_bstream_write_uint32(s, (uint32_t)v); else { zt_bstream_read_uint32(s, &e); MC_CHECK(e == (uint32_t)v, "item %zu (uint32) is wrong", i); } at += 4; break;
                case 4: if (!pass) zt_bstream_write_uint64(s, v); else { zt_bstream_read_uint64(s, &g); MC_CHECK(g == v, "item %zu (uint64) is wrong", i); } at += 8; break;
                case 5: if (!pass) zt_bstream_write_float(s, f); else { zt_bstream_read_float(s, &h); MC_CHECK(h == f, "item %zu (float) is wrong", i); } at += 4; break;
                default: if (!pass) zt_bstream_write_double(s, d); else { zt_bstream_read_double(s, &q); MC_CHECK(q == d, "item %zu (double) is wrong", i); } at += 8;
                }
            }
            if (pass == 1) { zt_bstream_free(&s); at = bs->offt; if (pass == 1) { /* bs was rewound and not read */ MC_CHECK(at == 0, "reading a clone moves the original"); } }
            mc_step();
        }
    } else {
        if (mode == 1 && n) { char *b = mc_dupn(img, n * sz); zt_bstream_set_data(bs, b, n * sz, 1); memset(b, 0, n * sz); free(b); bs->offt = n * sz; }
        else if (mode == 2 && n) { zt_bstream_set_array(bs, zt_array_with((char *)img, n * sz, 1, 1), n * sz); }
        else for (size_t i = 0; i < n; ) { size_t c = CH[wc] < n - i ? CH[wc] : n - i; char *b = mc_dupn(all + i * sz, c * sz); zt_bstream_write(bs, b, c, sz, 0); MC_CHECK(!memcmp(b, all + i * sz, c * sz), "write changed its argument"); free(b); i += c; }
        MC_CHECK(!!zt_bstream_is_empty(bs) == (n == 0), "is_empty with %zu items", n);
        if (n > 2) {                                    /* overwrite one in the middle and append one more */
            size_t at = n / 2; bs->offt = at * sz; item(all + at * sz, 777, sz); char *b = mc_dupn(all + at * sz, sz); zt_bstream_write(bs, b, 1, sz, 0); free(b); memcpy(img + at * sz, all + at * sz, sz); if (flip) rev(img + at * sz, sz);
        }
        zt_bstream_t c = zt_bstream_clone(bs); zt_bstream_rewind(bs); zt_bstream_rewind(c);
        for (size_t i = 0; i < n; ) { size_t q = CH[rc + 1] < n - i ? CH[rc + 1] : n - i; char *b = malloc(q * sz); zt_bstream_read(bs, b, q, sz, 0); MC_CHECK(!memcmp(b, all + i * sz, q * sz), "items %zu.. read back differently", i); memset(b, 0, q * sz); zt_bstream_read(c, b, q, sz, 0); MC_CHECK(!memcmp(b, all + i * sz, q * sz), "items %zu.. read back differently from a clone", i); free(b); i += q; mc_step(); }
        MC_CHECK(bs->offt == n * sz, "position is %zu after %zu bytes", bs->offt, n * sz);
        zt_bstream_rewind(bs); bs->flipendian = 0; if (n) { char *b = malloc(n * sz); zt_bstream_read(bs, b, n * sz, 1, 0); MC_CHECK(!memcmp(b, img, n * sz), "bytes stored are wrong"); free(b); }
        zt_bstream_free(&c);
        zt_bstream_truncate(bs); MC_CHECK(zt_bstream_is_empty(bs), "truncated and not empty");
    }
    zt_bstream_free(&bs); free(all); free(img); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); if (n) mc_nontrivial(); mc_state(mc_mix(mc_mix(n, sz), mode * 32 + flip * 16 + wc * 4 + rc));
}
