/* C07: byte stream against a model file, all histories up to a depth. */
#include "mc.h"
#include <zt.h>
#define CAP 256
static int depth; static unsigned char m[CAP]; static size_t mlen, cur; static int flip, stamp; static char hist[400];
static void note(const char *f, int a) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s%d", f, a); MC_LOG("%s", hist); }
static void rev(unsigned char *p, size_t n) { for (size_t i = 0; i < n / 2; i++) { unsigned char t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; } }
static void mput(const void *v, size_t cnt, size_t size) {           /* model write of cnt items */
    if (cnt * size && cur > mlen) memset(m + mlen, 0, cur - mlen);
    for (size_t i = 0; i < cnt; i++) { memcpy(m + cur, (const char *)v + i * size, size); if (flip) rev(m + cur, size); cur += size; }
    if (cur > mlen && cnt * size) mlen = cur;
}
static void verify(zt_bstream_t bs) {
    zt_bstream_t c = zt_bstream_clone(bs);
    MC_CHECK(c->offt == bs->offt, "%s: clone has another position", hist);
    size_t o = zt_bstream_rewind(c);
    MC_CHECK(o == cur, "%s: position %zu, want %zu", hist, o, cur);
    for (size_t i = 0; i < mlen; i++) { char *b = malloc(1); zt_bstream_read_byte(c, b); MC_CHECK((unsigned char)*b == m[i], "%s: byte %zu is %#x, want %#x", hist, i, (unsigned char)*b, m[i]); free(b); }
    MC_CHECK(!!zt_bstream_is_empty(bs) == (mlen == 0), "%s: is_empty %d with %zu bytes", hist, zt_bstream_is_empty(bs), mlen);
    zt_bstream_free(&c); MC_CHECK(c == NULL, "free leaves the handle");
    mc_state(mc_hash(mc_mix(cur, mlen * 2 + flip), m, mlen));
}
void mc_setup(void) { depth = mc_param("depth", 5, 6); mc_pure = 1; mc_shard_depth = 3; }
static const int tsize[] = { 1, 1, 2, 4, 8, 4, 8 };
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = 0; mlen = cur = 0; flip = stamp = 0;
    zt_bstream_t bs = zt_bstream_new(); verify(bs);
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(7);
        if (op <= 1) {                                  /* typed or raw write / read */
            int t = mc_choose(10); unsigned char v[8]; size_t cnt = 1, sz;
            if (t < 7) sz = tsize[t]; else { cnt = t == 7 ? 3 : t == 8 ? 2 : 5; sz = t == 7 ? 2 : t == 8 ? 3 : 1; }
            note(op ? "read" : "write", t);
            if (op == 0) {
                stamp++; for (int i = 0; i < 8; i++) v[i] = (unsigned char)(stamp * 16 + i + 1);
                if (cur + cnt * sz > CAP) mc_prune();
                switch (t) {
                case 0: zt_bstream_write_byte(bs, (char)(v[0] |= 0x80)); break;
                case 1: zt_bstream_write_uint8(bs, v[0]); break;
                case 2: { uint16_t x; memcpy(&x, v, 2); zt_bstream_write_uint16(bs, x); break; }
                case 3: { uint32_t x; memcpy(&x, v, 4); zt_bstream_write_uint32(bs, x); break; }
                case 4: { uint64_t x; memcpy(&x, v, 8); zt_bstream_write_uint64(bs, x); break; }
                case 5: { float x = stamp * 1.37f - 2; memcpy(v, &x, 4); zt_bstream_write_float(bs, x); break; }
                case 6: { double x = stamp * 1.37 - 2; memcpy(v, &x, 8); zt_bstream_write_double(bs, x); break; }
                default: { char *b = mc_dupn(v, cnt * sz); zt_bstream_write(bs, b, cnt, sz, 0); MC_CHECK(!memcmp(b, v, cnt * sz), "%s changed its argument", hist); free(b); }
                }
                mput(v, cnt, sz); mc_nontrivial();
            } else {
                if (cur + cnt * sz > mlen) mc_prune();
                unsigned char w[8]; memcpy(w, m + cur, cnt * sz);
                if (flip) for (size_t i = 0; i < cnt; i++) rev(w + i * sz, sz);
                char *b = malloc(cnt * sz);
                switch (t) {
                case 0: zt_bstream_read_byte(bs, b); break;
                case 1: zt_bstream_read_uint8(bs, (uint8_t *)b); break;
                case 2: zt_bstream_read_uint16(bs, (uint16_t *)b); break;
                case 3: zt_bstream_read_uint32(bs, (uint32_t *)b); break;
                case 4: zt_bstream_read_uint64(bs, (uint64_t *)b); break;
                case 5: zt_bstream_read_float(bs, (float *)b); break;
                case 6: zt_bstream_read_double(bs, (double *)b); break;
                default: zt_bstream_read(bs, b, cnt, sz, 0);
                }
                MC_CHECK(!memcmp(b, w, cnt * sz), "%s: wrong value read", hist); free(b); cur += cnt * sz;
            }
        } else if (op == 2) { note("rewind", 0); size_t o = zt_bstream_rewind(bs); MC_CHECK(o == cur, "%s returned %zu, want %zu", hist, o, cur); cur = 0; }
        else if (op == 3) { note("truncate", 0); zt_bstream_truncate(bs); mlen = 0; }
        else if (op == 4) { note("flip", !flip); bs->flipendian = flip = !flip; }
        else if (op == 5) {                             /* go on with a clone; the original is scribbled over */
            note("clone", 0); zt_bstream_t c = zt_bstream_clone(bs); MC_CHECK(c != bs, "clone is the original");
            zt_bstream_rewind(bs); for (size_t i = 0; i < mlen; i++) zt_bstream_write_byte(bs, 0x5d);
            zt_bstream_free(&bs); bs = c;
        } else {
            int how = mc_choose(3); size_t n = 1 + mc_choose(2) * 4; unsigned char v[8]; stamp++; for (int i = 0; i < 8; i++) v[i] = (unsigned char)(stamp * 16 + i + 9);
            note(how == 0 ? "set_data-copy" : how == 1 ? "set_data-own" : "set_array", n);
            char *b = mc_dupn(v, n);
            if (how < 2) zt_bstream_set_data(bs, b, n, how == 0);
            else { zt_bstream_set_array(bs, zt_array_with(b, n, 1, 1), n - 1); cur = n - 1; }
            if (how != 1) { memset(b, 0, n); free(b); }
            memcpy(m, v, n); mlen = n;
        }
        mc_step(); verify(bs);
    }
    zt_bstream_free(&bs);
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
