/* C42: FNV-1a of every short byte string, every split into pieces, and every reduction. */
#include "mc.h"
#include <zt.h>
static int maxlen, letters;
static const unsigned char AB[] = { 0x00, 0x61, 0xff, 0x80, 0x01 };
static uint32_t f32(const unsigned char *p, size_t n, uint32_t h) { for (size_t i = 0; i < n; i++) { h = h ^ p[i]; h = (uint32_t)(((uint64_t)h * 16777619u) & 0xffffffffu); } return h; }
static uint64_t f64(const unsigned char *p, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) { h = h ^ p[i]; h = (uint64_t)((unsigned __int128)h * (((uint64_t)1 << 40) + 0x1b3)); } return h; }
#define I32 2166136261u
#define I64 14695981039346656037ull
void mc_setup(void) { maxlen = mc_param("length", 7, 9); letters = mc_param("letters", 4, 5); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    static const uint32_t ST[] = { 0, 1, 0xffffffffu, 0x80000000u, I32 };
    int mode = mc_choose(4); unsigned char b[64]; size_t n = 0;
    if (mode == 3) { /* reductions */
        static const uint32_t H[] = { 0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x12345678, 0xdeadbeef, 0xa5a5a5a5u };
        int bits = 1 + mc_choose(31); uint32_t h0 = H[mc_choose(13)], h = h0; if (mc_choose(2)) { int k = mc_choose(32); h0 = h ^= 1u << k; } MC_LOG("reduce %08x to %d bits", h0, bits);
        ZT_HASH_SUB32_MASK(h, bits); MC_CHECK(((uint64_t)h >> bits) == 0, "hash %08x reduced to %d bits is %08x", h0, bits, h);
        uint32_t g = h0; ZT_HASH24_MASK(g); MC_CHECK(g < 1u << 24, "24 bits of %08x is %08x", h0, g); g = h0; ZT_HASH16_MASK(g); MC_CHECK(g < 1u << 16, "16 bits of %08x is %08x", h0, g); g = h0; ZT_HASH8_MASK(g); MC_CHECK(g < 1u << 8, "8 bits of %08x is %08x", h0, g); g = h0; ZT_HASH4_MASK(g); MC_CHECK(g < 1u << 4, "4 bits of %08x is %08x", h0, g);
        uint32_t again = h0; ZT_HASH_SUB32_MASK(again, bits); MC_CHECK(again == h, "reduction is not a function"); mc_step(); mc_nontrivial(); mc_state(h); return;
    }
    if (mode == 0) { n = mc_choose(3); for (size_t i = 0; i < n; i++) b[i] = mc_choose(256); }
    else if (mode == 1) { n = mc_choose(maxlen + 1); for (size_t i = 0; i < n; i++) b[i] = AB[mc_choose(letters)]; }
    else { n = mc_choose(64); int f = mc_choose(3); for (size_t i = 0; i < n; i++) b[i] = f == 0 ? i * 31 + 7 : f == 1 ? 0xff - i : 'a'; }
    MC_LOG("hash of %zu bytes %02x %02x %02x ...", n, n ? b[0] : 0, n > 1 ? b[1] : 0, n > 2 ? b[2] : 0);
    unsigned char *p = (void *)mc_dupn(b, n), *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; size_t sl = strlen((char *)s); s = realloc(s, sl + 1);
    for (int k = 0; k < 5; k++) { uint32_t st = ST[k], e = st ? st : I32; uint32_t g = zt_hash32_buff(p, n, st); MC_CHECK(g == f32(b, n, e), "hash32 of %zu bytes %02x%02x.. from %08x is %08x, must be %08x", n, b[0], b[1], st, g, f32(b, n, e));
        g = zt_hash32_cstr(s, st); MC_CHECK(g == f32(b, sl, e), "hash32 of string of %zu bytes from %08x is %08x", sl, st, g); 
        uint64_t st6 = k == 4 ? I64 : st | ((uint64_t)st << 32), e6 = st6 ? st6 : I64, g6 = zt_hash64_buff(p, n, st6); MC_CHECK(g6 == f64(b, n, e6), "hash64 of %zu bytes %02x%02x.. is %016llx, must be %016llx", n, b[0], b[1], (unsigned long long)g6, (unsigned long long)f64(b, n, e6));
        g6 = zt_hash64_cstr(s, st6); MC_CHECK(g6 == f64(b, sl, e6), "hash64 of string of %zu bytes is %016llx", sl, (unsigned long long)g6); mc_step(); }
    for (size_t c = 0; c <= n; c++) { uint32_t h1 = zt_hash32_buff(p, c, 0); uint64_t h2 = zt_hash64_buff(p, c, 0); if (h1) MC_CHECK(zt_hash32_buff(p + c, n - c, h1) == zt_hash32_buff(p, n, 0), "hash32 in pieces of %zu and %zu", c, n - c); if (h2) MC_CHECK(zt_hash64_buff(p + c, n - c, h2) == zt_hash64_buff(p, n, 0), "hash64 in pieces of %zu and %zu", c, n - c); mc_step(); }
    MC_CHECK(!memcmp(p, b, n), "input changed"); free(p); free(s); if (n > 1) mc_nontrivial(); mc_state(mc_hash(mode, b, n));
}
