/* SHA-1 straight from FIPS 180, the reference for C31 and C32 */
#define ROL(v, b) ((uint32_t)(v) << (b) | (uint32_t)(v) >> (32 - (b)))
static void block(uint32_t h[5], const uint8_t *p) { /* straight from FIPS 180 */
    uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int t = 0; t < 16; t++) w[t] = (uint32_t)p[4 * t] << 24 | p[4 * t + 1] << 16 | p[4 * t + 2] << 8 | p[4 * t + 3];
    for (int t = 16; t < 80; t++) w[t] = ROL(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    for (int t = 0; t < 80; t++) { uint32_t f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6, T = ROL(a, 5) + f + e + k + w[t]; e = d; d = c; c = ROL(b, 30); b = a; a = T; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void ref(const uint8_t *m, size_t n, uint8_t out[20]) {
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }; size_t i = 0; uint8_t z[128] = { 0 };
    for (; n - i >= 64; i += 64) block(h, m + i);
    memcpy(z, m + i, n - i); z[n - i] = 0x80; size_t zl = n - i < 56 ? 64 : 128; for (int k = 0; k < 8; k++) z[zl - 1 - k] = (uint64_t)n * 8 >> 8 * k;
    block(h, z); if (zl == 128) block(h, z + 64);
    for (int k = 0; k < 20; k++) out[k] = h[k / 4] >> (24 - 8 * (k % 4));
}
