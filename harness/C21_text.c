/* C21: integers and binary data to text and back. */
#include "mc.h"
#include <errno.h>
#include <limits.h>
#include <zt.h>
static int win, hlenmax;
static const char AB[] = { '0', '9', 'a', 'F', 'g', ' ', 0x00, (char)0xc1 };
void mc_setup(void) { win = mc_param("window", 30, 2000); hlenmax = mc_param("hex", 6, 7); mc_pure = 1; mc_shard_depth = 3; }
static void ints(long v, int bufs) {
    char t[32]; int n = sprintf(t, "%ld", v); MC_LOG("int %ld", v);
    size_t d = zt_cstr_int_display_len((int)v); MC_CHECK(d == (size_t)n, "display length of %ld is %zu, must be %d", v, d, n); mc_step();
    if (bufs) for (size_t off = 0; off < 3; off++) for (size_t sz = 0; sz <= off + n + 3; sz++) {
        char *b = malloc(sz + !sz); memset(b, '!', sz + !sz); ssize_t r = zt_cstr_itoa(b, (int)v, off, sz); int fits = off + n < sz;
        MC_CHECK(r == (fits ? (ssize_t)(off + n) : -1), "itoa of %ld at %zu in %zu bytes returned %zd", v, off, sz, r);
        for (size_t i = 0; i < sz + !sz; i++) { char w = fits && i >= off && i <= off + n ? t[i - off] : '!'; MC_CHECK(b[i] == w, "itoa of %ld at %zu in %zu bytes: byte %zu is %d", v, off, sz, i, b[i]); }
        free(b); mc_step();
    }
    MC_CHECK(zt_cstr_itoa(NULL, (int)v, 0, 50) == -1, "itoa into NULL");
}
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void mc_run(void) {
    int mode = mc_choose(5);
    if (mode == 0) { /* around every power of ten and the extremes */
        int p = mc_choose(11), neg = mc_choose(2); long c = 1; for (int i = 0; i < p; i++) c *= 10; if (p == 10) c = INT_MAX; long v = c - win + mc_choose(2 * win + 1); if (neg) v = -v; 
        if (v < INT_MIN || v > INT_MAX) return; ints(v, 1); mc_nontrivial();
    } else if (mode == 1) { /* long stretches, without the buffers */
        long hi = mc_choose(1024); for (long k = 0; k < 4096; k += 1 + 15 * !mc_thorough) ints((int)((hi << 22) + (k << 10) + (k & 1023)), 0);
    } else if (mode == 2) { /* binary to hex and back: every byte value at every place, every output size */
        int n = mc_choose(4), at = n ? mc_choose(n) : 0, v = n ? mc_choose(256) : 0; unsigned char b[4] = { 0x1f, 0xe2, 0x80 }, *d; b[at] = v; d = (void *)mc_dupn(b, n); char w[10]; for (int i = 0; i < n; i++) sprintf(w + 2 * i, "%02x", b[i]);
        MC_LOG("hex of %d bytes, byte %d is %02x", n, at, v);
        for (int sz = 0; sz <= 2 * n + 2; sz++) { char *h = malloc(sz + !sz); memset(h, '!', sz + !sz); size_t r = zt_binary_to_hex(d, n, h, sz); size_t x = sz / 2 < n ? sz / 2 : n; MC_CHECK(r == 2 * x && !memcmp(h, w, 2 * x), "hex of %d bytes (byte %d is %02x) in %d: %zu", n, at, v, sz, r); for (int i = 2 * x; i < sz; i++) MC_CHECK(h[i] == '!', "hex of %d bytes in %d wrote byte %d", n, sz, i); free(h); mc_step(); }
        for (int up = 0; up < 2; up++) { char *h = malloc(2 * n + 1); for (int i = 0; i <= 2 * n; i++) h[i] = n == 0 ? 0 : up && w[i] >= 'a' && w[i] <= 'f' ? w[i] - 32 : w[i];
            MC_CHECK(zt_hex_to_binary(h, 2 * n, NULL, 0) == (size_t)n, "size of %d bytes of hex", n);
            for (int sz = 0; sz <= n + 1; sz++) { char *o = malloc(sz + !sz); memset(o, '!', sz + !sz); size_t r = zt_hex_to_binary(h, 2 * n, o, sz); int x = sz < n ? sz : n; MC_CHECK(r == (size_t)x && !memcmp(o, b, x), "binary of hex of %d bytes (byte %d is %02x) in %d: %zu", n, at, v, sz, r); if (sz > n) MC_CHECK(o[n] == '!', "binary wrote behind"); free(o); mc_step(); } free(h); }
        MC_CHECK(!memcmp(d, b, n), "input changed"); free(d); mc_nontrivial();
    } else if (mode == 3) { /* hex text of every form, with and without room; the text ends at its length or at a NUL */
        int n = mc_choose(hlenmax + 1), sz = mc_choose(hlenmax / 2 + 2); char t[16]; for (int i = 0; i < n; i++) t[i] = AB[mc_choose(8)]; char *h = mc_dupn(t, n);
        char key[64]; int o = snprintf(key, sizeof key, "hex text of %d into %d:", n, sz); for (int i = 0; i < n; i++) o += sprintf(key + o, " %02x", (unsigned char)t[i]); MC_LOG("%s", key);
        unsigned char w[16]; size_t x = 0; int bad = 0; for (int i = 0; i < n && t[i] && !bad; i += 2) { if (sz <= hlenmax / 2 && (int)x >= sz) break; if (hv(t[i]) < 0 || i + 1 >= n || hv(t[i + 1]) < 0) bad = 1; else w[x++] = hv(t[i]) * 16 + hv(t[i + 1]); }
        char *d = sz <= hlenmax / 2 ? malloc(sz + !sz) : NULL; errno = 0; size_t r = zt_hex_to_binary(h, n, d, sz);
        MC_CHECK(r == (bad ? 0 : x), "%s: %zu, must be %zu", key, r, bad ? 0 : x); if (bad) MC_CHECK(errno == EINVAL, "%s: errno %d", key, errno); else if (d) MC_CHECK(!memcmp(d, w, x), "%s: wrong bytes", key);
        free(d); free(h); mc_step(); if (n > 2) mc_nontrivial();
    } else { /* every character in either place */
        int c = mc_choose(256), pos = mc_choose(2); char t[3] = { '7', '7', 0 }; t[pos] = c; unsigned char d = 0; errno = 0; MC_LOG("digit %d at %d", c, pos); size_t r = zt_hex_to_binary(t, 2, &d, 1);
        if (hv(c) >= 0) MC_CHECK(r == 1 && d == (pos ? 0x70 + hv(c) : hv(c) * 16 + 7), "digit %d at %d: %02x", c, pos, d); else MC_CHECK(r == 0 && (errno == EINVAL || (!c && !pos)), "digit %d at %d accepted", c, pos); mc_step();
    }
    mc_state(0);
}
