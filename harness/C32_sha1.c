/* C32: SHA-1 of every message length over several blocks, every way of feeding it, and its text form. */
#include "mc.h"
#include <sys/mman.h>
#include <zt.h>
#include "sha1ref.h"
static const char *hx(const uint8_t *d) { static char t[4][41]; static int k; char *o = t[k++ & 3]; for (int i = 0; i < 20; i++) sprintf(o + 2 * i, "%02x", d[i]); return o; }
static uint8_t m[700]; static int maxall, maxcut, maxthree;
void mc_setup(void) { uint8_t d[20]; ref((void *)"abc", 3, d); if (strcmp(hx(d), "a9993e364706816aba3e25717850c26c9cd0d89d")) { fprintf(stderr, "reference SHA-1 is wrong\n"); exit(3); } maxall = mc_param("length", 400, 700); maxcut = mc_param("two pieces", 264, 400); maxthree = mc_param("three pieces", 140, 200); mc_pure = 1; mc_shard_depth = 3;
#ifdef HUGE_ONLY
    mc_shard_depth = 1;
#endif
}
static void fill(int n, int f) { for (int i = 0; i < n; i++) m[i] = f == 0 ? i * 7 + 1 : f == 1 ? 0xff : f == 2 ? 0 : 0x80 + i / 3; }
static void feed(zt_sha1_ctx *c, const uint8_t *p, size_t n, int off) { uint8_t *q = malloc(n + off + (n + off == 0)); memcpy(q + off, p, n); zt_sha1_update(c, q + off, n); MC_CHECK(!memcmp(q + off, p, n), "piece of %zu bytes modified", n); free(q); mc_step(); }
static void check(const uint8_t *g, int n, const char *how, int i, int j) { uint8_t w[20]; ref(m, n, w); MC_CHECK(!memcmp(g, w, 20), "SHA-1 of %d bytes %s %d %d is %s, must be %s", n, how, i, j, hx(g), hx(w)); mc_state(mc_hash(n, w, 20)); if (n > 63) mc_nontrivial(); }
static void huge(size_t a, size_t b, size_t piece) {
    uint8_t *p = mmap(NULL, a + b, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), g[20], w[20]; if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(3); }
    zt_sha1_ctx c; zt_sha1_init(&c); if (piece) for (size_t i = 0; i < a + b; i += piece) zt_sha1_update(&c, p + i, a + b - i < piece ? a + b - i : piece); else { zt_sha1_update(&c, p, a); if (b) zt_sha1_update(&c, p + a, b); } zt_sha1_finalize(&c, g); ref(p, a + b, w); munmap(p, a + b); mc_step();
    MC_CHECK(!memcmp(g, w, 20), "SHA-1 of %zu zero bytes fed as %zu and %zu, pieces of %zu", a + b, a, b, piece);
}
void mc_run(void) {
    
#ifdef HUGE_ONLY
    int mode = 7;
#else
    int mode = mc_choose(7);
#endif
    uint8_t g[20]; zt_sha1_ctx c;
    if (mode == 0) { int n = mc_choose(maxall), f = mc_choose(4), off = mc_choose(8); fill(n, f); MC_LOG("SHA-1 of %d bytes pattern %d at alignment %d", n, f, off); zt_sha1_init(&c); feed(&c, m, n, off); zt_sha1_finalize(&c, g); check(g, n, "whole at alignment", off, f); uint8_t *q = (void *)mc_dupn(m, n); zt_sha1_data(q, n, g); MC_CHECK(!memcmp(q, m, n), "message of %d bytes modified", n); free(q); check(g, n, "at once, pattern", f, 0); }
    else if (mode == 1) { int n = mc_choose(maxcut), i = mc_choose(n + 1), f = mc_choose(2); fill(n, f); MC_LOG("SHA-1 of %d bytes, cut at %d", n, i); zt_sha1_init(&c); feed(&c, m, i, 0); feed(&c, m + i, n - i, 0); zt_sha1_finalize(&c, g); check(g, n, "cut at", i, f); }
    else if (mode == 2) { int n = mc_choose(maxthree), i = mc_choose(n + 1), j = i + mc_choose(n - i + 1); fill(n, 0); MC_LOG("SHA-1 of %d bytes, cut at %d and %d", n, i, j); zt_sha1_init(&c); feed(&c, m, i, 0); feed(&c, m + i, j - i, 0); feed(&c, m + j, n - j, 0); zt_sha1_finalize(&c, g); check(g, n, "cut at", i, j); }
    else if (mode == 3) { int n = mc_choose(maxall), k = 1 + mc_choose(70); fill(n, 3); MC_LOG("SHA-1 of %d bytes in pieces of %d", n, k); zt_sha1_init(&c); for (int i = 0; i < n; i += k) feed(&c, m + i, n - i < k ? n - i : k, 1); zt_sha1_finalize(&c, g); check(g, n, "in pieces of", k, 0); }
    else if (mode == 4) { /* two messages fed in turns */ int n = mc_choose(140), k = 1 + mc_choose(67); zt_sha1_ctx e; fill(n, 0); MC_LOG("two messages of %d bytes in turns of %d", n, k); zt_sha1_init(&c); zt_sha1_init(&e); uint8_t z[140], w[20], h[20]; for (int i = 0; i < n; i++) z[i] = ~m[i]; for (int i = 0; i < n; i += k) { int l = n - i < k ? n - i : k; feed(&c, m + i, l, 0); feed(&e, z + i, l, 0); } zt_sha1_finalize(&c, g); zt_sha1_finalize(&e, h); check(g, n, "in turns of", k, 0); ref(z, n, w); MC_CHECK(!memcmp(h, w, 20), "second of two messages of %d bytes in turns of %d", n, k); zt_sha1_init(&c); feed(&c, m, n, 0); zt_sha1_finalize(&c, g); check(g, n, "with a reused context", 0, 0); }
    else if (mode == 5) { /* digest to text and back */ memset(m, (int[]){ 0, 0xff, 0xa5 }[mc_choose(3)], 20); m[mc_choose(20)] = mc_choose(256); char *t = malloc(41), *r; memset(t, 0x5a, 41); r = zt_sha1_tostr(m, t); MC_CHECK(r == t && t[40] == 0 && !strcmp(t, hx(m)), "text of %s is %.41s", hx(m), t);
        uint8_t *d = malloc(20), *q; memset(d, 0x5a, 20); q = zt_str_tosha1(t, d); MC_CHECK(q == d && !memcmp(d, m, 20), "text %s read as %s", t, hx(d)); for (char *s = t; *s; s++) if (*s >= 'a') *s -= 32; memset(d, 0x5a, 20); q = zt_str_tosha1(t, d); MC_CHECK(q == d && !memcmp(d, m, 20), "text %s read as %s", t, hx(d)); free(d); free(t); mc_step(); mc_nontrivial(); mc_state(mc_hash(5, m, 20)); }
    else if (mode == 6) { /* malformed text */ char t[41]; fill(20, 0); strcpy(t, hx(m)); int k = mc_choose(40), v = mc_choose(256); t[k] = v; size_t n = strlen(t); MC_LOG("reading '%s'", t); char *s = mc_dupn(t, n + 1); uint8_t d[20]; uint8_t *q = zt_str_tosha1(s, d); int ok = v && strchr("0123456789abcdefABCDEF", v) != NULL; MC_CHECK(ok ? q == d : q == NULL, "text '%s' %s", t, ok ? "rejected" : "accepted"); free(s); mc_step(); mc_state(mc_hash(6, t, n)); }
    else { /* lengths beyond 32 bits of bits, and (thorough) of bytes */ int k = mc_choose(mc_thorough ? 7 : 4); const size_t S[][3] = { { ((size_t)1 << 29) + 1, 0, 0 }, { ((size_t)1 << 29) - 65, 70, 0 }, { ((size_t)1 << 30) + 77, 0, 65537 }, { (size_t)3 << 29, 5, 1 << 26 }, { ((size_t)1 << 32) + 5, 0, 0 }, { 100, ((size_t)1 << 32) - 1, 0 }, { (size_t)5 << 30, 9, 63 } }; MC_LOG("SHA-1 of %zu bytes fed as %zu and %zu, pieces of %zu", S[k][0] + S[k][1], S[k][0], S[k][1], S[k][2]); huge(S[k][0], S[k][1], S[k][2]); }
}
