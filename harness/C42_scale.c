/* C42: byte strings of many lengths, up to beyond 4 GiB (-DHUGE_ONLY), hashed whole and in pieces. */
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <unistd.h>
#include <zt.h>
static uint32_t f32(const unsigned char *p, size_t n, uint32_t h) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u; return h; }
static uint64_t f64(const unsigned char *p, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
#define I32 2166136261u
#define I64 14695981039346656037ull
void mc_setup(void) { mc_pure = 1;
#ifdef HUGE_ONLY
    mc_shard_depth = 1;
#else
    mc_shard_depth = 3;
#endif
}
static void all(const char *k, unsigned char *p, size_t n, size_t sl, int w) { /* sl: length as a string */
    uint32_t s3 = w & 8 ? 0xfedcba98u : 0; uint64_t s6 = w & 8 ? 0xfedcba9876543210ull : 0;
    switch (w & 3) {
    case 0: { uint32_t g = zt_hash32_buff(p, n, s3), e = f32(p, n, s3 ? s3 : I32); MC_CHECK(g == e, "%s: hash32 is %08x, must be %08x", k, g, e); break; }
    case 1: { uint64_t g = zt_hash64_buff(p, n, s6), e = f64(p, n, s6 ? s6 : I64); MC_CHECK(g == e, "%s: hash64 is %016llx, must be %016llx", k, (unsigned long long)g, (unsigned long long)e); break; }
    case 2: { uint32_t g = zt_hash32_cstr(p, s3), e = f32(p, sl, s3 ? s3 : I32); MC_CHECK(g == e, "%s: hash32 of string is %08x, must be %08x", k, g, e); break; }
    default: { uint64_t g = zt_hash64_cstr(p, s6), e = f64(p, sl, s6 ? s6 : I64); MC_CHECK(g == e, "%s: hash64 of string is %016llx, must be %016llx", k, (unsigned long long)g, (unsigned long long)e); } }
    mc_step(); mc_nontrivial(); mc_state(mc_mix(n, w));
}
void mc_run(void) {
    char k[100];
#ifdef HUGE_ONLY
    static const size_t N[] = { ((size_t)1 << 31) - 1, ((size_t)1 << 31) + 7, ((size_t)1 << 32) - 1, ((size_t)1 << 32), ((size_t)1 << 32) + 77 }; int i = mc_choose(mc_thorough ? 20 : 4), w = i & 3; i >>= 2; size_t n = mc_thorough ? N[i] : N[4], S = 1 << 24; snprintf(k, sizeof k, "%zu bytes", n); MC_LOG("%s, function %d", k, w);
    int fd = memfd_create("h", 0); if (fd < 0 || ftruncate(fd, S)) exit(3); unsigned char *b = mmap(NULL, S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t j = 0; j < S; j++) b[j] = 1 + (j * 131 + (j >> 8) + (j >> 16)) % 255;
    size_t m = n / S; unsigned char *p = mmap(NULL, (m + 2) * S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) exit(3); for (size_t j = 0; j < m; j++) if (mmap(p + j * S, S, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3); memcpy(p + m * S, b, n - m * S); close(fd); all(k, p, n, n, w); munmap(p, (m + 2) * S); munmap(b, S);
#else
    static const int B[] = { 6, 7, 8, 10, 12, 15, 16, 17, 20, 24 }; int e = mc_choose(10), d = (int)mc_choose(7) - 3, f = mc_choose(3), w = mc_choose(4) | (mc_choose(2) << 3), cut = mc_choose(4); if ((e == 9 && (d != 1 || f != 1 || cut || w > 3)) || (e == 8 && (d < 0 || w > 3))) return; size_t n = ((size_t)1 << B[e]) + d; snprintf(k, sizeof k, "%zu bytes, pattern %d", n, f); MC_LOG("%s, function %d, cut %d", k, w, cut);
    unsigned char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = f == 0 ? i * 31 + (i >> 8) : f == 1 ? 1 + i % 255 : 0xff; p[n] = 0; size_t sl = strlen((char *)p); if ((w & 3) < 2) { unsigned char *q = (void *)mc_dupn(p, n); free(p); p = q; } else { p = realloc(p, sl + 1); }
    if (cut == 0) all(k, p, n, sl, w); else if ((w & 3) < 2) { size_t step = cut == 1 ? 1 : cut == 2 ? 65535 : 65536; if (cut == 1 && n > 70000) step = 255; uint32_t h3 = 0; uint64_t h6 = 0; size_t i = 0; for (; i < n; i += step) { size_t l = n - i < step ? n - i : step; if (w & 1) { h6 = zt_hash64_buff(p + i, l, h6); if (!h6) break; } else { h3 = zt_hash32_buff(p + i, l, h3); if (!h3) break; } mc_step(); } if (i >= n) { if (w & 1) MC_CHECK(h6 == f64(p, n, I64), "%s: hash64 in pieces of %zu", k, step); else MC_CHECK(h3 == f32(p, n, I32), "%s: hash32 in pieces of %zu", k, step); mc_nontrivial(); } }
    free(p);
#endif
}
