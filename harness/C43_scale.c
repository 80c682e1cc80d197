/* C43: dumps of many rows, up to inputs beyond 4 GiB (-DHUGE_ONLY): every row's offset, bytes and text, and the printer's form of large offsets. */
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <unistd.h>
#include <zt.h>
static size_t n, rows, at; static int huge; static char key[80]; static char *buf;
static int rep; static inline unsigned char byte(size_t i) { if (rep) i &= (1 << 24) - 1; return i * 131 + (i >> 8) + (i >> 16) * 7; }
static int stopat;
static int out(void *ctx, size_t addr, char *hex, char *txt) {
    if (!hex) { MC_CHECK(!txt && rows == (n + 15) / 16, "%s: end after %zu rows", key, rows); rows = (size_t)-2; return 0; }
    MC_CHECK(ctx == &rows && rows < (n + 15) / 16, "%s: row %zu is too many", key, rows); MC_CHECK(addr == 16 * rows, "%s: row %zu at %zu", key, rows, addr);
    size_t i = 16 * rows, m = n - i < 16 ? n - i : 16; static const char D[] = "0123456789abcdef"; for (size_t j = 0; j < m; j += huge ? 5 : 1) { unsigned char c = byte(i + j); char u = hex[3 * j], v = hex[3 * j + 1]; if (u >= 'A' && u <= 'F') u += 32; if (v >= 'A' && v <= 'F') v += 32; MC_CHECK(u == D[c >> 4] && v == D[c & 15] && hex[3 * j + 2] == ' ' && txt[j] == (c >= 32 && c < 127 ? c : '.'), "%s: row %zu column %zu is %.2s, %.1s", key, rows, j, hex + 3 * j, txt + j); }
    MC_CHECK(hex[3 * m] == 0 && txt[m] == 0, "%s: row %zu is too long", key, rows); rows++; return stopat && (int)rows == stopat ? -1 : 0;
}
static int get(void *d) { return at < n ? byte(at++) : EOF; }
void mc_setup(void) { mc_pure = 1;
#ifdef HUGE_ONLY
    mc_shard_depth = 1;
#else
    mc_shard_depth = 2;
#endif
}
void mc_run(void) {
    rows = at = 0; stopat = 0;
#ifdef HUGE_ONLY
    huge = 1; n = ((size_t)1 << 32) + 77; snprintf(key, sizeof key, "dump of %zu bytes", n); int str = mc_choose(2); MC_LOG("%s", key); size_t g, S = 1 << 24, m = n / S; if (!str) g = zt_hexdump(get, NULL, out, &rows); else { /* 16 MiB mapped again and again */
        rep = 1; int fd = memfd_create("h", 0); if (fd < 0 || ftruncate(fd, S)) exit(3); unsigned char *b = mmap(NULL, S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t j = 0; j < S; j++) b[j] = byte(j); unsigned char *q = mmap(NULL, (m + 2) * S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) exit(3); for (size_t j = 0; j < m; j++) if (mmap(q + j * S, S, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3); memcpy(q + m * S, b, n - m * S); close(fd); g = zt_hexdump_str((char *)q, n, out, &rows); rep = 0; munmap(q, (m + 2) * S); munmap(b, S); } MC_CHECK(g == n && rows == (size_t)-2, "%s: result %zu", key, g); mc_step(); mc_nontrivial(); mc_state(n);
#else
    static const int B[] = { 8, 10, 12, 15, 16, 17, 20 }; int e = mc_choose(7), d = (int)mc_choose(35) - 17, how = mc_choose(3); n = ((size_t)1 << B[e]) + d; snprintf(key, sizeof key, "dump of %zu bytes", n); MC_LOG("%s (%d)", key, how); size_t g;
    if (how == 0) { if (e > 3 && mc_choose(2)) stopat = 4097; g = zt_hexdump(get, NULL, out, &rows); }
    else { buf = malloc(n); for (size_t i = 0; i < n; i++) buf[i] = byte(i); if (how == 1) g = zt_hexdump_str(buf, n, out, &rows);
        else { char *o = NULL; size_t ol; FILE *sv = stdout; stdout = open_memstream(&o, &ol); g = zt_hexdump_str(buf, n, NULL, NULL); fclose(stdout); stdout = sv; char *p = o; for (size_t r = 0; r * 16 < n; r++) { char *x; size_t a = strtoull(p, &x, 16); MC_CHECK(a == r * 16 && x - p == (a < 65535 ? 4 : 8), "%s: row %zu printed at %zx", key, r, a); char *nl = strchr(p, '\n'); MC_CHECK(nl, "%s: row %zu missing", key, r); for (size_t j = 0; j < 16 && r * 16 + j < n; j++) { unsigned v = strtoul(x, &x, 16); MC_CHECK(v == byte(r * 16 + j), "%s: row %zu column %zu printed as %02x", key, r, j, v); } x += strspn(x, " "); size_t m = n - r * 16 < 16 ? n - r * 16 : 16; MC_CHECK(x[0] == '|' && x[1] == ' ' && nl - x == 2 + (long)m, "%s: row %zu has no text", key, r); for (size_t j = 0; j < m; j++) { unsigned char c = byte(r * 16 + j); MC_CHECK(x[2 + j] == (c >= 32 && c < 127 ? c : '.'), "%s: row %zu text %zu", key, r, j); } p = nl + 1; } MC_CHECK(!strcmp(p, "\n"), "%s: ends with '%.20s'", key, p); free(o); rows = (size_t)-2; }
        for (size_t i = 0; i < n; i++) MC_CHECK((unsigned char)buf[i] == byte(i), "%s: input changed", key); free(buf); }
    if (stopat && (size_t)stopat <= (n + 15) / 16) MC_CHECK(g == (size_t)-1 && rows == (size_t)stopat, "%s refused after %d rows: result %zd, %zu rows", key, stopat, (ssize_t)g, rows); else MC_CHECK(g == n && rows == (size_t)-2, "%s: result %zu", key, g); mc_step(); mc_nontrivial(); mc_state(mc_mix(n, how));
#endif
}
