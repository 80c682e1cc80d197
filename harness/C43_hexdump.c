/* C43: hex dumps of every length over several rows and every byte value at every column. */
#include "mc.h"
#include <ctype.h>
#include <zt.h>
static unsigned char b[100]; static size_t n, rows, calls; static int stop; static char key[80];
static void refrow(size_t r, char *hex, char *txt) { hex[0] = txt[0] = 0; for (size_t i = 16 * r; i < n && i < 16 * r + 16; i++) { hex += sprintf(hex, "%02x ", b[i]); *txt++ = b[i] >= 32 && b[i] < 127 ? b[i] : '.'; *txt = 0; } }
static int out(void *ctx, size_t addr, char *hex, char *txt) {
    MC_CHECK(ctx == &rows, "%s: context", key); calls++; mc_step();
    if (!hex) { MC_CHECK(!txt && rows == (n + 15) / 16, "%s: end after %zu rows", key, rows); rows = 999; return 0; }
    MC_CHECK(rows < (n + 15) / 16, "%s: row %zu is too many", key, rows);
    char h[64], t[20]; refrow(rows, h, t); MC_CHECK(addr == 16 * rows, "%s: row %zu at %zu", key, rows, addr); MC_CHECK(!strcmp(hex, h), "%s: row %zu is '%s', must be '%s'", key, rows, hex, h); MC_CHECK(!strcmp(txt, t), "%s: row %zu has text '%s', must be '%s'", key, rows, txt, t);
    rows++; return stop >= 0 && (int)rows > stop ? -1 : 0;
}
static int oneline(char *o, size_t addr, const char *h, const char *t) { int k = sprintf(o, addr < 65535 ? "%.4zX   " : addr < 4294967295UL ? "%.8zX   " : "%.16zX   ", addr), base = (k - 3) + 55; for (int g = 0; g < 4; g++) k += sprintf(o + k, "%s%.12s", g ? " " : "", strlen(h) > (size_t)g * 12 ? h + g * 12 : ""); while (k < base) o[k++] = ' '; return k + sprintf(o + k, "| %s\n", t); }
struct src { size_t at; }; static int get(void *d) { struct src *s = d; return s->at < n ? b[s->at++] : EOF; }
void mc_setup(void) { mc_pure = 1; }
void mc_run(void) {
    int mode = mc_choose(4); stop = -1; int quickly = 0;
    if (mode == 0) { n = mc_choose(mc_thorough ? 100 : 70); int f = mc_choose(4); for (size_t i = 0; i < n; i++) b[i] = f == 0 ? i : f == 1 ? 255 - i : f == 2 ? 0xff : 'a' + i % 26; stop = (int)mc_choose(5) - 1; snprintf(key, sizeof key, "dump of %zu bytes, pattern %d", n, f); }
    else if (mode == 1) { int at = mc_choose(32), v = mc_choose(256); n = 17 + mc_choose(16); if (at >= (int)n) return; memset(b, 'x', n); b[at] = v; snprintf(key, sizeof key, "dump of %zu bytes, byte %d is %02x", n, at, v); }
    else if (mode == 3) { int at = mc_choose(mc_thorough ? 31 : 18), v = mc_choose(256), w = mc_choose(256); n = at + 2 + (w & 3); if (n < 18 && v % 3 == 0) n = 18; memset(b, 'x', n); b[at] = v; b[at + 1] = w; quickly = at % 7 != 3 || v % 16 != w % 16; snprintf(key, sizeof key, "dump of %zu bytes, bytes %d.. are %02x %02x", n, at, v, w); }
    else { /* the printer's lines at every kind of offset */
        static const size_t A[] = { 0, 16, 0xfff0, 0x10000, 0xfffffff0u, 0x100000000ull, 0xfffffffffffffff0ull }; size_t a = A[mc_choose(7)]; n = 1 + mc_choose(16); for (size_t i = 0; i < n; i++) b[i] = 0x90 + i; char h[60] = "", t[20] = "", w[200], *o = NULL; size_t ol; refrow(0, h, t); oneline(w, a, h, t); snprintf(key, sizeof key, "line of %zu bytes at %zx", n, a); MC_LOG("%s", key);
        FILE *s = stdout; stdout = open_memstream(&o, &ol); zt_hexdump_default_printer(NULL, a, h, t); fclose(stdout); stdout = s; MC_CHECK(!strcmp(o, w), "%s is '%s', must be '%s'", key, o, w); free(o); mc_step(); return; }
    MC_LOG("%s", key); char *d = mc_dupn(b, n); size_t R = (n + 15) / 16;
    rows = calls = 0; size_t g = zt_hexdump_str(d, n, out, &rows);
    if (stop >= 0 && R > (size_t)stop) MC_CHECK(g == (size_t)-1 && calls == (size_t)stop + 1, "%s, refused after %d rows: %zd after %zu calls", key, stop + 1, (ssize_t)g, calls);
    else MC_CHECK(g == n && calls == R + 1 && rows == 999, "%s: %zu bytes in %zu rows", key, g, calls);
    if (stop < 0 && !quickly) {
        struct src s = { 0 }; rows = calls = 0; g = zt_hexdump(get, &s, out, &rows); MC_CHECK(g == n && rows == 999, "%s (from a function): %zu bytes", key, g);
        char w[2000], *o = NULL; size_t ol, k = 0; for (size_t r = 0; r < R; r++) { char h[64] = "", t[20]; refrow(r, h, t); k += oneline(w + k, r * 16, h, t); } strcpy(w + k, "\n");
        FILE *sv = stdout; stdout = open_memstream(&o, &ol); g = zt_hexdump_str(d, n, NULL, NULL); fclose(stdout); stdout = sv; MC_CHECK(g == n && !strcmp(o, w), "%s printed:\n%s\nmust be:\n%s", key, o, w); free(o);
    }
    MC_CHECK(!memcmp(d, b, n), "%s: input changed", key); free(d); if (n > 16) mc_nontrivial(); mc_state(mc_hash(n, b, n));
}
