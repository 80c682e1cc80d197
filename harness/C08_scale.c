/* C08 (scale): adds, vectors and drains of every size, in long histories. */
#include "mc.h"
#include <zt.h>
#define CAP (1 << 21)
static unsigned char *q; static size_t h, t; static unsigned stamp; static int maxv;
static const int SZ[] = { 0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 65537 };
#define NS (int)(sizeof SZ / sizeof *SZ)
static char *put(size_t n) { char *p = malloc(n + !n); for (size_t i = 0; i < n; i++) p[i] = q[t++] = (unsigned char)(stamp++ * 7 + (stamp >> 7) + 1); return p; }
static void is(zt_buf_t *b, const char *what) { size_t n = t - h; MC_CHECK(zt_buf_length(b) == n, "%s: length %zu, must be %zu", what, zt_buf_length(b), n); char *p = zt_buf_get(b); MC_CHECK(!!p == !!n && (!p || !memcmp(p, q + h, n)), "%s: contents differ", what); size_t u = zt_buf_unused_sz(b); if (p && u) { p[n] = 1; p[n + u - 1] = 2; } mc_step(); }
void mc_setup(void) { maxv = mc_param("vectors", 40, 100); mc_shard_depth = 2; q = malloc(CAP); }
void mc_run(void) {
    long live0 = mc_live_blocks(); h = t = 0; stamp = 1; int op = mc_choose(4); zt_buf_t *b = zt_buf_new(); is(b, "new");
    if (op == 0) {                                      /* first, drain, second, drain, third */
        int a = SZ[mc_choose(NS)], c = SZ[mc_choose(NS)], d = mc_choose(5); size_t dr = d == 0 ? 0 : d == 1 ? a / 2 : d == 2 ? a - !!a : d == 3 ? a / 3 + 1 : 17; MC_LOG("add %d, drain %zu, add %d", a, dr, c);
        char *p = put(a); zt_buf_add(b, p, a); free(p); is(b, "first"); zt_buf_drain(b, dr); h = dr < t - h ? h + dr : t; is(b, "drained"); p = put(c); zt_buf_add(b, p, c); free(p); is(b, "second");
        zt_buf_reserve(b, a); MC_CHECK(zt_buf_unused_sz(b) >= (size_t)a, "reserve(%d) leaves %zu", a, zt_buf_unused_sz(b)); is(b, "reserved"); size_t n = t - h; char *o = malloc(n + 5); size_t g = zt_buf_remove(b, o, n / 2); MC_CHECK(g == n / 2 && !memcmp(o, q + h, g), "half removed is wrong"); h += g; is(b, "half removed");
        zt_buf_expand(b, c); MC_CHECK(zt_buf_unused_sz(b) >= (size_t)c, "expand(%d) leaves %zu", c, zt_buf_unused_sz(b)); is(b, "expanded"); g = zt_buf_remove(b, o, n + 5); MC_CHECK(g == t - h && !memcmp(o, q + h, g), "rest removed is wrong"); h = t; free(o); is(b, "emptied");
    } else if (op == 1) {                               /* vectors */
        int n = mc_choose(maxv), s = SZ[mc_choose(20)], pre = mc_choose(3) * 600, dr = mc_choose(2) * 100; MC_LOG("%d vectors of about %d bytes after %d", n, s, pre); char *p = put(pre); zt_buf_add(b, p, pre); free(p); zt_buf_drain(b, dr); h = dr < (int)t ? dr : (int)t; is(b, "before");
        zt_iov_t v[100]; size_t tot = 0; for (int i = 0; i < n; i++) { v[i].iov_len = (s + i) % 600; v[i].iov_data = put(v[i].iov_len); tot += v[i].iov_len; } MC_CHECK(zt_buf_iov_len(v, n) == tot, "iov_len is %zu, must be %zu", zt_buf_iov_len(v, n), tot); zt_buf_iov_add(b, v, n); for (int i = 0; i < n; i++) free(v[i].iov_data); is(b, "vectors");
    } else if (op == 2) {                               /* sliding window: adds of one size, drains of another, many times */
        int a = SZ[mc_choose(NS - 3)], d = SZ[mc_choose(NS - 3)], n = mc_choose(3) * 30 + 3; if ((size_t)n * a >= CAP - 70000) mc_prune(); MC_LOG("%d times add %d, drain %d", n, a, d);
        for (int i = 0; i < n; i++) { char *p = put(a); zt_buf_add(b, p, a); free(p); is(b, "added"); size_t left = zt_buf_drain(b, d); h = (size_t)d < t - h ? h + d : t; MC_CHECK(!d || left == t - h, "drain(%d) returns %zu, must be %zu", d, left, t - h); is(b, "drained"); }
    } else {                                            /* one buffer onto another */
        int a = SZ[mc_choose(NS)], c = SZ[mc_choose(NS)], d = mc_choose(3); MC_LOG("%d bytes onto %d, drained %d", c, a, d); zt_buf_t *o = zt_buf_new(); char *p = put(a); zt_buf_add(b, p, a); free(p); size_t h0 = h; if (d == 1 && a) { zt_buf_drain(b, 1); h++; } char *r = put(c); zt_buf_add(o, r, c); if (d == 2 && c > 1) { zt_buf_drain(o, 1); size_t from = t - c; memmove(q + from, q + from + 1, c - 1); t--; } free(r); (void)h0; zt_buf_add_buf(b, o); is(b, "joined"); MC_CHECK(zt_buf_length(o) == 0 && zt_buf_get(o) == NULL, "source keeps %zu bytes", zt_buf_length(o)); zt_buf_add(o, "abc", 3); MC_CHECK(zt_buf_length(o) == 3 && !memcmp(zt_buf_get(o), "abc", 3), "source is unusable afterwards"); is(b, "joined"); zt_buf_free(o);
    }
    zt_buf_free(b); MC_CHECK(mc_live_blocks() == live0, "%ld heap blocks left", mc_live_blocks() - live0); mc_nontrivial(); mc_state(mc_mix(mc_mix(t, h), op));
}
