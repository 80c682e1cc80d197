/* C08: zt_buf against a byte FIFO model, all histories up to a depth with sizes around the growth thresholds. */
#include "mc.h"
#include <zt.h>
static int depth; static char hist[400];
#define CAP (1 << 16)
static unsigned char *q[2]; static size_t len[2]; static unsigned stamp;
static void note(const char *f, int b, long a) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%c,%ld)", f, 'A' + b, a); MC_LOG("%s", hist); }
static const long sizes[] = { 0, 1, 3, 1023, 1024, 1025, 2500 };
static char *data(size_t n) { char *p = malloc(n + !n); for (size_t i = 0; i < n; i++) p[i] = (char)(stamp++ * 7 + 1); return p; }
static void app(int b, const void *p, size_t n) { if (len[b] + n > CAP) mc_prune(); memcpy(q[b] + len[b], p, n); len[b] += n; }
static void drop(int b, size_t n) { if (n >= len[b]) len[b] = 0; else { memmove(q[b], q[b] + n, len[b] - n); len[b] -= n; } }
static void verify(zt_buf_t *b, int i) {
    MC_CHECK(zt_buf_length(b) == len[i], "%s: length %zu, want %zu", hist, zt_buf_length(b), len[i]);
    char *p = zt_buf_get(b);
    MC_CHECK((p != NULL) == (len[i] != 0), "%s: get is %s with %zu bytes", hist, p ? "not NULL" : "NULL", len[i]);
    if (p) MC_CHECK(!memcmp(p, q[i], len[i]), "%s: contents differ", hist);
    /* the space announced as unused is really there: a write into it must not overrun */
    size_t u = zt_buf_unused_sz(b);
    MC_CHECK(u < CAP * 4, "%s: unused size %zu", hist, u);
    if (p && u) { p[len[i]] = 0x11; p[len[i] + u - 1] = 0x22; }
    mc_state(mc_mix(mc_mix(len[i], u), i));
}
void mc_setup(void) { depth = mc_param("depth", 4, 5); mc_pure = 1; mc_shard_depth = 3; q[0] = malloc(CAP); q[1] = malloc(CAP); }
void mc_run(void) {
    long live0 = mc_live_blocks(); hist[0] = 0; len[0] = len[1] = 0; stamp = 1;
    zt_buf_t *b[2] = { zt_buf_new(), zt_buf_new() };
    verify(b[0], 0); verify(b[1], 1);
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(8), w = 0;
        switch (op) {
        case 0: { long n = sizes[mc_choose(7)]; w = mc_choose(2); note("add", w, n); char *p = data(n); app(w, p, n); MC_CHECK(zt_buf_add(b[w], p, n) == 0, "%s failed", hist); free(p); break; }
        case 1: { long o[] = { 0, 1, len[0] / 2, (long)len[0] - 1, len[0], len[0] + 1, -1 }; int k = mc_choose(7);
            if (o[k] < -1 || (k == 3 && len[0] < 2)) mc_prune();
            note("drain", 0, k == 4 ? -100 : k == 3 ? -99 : o[k]); size_t left = zt_buf_drain(b[0], (size_t)o[k]);
            if (o[k] != 0) { drop(0, (size_t)o[k]); MC_CHECK(left == len[0], "%s returned %zu, want %zu", hist, left, len[0]); } break; }
        case 2: { size_t o[] = { 0, 1, len[0] / 2, len[0], len[0] + 5 }; size_t n = o[mc_choose(5)]; note("remove", 0, n); char *p = malloc(n + !n);
            size_t g = zt_buf_remove(b[0], p, n), want = n < len[0] ? n : len[0]; MC_CHECK(g == want, "%s returned %zu, want %zu", hist, g, want);
            MC_CHECK(!memcmp(p, q[0], want), "%s: wrong bytes", hist); drop(0, want); free(p); break; }
        case 3: { long n = (long[]){ 0, 1, 1024, 3000 }[mc_choose(4)]; note("expand", 0, n); MC_CHECK(zt_buf_expand(b[0], n) == 0, "%s failed", hist); MC_CHECK(zt_buf_unused_sz(b[0]) >= (size_t)n, "%s: unused %zu", hist, zt_buf_unused_sz(b[0])); break; }
        case 4: { long n = (long[]){ 0, 1, 1024, 3000 }[mc_choose(4)]; note("reserve", 0, n); MC_CHECK(zt_buf_reserve(b[0], n) == 0, "%s failed", hist); MC_CHECK(zt_buf_unused_sz(b[0]) >= (size_t)n, "%s: unused %zu", hist, zt_buf_unused_sz(b[0])); break; }
        case 5: { int w2 = mc_choose(2); note("add_buf-from-other", w2, 0); MC_CHECK(zt_buf_add_buf(b[w2], b[!w2]) == 0, "%s failed", hist); app(w2, q[!w2], len[!w2]); len[!w2] = 0; break; }
        case 6: { int nv = mc_choose(4); long s1 = sizes[mc_choose(7)]; note("iov", 0, nv * 10000 + s1); zt_iov_t v[3]; size_t tot = 0;
            for (int i = 0; i < nv; i++) { size_t n = i == 1 ? 2 : i == 2 ? 0 : s1; v[i].iov_len = n; v[i].iov_data = data(n); app(0, v[i].iov_data, n); tot += n; }
            MC_CHECK(zt_buf_iov_len(v, nv) == tot, "%s: iov_len", hist);
            MC_CHECK(zt_buf_iov_add(b[0], v, nv) == 0, "%s failed", hist); for (int i = 0; i < nv; i++) free(v[i].iov_data); break; }
        default: w = 1; note("drain", 1, 1); zt_buf_drain(b[1], 1); drop(1, 1);
        }
        if (len[0] && d) mc_nontrivial();
        mc_step(); verify(b[0], 0); verify(b[1], 1);
    }
    zt_buf_free(b[0]); zt_buf_free(b[1]); zt_buf_free(NULL);
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
