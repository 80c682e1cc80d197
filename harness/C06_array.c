/* C06: every operation history on a flat array against a byte model. */
#include "mc.h"
#include <zt.h>
#define CAP 64
static int depth, maxlen;
static const int sizes[] = { 1, 3, 8 };
static unsigned char m[CAP]; static size_t mlen, msize; static int stamp;
static void pat(unsigned char *p, size_t n, int seed) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(seed * 37 + i * 5 + 1); }
static char hist[300];
static void verify(zt_array_t a) {
    MC_CHECK(zt_array_length(a) == mlen, "%s: length %zu, want %zu", hist, zt_array_length(a), mlen);
    MC_CHECK(zt_array_size(a) == msize, "%s: element size %zu, want %zu", hist, zt_array_size(a), msize);
    for (size_t i = 0; i < mlen; i++) {
        char *e = mc_dupn("", 0); free(e); e = malloc(msize); memset(e, 0xEE, msize);
        MC_CHECK(zt_array_elem_copy(a, i, e) == e, "%s: elem_copy result", hist);
        MC_CHECK(!memcmp(e, m + i * msize, msize), "%s: element %zu is wrong (elem_copy)", hist, i);
        MC_CHECK(!memcmp(zt_array_get(a, i), m + i * msize, msize), "%s: element %zu is wrong (get)", hist, i);
        MC_CHECK(zt_array_get(a, i) == zt_array_data(a) + i * msize, "%s: get/data disagree", hist);
        free(e);
    }
    mc_state(mc_hash(mc_mix(mlen, msize), m, mlen * msize));
}
static void note(const char *op, int x, int y) { size_t o = strlen(hist); snprintf(hist + o, sizeof hist - o, " %s(%d,%d)", op, x, y); MC_LOG("%s", hist); }
void mc_setup(void) { depth = mc_param("depth", 4, 5); maxlen = mc_param("length", 4, 4); mc_pure = 1; mc_shard_depth = 4; }
void mc_run(void) {
    long live0 = mc_live_blocks(); stamp = 0; hist[0] = 0; memset(m, 0, sizeof m);
    zt_array_t a;
    int how = mc_choose(4); msize = sizes[mc_choose(3)];
    if (how == 0) { mlen = mc_choose(3); note("new", mlen, msize); a = zt_array_new(mlen, msize); }
    else if (how == 1 || how == 2) {
        mlen = how == 1 ? mc_choose(3) : 1 + mc_choose(2);
        note(how == 1 ? "with-copy" : "with-own", mlen, msize);
        pat(m, mlen * msize, ++stamp); char *d = mlen * msize ? malloc(mlen * msize) : malloc(1); memcpy(d, m, mlen * msize);
        a = zt_array_with(d, mlen, msize, how == 1);
        if (how == 1) { MC_CHECK(zt_array_data(a) != d, "with-copy shares the caller's storage"); memset(d, 0, mlen * msize); free(d); }
    } else {
        if (msize != 1) mc_prune();
        mlen = mc_choose(3); note("with_cstr", mlen, 1); memcpy(m, "xy", mlen); char s[3] = "xy"; s[mlen] = 0; char *d = mc_dupn(s, mlen + 1);
        a = zt_array_with_cstr(d); free(d);
    }
    verify(a);
    for (int i = 0; i < depth; i++) {
        int op = mc_choose(5);
        switch (op) {
        case 0: { if (!mlen) mc_prune(); size_t at = mc_choose(mlen); note("put", at, ++stamp); pat(m + at * msize, msize, stamp); char *e = mc_dupn(m + at * msize, msize);
            MC_CHECK(zt_array_put(a, at, e) == e, "%s result", hist); free(e); break; }
        case 1: { size_t n = mc_choose(maxlen + 1); note("resize", n, 0); if (n > mlen) memset(m + mlen * msize, 0, (n - mlen) * msize); zt_array_resize(a, n); mlen = n; break; }
        case 2: { size_t n = mc_choose(mlen + 1); note("set_length", n, 0); size_t o = zt_array_set_length(a, n); MC_CHECK(o == mlen, "%s returned %zu, want %zu", hist, o, mlen); mlen = n; break; }
        case 3: { size_t n = mc_choose(maxlen + 1); note("copy", n, 0); zt_array_t c = zt_array_copy(a, n);
            MC_CHECK(c != a && (zt_array_data(c) == NULL || zt_array_data(c) != zt_array_data(a)), "%s shares storage", hist);
            verify(a);
            if (mlen) memset(zt_array_data(a), 0xD7, mlen * msize);         /* independent of the original */
            zt_array_free(&a); MC_CHECK(a == NULL, "free leaves the handle");
            a = c; if (n > mlen) memset(m + mlen * msize, 0, (n - mlen) * msize); mlen = n; break; }
        default: { int copy = mc_choose(3); if (copy == 2) { /* part of its own contents */ if (!mlen) mc_prune(); size_t at = mc_choose(mlen), n = 1 + mc_choose(mlen - at); note("set_data-part", at, n); zt_array_set_data(a, zt_array_data(a) + at * msize, n, msize, 1); memmove(m, m + at * msize, n * msize); mlen = n; break; }
            size_t n = copy ? mc_choose(3) : 1 + mc_choose(2); note(copy ? "set_data-copy" : "set_data-own", n, 0); pat(m, n * msize, ++stamp);
            char *d = malloc(n * msize + !n); memcpy(d, m, n * msize);
            zt_array_set_data(a, d, n, msize, copy); if (copy) { memset(d, 0, n * msize); free(d); } mlen = n; }
        }
        mc_step(); verify(a); if (mlen) mc_nontrivial();
    }
    zt_array_free(&a);
    MC_CHECK(mc_live_blocks() == live0, "%s: %ld heap blocks left", hist, mc_live_blocks() - live0);
}
