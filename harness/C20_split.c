/* C20: splitting, cutting and tokenising of every short string, against definitions by position. */
#include "mc.h"
#include <zt.h>
static int maxlen;
static const unsigned char AB[] = { '/', 'a', ':', 0xe9 };
static const char *SETS[] = { "/", ":", "/:", "", "a\xe9", "x" };
static const char *sh(const char *s) { static char b[4][64]; static int k; char *o = b[k++ & 3]; int n = 0; for (; *s && n < 50; s++) n += *s > 32 && *s < 127 ? sprintf(o + n, "%c", *s) : sprintf(o + n, "\\x%02x", (unsigned char)*s); o[n] = 0; return o; }
static char want[40][16]; static int nw; static char key[120];
static void add(const char *p, int n) { memcpy(want[nw], p, n); want[nw++][n] = 0; }
static void eat(zt_ptr_array *a, int how) {
    MC_CHECK(a, "%s: nothing returned", key);
    for (int i = 0; i < nw; i++) { char *g = zt_ptr_array_get_idx(a, i); MC_CHECK(g && !strcmp(g, want[i]), "%s: piece %d is '%s', must be '%s'", key, i, g ? sh(g) : "(none)", sh(want[i])); }
    MC_CHECK(zt_ptr_array_get_idx(a, nw) == NULL, "%s: more than %d pieces", key, nw);
    int r = how ? zt_cstr_cut_free(a) : zt_cstr_split_free(a); MC_CHECK(r == 0, "%s: free %d", key, r); mc_step();
}
void mc_setup(void) { maxlen = mc_param("length", 6, 8); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    int n = mc_choose(maxlen + 1), how = mc_choose(3); char b[16]; for (int i = 0; i < n; i++) b[i] = AB[mc_choose(4)]; b[n] = 0;
    char *s = mc_dupn(b, n + 1); long live = mc_live_blocks(); nw = 0;
    if (how == 0) for (unsigned k = 0; k < sizeof SETS / sizeof *SETS; k++) {
        nw = 0; for (int i = 0; i < n;) { if (strchr(SETS[k], b[i])) { i++; continue; } int e = i; while (e < n && !strchr(SETS[k], b[e])) e++; add(b + i, e - i); i = e; }
        snprintf(key, sizeof key, "split('%s', '%s')", sh(b), sh(SETS[k])); MC_LOG("%s", key); eat(zt_cstr_split(s, SETS[k]), 0);
    } else for (int k = 0; k < 4; k++) for (int keep = 0; keep < 2; keep++) for (int sg = 0; sg < 2; sg++) {
        char d = AB[k]; int delim = sg ? (int)d : (int)(unsigned char)d; nw = 0;
        if (how == 1) { for (int i = 0; i + 1 < n; i++) if (b[i] == d) add(b + i + !keep, n - i - !keep); }
        else { int m = n && b[n - 1] == d ? n - 1 : n; add(b, m); for (int p = m - 1; p > 0; p--) if (b[p] == d) add(b, p); }
        snprintf(key, sizeof key, "%s('%s', %d, %d)", how == 1 ? "cut" : "tok", sh(b), delim, keep); MC_LOG("%s", key);
        eat(how == 1 ? zt_cstr_cut(s, delim, keep * 3) : zt_cstr_tok(s, delim, keep), 1);
    }
    MC_CHECK(!strcmp(s, b), "%s: input changed", key); MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); free(s);
    if (nw > 1) mc_nontrivial(); mc_state(mc_hash(how, b, n));
}
