/* C22: path helpers on every short path, buffer size and suffix. */
#include "mc.h"
#include <zt.h>
static int maxlen;
static const char AB[] = { '/', 'a', '.', 'b' };
static const char *SUF[] = { NULL, "", ".", "a", ".a", "a.", "/a", "/", "aa", "b", ".b", "ab" };
static int pathstr(char *b, int max, int letters) { int n = mc_choose(max + 1); for (int i = 0; i < n; i++) b[i] = AB[mc_choose(letters)]; b[n] = 0; return n; }
static void refbase(const char *p, char *o) { int n = strlen(p); if (!n) { strcpy(o, ""); return; } while (n > 1 && p[n - 1] == '/') n--; if (n == 1 && *p == '/') { strcpy(o, "/"); return; } int s = n; while (s > 0 && p[s - 1] != '/') s--; memcpy(o, p + s, n - s); o[n - s] = 0; }
static void refdir(const char *p, char *o) { int n = strlen(p); while (n > 1 && p[n - 1] == '/') n--; while (n > 0 && p[n - 1] != '/') n--; if (!n) { strcpy(o, "."); return; } while (n > 1 && p[n - 1] == '/') n--; memcpy(o, p, n); o[n] = 0; }
static void cut(const char *want, size_t sz, const char *got, const char *key) { char w[40]; strcpy(w, want); if (strlen(w) >= sz) w[sz - 1] = 0; MC_CHECK(memchr(got, 0, sz), "%s in %zu bytes: not terminated", key, sz); MC_CHECK(!strcmp(got, w), "%s in %zu bytes is '%s', must be '%s'", key, sz, got, w); mc_step(); }
void mc_setup(void) { maxlen = mc_param("length", 7, 9); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    char p[16], w[40], key[120]; int mode = mc_choose(2);
    if (mode == 0) {
        int n = pathstr(p, maxlen, 3); char *s = mc_dupn(p, n + 1);
        char bw[40]; refbase(p, bw); refdir(p, w);
        for (size_t sz = 0; sz <= (size_t)n + 3; sz++) {
            char *o = malloc(sz + !sz); memset(o, '!', sz + !sz); snprintf(key, sizeof key, "dirname of '%s'", p); MC_LOG("%s in %zu", key, sz); char *g = zt_cstr_dirname(o, sz, s); MC_CHECK(g == o, "%s: result pointer", key); if (sz) cut(w, sz, o, key);
            for (unsigned k = 0; k < sizeof SUF / sizeof *SUF; k++) { char x[40]; strcpy(x, bw); if (SUF[k] && strlen(SUF[k]) < strlen(x) && !strcmp(x + strlen(x) - strlen(SUF[k]), SUF[k])) x[strlen(x) - strlen(SUF[k])] = 0;
                memset(o, '!', sz + !sz); snprintf(key, sizeof key, "basename of '%s' without '%s'", p, SUF[k] ? SUF[k] : "(none)"); MC_LOG("%s in %zu", key, sz); g = zt_cstr_basename(o, sz, s, SUF[k]); MC_CHECK(g == o, "%s: result pointer", key);
                if (sz && !*p && o[0] == '.' && SUF[k] == NULL) continue; /* POSIX says "." for the empty path; "" is accepted as well */
                if (sz) cut(x, sz, o, key); }
            free(o);
        }
        int a = p[0] == '/' || (p[0] == '.' && p[1] == '/'); MC_CHECK(zt_cstr_abspath(s) == a, "abspath('%s') is %d", p, !a); MC_CHECK(!strcmp(s, p), "'%s' changed", p);
        free(s); if (n > 2) mc_nontrivial(); mc_state(mc_hash(0, p, n));
    } else {
        int n = pathstr(p, 4, 4), m; char q[16]; m = pathstr(q, 4, 4); char *s = mc_dupn(p, n + 1), *t = mc_dupn(q, m + 1); snprintf(key, sizeof key, "'%s' joined with '%s'", p, q); MC_LOG("%s", key);
        int e = n, b = 0; while (e > 0 && p[e - 1] == '/') e--; while (q[b] == '/') b++; sprintf(w, "%.*s/%s", e, p, q + b); long live = mc_live_blocks();
        char *g = zt_cstr_path_append(s, t); MC_CHECK(g && !strcmp(g, w), "%s is '%s', must be '%s'", key, g ? g : "(none)", w); free(g); MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); free(s); free(t); mc_step(); if (n && m) mc_nontrivial(); mc_state(mc_hash(1, w, strlen(w)));
    }
}
