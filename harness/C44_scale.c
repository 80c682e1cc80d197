/* C44: names and paths of many lengths, directory names with dots, PATH lists of hundreds of directories, deep trees: program name, program path and base directory. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
static char top[300], deep[6000]; static size_t lvl[40]; static int nl;
/* a chain of directories with names of 200 characters below top; lvl[i]: length of the path of the i-th */
void mc_setup(void) { char c[200]; if (!getcwd(c, sizeof c)) exit(3); snprintf(top, sizeof top, "%s/s%d", c, (int)getpid()); mkdir(top, 0755); strcpy(deep, top); lvl[0] = strlen(deep); while (lvl[nl] + 202 + 40 < PATH_MAX) { size_t l = lvl[nl]; deep[l++] = '/'; memset(deep + l, 'a' + nl, 200); deep[l + 200] = 0; if (mkdir(deep, 0755)) exit(4); lvl[++nl] = l + 200; } mc_shard_depth = 3; }
static void at(int i, const char *n, char *o) { sprintf(o, "%.*s/%s", (int)lvl[i], deep, n); }
static void touch(const char *f) { int d = open(f, O_CREAT | O_WRONLY, 0755); if (d < 0) exit(5); close(d); }
static void norm(const char *p, const char *cwd, char *o) { static char t[400000]; if (p[0] == '/') strcpy(t, p); else sprintf(t, "%s/%s", cwd, p); char *q = t; *o = 0; size_t k = 0; while (*q) { while (*q == '/') q++; size_t n = strcspn(q, "/"); if (n && !(n == 1 && *q == '.')) { o[k++] = '/'; memcpy(o + k, q, n); k += n; } q += n; } if (!k) o[k++] = '/'; o[k] = 0; }
static void want(const char *got, const char *exp, const char *cwd, const char *what) { static char g[400000], e[400000]; norm(got, cwd, g); norm(exp, cwd, e); MC_LOG("got %.300s want %.300s", got, exp); size_t i = 0; while (g[i] && g[i] == e[i]) i++; if (g[i] || e[i]) mc_fail("%s: length %zu, must be %zu, differs at byte %zu", what, strlen(g), strlen(e), i < strlen(top) ? 0 : i - strlen(top)); if (exp[0] == '/' && got[0] != '/') mc_fail("%s is not absolute", what); }
static const char *DD[] = { ".hidden", "..x", "...", ".", "..", "a.b", "x.", "x..", ". ", "..hidden..", "a" };
static const int LN[] = { 1, 2, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3500 };
void mc_run(void) {
    int mode = mc_choose(5); char w[300], e[9000], f[9000], cwd[400]; if (chdir(top)) exit(3); strcpy(cwd, top);
    if (mode == 0) { /* relative invocations through directories whose names have dots */
        int pre = mc_choose(4), n = 1 + mc_choose(3); char av[200] = ""; strcpy(av, pre == 0 ? "" : pre == 1 ? "./" : pre == 2 ? "../" : "././"); for (int i = 0; i < n; i++) { strcat(av, DD[mc_choose(11)]); strcat(av, i == 1 && mc_choose(2) ? "//" : "/"); } snprintf(e, sizeof e, "%s/%s", cwd, av); strcat(av, mc_choose(2) ? "prog" : ".prog.x"); snprintf(w, sizeof w, "path of %s", av); MC_LOG("%s", w); setenv("PATH", "/bin", 1);
        char *a = mc_dupn(av, strlen(av) + 1), *g = zt_progpath(a); MC_CHECK(!strcmp(a, av), "argument modified"); free(a); mc_step(); want(g, e, cwd, w); mc_nontrivial(); mc_state(mc_hash(1, av, strlen(av))); }
    else if (mode == 1) { /* long invocations */
        int L = LN[mc_choose(31)], abs = mc_choose(3), comp = mc_choose(3), pl = mc_choose(3); static char av[9000]; size_t l = abs == 0 ? (size_t)sprintf(av, "/") : abs == 1 ? (size_t)sprintf(av, "./") : 0; size_t b = l; while (l - b < (size_t)L) { av[l] = comp && (l - b) % (comp == 1 ? 201 : 2) == (comp == 1 ? 200 : 1) && l - b + 1 < (size_t)L ? '/' : 'a' + l % 26; l++; } av[l] = 0; if (abs == 0) strcpy(e, av); else sprintf(e, "%s/%s", cwd, av); av[l++] = '/'; int PL = pl == 0 ? 1 : pl == 1 ? 255 : 64; memset(av + l, 'p', PL); av[l + PL] = 0; if (strlen(e) >= PATH_MAX - 2) return; snprintf(w, sizeof w, "path of a program of %d bytes in a directory of %d bytes (%s, %d)", PL, L, abs == 0 ? "absolute" : abs == 1 ? "dot" : "relative", comp); MC_LOG("%s", w);
        if (mc_choose(2)) zt_progpath("/an/earlier/invocation/with/a/long/directory/name/for/its/program/prog"); char *a = mc_dupn(av, strlen(av) + 1), *g = zt_progpath(a); free(a); mc_step(); want(g, e, cwd, w);
        for (int o = 0; o < 2; o++) { a = mc_dupn(av, strlen(av) + 1); g = zt_progname(a, o ? STRIP_DIR : 0); free(a); MC_CHECK(!strcmp(g, o ? av + strlen(av) - PL : av), "%s: name of %zu bytes", w, strlen(g)); } mc_nontrivial(); mc_state(mc_mix(mc_mix(L, abs * 9 + comp * 3), pl)); }
    else if (mode == 2) { /* PATH lists of many and long directories; the program is in the k-th */
        static const int NC[] = { 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 513 }; int n = NC[mc_choose(16)], kk = mc_choose(5), k = kk == 0 ? 0 : kk == 1 ? n / 2 : kk == 2 ? n - 1 : kk == 3 ? n > 255 ? 255 : -1 : -1, kind = mc_choose(4), dir = mc_choose(nl < 4 ? nl : 4), lev = dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? nl / 2 : nl; static char P[3000000]; size_t l = 0; char d[7000]; at(lev, "prog", f); touch(f); sprintf(d, "%.*s", (int)lvl[lev], deep);
        for (int i = 0; i < n; i++) { if (i) P[l++] = ':'; if (i == k) l += sprintf(P + l, "%s%s", d, kind & 1 ? "/" : ""); else if (kind == 2) { l += sprintf(P + l, "%s/none/", top); memset(P + l, 'n', 250); l += 250; } else if (kind == 3) l += sprintf(P + l, "%.*s/n%d", (int)lvl[i % (nl + 1)], deep, i); else l += sprintf(P + l, "/n%d", i); } P[l] = 0; setenv("PATH", P, 1);
        snprintf(w, sizeof w, "path of prog, PATH of %d directories (%d), program in number %d at depth %d", n, kind, k, lev); MC_LOG("%s", w); int here = mc_choose(2); if (here) touch("prog"); /* a program of that name here does not matter */ char *a = mc_dupn("prog", 5), *g = zt_progpath(a); free(a); mc_step(); want(g, k >= 0 ? d : cwd, cwd, w); unlink(f); unlink("prog"); mc_nontrivial(); mc_state(mc_mix(mc_mix(n, k), lev * 4 + kind)); }
    else if (mode == 3) { /* base directory below deep trees */
        int L = mc_choose(nl + 1), T = mc_choose(L + 2) - 1, rel = mc_choose(2), trl = mc_choose(3), extra = mc_choose(3); char tr[300]; memset(tr, 't', 255); tr[trl == 0 ? 1 : trl == 1 ? 20 : 39] = 0; static char p[7000]; sprintf(p, "%.*s%s", (int)(lvl[L] - (rel ? lvl[0] + 1 : 0)), deep + (rel ? lvl[0] + 1 : 0), extra == 1 ? "/" : extra == 2 ? "/none/none" : ""); if (rel && L == 0) return; if (strlen(p) >= PATH_MAX) return; if (T >= 0) { at(T, tr, f); if (strlen(f) >= PATH_MAX) return; touch(f); }
        int found = T >= (rel ? 1 : 0); snprintf(w, sizeof w, "base of a %spath of depth %d (%zu bytes), entry at depth %d", rel ? "relative " : "", L, strlen(p) - (rel ? 0 : lvl[0]), T); MC_LOG("%s", w); char *c = mc_dupn(p, strlen(p) + 1), *g = zt_find_basedir(c, tr); MC_CHECK(!strcmp(c, p), "%s: path modified", w); free(c); mc_step(); if (found) { sprintf(e, "%.*s/", (int)(lvl[T] - (rel ? lvl[0] + 1 : 0)), deep + (rel ? lvl[0] + 1 : 0)); if (extra == 1 && T == L) strcat(e, "/"); }
        if (T >= 0) unlink(f); MC_CHECK(!!g == found, "%s: %s", w, g ? "found" : "not found"); if (g) { MC_CHECK(!strcmp(g, e), "%s: has %zu bytes, must have %zu", w, strlen(g), strlen(e)); mc_nontrivial(); zt_free(g); } mc_state(mc_mix(mc_mix(L, T), rel * 9 + trl * 3 + extra)); }
    else { /* names */
        int L = LN[mc_choose(31)], D = mc_choose(2) ? LN[mc_choose(31)] : 0, o = mc_choose(2), form = mc_choose(3); static char n[20000]; size_t l = 0; if (D) { memset(n, 'd', D); l = D; n[l++] = '/'; } for (int i = 0; i < L; i++) n[l++] = form == 0 ? 'a' + i % 26 : form == 1 ? (i % 7 == 3 ? '.' : 'n') : (char)(i % 5 == 2 ? 0xc3 : 0xa9); n[l] = 0; if (l >= PATH_MAX) return; snprintf(w, sizeof w, "name of %d bytes after a directory of %d bytes, %s", L, D, o ? "stripped" : "kept"); MC_LOG("%s", w); if (mc_choose(2)) zt_progname("some/earlier/name/of/the/program/which/is/longer", 0); char *c = mc_dupn(n, l + 1), *g = zt_progname(c, o ? STRIP_DIR : 0); free(c); mc_step(); MC_CHECK(!strcmp(g, o ? n + l - L : n), "%s: has %zu bytes", w, strlen(g)); MC_CHECK(zt_progname(NULL, 0) == g && !strcmp(g, o ? n + l - L : n), "%s: forgotten", w); mc_nontrivial(); mc_state(mc_mix(mc_mix(L, D), o * 3 + form)); }
    if (chdir("/")) exit(3);
}
