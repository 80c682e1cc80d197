/* C44: program name, program path (invocation forms x PATH lists x where the program is) and base directory search, on a real scratch tree. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
static char top[300]; static char big[6000];
static void mkf(const char *n) { char f[500]; snprintf(f, sizeof f, "%s/%s", top, n); int d = open(f, O_CREAT | O_WRONLY, 0755); if (d < 0) exit(3); close(d); }
static void rmf(const char *n) { char f[500]; snprintf(f, sizeof f, "%s/%s", top, n); unlink(f); }
static void mkd(const char *n) { char f[500]; snprintf(f, sizeof f, "%s/%s", top, n); mkdir(f, 0755); }
void mc_setup(void) { char c[200]; if (!getcwd(c, sizeof c)) exit(3); snprintf(top, sizeof top, "%s/t%d", c, (int)getpid()); mkdir(top, 0755); mkd("p"); mkd("q"); mkd("q/w"); mkd("w"); mkd("a"); mkd("a/a"); mkd("a/b"); mkd("b"); mc_shard_depth = 4; }
/* purely lexical: absolute, no '.', no empty components, '..' kept */
static void norm(const char *p, const char *cwd, char *o) { char t[12000]; if (p[0] == '/') strcpy(t, p); else sprintf(t, "%s/%s", cwd, p); char *q = t; *o = 0; size_t k = 0; while (*q) { while (*q == '/') q++; size_t n = strcspn(q, "/"); if (n && !(n == 1 && *q == '.')) { o[k++] = '/'; memcpy(o + k, q, n); k += n; } q += n; } if (!k) o[k++] = '/'; o[k] = 0; }
static void want(const char *got, const char *exp, const char *cwd, const char *what) { char g[12000], e[12000]; norm(got, cwd, g); norm(exp, cwd, e); MC_LOG("got %s want %s", got, exp); if (strcmp(g, e) || (exp[0] == '/' && got[0] != '/')) { char *x = strstr(got, top), *y = strstr(exp, top); mc_fail("%s is '%s', must be '%s'", what, x ? x + strlen(top) : got, y ? y + strlen(top) : exp); } }
static const char *AV[] = { "prog", "./prog", "../prog", "w/prog", "./w/prog", "/opt/x/prog", "/prog", "././prog", ".//prog", "w//prog", "//opt//prog", "../w/prog", "w/../prog", ".prog", "prog.exe", "./a/../b/prog", "../../prog" };
static const char *PRE[] = { NULL, "/a/long/earlier/directory/name/for/the/program/of/another/invocation/prog", "w/w/w/w/prog" };
void mc_run(void) {
    int mode = mc_choose(4); char w[200];
    if (mode == 0 || mode == 1) { /* program path */
        static const char *CW[] = { "", "/q" }; int cw = mc_choose(3); const char *av = AV[mode == 0 ? 0 : mc_choose(17)], *pre = PRE[mode == 0 ? 0 : mc_choose(3)]; char cwd[400], P[3000] = ""; if (cw < 2) snprintf(cwd, sizeof cwd, "%s%s", top, CW[cw]); else strcpy(cwd, "/");
        int have[3]; for (int i = 0; i < 3; i++) { have[i] = mc_choose(2); const char *n = i == 0 ? "p/prog" : i == 1 ? "q/prog" : "prog"; if (have[i]) mkf(n); else rmf(n); } char tq[400]; sprintf(tq, "%s/q/", top);
        int n = mc_choose(mode == 0 ? (mc_thorough ? 6 : 5) : 3); /* 0: PATH unset */ char comp[5][400]; 
        for (int i = 0; i + 1 < n; i++) { switch (mc_choose(mode == 0 ? 7 : 4)) { case 0: sprintf(comp[i], "%s/p", top); break; case 1: strcpy(comp[i], tq); break; case 2: strcpy(comp[i], ""); break; case 3: strcpy(comp[i], "p"); break; case 4: sprintf(comp[i], "%s/none", top); break; case 5: strcpy(comp[i], "."); break; default: strcpy(comp[i], "/"); } if (i) strcat(P, ":"); strcat(P, comp[i]); }
        if (n) setenv("PATH", P, 1); else unsetenv("PATH"); if (chdir(cwd)) exit(3); char *q = strstr(P, top); snprintf(w, sizeof w, "path of %s (directory %d, %d PATH components, programs %d%d%d%s)", av, cw, n - 1, have[0], have[1], have[2], pre ? ", second call" : ""); MC_LOG("%s\nPATH=%s", w, n ? P : "(unset)");
        if (pre) { zt_progpath((char *)pre); } char *a = mc_dupn(av, strlen(av) + 1), *g = zt_progpath(a); free(a); mc_step(); char e[9000]; const char *sl = strrchr(av, '/');
        if (sl) { sprintf(e, "%.*s", (int)(sl == av ? 1 : sl - av), av); if (e[0] != '/') { char t[9000]; sprintf(t, "%s/%s", cwd, e); strcpy(e, t); } want(g, e, cwd, w); }
        else if (!n) { ssize_t k = readlink("/proc/self/exe", e, 4000); e[k > 0 ? k : 0] = 0; *strrchr(e, '/') = 0; want(g, e, cwd, w); }
        else { int f = 0; if (n == 1) strcpy(comp[0], ""); for (int i = 0; i < (n == 1 ? 1 : n - 1) && !f; i++) { char t[900]; struct stat s; const char *d = comp[i][0] ? comp[i] : "."; snprintf(t, sizeof t, "%s/%s", d, av); if (stat(t, &s) == 0) { f = 1; strcpy(e, comp[i][0] ? d : cwd); } } if (!f) strcpy(e, cwd); else mc_nontrivial(); want(g, e, cwd, w); }
        char k[9000]; strcpy(k, g); char *h = zt_progpath(NULL); MC_CHECK(!strcmp(h, k), "%s forgotten", w); h = zt_progpath(""); MC_CHECK(!strcmp(h, k), "%s forgotten", w); mc_state(mc_hash(cw * 8 + have[0] * 4 + have[1] * 2 + have[2], P, strlen(P))); if (chdir("/")) exit(3); }
    else if (mode == 2) { /* program name */
        static const char *N[] = { "prog", "./prog", "/usr/bin/prog", "a", "x/y/z.exe", "..", "prog/", "/", "with space/p q", NULL, NULL, NULL }; int i = mc_choose(12), o = mc_choose(2), pr = mc_choose(2); memset(big, 'n', 5999); big[5999] = 0; if (i == 10) big[PATH_MAX] = 0; if (i == 11) { big[4090] = '/'; big[5000] = 0; } const char *n = i < 9 ? N[i] : big; snprintf(w, sizeof w, "name of %s, %s", i < 9 ? n : "long", o ? "stripped" : "kept"); MC_LOG("%s", w);
        if (pr) zt_progname("an/earlier/and/longer/name/of/the/program", 0); char *c = mc_dupn(n, strlen(n) + 1), *g = zt_progname(c, o ? STRIP_DIR : 0); free(c); mc_step(); char e[7000]; strcpy(e, n); if (o) { size_t l = strlen(e); while (l > 1 && e[l - 1] == '/') e[--l] = 0; char *s = strrchr(e, '/'); if (s && s[1]) memmove(e, s + 1, strlen(s)); }
        if (i >= 9 && strlen(e) >= PATH_MAX - 1) MC_CHECK(strlen(g) >= PATH_MAX - 1 && strlen(g) <= PATH_MAX && !strncmp(g, e, strlen(g)), "%s cut to %zu", w, strlen(g)); else if (!(o && !strcmp(e, "/"))) MC_CHECK(!strcmp(g, e), "%s is '%s', must be '%s'", w, g, e);
        strcpy(e, g); MC_CHECK(!strcmp(zt_progname(NULL, o), e) && !strcmp(zt_progname("", o), e), "%s forgotten", w); mc_nontrivial(); mc_state(mc_hash(o, e, strlen(e))); }
    else { /* base directory */
        static const char *D[] = { "", "a/", "b/", "a/a/", "a/b/" }, *C[] = { "a", "b", "c" }; char p[6000] = "", e[7000], f[300]; unsigned have = mc_choose(32); if (chdir(top)) exit(3); for (int i = 0; i < 5; i++) { sprintf(f, "%st", D[i]); if (have >> i & 1) mkf(f); else rmf(f); }
        int ab = mc_choose(2), kind = mc_choose(4); const char *tr = "t"; if (ab) { strcpy(p, top); }
        if (kind < 2) { int n = (ab ? 0 : 1) + mc_choose(ab ? 4 : 3); for (int i = 0; i < n; i++) { if (i || ab) strcat(p, "/"); strcat(p, C[mc_choose(3)]); } if (kind == 1) strcat(p, "/"); } else if (kind == 2) { size_t l = strlen(p), n = 4080 + mc_choose(30); strcpy(p + l, ab ? "/a" : "a"); l = strlen(p); while (l < n) { p[l] = l & 1 ? '/' : 'x'; l++; } p[l] = 0; } else { strcpy(p, ab ? "/usr/bin" : "a/b"); tr = ab ? "usr" : "missing"; }
        MC_LOG("base of '%.100s' (%zu bytes) with '%s', entries %u", p, strlen(p), tr, have); char q[6000]; strcpy(q, p); int found = 0; for (;;) { struct stat s; snprintf(e, sizeof e, "%s/%s", q, tr); if (strlen(e) < PATH_MAX && stat(e, &s) == 0) { found = 1; snprintf(e, sizeof e, "%s/", q); break; } char *sl = strrchr(q, '/'); if (!sl) break; *sl = 0; }
        char *c = mc_dupn(p, strlen(p) + 1), *g = zt_find_basedir(c, tr); MC_CHECK(!strcmp(c, p), "path modified"); free(c); mc_step(); char *x = strstr(p, top) ? p + strlen(top) : p; MC_CHECK(!!g == found, "base of '%.60s' with '%s': %s", x, tr, g ? "found" : "not found"); if (g) { MC_CHECK(!strcmp(g, e), "base of '%.60s' with '%s' is '%.100s', must be '%.100s'", x, tr, strstr(g, top) ? g + strlen(top) : g, strstr(e, top) ? e + strlen(top) : e); mc_nontrivial(); zt_free(g); } mc_state(mc_hash(have, p, strlen(p))); if (chdir("/")) exit(3); }
}
