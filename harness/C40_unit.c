/* C40: every arrangement of small suites, test outcomes and command-line selections; order of calls, accounting, report and exit result. */
#include "mc.h"
#define ZT_WITH_UNIT
#include <zt.h>
#define MS 3
#define MT 3
static const char *SN0[] = { "alpha", "alp", "beta gamma" }, *TN0[] = { "one", "on", "two words" }, *SN1[] = { "alpha", "ALPHA", "-hx" }, *TN1[] = { "one", "ONE", "--lis" }, **SN, **TN, **SEL;
static int ns, nt[MS], oc[MS][MT], su[MS], td[MS], dup_; static char ev[4000], wv[4000]; static size_t el, wl;
static int data[MS]; static struct zt_unit_test *tests[MS][MT];
static void e(char c, int s, int t) { if (el < sizeof ev - 8) el += sprintf(ev + el, "%c%d%d ", c, s, t); mc_step(); }
static void w(char c, int s, int t) { wl += sprintf(wv + wl, "%c%d%d ", c, s, t); }
static void setup(void *d) { e('S', (int *)d - data, 0); } static void teardown(void *d) { e('D', (int *)d - data, 0); }
static void deep(struct zt_unit_test *test, int n) { if (n) deep(test, n - 1); else ZT_UNIT_ASSERT(test, n == 1, deep failure); }
static void body(struct zt_unit_test *test, void *d, int t) {
    int s = (int *)d - data; MC_CHECK(s >= 0 && s < ns && tests[s][t] == test, "test run with other data"); e('T', s, t);
    switch (oc[s][t]) { case 0: ZT_UNIT_ASSERT(test, s >= 0); break; case 1: break; case 2: ZT_UNIT_ASSERT(test, s < 0); e('X', s, t); break; case 3: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_ASSERT_EQUAL(test, 1, 1); deep(test, 3); e('X', s, t); break; case 4: ZT_UNIT_FAIL(test, "code %d%%", 7); e('X', s, t); break; case 5: zt_unit_test_add_exception(test); ZT_UNIT_ASSERT_NOT_EQUAL(test, 1, 2); ZT_UNIT_ASSERT(test, 1); break; default: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_EXIT(test); } e('E', s, t);
}
static const int FAILS[] = { 0, 0, 1, 1, 1, 0, 1 }, ASS[] = { 1, 0, 0, 2, 0, 2, 1 };
static void t0(struct zt_unit_test *t, void *d) { body(t, d, 0); } static void t1(struct zt_unit_test *t, void *d) { body(t, d, 1); } static void t2(struct zt_unit_test *t, void *d) { body(t, d, 2); }
static zt_unit_test_fn FN[] = { t0, t1, t2 };
static int runs, fails, asserts, exc; static char rep[12000]; static size_t rl;
static void runtest(int s, int t) { if (su[s]) w('S', s, 0); w('T', s, t); if (!FAILS[oc[s][t]]) w('E', s, t); if (td[s]) w('D', s, 0); runs++; fails += FAILS[oc[s][t]]; asserts += ASS[oc[s][t]]; exc += oc[s][t] == 5; rl += sprintf(rep + rl, "%s %d %s|", TN[t], ASS[oc[s][t]], FAILS[oc[s][t]] ? "failure" : "success"); }
static void runsuite(int s) { for (int t = 0; t < nt[s]; t++) runtest(s, t); }
static int select_(const char *n) { for (int s = 0; s < ns; s++) { if (!strcmp(n, SN[s])) { runsuite(s); return 0; } size_t k = strlen(SN[s]); if (!strncmp(n, SN[s], k) && n[k] == '.') { for (int t = 0; t < nt[s]; t++) if (!strcmp(n + k + 1, TN[t])) { runtest(s, t); return 0; } } } return -1; }
static const char *SEL0[] = { "alpha", "alp", "beta gamma", "alpha.one", "alpha.on", "alp.one", "alp.two words", "alph", "alpha.o", "alpha.", ".one", ".", "", "alpha.one.x", "nothing", "alpha..one", "one", "alphax", "-h", "--list", "-l", "--help" };
static const char *SEL1[] = { "alpha", "ALPHA", "-hx", "alpha.one", "alpha.ONE", "ALPHA.one", "-hx.one", "-hx.--lis", "Alpha", "alpha.One", "-hX", "-H", "--lis", "--listx", "-L", "-lx", "--HELP", "--hel", "-hx.-h", "-h", "-l", "alpha.-l" }; /* names that almost are others, or options */
void mc_setup(void) { mc_shard_depth = 4; }
static char *value(const char *o, const char *k) { static char b[40]; const char *p = strstr(o, "Global Stats:"); b[0] = 0; if (p) { char kk[40]; sprintf(kk, "\n  %s", k); if ((p = strstr(p, kk))) { p += strlen(kk); while (*p == ' ') p++; if (*p == ':') sscanf(p + 1, "%39s", b); } } return b; }
void mc_run(void) {
    int mode = mc_choose(3), total = 0, set = mode ? mc_choose(2) : 0; SN = set ? SN1 : SN0; TN = set ? TN1 : TN0; SEL = set ? SEL1 : SEL0; el = wl = rl = 0; ev[0] = wv[0] = rep[0] = 0; runs = fails = asserts = exc = 0; 
    ns = mode == 0 ? mc_choose(3) : mode == 1 && !set ? 2 : 3; if (set) mode = 2; const char *sel[3]; int nsel = 0, deepn = mc_thorough;
    for (int s = 0; s < ns; s++) { nt[s] = mode == 2 ? 1 + (s < 2) : mc_choose(mode == 0 ? 3 : 2) + (mode == 1); for (int t = 0; t < nt[s]; t++) oc[s][t] = mc_choose(mode == 0 ? 7 : mode == 1 ? (deepn ? 4 : 3) : 3); int f = mode == 2 ? 3 : mc_choose(mode == 0 ? 4 : 2) * (mode == 0 ? 1 : 3); su[s] = f & 1; td[s] = f >> 1; total += nt[s]; }
    if (mode) { nsel = 1 + mc_choose(2); for (int i = 0; i < nsel; i++) sel[i] = SEL[mc_choose(mode == 1 || set || deepn ? 22 : 11)]; }
    struct zt_unit *u = zt_unit_init(); MC_CHECK(u, "no unit"); for (int s = 0; s < ns; s++) { char *n = mc_dupn(SN[s], strlen(SN[s]) + 1); struct zt_unit_suite *x = zt_unit_register_suite(u, n, su[s] ? setup : NULL, td[s] ? teardown : NULL, &data[s]); free(n); for (int t = 0; t < nt[s]; t++) { n = mc_dupn(TN[t], strlen(TN[t]) + 1); tests[s][t] = zt_unit_register_test(x, n, FN[t]); free(n); } }
    char *av[5] = { "prog" }; int want = 0, list = 0; char what[300]; size_t k = sprintf(what, "tests"); for (int s = 0; s < ns; s++) { k += sprintf(what + k, " ["); for (int t = 0; t < nt[s]; t++) k += sprintf(what + k, "%d", oc[s][t]); k += sprintf(what + k, "]"); } for (int i = 0; i < nsel; i++) { k += sprintf(what + k, " '%s'", sel[i]); av[i + 1] = mc_dupn(sel[i], strlen(sel[i]) + 1); if (!strcmp(sel[i], "-h") || !strcmp(sel[i], "--help") || !strcmp(sel[i], "-l") || !strcmp(sel[i], "--list")) list = 1; } MC_LOG("%s", what);
    if (!list) { if (!nsel) for (int s = 0; s < ns; s++) runsuite(s); else for (int i = 0; i < nsel; i++) if (select_(sel[i])) want = -1; if (fails) want = -1; }
    char *o; size_t ol; FILE *sv = stdout; stdout = open_memstream(&o, &ol); int r = zt_unit_main(u, nsel + 1, av); fclose(stdout); stdout = sv;
    MC_CHECK(!strcmp(ev, wv), "%s: calls %s, must be %s", what, ev, wv); MC_CHECK((r == 0) == (want == 0), "%s: result %d, must be %s", what, r, want ? "a failure" : "0");
    MC_CHECK(u->failures == (unsigned)fails && u->successes == (unsigned)(runs - fails), "%s: counted %u failures and %u successes, must be %d and %d", what, u->failures, u->successes, fails, runs - fails);
    /* the report */
    char got[12000] = ""; size_t gl = 0; char name[100] = ""; int a = -1; char *p = o; while (!list && p && *p) { char *nl = strchr(p, '\n'); if (!nl) break; *nl = 0; if (!strncmp(p, "    ", 4) && p[4] != ' ' && nl[-1] == ':' && !strchr(p, '\'')) { snprintf(name, sizeof name, "%.*s", (int)(nl - p - 5), p + 4); a = -1; } else if (!strncmp(p, "      assertions", 16)) { char *c = strrchr(p, ':'); if (c) a = atoi(c + 1); } else if (!strncmp(p, "      result", 12)) { char *c = strrchr(p, ':'); if (c) gl += sprintf(got + gl, "%s %d %s|", name, a, c + 2); } *nl = '\n'; p = nl + 1; }
    MC_CHECK(!strcmp(got, rep), "%s: reports %s, must be %s", what, got, rep);
    if (!nsel) { const char *K[] = { "suites", "tests", "successes", "exceptions", "assertions", "failures" }; int V[] = { ns, runs, runs - fails, exc, asserts, fails }; for (int i = 0; i < 6; i++) { char b[20]; sprintf(b, "%d", V[i]); MC_CHECK(!strcmp(value(o, K[i]), b), "%s: %s reported as %s, must be %s", what, K[i], value(o, K[i]), b); } }
    if (list) { MC_CHECK(r == 0 && runs == 0, "%s: result %d", what, r); const char *first = NULL; for (int i = 0; i < nsel && !first; i++) if (!strcmp(sel[i], "-h") || !strcmp(sel[i], "--help") || !strcmp(sel[i], "-l") || !strcmp(sel[i], "--list")) first = sel[i]; if (strstr(first, "-l")) for (int s = 0; s < ns; s++) MC_CHECK(strstr(o, SN[s]), "suite not listed"); }
    for (int i = 0; i < nsel; i++) { MC_CHECK(!strcmp(av[i + 1], sel[i]), "argument modified"); free(av[i + 1]); if (!list && want && !strcmp(sel[i], "nothing")) MC_CHECK(strstr(o, "nothing"), "%s: unknown name not reported", what); }
    free(o); zt_unit_release(&u); MC_CHECK(u == NULL, "released unit kept"); if (runs > 1) mc_nontrivial(); mc_state(mc_hash(mc_hash(ns * 10 + r, wv, wl), rep, rl)); (void)total;
}
