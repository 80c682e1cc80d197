/* C40: many suites and tests (more than 256 failures), long names that differ only at their end, long failure texts and tests that are run again with
 * another outcome: order of calls, accounting, the report with its lists of errors and of empty tests, result, and no memory kept. */
#include "mc.h"
#define ZT_WITH_UNIT
#include <zt.h>
typedef struct { char *name; struct zt_unit_test *t; int oc; } TT; typedef struct { char *name; struct zt_unit_suite *s; int su, td, nt; TT *tt; int data; } SS;
static SS *S; static int ns; static struct zt_unit *U; static char *log_; static size_t ll, lcap; static char *want_; static size_t wl, wcap;
static void add(char **b, size_t *l, size_t *c, const char *s) { size_t n = strlen(s); while (*l + n + 1 > *c) *b = realloc(*b, *c = *c ? *c * 2 : 4096); memcpy(*b + *l, s, n + 1); *l += n; }
static void ev(char k, int s, int t) { char b[40]; sprintf(b, "%c%d.%d ", k, s, t); add(&log_, &ll, &lcap, b); mc_step(); }
static void ew(char k, int s, int t) { char b[40]; sprintf(b, "%c%d.%d ", k, s, t); add(&want_, &wl, &wcap, b); }
static void setup(void *d) { ev('S', *(int *)d, 0); } static void teardown(void *d) { ev('D', *(int *)d, 0); }
static int cur; /* next test of each suite, in order, found by its address */
static char *longtext; 
enum { PASS, EMPTY, FAILA, FAILM, EXITS, EXC, EXCFAIL, EXCEXIT, MANY, LONGF, EXCONLY, NOC };
static const int FAILS[] = { 0, 0, 1, 1, 1, 0, 1, 1, 0, 1, 0 }, ASS[] = { 1, 0, 2, 1, 0, 1, 1, 1, 300, 0, 0 }, EXCN[] = { 0, 0, 0, 0, 0, 1, 2, 300, 0, 0, 1 };
static const char *ERR[] = { 0, 0, "s == -1 : ", "wrong 7%", "No Error Text", 0, "all is bad : ", "No Error Text", 0, 0, 0 };
#define IE(o) (!ASS[o] && !EXCN[o]) /* recorded nothing */
static void body(struct zt_unit_test *test, void *d) {
    int s = *(int *)d, t = -1; MC_CHECK(s >= 0 && s < ns, "test run with other data"); for (int k = 0; k < S[s].nt; k++) { int i = (cur + k) % S[s].nt; if (S[s].tt[i].t == test) { t = i; break; } } MC_CHECK(t >= 0, "test of another suite run with the data of suite %d", s); cur = t; ev('T', s, t);
    switch (S[s].tt[t].oc) {
    case PASS: ZT_UNIT_ASSERT(test, s >= 0); break; case EMPTY: break;
    case FAILA: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_ASSERT(test, 2 > 1); ZT_UNIT_ASSERT(test, s == -1); ev('X', s, t); break;
    case FAILM: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_FAIL(test, "wrong %d%%", 7); ev('X', s, t); break;
    case EXITS: ZT_UNIT_EXIT(test); ev('X', s, t); break;
    case EXC: zt_unit_test_add_exception(test); ZT_UNIT_ASSERT_EQUAL(test, s, s); break;
    case EXCONLY: zt_unit_test_add_exception(test); break;
    case EXCFAIL: zt_unit_test_add_exception(test); zt_unit_test_add_exception(test); ZT_UNIT_ASSERT(test, 1); ZT_UNIT_ASSERT(test, s < 0, all is bad); ev('X', s, t); break;
    case EXCEXIT: for (int i = 0; i < 300; i++) zt_unit_test_add_exception(test); zt_unit_test_add_assertion(test); ZT_UNIT_EXIT(test); ev('X', s, t); break;
    case MANY: for (int i = 0; i < 300; i++) ZT_UNIT_ASSERT_NOT_EQUAL(test, s, s + 1); break;
    case LONGF: ZT_UNIT_FAIL(test, "%s.", longtext); ev('X', s, t); break; }
    ev('E', s, t);
}
static int runs, fails, asserts, exc, nempty, suites;
static char *rep, *rest; static size_t rl, rcap, el, ecap; /* wanted report, as lines of my own */
static char *emp; static size_t pl, pcap;
static void rtest(int s, int t) { int o = S[s].tt[t].oc; char b[80]; if (S[s].su) ew('S', s, 0); ew('T', s, t); if (!FAILS[o]) ew('E', s, t); if (S[s].td) ew('D', s, 0); runs++; fails += FAILS[o]; add(&rep, &rl, &rcap, "t "); add(&rep, &rl, &rcap, S[s].tt[t].name); add(&rep, &rl, &rcap, "\n"); sprintf(b, "a %d\n", ASS[o]); add(&rep, &rl, &rcap, b); if (EXCN[o]) { sprintf(b, "x %d\n", EXCN[o]); add(&rep, &rl, &rcap, b); } add(&rep, &rl, &rcap, FAILS[o] ? "r failure\n" : "r success\n"); }
static void rsuite(int s) { int any = S[s].s->failed; suites++; add(&rep, &rl, &rcap, "s "); add(&rep, &rl, &rcap, S[s].name); add(&rep, &rl, &rcap, "\n"); for (int t = 0; t < S[s].nt; t++) { int o = S[s].tt[t].oc; rtest(s, t); any += FAILS[o]; asserts += ASS[o]; exc += EXCN[o]; nempty += IE(o); }
    if (any) { add(&rep, &rl, &rcap, "e\n"); for (int t = 0; t < S[s].nt; t++) { int o = S[s].tt[t].oc; if (!FAILS[o]) continue; add(&rep, &rl, &rcap, "f "); add(&rep, &rl, &rcap, S[s].tt[t].name); add(&rep, &rl, &rcap, " "); add(&rep, &rl, &rcap, o == LONGF ? longtext : ERR[o]); add(&rep, &rl, &rcap, "\n"); } } }
static void glob(int tests) { char b[200]; sprintf(b, "g %d %d %d %d %d %d\n", suites, tests, tests - fails, exc, asserts, fails); add(&rep, &rl, &rcap, b); if (nempty) { add(&rep, &rl, &rcap, "m\n"); for (int s = 0; s < ns; s++) for (int t = 0; t < S[s].nt; t++) if (IE(S[s].tt[t].oc)) { add(&rep, &rl, &rcap, "n "); add(&rep, &rl, &rcap, S[s].tt[t].name); add(&rep, &rl, &rcap, "\n"); } } }
/* the report as printed, in the same lines; failure texts are cut where the source position starts */
static char *gotr; static size_t gl, gcap; static void g(const char *a, const char *b, const char *c) { add(&gotr, &gl, &gcap, a); add(&gotr, &gl, &gcap, b); add(&gotr, &gl, &gcap, c); }
static void parse(char *o) {
    int sec = 2; long G[6]; int ng = 0; for (char *p = o; *p; ) { char *nl = strchr(p, '\n'); if (!nl) break; *nl = 0; size_t n = nl - p, ind = strspn(p, " "); char *c = n ? strrchr(p, ':') : NULL;
        if (!strcmp(p, "---")) sec = 1; else if (ind == 0 && !strcmp(p, "Global Stats:")) sec = 4; else if (ind == 0 && n && sec == 1) { p[n - 1] = 0; g("s ", p, "\n"); sec = 2; }
        else if (ind == 2 && !strcmp(p, "  Tests:")) ; else if (ind == 2 && !strcmp(p, "  Errors:")) { g("e", "", "\n"); sec = 3; } else if (ind == 2 && !strcmp(p, "  empty tests:")) { char b[200]; MC_CHECK(sec == 4 && ng == 6, "list of empty tests in the wrong place"); sprintf(b, "%ld %ld %ld %ld %ld %ld", G[0], G[1], G[2], G[3], G[4], G[5]); g("g ", b, "\nm\n"); ng = 7; sec = 5; }
        else if (sec == 5 && ind == 4) g("n ", p + 6, "\n"); else if (sec == 4 && ind == 2 && c && ng < 6) G[ng++] = atol(c + 1);
        else if (sec == 2 && ind == 4) { p[n - 1] = 0; g("t ", p + 4, "\n"); } else if (sec == 2 && ind == 6) { char k = p[6]; if (k == 'u') k = 'x'; char kk[3] = { k, ' ', 0 }; g(kk, c + 2, "\n"); }
        else if (sec == 3 && ind == 4) { char *q = strchr(p, '\''); MC_CHECK(q, "failure without text"); *q = 0; char *z = strrchr(p, ':'); while (z > p && z[-1] == ' ') z--; *z = 0; g("f ", p + 4, " "); q++; char *x = strstr(q, " : "); if (x) x[3] = 0; else { x = strrchr(q, '\''); if (x) *x = 0; if (x > q && x[-1] == '.') x[-1] = 0; } g(q, "", "\n"); }
        *nl = '\n'; p = nl + 1; }
    if (ng == 6) { char b[200]; sprintf(b, "g %ld %ld %ld %ld %ld %ld\n", G[0], G[1], G[2], G[3], G[4], G[5]); g(b, "", ""); } }
static void build(void) { U = zt_unit_init(); for (int s = 0; s < ns; s++) { S[s].data = s; char *n = mc_dupn(S[s].name, strlen(S[s].name) + 1); struct zt_unit_suite *x = zt_unit_register_suite(U, n, S[s].su ? setup : NULL, S[s].td ? teardown : NULL, &S[s].data); free(n); S[s].s = x; for (int t = 0; t < S[s].nt; t++) { n = mc_dupn(S[s].tt[t].name, strlen(S[s].tt[t].name) + 1); S[s].tt[t].t = zt_unit_register_test(x, n, body); free(n); } } }
static void mk(int n, const int *nt) { ns = n; S = calloc(n, sizeof *S); for (int i = 0; i < n; i++) { S[i].nt = nt[i]; S[i].tt = calloc(nt[i] ? nt[i] : 1, sizeof(TT)); } }
static void clear(void) { for (int s = 0; s < ns; s++) { for (int t = 0; t < S[s].nt; t++) free(S[s].tt[t].name); free(S[s].tt); free(S[s].name); } free(S); S = NULL; free(log_); free(want_); free(rep); free(emp); free(gotr); free(longtext); log_ = want_ = rep = emp = gotr = longtext = NULL; ll = lcap = wl = wcap = rl = rcap = pl = pcap = gl = gcap = 0; }
static char *nm(char c, size_t n, int v) { char *b = malloc(n + 12); memset(b, c, n); int k = sprintf(b + n, "%d", v); (void)k; return b; }
static char *o_; static size_t ol; static FILE *sv; static void cap(void) { sv = stdout; stdout = open_memstream(&o_, &ol); } static void uncap(void) { fclose(stdout); stdout = sv; }
static void verify(const char *what) {
    MC_CHECK(ll == wl && !memcmp(log_, want_, ll), "%s: calls %.200s, must be %.200s", what, log_, want_); parse(o_);
    size_t i = 0; while (i < gl && i < rl && gotr[i] == rep[i]) i++; if (i != gl || i != rl) { size_t f = i > 60 ? i - 60 : 0; mc_fail("%s: report differs at byte %zu: ...%.120s, must be ...%.120s", what, i, gotr + f, rep + f); }
    MC_CHECK(U->failures == (unsigned)fails && U->successes == (unsigned)(runs - fails), "%s: counted %u failures, %u successes, must be %d, %d", what, U->failures, U->successes, fails, runs - fails); }
static const int LN[] = { 1, 15, 16, 29, 30, 31, 32, 33, 62, 63, 64, 65, 79, 80, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000 };
static const int SC[] = { 1, 2, 17, 64, 255, 256, 257, 300 }, TC[] = { 1, 2, 16, 127, 128, 255, 256, 257, 512, 700 };
void mc_setup(void) { mc_shard_depth = 2; }
void mc_run(void) {
    int mode = mc_choose(4); char what[200]; runs = fails = asserts = exc = nempty = suites = 0; cur = 0; U = NULL; long base = mc_live_blocks();
    if (mode == 0) { /* many suites or many tests */
        int byt = mc_choose(2), n = byt ? TC[mc_choose(sizeof TC / sizeof *TC)] : SC[mc_choose(sizeof SC / sizeof *SC)], pat = mc_choose(12), how = mc_choose(3), fx = mc_choose(2); int *nt = malloc(n * sizeof *nt);
        if (byt) nt[0] = n; else for (int i = 0; i < n; i++) nt[i] = how == 1 ? 2 : 1; mk(byt ? 1 : n, nt); free(nt);
        int k = 0, total = 0; for (int s = 0; s < ns; s++) total += S[s].nt; for (int s = 0; s < ns; s++) { S[s].name = nm('s', 1, s); S[s].su = S[s].td = fx; for (int t = 0; t < S[s].nt; t++, k++) { S[s].tt[t].name = nm('t', 1, t); int o = PASS; switch (pat) { case 0: break; case 1: o = FAILA; break; case 2: o = k == 0 ? FAILM : PASS; break; case 3: o = k == total - 1 ? FAILM : PASS; break; case 4: o = k == total - 1 ? PASS : EXITS; break; case 5: o = EMPTY; break; case 6: o = k % 3 == 0 ? EMPTY : k % 3 == 1 ? EXC : EXCONLY; break; case 7: o = MANY; break; case 8: o = EXCEXIT; break; case 9: o = k < 256 ? FAILA : PASS; break; case 10: o = k % 9; break; default: o = k == total / 2 ? EXCFAIL : k % 2 ? EXC : MANY; } S[s].tt[t].oc = o; } }
        snprintf(what, sizeof what, "%d %s, outcomes %d, %s", n, byt ? "tests" : "suites", pat, how == 0 ? "all" : how == 1 ? "each by name" : "all, called directly"); MC_LOG("%s", what); build();
        char **av = malloc((total + 2) * sizeof *av); int ac = 0; av[ac++] = strdup("prog"); int r, dr = 0;
        if (how == 1) { for (int s = 0; s < ns; s++) { if (S[s].nt == 2) { for (int t = 1; t >= 0; t--) { char *b = malloc(60); sprintf(b, "%s.%s", S[s].name, S[s].tt[t].name); av[ac++] = b; rtest(s, t); } } else { av[ac++] = strdup(S[s].name); rsuite(s); } } }
        else { for (int s = 0; s < ns; s++) rsuite(s); glob(runs); }
        av[ac] = NULL; cap(); if (how == 2) { dr = zt_unit_run(U); r = U->failures ? -1 : dr; } else r = zt_unit_main(U, ac, av); uncap(); MC_CHECK((r == 0) == (fails == 0), "%s: result %d after %d failures", what, r, fails); verify(what);
        for (int s = 0; s < ns; s++) if (how != 1 || S[s].nt != 2) { int f = 0, a = 0, x = 0, m = 0; for (int t = 0; t < S[s].nt; t++) { int o = S[s].tt[t].oc; f += FAILS[o]; a += ASS[o]; x += EXCN[o]; m += IE(o); } MC_CHECK(S[s].s->failed == f && S[s].s->succeeded == S[s].nt - f && S[s].s->assertions == a && S[s].s->exceptions == x && S[s].s->empty == m, "%s: suite %d counted wrongly", what, s); }
        for (int i = 0; i < ac; i++) free(av[i]); free(av);
    } else if (mode == 1) { /* long names that differ at the end only */
        int L = LN[mc_choose(sizeof LN / sizeof *LN)], which = mc_choose(4), pick = mc_choose(7), tl = mc_choose(2) ? L : 1; static const int two[] = { 2, 2, 2 }; mk(3, two);
        for (int s = 0; s < 3; s++) { S[s].name = which & 1 ? nm('s', L, 0) : nm('s', 2, 0); size_t n = strlen(S[s].name); S[s].name[n - 1] = 0; S[s].name[n - 1] = s == 0 ? 'a' : s == 1 ? 'b' : 0; S[s].su = S[s].td = 1; for (int t = 0; t < 2; t++) { S[s].tt[t].name = which & 2 ? nm('t', tl == L ? L : 1, 0) : nm('t', 2, 0); n = strlen(S[s].tt[t].name); S[s].tt[t].name[n - 1] = t ? 'y' : 'x'; S[s].tt[t].oc = (s * 2 + t) % 3 == 2 ? FAILM : t ? EMPTY : PASS; } }
        snprintf(what, sizeof what, "names of %d characters (%d), selection %d", L, which, pick); MC_LOG("%s", what); build(); char *av[3] = { "prog" }; int r, miss = 0;
        if (pick == 6) { for (int s = 0; s < 3; s++) rsuite(s); glob(runs); cap(); r = zt_unit_main(U, 1, av); uncap(); }
        else { int s = pick % 3; char *b = malloc(strlen(S[s].name) + strlen(S[s].tt[1].name) + 4); if (pick < 3) { strcpy(b, S[s].name); rsuite(s); } else { sprintf(b, "%s.%s", S[s].name, S[s].tt[1].name); rtest(s, 1); } av[1] = b; cap(); r = zt_unit_main(U, 2, av); uncap(); verify(what); free(o_); o_ = NULL; gl = rl = 0; if (gotr) *gotr = 0; if (rep) *rep = 0;
            /* a name that no suite or test has: one character changed at the end, or one too few or many */
            int v = mc_choose(3); size_t n = strlen(b); if (v == 0) b[n - 1] = 'q'; else if (v == 1) { if (pick == 2) { b[n - 1] = 0; if (n - 1 == 0) b[0] = 'q', b[1] = 0; } else if (pick > 2) b[n - 1] = 0; else strcat(b, "a"); } else strcat(b, "q"); int hit = 0; for (int k = 0; k < 3; k++) hit |= !strcmp(b, S[k].name); char *dot = strchr(b, '.'); if (dot && !dot[1]) hit = 1;
            if (!hit) { cap(); miss = zt_unit_main(U, 2, av); uncap(); MC_CHECK(miss != 0, "%s: name %s accepted", what, v ? "of other length" : "with another last character"); MC_CHECK(strstr(o_, b), "%s: unknown name not reported", what); free(o_); o_ = strdup(""); } else o_ = strdup(""); free(b); }
        MC_CHECK((r == 0) == (fails == 0), "%s: result %d after %d failures", what, r, fails); verify(what);
    } else if (mode == 2) { /* tests run again with other outcomes */
        static const int one[] = { 2 }; mk(1, one); S[0].name = strdup("s"); S[0].tt[0].name = strdup("t"); S[0].tt[1].name = strdup("u"); S[0].su = S[0].td = 1; S[0].tt[1].oc = mc_choose(2) ? EMPTY : PASS; longtext = strdup("long"); build(); int nr = 3, k = 0; k += snprintf(what, sizeof what, "outcomes"); int tests = 0;
        for (int i = 0; i < nr; i++) { int o = mc_choose(NOC), how = mc_choose(4); S[0].tt[0].oc = o; k += snprintf(what + k, sizeof what - k, " %d/%d", o, how); struct zt_unit_test *t = S[0].tt[0].t; gl = rl = 0; if (gotr) *gotr = 0; if (rep) *rep = 0;
            int f0 = fails; cap(); char *av[3] = { "prog", how == 0 ? "s.t" : "s" }; int r = 0; if (how == 0) { rtest(0, 0); r = zt_unit_main(U, 2, av); } else if (how == 1) { rsuite(0); tests += 2; r = zt_unit_main(U, 2, av); } else if (how == 2) { rsuite(0); tests += 2; { char b[200]; sprintf(b, "g %d %d %d %d %d %d\n", suites, tests, runs - fails, exc, asserts, fails); add(&rep, &rl, &rcap, b); if (nempty) { add(&rep, &rl, &rcap, "m\n"); for (int q = 0; q < 2; q++) if (IE(S[0].tt[q].oc)) { add(&rep, &rl, &rcap, "n "); add(&rep, &rl, &rcap, S[0].tt[q].name); add(&rep, &rl, &rcap, "\n"); } } } r = zt_unit_main(U, 1, av); } else { rtest(0, 0); r = zt_unit_run_test(U, S[0].s, t) == TRUE ? 0 : -1; MC_CHECK((r == 0) == !FAILS[o], "%s: result %d", what, r); fails = f0; runs--; }
            uncap(); if (how != 3) MC_CHECK((r == 0) == (fails == 0), "%s: result %d after %d failures", what, r, fails); MC_CHECK(t->assertions == ASS[o] && t->exceptions == EXCN[o] && t->success == (FAILS[o] ? FALSE : TRUE), "%s: last run counted as %ld assertions, %ld exceptions", what, t->assertions, t->exceptions); MC_CHECK(!FAILS[o] ? !t->error : (o == EXITS || o == EXCEXIT) ? !t->error : o == LONGF ? t->error && !strcmp(t->error, "long.") : t->error && !strncmp(t->error, ERR[o], strlen(ERR[o])), "%s: error text '%s'", what, t->error ? t->error : "none"); verify(what); free(o_); o_ = NULL; }
    } else { /* long failure texts */
        int L = LN[mc_choose(sizeof LN / sizeof *LN)]; static const int one[] = { 3 }; mk(1, one); S[0].name = strdup("s"); S[0].tt[0].name = strdup("t"); S[0].tt[1].name = nm('n', mc_choose(2) ? L : 1, 1); S[0].tt[2].name = strdup("v"); S[0].tt[0].oc = mc_choose(2) ? LONGF : FAILA; S[0].tt[1].oc = LONGF; S[0].tt[2].oc = mc_choose(NOC); longtext = malloc(L + 1); memset(longtext, 'x', L); longtext[L] = 0; snprintf(what, sizeof what, "failure text of %d characters", L); build(); rsuite(0); glob(runs); char *av[2] = { "prog" }; cap(); int r = zt_unit_main(U, 1, av); uncap(); MC_CHECK(r != 0, "%s: result 0", what); verify(what);
    }
    if (o_) free(o_); o_ = NULL; zt_unit_release(&U); MC_CHECK(!U, "released unit kept"); clear(); long now = mc_live_blocks(); MC_CHECK(now == base, "%s: %ld blocks of memory kept", what, now - base); if (runs > 1) mc_nontrivial(); mc_state(mc_hash(mode * 7 + runs, what, strlen(what)));
}
