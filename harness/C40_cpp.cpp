/* C40, C++: tests of C++ suites that pass, fail or throw anything at any depth, in every order and mixed with C suites: each is counted once, an exception that is not
 * the framework's own is counted as such and its text is kept, objects on the way are destroyed, teardown runs, the other tests are not affected, memory is given back. */
extern "C" {
#include "mc.h"
}
#define ZT_WITH_UNIT
#include <zt.h>
#include <stdexcept>
#include <string>
enum { PASS, EMPTY, FAILA, FAILM, EXITS, T_CHARS, T_NULL, T_LITERAL, T_INT, T_STD, T_OWN, T_LONG, CAUGHT, ASSERTS_THEN_THROW, SETTHROW, SETFAIL, SETPASS, SETTWICE, NOC };
static const int FAILS[NOC] = { 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1 }, ASS[NOC] = { 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 0, 0, 1, 0 }, EXCN[NOC] = { 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 0, 0, 0 };
static const char *ERR[NOC] = { 0, 0, "d < 0 : ", "wrong 7%", 0, "unhandled exception: some text", "unhandled exception: NULL", "unhandled exception: ", "unhandled exception: ", "unhandled exception: ", 0, "unhandled exception: xxxxx", 0, "unhandled exception: ", "unhandled exception: ", "d < 0 : ", 0, "second 2" };
static int oc[2][2], depth_[2][2], su, td, nsuite, cxx[2], data[2] = { 0, 1 }; static struct zt_unit_test *T[2][2]; static char ev[4000], wv[4000], *longt; static size_t el, wl; static int balance;
struct Obj { std::string s; Obj() : s("a string that is long enough to need memory of its own") { balance++; } ~Obj() { balance--; } };
static void e(char c, int s, int t) { if (el < sizeof ev - 16) el += sprintf(ev + el, "%c%d%d ", c, s, t); mc_step(); }
static void w(char c, int s, int t) { wl += sprintf(wv + wl, "%c%d%d ", c, s, t); }
static void setup(void *d) { e('S', *(int *)d, 0); } static void teardown(void *d) { e('D', *(int *)d, 0); }
static char chars[] = "some text";
static void act(struct zt_unit_test *test, int s, int t, int deep) {
    int d = 1; Obj *x = NULL; if (cxx[s] && deep) { Obj o; act(test, s, t, deep - 1); return; } (void)x;
    switch (oc[s][t]) {
    case PASS: ZT_UNIT_ASSERT(test, d == 1); break; case EMPTY: break;
    case FAILA: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_ASSERT(test, d < 0); break;
    case FAILM: ZT_UNIT_FAIL(test, "wrong %d%%", 7); break;
    case EXITS: ZT_UNIT_EXIT(test); break;
    case T_CHARS: throw (char *)chars; case T_NULL: throw (char *)NULL; case T_LITERAL: throw "literal"; case T_INT: throw 5; case T_STD: throw std::runtime_error("std"); case T_OWN: throw zt_unit_exceptT(); case T_LONG: throw longt;
    case CAUGHT: try { throw std::runtime_error("caught"); } catch (std::exception &) { } ZT_UNIT_ASSERT_EQUAL(test, d, 1); break;
    case ASSERTS_THEN_THROW: ZT_UNIT_ASSERT(test, 1); ZT_UNIT_ASSERT_NOT_EQUAL(test, d, 2); throw 1.5;
    case SETTHROW: ZT_UNIT_SET_ERROR(test, "first %d", 1); throw 7; case SETFAIL: ZT_UNIT_SET_ERROR(test, "first %d", 1); ZT_UNIT_ASSERT(test, d < 0); break;
    case SETPASS: ZT_UNIT_SET_ERROR(test, "first %d", 1); ZT_UNIT_ASSERT(test, d == 1); break; case SETTWICE: ZT_UNIT_SET_ERROR(test, "first %d", 1); ZT_UNIT_FAIL(test, "second %d", 2); break; }
}
static void body(struct zt_unit_test *test, void *d) { int s = *(int *)d, t = T[s][1] == test; MC_CHECK(T[s][t] == test, "test run with other data"); e('T', s, t); act(test, s, t, depth_[s][t]); e('E', s, t); }
extern "C" void mc_setup(void) { mc_shard_depth = 4; try { throw 1; } catch (...) { } try { throw std::runtime_error("warm"); } catch (std::exception &) { } }
extern "C" void mc_run(void) {
    static const int LN[] = { 5, 255, 256, 1023, 1024, 70000 }; int len = LN[mc_choose(mc_thorough ? 6 : 2)]; longt = (char *)malloc(len + 1); memset(longt, 'x', len); longt[len] = 0; long base = mc_live_blocks(); el = wl = 0; ev[0] = wv[0] = 0; balance = 0; nsuite = 1 + mc_choose(2); int fx = mc_choose(2), runs2 = mc_choose(2), dp = mc_choose(2) * 3; su = td = fx; char what[300]; int k = sprintf(what, "%s", fx ? "fixtures" : "plain");
    struct zt_unit *u = zt_unit_init(); struct zt_unit_suite *S[2]; int fails = 0, asserts = 0, exc = 0, empty = 0, total = 0, nt[2];
    for (int s = 0; s < nsuite; s++) { cxx[s] = nsuite == 1 || s == 1 ? 1 : mc_choose(2); nt[s] = nsuite == 1 ? 2 : 1 + (s == 1 && !dp); if (cxx[s]) { S[s] = zt_unit_register_suite(u, s ? "two" : "one", su ? setup : NULL, td ? teardown : NULL, &data[s]); } else S[s] = zt_unit_register_suite_(u, s ? "two" : "one", su ? setup : NULL, td ? teardown : NULL, &data[s], zt_unit_try_c);
        for (int t = 0; t < nt[s]; t++) { T[s][t] = zt_unit_register_test(S[s], t ? "tb" : "ta", body); oc[s][t] = mc_choose(cxx[s] ? (int)NOC : 2); depth_[s][t] = dp; k += sprintf(what + k, " %s %d", cxx[s] ? "C++" : "C", oc[s][t]); } for (int t = nt[s]; t < 2; t++) T[s][t] = NULL; }
    MC_LOG("%s", what);
    for (int r = 0; r <= runs2; r++) for (int s = 0; s < nsuite; s++) for (int t = 0; t < nt[s]; t++) { int o = oc[s][t]; if (su) w('S', s, 0); w('T', s, t); if (!FAILS[o]) w('E', s, t); if (td) w('D', s, 0); total++; fails += FAILS[o]; asserts += ASS[o]; exc += EXCN[o]; empty += !ASS[o] && !EXCN[o]; }
    char *o; size_t ol; FILE *sv = stdout; stdout = open_memstream(&o, &ol); char *av[] = { (char *)"prog", NULL }; int res = 0; for (int r = 0; r <= runs2; r++) res = zt_unit_main(u, 1, av); fclose(stdout); stdout = sv;
    MC_CHECK(!strcmp(ev, wv), "%s: calls %s, must be %s", what, ev, wv); MC_CHECK(balance == 0, "%s: %d objects not destroyed", what, balance); MC_CHECK((res == 0) == (fails == 0), "%s: result %d after %d failures", what, res, fails);
    MC_CHECK((int)u->failures == fails && (int)u->successes == total - fails && (int)u->assertions == asserts && (int)u->exceptions == exc && (int)u->empty == empty, "%s: counted %u failures, %u successes, %ld assertions, %ld exceptions, must be %d, %d, %d, %d", what, u->failures, u->successes, (long)u->assertions, (long)u->exceptions, fails, total - fails, asserts, exc);
    for (int s = 0; s < nsuite; s++) for (int t = 0; t < nt[s]; t++) { int c = oc[s][t]; MC_CHECK(T[s][t]->success == (FAILS[c] ? FALSE : TRUE), "%s: test %d.%d has result %d", what, s, t, T[s][t]->success); MC_CHECK(T[s][t]->exceptions == EXCN[c], "%s: %ld exceptions of test %d.%d", what, (long)T[s][t]->exceptions, s, t);
        if (ERR[c]) { MC_CHECK(T[s][t]->error && !strncmp(T[s][t]->error, ERR[c], strlen(ERR[c])), "%s: error text of test %d.%d is '%.60s', must be %s", what, s, t, T[s][t]->error ? T[s][t]->error : "none", ERR[c]); MC_CHECK(strstr(o, T[s][t]->error), "%s: error text not reported", what); if (c == T_LONG) MC_CHECK(strlen(T[s][t]->error) == 21 + (size_t)len, "%s: text of %zu characters", what, strlen(T[s][t]->error)); } else if (c != SETPASS) MC_CHECK(!T[s][t]->error, "%s: error text '%s'", what, T[s][t]->error); }
    free(o); zt_unit_release(&u); MC_CHECK(!u, "released unit kept"); long now = mc_live_blocks(); MC_CHECK(now == base, "%s: %ld blocks of memory kept", what, now - base); free(longt); if (total > 1) mc_nontrivial(); mc_state(mc_hash(fails * 100 + exc, what, k));
}
