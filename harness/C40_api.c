/* C40: every history of registering, releasing and running suites and tests through the functions themselves. */
#include "mc.h"
#define ZT_WITH_UNIT
#include <zt.h>
#define MS 3
#define MT 3
static const char *SN[] = { "one", "two", "on", "one" }, *TN[] = { "a", "b", "ab", "a" };
static struct { struct zt_unit_suite *s; int name, data, nt, used, order; struct { struct zt_unit_test *t; int name, fail; } t[MT]; } S[MS]; static int ns; static char ev[2000], wv[2000]; static size_t el, wl;
static void setup(void *d) { el += sprintf(ev + el, "S%d ", *(int *)d); } static void teardown(void *d) { el += sprintf(ev + el, "D%d ", *(int *)d); }
static void pass(struct zt_unit_test *test, void *d) { el += sprintf(ev + el, "P%d%s ", *(int *)d, test->name); ZT_UNIT_ASSERT(test, 1); } static void fail(struct zt_unit_test *test, void *d) { el += sprintf(ev + el, "F%d%s ", *(int *)d, test->name); ZT_UNIT_ASSERT(test, 0); }
static int F, P, tests, suites; static void rt(int s, int t) { wl += sprintf(wv + wl, "S%d %c%d%s D%d ", S[s].data, S[s].t[t].fail ? 'F' : 'P', S[s].data, TN[S[s].t[t].name], S[s].data); if (S[s].t[t].fail) F++; else P++; }
static void rs(int s) { suites++; for (int t = 0; t < S[s].nt; t++) { rt(s, t); tests++; } }
#define PRUNE { fclose(stdout); stdout = sv; free(out); zt_unit_release(&u); mc_prune(); }
void mc_setup(void) { mc_shard_depth = 3; }
void mc_run(void) {
    long base = mc_live_blocks(); int depth = mc_param("operations", 5, 6); ns = 0; el = wl = 0; ev[0] = wv[0] = 0; F = P = tests = suites = 0; struct zt_unit *u = zt_unit_init(); char what[400]; int k = 0, serial = 0, ran = 0; what[0] = 0; char *out; size_t ol; FILE *sv = stdout; stdout = open_memstream(&out, &ol); uint64_t h = 0;
    for (int i = 0; i < depth; i++) {
        int op = mc_choose(7), r = 0, want = 0; if (op == 0) { MC_LOG("%s", what); break; }
        switch (op) {
        case 1: { if (ns == MS) PRUNE int n = mc_choose(3); S[ns].name = n == 2 && ns ? 3 : n; S[ns].data = serial++; S[ns].nt = 0; k += sprintf(what + k, " +%s", SN[S[ns].name]); S[ns].s = zt_unit_register_suite(u, (char *)SN[S[ns].name], setup, teardown, &S[ns].data); ns++; break; }
        case 2: { if (!ns || S[ns - 1].nt == MT) PRUNE int s = ns - 1, n = mc_choose(3), f = mc_choose(2), t = S[s].nt++; S[s].t[t].name = n; S[s].t[t].fail = f; k += sprintf(what + k, " +.%s%s", TN[n], f ? "!" : ""); S[s].t[t].t = zt_unit_register_test(S[s].s, (char *)TN[n], f ? fail : pass); break; }
        case 3: { if (!ns) PRUNE int s = mc_choose(ns); if (!S[s].nt) PRUNE int t = mc_choose(S[s].nt); struct zt_unit_test *x = S[s].t[t].t; k += sprintf(what + k, " -%d.%d", s, t); zt_unit_release_test(&x); for (int j = t; j + 1 < S[s].nt; j++) S[s].t[j] = S[s].t[j + 1]; S[s].nt--; break; }
        case 4: { if (!ns) PRUNE int s = mc_choose(ns); struct zt_unit_suite *x = S[s].s; k += sprintf(what + k, " -%d", s); zt_unit_release_suite(&x); MC_CHECK(!x, "%s: released suite kept", what); /* the data of a suite stays where it is */ int keep = S[s].data; (void)keep; for (int j = s; j + 1 < ns; j++) { S[j] = S[j + 1]; S[j].s->data = &S[j].data; } ns--; break; }
        case 5: { static const char *Q[] = { "one", "two", "on", "one.a", "one.ab", "two.b", "on.a", "one.c", "x", "" }; const char *q_ = Q[mc_choose(10)]; char *q = mc_dupn(q_, strlen(q_) + 1); k += sprintf(what + k, " run '%s'", q); want = -1; for (int s = 0; s < ns && want; s++) { size_t n = strlen(SN[S[s].name]); if (strncmp(q, SN[S[s].name], n) || (q[n] && q[n] != '.')) continue; if (!q[n]) { rs(s); want = 0; } else { for (int t = 0; t < S[s].nt && want; t++) if (!strcmp(TN[S[s].t[t].name], q + n + 1)) { rt(s, t); want = 0; } break; } } r = zt_unit_run_by_name(u, q); ran++; free(q); MC_CHECK(want < 0 ? r < 0 : r == 0, "%s: result %d, must be %d", what, r, want); break; }
        default: if (mc_choose(2)) { k += sprintf(what + k, " run all"); for (int s = 0; s < ns; s++) rs(s); zt_unit_run(u); } else { if (!ns) PRUNE int s = mc_choose(ns); k += sprintf(what + k, " run %d", s); rs(s); zt_unit_run_suite(u, S[s].s); } ran++; }
        mc_step(); MC_CHECK(!strcmp(ev, wv), "%s: calls %s, must be %s", what, ev, wv); MC_CHECK((int)u->failures == F && (int)u->successes == P && (int)u->tests == tests && (int)u->suite_count == suites, "%s: counted %u failures, %u successes, %u tests, %u suites, must be %d, %d, %d, %d", what, u->failures, u->successes, u->tests, u->suite_count, F, P, tests, suites);
    }
    fclose(stdout); stdout = sv; free(out); zt_unit_release(&u); long now = mc_live_blocks(); MC_CHECK(now == base, "%s: %ld blocks of memory kept", what, now - base); if (ran && F + P) mc_nontrivial(); h = mc_hash(ran, ev, el); mc_state(mc_mix(h, ns * 100 + F)); 
}
