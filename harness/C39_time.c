/* C39: time arithmetic on all pairs of boundary values and all aliasings of the destination. */
#include "mc.h"
#include <math.h>
#include <zt.h>
#include <libzt/zt_time.h>
#include <sys/resource.h>
/* the system's accounting, as scripted */
static struct timeval script[8][2]; static int nscript, scripted; int __real_getrusage(int, struct rusage *); int __wrap_getrusage(int who, struct rusage *r) { int e = __real_getrusage(who, r); if (scripted) { MC_CHECK(who == RUSAGE_SELF, "usage of something else"); r->ru_utime = script[nscript % 8][0]; r->ru_stime = script[nscript % 8][1]; nscript++; } return e; }
static void zero(struct timeval *t) { t->tv_sec = 0; t->tv_usec = 0; }
static const long S[] = { 0, 1, 2, 59, 3600, 1700000000L, -1, -2, -3600, 2147483647L, 2147483648L, 4294967295L, 99999999999L }, U[] = { 0, 1, 2, 499999, 500000, 500001, 999998, 999999 };
static struct timeval pick(void) { struct timeval t; t.tv_sec = S[mc_choose(sizeof S / sizeof *S)]; t.tv_usec = U[mc_choose(sizeof U / sizeof *U)]; return t; }
static __int128 us(struct timeval t) { return (__int128)t.tv_sec * 1000000 + t.tv_usec; }
static void chk(struct timeval r, __int128 w, const char *op, struct timeval a, struct timeval b, int al) {
    MC_CHECK(us(r) == w && r.tv_usec >= 0 && r.tv_usec < 1000000, "%s of %ld.%06ld and %ld.%06ld (destination %d) is %ld s %ld us", op, (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, al, (long)r.tv_sec, (long)r.tv_usec); mc_step(); }
static int calls; static void *dat[2]; static void *fn(void *d) { calls++; dat[0] = d; return (char *)d + calls; }
void mc_setup(void) { mc_pure = 1; }
void mc_run(void) {
    int part = mc_choose(4);
    if (part == 2) { /* what was measured, less the calibrated overhead */
        static const long D[][2] = { { 0, 0 }, { 0, 1 }, { 0, 999999 }, { 1, 0 }, { 3, 500000 }, { 4, 1 } }; struct timeval base[2], ov[2], d[2]; struct time_result tr; char x[32]; scripted = 1; int cal = mc_choose(3), n = mc_choose(3);
        for (int k = 0; k < 2; k++) { int b = mc_choose(3), o = cal ? mc_choose(4) : 0, e = mc_choose(6); base[k].tv_sec = (int[]){ 0, 5, 100000 }[b]; base[k].tv_usec = (int[]){ 0, 999999, 17 }[b]; ov[k].tv_sec = D[o][0]; ov[k].tv_usec = D[o][1]; d[k].tv_sec = D[e][0]; d[k].tv_usec = D[e][1]; }
        for (int k = 0; k < 2; k++) zero(&script[0][k]), zero(&script[1][k]); nscript = 0; zt_time_calibrate(); /* overhead nothing */
        for (int c = 0; c < cal; c++) { for (int k = 0; k < 2; k++) { script[0][k] = base[k]; zt_add_time(&script[1][k], &base[k], &ov[k]); } nscript = 0; zt_time_calibrate(); MC_CHECK(nscript == 2, "calibrating looks at the usage %d times", nscript); }
        for (int k = 0; k < 2; k++) { script[0][k] = base[k]; zt_add_time(&script[1][k], &base[k], &d[k]); zero(&script[2][k]); } nscript = 0; calls = 0; zt_time(n, &tr, fn, x); mc_step(); scripted = 0;
        MC_LOG("used %ld.%06ld and %ld.%06ld, overhead %ld.%06ld and %ld.%06ld", (long)d[0].tv_sec, (long)d[0].tv_usec, (long)d[1].tv_sec, (long)d[1].tv_usec, (long)ov[0].tv_sec, (long)ov[0].tv_usec, (long)ov[1].tv_sec, (long)ov[1].tv_usec);
        MC_CHECK(nscript == 2 && calls == n, "looks at the usage %d times, %d calls", nscript, calls); chk(tr.usr_time, us(d[0]) - us(ov[0]), "user time", d[0], ov[0], cal); chk(tr.sys_time, us(d[1]) - us(ov[1]), "system time", d[1], ov[1], cal); if (cal) mc_nontrivial();
        scripted = 1; for (int k = 0; k < 2; k++) zero(&script[0][k]), zero(&script[1][k]); nscript = 0; zt_time_calibrate(); scripted = 0;
    } else if (part == 3) { /* the report */
        static const long D[][2] = { { 0, 0 }, { 0, 4999 }, { 0, 5001 }, { 0, 999999 }, { 1, 0 }, { 3, 500000 }, { 59, 990000 }, { 100000, 10000 } }; struct time_result tr; int u = mc_choose(8), v = mc_choose(8), n = (int[]){ 0, 1, 2, 10, 1000000, -1 }[mc_choose(6)]; char *nm = (char *[]){ "f", "", "100%d %s", "a longer name of something measured" }[mc_choose(4)];
        tr.usr_time.tv_sec = D[u][0]; tr.usr_time.tv_usec = D[u][1]; tr.sys_time.tv_sec = D[v][0]; tr.sys_time.tv_usec = D[v][1]; float a, b, t; zt_time_result_to_elapsed(&tr, &a, &b, &t); double wa = D[u][0] + D[u][1] / 1e6, wb = D[v][0] + D[v][1] / 1e6; MC_LOG("report of %f and %f", wa, wb);
        MC_CHECK(fabs(a - wa) <= 1e-6 * (1 + wa) && fabs(b - wb) <= 1e-6 * (1 + wb) && fabs(t - wa - wb) <= 1e-6 * (1 + wa + wb), "elapsed %f %f %f of %f and %f", a, b, t, wa, wb);
        char *o = NULL, w[300]; size_t ol; FILE *se = stderr; zt_log_ty *lg = zt_log_stderr(ZT_LOG_RAW), *old = zt_log_logger(lg); zt_log_set_level(lg, zt_log_info); stderr = open_memstream(&o, &ol); zt_time_print_result(&tr, nm, n); fclose(stderr); stderr = se; zt_log_logger(old); zt_log_close(lg); mc_step();
        if (n > 1) snprintf(w, sizeof w, "%d calls of %s took: %4.2fs user %4.2fs system %4.2fs total", n, nm, a, b, t); else snprintf(w, sizeof w, "%s took: %4.2fs user %4.2fs system %4.2fs total", nm, a, b, t);
        MC_CHECK(!strncmp(o, w, strlen(w)) && (!strcmp(o + strlen(w), "\n") || !o[strlen(w)]), "report '%s', must be '%s'", o, w); free(o);
    } else if (part == 0) {
        struct timeval a = pick(), b = pick(), x, y, z, *o[3] = { &z, &x, &y }; MC_LOG("%ld.%06ld %ld.%06ld", (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec);
        for (int al = 0; al < 3; al++) {
            x = a; y = b; MC_CHECK(zt_add_time(o[al], &x, &y) == o[al], "add result"); chk(*o[al], us(a) + us(b), "sum", a, b, al);
            x = a; y = b; MC_CHECK(zt_sub_time(o[al], &x, &y) == o[al], "sub result"); chk(*o[al], us(a) - us(b), "difference", a, b, al);
            x = a; y = b; MC_CHECK(zt_diff_time(o[al], &x, &y) == o[al], "diff result"); chk(*o[al], us(b) - us(a), "distance", a, b, al);
        }
        x = a; zt_add_time(&x, &x, &x); chk(x, 2 * us(a), "double", a, a, 3); x = a; zt_sub_time(&x, &x, &x); chk(x, 0, "self difference", a, a, 3);
        zt_add_time(&z, &a, &b); zt_sub_time(&z, &z, &b); MC_CHECK(z.tv_sec == a.tv_sec && z.tv_usec == a.tv_usec, "add then subtract is not the identity");
        x = a; y = b; long c = zt_cmp_time(&x, &y); MC_CHECK((c > 0) - (c < 0) == (us(a) > us(b)) - (us(a) < us(b)), "compare of %ld.%06ld and %ld.%06ld is %ld", (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, c);
        zt_copy_timeval(&x, &b); MC_CHECK(us(x) == us(b), "copy"); mc_nontrivial();
    } else {
        int n = mc_choose(8), cal = mc_choose(2), f = mc_choose(2); struct time_result tr; char d[32]; calls = 0; MC_LOG("%d calls", n); if (cal) zt_time_calibrate();
        void *r = zt_time(n, &tr, f ? fn : NULL, d); int w = f ? n : 0;
        MC_CHECK(calls == w, "zt_time(%d) called the function %d times", n, calls); MC_CHECK(r == (w ? d + w : NULL), "zt_time(%d) returned something else than the last result", n); if (w) MC_CHECK(dat[0] == d, "data");
        float u, s, t; tr.usr_time.tv_sec = 3; tr.usr_time.tv_usec = 500000; tr.sys_time.tv_sec = 1; tr.sys_time.tv_usec = 250000; zt_time_result_to_elapsed(&tr, &u, &s, &t); MC_CHECK(u == 3.5f && s == 1.25f && t == 4.75f, "elapsed %f %f %f", u, s, t); mc_step();
    }
    mc_state(0);
}
