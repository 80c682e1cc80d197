/* C36: several threads logging at once, under every schedule. */
#include "mc.h"
#include "ctl.h"
#include <zt.h>
#include <stdarg.h>
#include <syslog.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <sys/time.h>
/* every look at the clock is a minute later; the looks of a thread are remembered */
static time_t lasts[8][16]; static int nlast[8], clockn, natexit, nopen; static FILE *made[8]; static char *out[8]; static size_t outl[8];
static time_t tick(void) { time_t t = 1000000000 + 61 * ++clockn; int s = sc_self(); if (nlast[s] < 16) lasts[s][nlast[s]++] = t; return t; }
#define R(ret, name, args, call) extern ret __real_##name args; ret __wrap_##name args { if (!sc_active) return __real_##name call;
R(time_t, time, (time_t *t), (t)) time_t v = tick(); if (t) *t = v; return v; }
R(int, gettimeofday, (struct timeval *t, void *z), (t, z)) t->tv_sec = tick(); t->tv_usec = 0; return 0; }
R(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t)) t->tv_sec = tick(); t->tv_nsec = 0; return 0; }
static void (*handler[8])(void);
int __wrap_atexit(void (*f)(void)) { if (natexit < 8) handler[natexit] = f; natexit++; return 0; }
R(FILE *, fopen, (const char *n, const char *m), (n, m)) FILE *f = open_memstream(&out[nopen], &outl[nopen]); made[nopen++] = f; return f; }
int __wrap_gethostname(char *b, size_t n) { sc_race(b, 5, 1, "gethostname"); strcpy(b, "host"); return 0; }
R(pid_t, getpid, (void), ()) return 77; }
static char slog[4000]; static size_t slogl; static int slev[16], nslev;
void __wrap_openlog(const char *n, int o, int f) { } void __wrap_closelog(void) { }
void __wrap_vsyslog(int l, const char *f, va_list ap) { sc_event("vsyslog", slog); slogl += vsnprintf(slog + slogl, sizeof slog - slogl, f, ap); if (nslev < 16) slev[nslev++] = l; }

#define MAXM 4
static unsigned opts; static zt_log_ty *lg; static int per, kind, sink; static const char *LV[] = { "Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug" };
static char want[8][MAXM][16][400]; static int nalt[8][MAXM], nmsg[8];
static void expect(int s, int k, const char *msg, int level, int dbg, const char *file, int line, const char *fn) { /* every date the thread may have looked up for it */
    int n = (opts & 1) && sink != 2 ? nlast[s] : 1; if (n == 0) n = 1; nalt[s][k] = n;
    for (int a = 0; a < n; a++) { char *o = want[s][k][a]; struct tm tm; time_t t = lasts[s][a]; unsigned op = sink == 2 ? opts & 2 : opts;
        if (op & 1) { gmtime_r(&t, &tm); o += strftime(o, 40, "%b %d %H:%M:%S ", &tm); } if (op & 4) o += sprintf(o, "host%s", op > 4 ? " " : ""); if (op & 8) o += sprintf(o, "prog"); if (op & 16) o += sprintf(o, "[77]");
        if (op & 2) o += sprintf(o, "%s%s", op == 2 ? "" : ": ", LV[level]); if (op) o += sprintf(o, ": "); o += sprintf(o, "%s", msg); if (dbg) o += sprintf(o, ": in %s at (%s:%d)", fn, file, line); }
}
static void nodebug(void) { const char *f = "?", *g = "?"; int l = 5; zt_log_get_debug_info(&f, &l, &g); MC_CHECK(!f && !g, "a thread that announced nothing has debug info (%s:%d, %s)", f ? f : "-", l, g ? g : "-"); }
static void *logger(void *a) {
    int s = sc_self(); char file[20], fn[20], msg[60]; sprintf(file, "f%d.c", s); sprintf(fn, "fn%d", s);
    for (int k = 0; k < per; k++) {
        int dbg = (kind & 1) && (s + k) % 2, level = (s * 3 + k) % 8; nlast[s] = 0;
        if (kind & 1) nodebug();
        if (dbg) { zt_log_set_debug_info(file, s * 10 + k, fn); const char *f, *g; int l; zt_log_get_debug_info(&f, &l, &g); MC_CHECK(f == file && g == fn && l == s * 10 + k, "debug info of a thread is not what it announced"); }
        if (kind & 2) { errno = 0; zt_log_lstrerror(lg, level, s + 1, "msg %d of %d", k, s); sprintf(msg, "msg %d of %d: %s", k, s, s == 0 ? "Operation not permitted" : s == 1 ? "No such file or directory" : s == 2 ? "No such process" : "Interrupted system call"); }
        else { zt_log_lprintf(lg, level, "%s %d of %d", "msg", k, s); sprintf(msg, "msg %d of %d", k, s); }
        MC_LOG("T%d logged '%s'", s, msg); expect(s, k, msg, level, dbg, file, s * 10 + k, fn); nmsg[s] = k + 1;
    }
    if (kind & 1) nodebug();
    return NULL;
}
static void check(const char *t, size_t n, int partial) { /* one whole line per message, in each thread's order */
    static int next[8]; if (!partial) memset(next, 0, sizeof next); const char *p = t, *e = t + n;
    MC_LOG("output: %s", t ? t : "");
    while (p < e) { const char *q = memchr(p, '\n', e - p); MC_CHECK(q, "last line is not complete: '%.*s'", (int)(e - p), p); int hit = 0;
        for (int s = 0; s < 8 && !hit; s++) if (next[s] < nmsg[s]) for (int a = 0; a < nalt[s][next[s]] && !hit; a++) { const char *w = want[s][next[s]][a]; if (strlen(w) == q - p && !memcmp(w, p, q - p)) { next[s]++; hit = 1; } }
        MC_CHECK(hit, "no thread logged this line (there): '%.*s'", (int)(q - p), p); p = q + 1; }
    if (partial != 1) for (int s = 0; s < 8; s++) MC_CHECK(next[s] == nmsg[s], "thread %d logged %d messages, %d are there", s, nmsg[s], next[s]);
}
static void *swapper(void *a) { zt_log_ty *o = zt_log_logger(a); MC_CHECK(o == lg || 1, " "); return o; }
static void *closer(void *a) { zt_log_close(a); return NULL; }
static zt_log_ty *l2;
static void *other(void *a) { zt_log_ty *s = a; zt_log_lprintf(s, zt_log_err, "elsewhere"); return NULL; }
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 6; mc_param("preemptions", 2, 3); }
void mc_run(void) {
    int mode = mc_choose(9), nt = 2, pb = mc_param("preemptions", 2, 3), i; pthread_t p[4]; char *eb = NULL; size_t el = 0; FILE *err = NULL, *save = stderr; void *ret;
    static const unsigned OP[] = { 0, 1 | 2, 31, 2, 4 | 8 | 16 }; static const int from[] = { 0, 3, 1, 0, 0, 2, 0, 0, 0 }, cnt[] = { 5, 1, 2, 2, 2, 1, 5, 5, 1 }; opts = OP[from[mode] + mc_choose(cnt[mode])]; setenv("TZ", "UTC", 1); tzset(); kind = 0; per = 1; sink = 0; mc_nontrivial(); char pn[] = "prog"; zt_progname(pn, 0);
    static const char *MN[] = { "one file logger", "first use of the default logger", "three threads", "the default logger replaced meanwhile", "system log", "two loggers", "error texts", "one thread after another", "several threads replace the default logger" };
    switch (mode) { case 0: per = 1 + mc_choose(2); kind = mc_choose(2); break; case 1: kind = mc_choose(2); sink = 1; break; case 2: nt = 3; pb--; kind = 1; break; case 3: per = 2; break;
        case 4: sink = 2; kind = 1; break; case 5: per = 2; break; case 6: kind = 2 + mc_choose(2); sink = mc_choose(2); break; case 7: kind = 1; per = 2; pb = 0; nt = 3; break; }
    MC_LOG("%s, options %u, %d message(s) each%s", MN[mode], opts, per, kind & 1 ? ", debug positions" : "");
    if (sink == 1) { err = open_memstream(&eb, &el); stderr = err; }
    sc_begin(pb);
    if (mode == 1) lg = NULL; else if (sink == 1) lg = zt_log_stderr(opts); else if (sink == 2) { lg = zt_log_syslog2(0, LOG_USER); zt_log_set_opts(lg, opts); } else lg = zt_log_file("x", ZT_LOG_FILE_APPEND, opts);
    MC_CHECK(lg || mode == 1, "no logger");
    if (mode == 3) { zt_log_ty *first = lg; zt_log_logger(first); lg = NULL; l2 = zt_log_file("y", ZT_LOG_FILE_APPEND, opts);
        pthread_create(&p[0], NULL, logger, NULL); pthread_create(&p[1], NULL, swapper, l2); pthread_join(p[0], NULL); pthread_join(p[1], &ret); MC_CHECK(ret == first, "replacing the default logger does not return the old one"); zt_log_logger(NULL); zt_log_close(first); zt_log_close(l2);
        sc_end(); fflush(NULL); static char all[4000]; snprintf(all, sizeof all, "%s%s", out[0], out[1]); check(out[0], outl[0], 1); check(all, outl[0] + outl[1], 0); mc_state(mc_mix(3, outl[0])); return; }
    if (mode == 8) { /* first default logger -> l2, l3 by two threads while a third closes a logger or logs */
        zt_log_ty *first = lg, *l3; int third = mc_choose(3); zt_log_logger(first); l2 = zt_log_file("y", ZT_LOG_FILE_APPEND, opts); l3 = zt_log_file("z", ZT_LOG_FILE_APPEND, opts); zt_log_ty *l4 = zt_log_file("w", ZT_LOG_FILE_APPEND, opts); void *r2, *r3;
        lg = NULL; pthread_create(&p[0], NULL, swapper, l2); pthread_create(&p[1], NULL, swapper, l3); if (third == 1) pthread_create(&p[2], NULL, logger, NULL); else if (third == 2) pthread_create(&p[2], NULL, closer, l4);
        pthread_join(p[0], &r2); pthread_join(p[1], &r3); if (third) pthread_join(p[2], NULL); zt_log_ty *now = zt_log_logger(first);
        MC_CHECK((r2 == first && r3 == l2 && now == l3) || (r3 == first && r2 == l3 && now == l2), "two threads replace the default logger: no order of the two explains what they returned");
        zt_log_logger(NULL); zt_log_close(first); zt_log_close(l2); zt_log_close(l3); if (third != 2) zt_log_close(l4); sc_end(); static char all[4000]; snprintf(all, sizeof all, "%s%s%s", out[0], out[1], out[2]); MC_CHECK(outl[3] == 0, "an unrelated logger got '%s'", out[3]);
        if (third == 1) check(all, outl[0] + outl[1] + outl[2], 0); else MC_CHECK(!outl[0] && !outl[1] && !outl[2], "output without a message"); mc_state(mc_mix(8, third)); return; }
    if (mode == 5) { zt_log_ty *s = zt_log_file("y", ZT_LOG_FILE_APPEND, 0); pthread_create(&p[0], NULL, logger, NULL); pthread_create(&p[1], NULL, other, s); pthread_join(p[0], NULL); pthread_join(p[1], NULL); zt_log_close(lg); zt_log_close(s); sc_end(); MC_CHECK(outl[1] == 10 && !strcmp(out[1], "elsewhere\n"), "other logger got '%s'", out[1]); check(out[0], outl[0], 0); mc_state(5); return; }
    for (i = 0; i < nt; i++) { pthread_create(&p[i], NULL, logger, NULL); if (mode == 7) pthread_join(p[i], NULL); }
    if (mode != 7) for (i = 0; i < nt; i++) pthread_join(p[i], NULL);
    if (mode == 1) {
        MC_CHECK(natexit <= 1, "the default logger registers %d exit handlers", natexit); zt_log_ty *d = zt_log_logger(NULL); MC_CHECK(d, "no default logger after its first use"); zt_log_logger(d); sc_end(); for (i = 0; i < natexit; i++) handler[i]();
    } else { zt_log_close(lg); sc_end(); }
    if (sink == 1) { fclose(err); stderr = save; check(eb, el, 0); } else if (sink == 2) check(slog, slogl, 0); else check(out[0], outl[0], 0);
    mc_state(mc_mix(mode * 64 + opts, sc_points));
}
