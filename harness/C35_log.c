/* C35: every option mask, level and threshold; every kind of message and name; histories; file, stderr and syslog sinks. */
#include "mc.h"
#include <limits.h>
#include <errno.h>
#include <syslog.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <zt.h>
static time_t now; static const char *host; static pid_t pid; static char *out; static size_t outl; static int fail_open; static char omode[8], oname[64];
static char slog[600000]; static int slogs, slevel, sopen, sopts, sfac; static char sname[64];
FILE *given; static int active; FILE *__real_fopen(const char *, const char *); pid_t __real_getpid(void); time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { if (!active) return __real_time(t); if (t) *t = now; return now; }
int __wrap_gethostname(char *b, size_t n) { if (!host) { errno = EFAULT; return -1; } strncpy(b, host, n); return 0; }
pid_t __wrap_getpid(void) { return active ? pid : __real_getpid(); }
FILE *__wrap_fopen(const char *n, const char *m) { if (!active) return __real_fopen(n, m); snprintf(oname, sizeof oname, "%s", n); snprintf(omode, sizeof omode, "%s", m); if (fail_open) { errno = EACCES; return NULL; } if (given) return given; return open_memstream(&out, &outl); }
void __wrap_openlog(const char *n, int o, int f) { snprintf(sname, sizeof sname, "%s", n); sopts = o; sfac = f; sopen++; }
void __wrap_closelog(void) { sopen--; }
void __wrap_vsyslog(int l, const char *f, va_list ap) { slevel = l; slogs++; vsnprintf(slog, sizeof slog, f, ap); }
static const char *LV[] = { "Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug" }, *MON[] = { "Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec" };
static char big[6001], longfmt[3001]; static char prog[5000];
static FILE *nul; static zt_log_ty *dflt;
#define NPROG 7
static const char *PG[NPROG] = { "prog", "my prog", "100%", "%s%n", "%%", "a%5$dz", NULL };
static const char *HN[] = { "host", "host.example.org", "h%sst", "x", "abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghij1234", NULL };
static const time_t TM[] = { 0, 86399, 951782400 /* Feb 29 2000 */, 951868800, 978307199 /* Dec 31 2000 */, 1000000000, 2147483647, 2147483648ll, 4102444800ll, -1 };
/* --- reference line --- */
static int civil(time_t t, char *o) { /* UTC */
    long d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; d--; } long y = 1970; int m = 0; 
    for (;;) { int L = (y % 4 == 0 && y % 100) || y % 400 == 0; long n = 365 + L; if (d < 0) { y--; L = (y % 4 == 0 && y % 100) || y % 400 == 0; d += 365 + L; continue; } if (d < n) { static const int ML[] = { 31,28,31,30,31,30,31,31,30,31,30,31 }; for (m = 0; d >= ML[m] + (m == 1 && L); m++) d -= ML[m] + (m == 1 && L); break; } d -= n; y++; }
    return sprintf(o, "%s %02ld %02ld:%02ld:%02ld ", MON[m], d + 1, s / 3600, s / 60 % 60, s % 60);
}
static char want[1200000]; static size_t wl;
static void line(unsigned opts, int level, const char *msg, const char *file, int ln, const char *fn) {
    char *o = want + wl; if (opts & 1) o += civil(now, o);
    if (opts & 4) { if (host) { for (const char *h = host; *h && *h != '.'; h++) *o++ = *h; } else o += sprintf(o, "*hostname*"); if (opts > 4) *o++ = ' '; }
    if (opts & 8) o += sprintf(o, "%s", prog); if (opts & 16) o += sprintf(o, "[%u]", pid);
    if ((opts & 2) && level < 8) o += sprintf(o, "%s%s", opts == 2 ? "" : ": ", LV[level]);
    if (opts) o += sprintf(o, ": "); o += sprintf(o, "%s", msg); if (file && fn && ln > -1) o += sprintf(o, ": in %s at (%s:%d)", fn, file, ln); o += sprintf(o, "\n"); wl = o - want;
}
static void vlog_(zt_log_ty *l, int level, const char *f, ...) { va_list ap; va_start(ap, f); zt_log_lvprintf(l, level, f, ap); va_end(ap); }
#define NMSG 10
static char msgbuf[300000];
#define SEND(f, ...) do { snprintf(msgbuf, sizeof msgbuf, f, ##__VA_ARGS__); if (via == 0) zt_log_lprintf(l, level, f, ##__VA_ARGS__); else if (via == 1) vlog_(l, level, f, ##__VA_ARGS__); else zt_log_lstrerror(l, level, err, f, ##__VA_ARGS__); } while (0)
static void send(zt_log_ty *l, int level, int m, int via, int err) {
    switch (m) { case 0: SEND("plain message"); break; case 1: SEND("%s", "a%sb%n%%"); break; case 2: SEND("%d%% of %s", 42, "it"); break; case 3: SEND("%s", ""); break; case 4: SEND("%s", big); break; case 5: SEND(longfmt, 7); break; case 6: SEND("%s|%d|%5.2f|%c|%#lx", "x", INT_MIN, 3.14159, 'q', 1ul << 40); break; case 7: SEND("two\nlines"); break; case 8: SEND("%5s|%-5d|%*d", "a", 3, 4, 5); break; default: SEND("%s: %s", "k", "v: w"); }
    if (via == 2) { size_t n = strlen(msgbuf); snprintf(msgbuf + n, sizeof msgbuf - n, ": %s", strerror(err)); }
    mc_step();
}
static zt_log_ty *mk(int sink, unsigned opts, FILE **save) {
    out = NULL; outl = 0; if (sink == 0) { zt_log_ty *l = zt_log_file("x.log", ZT_LOG_FILE_OVERWRITE, opts); MC_CHECK(l && !strcmp(oname, "x.log") && omode[0] == 'w', "file logger not opened for writing"); return l; }
    *save = stderr; stderr = open_memstream(&out, &outl); return zt_log_stderr(opts);
}
static void done(zt_log_ty *l, int sink, FILE **save, const char *what) {
    if (!sink && wl) MC_CHECK(out && outl == wl && !memcmp(out, want, wl), "%s: the message is not in the file when the call has returned", what); /* the stream publishes what was flushed */
    zt_log_close(l); if (sink) { fclose(stderr); stderr = *save; }
    if (outl != wl || memcmp(out, want, wl)) { MC_LOG("got:  %.300s\nwant: %.300s", out, want); if (wl < 200 && outl < 200) mc_fail("%s logs '%s', must be '%s'", what, out, want); mc_fail("%s logs %zu bytes, must be %zu (or bytes differ)", what, outl, wl); } free(out);
}
static void setprog(int i) { snprintf(prog, sizeof prog, "%s", PG[i]); zt_progname(prog, 0); }
void mc_setup(void) { (void)!strerror(-12345); /* its buffer stays */
    memset(big, 'b', 6000); memset(longfmt, 'f', 3000); memcpy(longfmt + 2990, "%d", 2); static char lp[151]; memset(lp, 'p', 150); PG[NPROG - 1] = lp; mc_shard_depth = 3;
    /* the default logger, created on first use, stays for the life of the process */
    FILE *s = stderr; char *o; size_t n; stderr = open_memstream(&o, &n); zt_log_printf(zt_log_err, "first %d", 1); fclose(stderr); stderr = s; if (strcmp(o, "Error: first 1\n")) { MC_LOG("default logger logs '%s'", o); strcpy(big, "!"); } free(o);
    dflt = zt_log_logger(NULL); zt_log_logger(dflt); const char *f, *g; int k; zt_log_get_debug_info(&f, &k, &g);
    now = 1000000000; tzset(); struct tm tmv; localtime_r(&now, &tmv); static char nb[200]; nul = fopen("/dev/null", "w"); if (nul) setvbuf(nul, nb, _IOFBF, sizeof nb);
}
static const char *DF[][2] = { { NULL, NULL }, { "file.c", "func" }, { "dir/a%sb.c", "f%n" }, { "only", NULL }, { NULL, "only" } };
static const int DL[] = { 0, 1, 12345, INT_MAX, -1 };
static void run(void) {
    int mode = mc_choose(7); wl = 0; want[0] = 0; now = 1000000000; host = "host.example.org"; pid = 4242; fail_open = 0; slogs = 0; sopen = 0; setprog(0); FILE *sv = NULL; char w[100]; MC_CHECK(big[0] == 'b', "default logger does not log 'Error: first 1' to stderr");
    if (mode == 0) { int opts = mc_choose(32), level = mc_choose(9), th = mc_choose(9), sink = mc_choose(2), d = mc_choose(2), m = mc_choose(3); snprintf(w, sizeof w, "options %d level %d threshold %d%s", opts, level, th, d ? " with position" : ""); MC_LOG("%s", w);
        zt_log_ty *l = mk(sink, opts, &sv); MC_CHECK(zt_log_set_level(l, th) == zt_log_max && zt_log_get_level(l) == th, "threshold not kept"); MC_CHECK(zt_log_get_opts(l) == opts, "options not kept");
        if (d) zt_log_set_debug_info("file.c", 7, "func"); send(l, level, m, 0, 0); if (level <= th) line(opts, level, msgbuf, d ? "file.c" : NULL, 7, "func"); 
        send(l, 0, 0, 0, 0); line(opts, 0, msgbuf, NULL, 0, NULL); done(l, sink, &sv, w); mc_nontrivial(); mc_state(mc_hash(0, want, wl)); }
    else if (mode == 1) { int opts = mc_choose(32), p = mc_choose(NPROG), h = mc_choose(6), m = mc_choose(NMSG), d = mc_choose(3), sink = mc_choose(2); setprog(p); host = HN[h]; snprintf(w, sizeof w, "options %d program %s host %s message %d position %d", opts, p == 6 ? "long" : PG[p], h == 4 ? "long" : HN[h], m, d); MC_LOG("%s", w);
        zt_log_ty *l = mk(sink, opts, &sv); if (d) zt_log_set_debug_info(DF[d][0], 99, DF[d][1]); send(l, 3, m, 0, 0); line(opts, 3, msgbuf, DF[d][0], 99, DF[d][1]); done(l, sink, &sv, w); mc_nontrivial(); mc_state(mc_hash(1, want, wl)); }
    else if (mode == 2) { int opts = mc_choose(32), t = mc_choose(10), d = mc_choose(5), k = mc_choose(5), pi = mc_choose(3); now = TM[t]; pid = (int[]){ 1, INT_MAX, 4194304 }[pi]; snprintf(w, sizeof w, "options %d time %ld pid %d position %d:%d", opts, (long)now, pid, d, DL[k]); MC_LOG("%s", w);
        zt_log_ty *l = mk(0, opts, &sv); if (d) zt_log_set_debug_info(DF[d][0], DL[k], DF[d][1]); send(l, 6, 2, 0, 0); line(opts, 6, msgbuf, DF[d][0], DL[k], DF[d][1]); done(l, 0, &sv, w); mc_nontrivial(); mc_state(mc_hash(2, want, wl)); }
    else if (mode == 3) { /* every entry point, explicit and default logger */
        static const int ER[] = { 0, EPERM, ENOENT, EINTR, ENOMEM, EINVAL, ERANGE, ENAMETOOLONG }; int via = mc_choose(4), dl = mc_choose(2), opts = mc_choose(32), level = mc_choose(8), th = mc_choose(9), m = mc_choose(NMSG), e = via == 2 ? ER[mc_choose(8)] : 0; if (opts & 5 && m > 1) return; snprintf(w, sizeof w, "entry %d%s options %d level %d threshold %d message %d error %d", via, dl ? " default logger" : "", opts, level, th, m, e); MC_LOG("%s", w);
        zt_log_ty *l = mk(0, opts, &sv), *old = NULL; if (dl) { old = zt_log_logger(l); MC_CHECK(old == dflt, "previous logger not returned"); zt_log_set_level(NULL, th); MC_CHECK(zt_log_get_level(l) == th && zt_log_get_opts(NULL) == opts, "default logger not used"); } else zt_log_set_level(l, th);
        const char *f = NULL, *fn = NULL; int ln = 0; if (via == 3) { if (!dl) zt_log_logger(l); zt_log_dprintf(level, "position %d", m); ln = __LINE__; f = __FILE__; fn = __func__; sprintf(msgbuf, "position %d", m); if (!dl) zt_log_logger(dflt); } else send(dl ? NULL : l, level, m, via, e); 
        if (level <= th) line(opts, level, msgbuf, f, ln, fn); if (dl) { MC_CHECK(zt_log_logger(dflt) == l, "logger not returned"); } send(l, 0, 0, 0, 0); line(opts, 0, msgbuf, NULL, 0, NULL); done(l, 0, &sv, w); mc_nontrivial(); mc_state(mc_hash(3, want, wl)); }
    else if (mode == 4) { /* histories: position is for one message only */
        int depth = mc_param("depth", 6, 8); unsigned opts = 10; int th = 8; const char *f = NULL, *fn = NULL; int ln = -1; zt_log_ty *l = mk(0, opts, &sv); strcpy(w, "history"); 
        for (int i = 0; i < depth; i++) { int op = mc_choose(8); if (!op) break; snprintf(w + strlen(w), sizeof w - strlen(w), " %d", op);
            if (op == 1) { zt_log_lprintf(l, zt_log_err, "m%d", i); char t[9]; sprintf(t, "m%d", i); if (th >= 3) line(opts, 3, t, f, ln, fn); f = fn = NULL; ln = -1; }
            else if (op == 2) { vlog_(l, zt_log_debug, "v%d", i); char t[9]; sprintf(t, "v%d", i); if (th >= 7) line(opts, 7, t, f, ln, fn); f = fn = NULL; ln = -1; }
            else if (op == 3) { zt_log_set_debug_info(f = "a.c", ln = i, fn = "g"); const char *a, *b; int c; zt_log_get_debug_info(&a, &c, &b); MC_CHECK(a && b && !strcmp(a, f) && c == ln && !strcmp(b, fn), "position not kept"); }
            else if (op == 4) { MC_CHECK(zt_log_set_level(l, zt_log_warning) == th, "previous threshold"); th = 4; } else if (op == 5) { MC_CHECK(zt_log_set_level(l, zt_log_max) == th, "previous threshold"); th = 8; }
            else if (op == 6) { MC_CHECK(zt_log_set_opts(l, 0) == opts, "previous options"); opts = 0; } else { zt_log_lstrerror(l, zt_log_notice, ENOENT, "e%d", i); char t[60]; sprintf(t, "e%d: No such file or directory", i); if (th >= 5) line(opts, 5, t, f, ln, fn); f = fn = NULL; ln = -1; }
            mc_step(); mc_state(mc_hash(mc_mix(op, th), want, wl)); if (i > 1) mc_nontrivial(); }
        const char *a, *b; int c; zt_log_get_debug_info(&a, &c, &b); MC_CHECK(f ? a && !strcmp(a, f) : a == NULL, "%s: position left behind", w); ZT_LOG_DEBUG_RESET(); MC_LOG("%s", w); done(l, 0, &sv, w); }
    else if (mode == 5) { /* syslog */
        int lv = mc_choose(9), opts = mc_choose(2) * 2, th = mc_choose(9), m = mc_choose(NMSG), d = mc_choose(2), o = mc_choose(m ? 3 : 5), p = mc_choose(3); setprog(p); snprintf(w, sizeof w, "syslog options %d level %d threshold %d message %d", opts, lv, th, m); MC_LOG("%s", w); static const int PR[] = { LOG_EMERG, LOG_ALERT, LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG, LOG_ERR };
        zt_log_ty *l = o == 0 ? zt_log_syslog() : zt_log_syslog2((o % 2 ? ZT_LOG_WITH_PID : 0) | (o > 2 ? ZT_LOG_WITH_LEVEL | ZT_LOG_WITH_DATE : 0), LOG_LOCAL3); MC_CHECK(sopen == 1 && !strcmp(sname, prog) && sopts == (o && o % 2 == 0 ? 0 : LOG_PID) && sfac == (o ? LOG_LOCAL3 : LOG_USER), "%s opened as '%s' %d %d", w, sname, sopts, sfac);
        zt_log_set_opts(l, opts | (mc_choose(2) ? 29 : 0)); zt_log_set_level(l, th); if (d) zt_log_set_debug_info("f%d.c", 3, "g"); send(l, lv, m, 0, 0); if (lv <= th) { line(opts, lv, msgbuf, d ? "f%d.c" : NULL, 3, "g"); MC_CHECK(slogs == 1 && slevel == PR[lv], "%s: %d messages at priority %d", w, slogs, slevel); if (strcmp(slog, want)) { if (wl < 200) mc_fail("%s is '%.200s', must be '%s'", w, slog, want); mc_fail("%s differs", w); } } else MC_CHECK(slogs == 0, "%s logged", w);
        zt_log_close(l); MC_CHECK(sopen == 0, "syslog not closed"); mc_nontrivial(); mc_state(mc_hash(5, want, wl)); }
    else { /* opening */
        int o = mc_choose(3); fail_open = o == 2; FILE *s = stderr; stderr = nul; out = NULL; zt_log_ty *l = zt_log_file("name", o == 1 ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, 0); stderr = s;
        if (fail_open) MC_CHECK(l == NULL, "logger without a file"); else { MC_CHECK(l && omode[0] == (o == 1 ? 'a' : 'w'), "file opened with mode %s", omode); zt_log_close(l); free(out); } mc_step(); }
}
#ifndef SCALE
void mc_run(void) { long lb = mc_live_blocks(); active = 1; run(); active = 0; long la = mc_live_blocks(); MC_CHECK(la == lb, "%ld blocks of a closed or failed logger are kept", la - lb); }
#endif
