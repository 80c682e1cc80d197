/* C35: messages, formats, names and positions of many lengths, every error number, many loggers at once, long logs, and the macros as single statements (-DDEBUG). */
#define SCALE
#include "C35_log.c"
static const int LN[] = { 0, 1, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 199, 200, 201, 250, 251, 252, 253, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3999, 4000, 4001, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000 };
#define NLN (sizeof LN / sizeof *LN)
static char *rpt(int n, int k) { char *b = malloc(n + 1); for (int i = 0; i < n; i++) b[i] = k == 0 ? 'a' + i % 26 : k == 1 ? (i % 5 == 3 ? '%' : 'n') : (i % 7 == 2 ? '.' : 's'); b[n] = 0; return b; }
static int vk, vl; static const char *vf; /* the va_list forms: which, and where */
static void vform(int cond, int lv, const char *f, ...) { va_list ap; va_start(ap, f); vf = __func__; switch (vk) { case 7: if (cond) zt_log_vprintf(lv, f, ap); vl = -1; break; case 8: if (cond) zt_log_dvprintf(lv, f, ap); vl = __LINE__; break; case 9: if (cond) ZT_LOG_XDEBUGV(f, ap); vl = __LINE__; break; default: if (cond) ZT_LOG_NDEBUGV(f, ap); vl = __LINE__; } va_end(ap); }
static void scale(void) {
    int mode = mc_choose(7); wl = 0; want[0] = 0; now = 1000000000; host = "host.example.org"; pid = 4242; fail_open = 0; slogs = 0; sopen = 0; setprog(0); FILE *sv = NULL; char w[200]; static const unsigned OP[] = { 0, 2, 31, 29, 10 };
    if (mode == 0) { /* long messages and formats */
        int n = LN[mc_choose(NLN)], via = mc_choose(3), isf = mc_choose(2), sink = mc_choose(3), oi = mc_choose(3), d = mc_choose(3); unsigned opts = sink == 2 ? OP[oi] & 2 : OP[oi]; char *t = rpt(n, isf ? 0 : mc_choose(2)), *f1 = rpt(d == 2 ? 4000 : 5, d), *f2 = rpt(d == 2 ? 3000 : 4, 0); snprintf(w, sizeof w, "%s of %d bytes, entry %d, sink %d, options %u, position %d", isf ? "format" : "text", n, via, sink, opts, d); MC_LOG("%s", w);
        zt_log_ty *l = sink == 2 ? zt_log_syslog2(ZT_LOG_WITH_PID, LOG_USER) : mk(sink, opts, &sv); if (sink == 2) zt_log_set_opts(l, opts); if (d) zt_log_set_debug_info(f1, 77, f2); int err = ENOENT, level = 3; char *ft = isf ? mc_dupn(t, n + 1) : NULL; if (isf) SEND(ft); else SEND("%s", t); if (via == 2) { size_t k = strlen(msgbuf); snprintf(msgbuf + k, sizeof msgbuf - k, ": %s", strerror(err)); } free(ft); mc_step();
        line(opts, 3, msgbuf, d ? f1 : NULL, 77, f2); if (sink == 2) { MC_CHECK(slogs == 1 && slevel == LOG_ERR && !strcmp(slog, want), "%s: %d messages of %zu bytes, must be %zu", w, slogs, strlen(slog), wl); zt_log_close(l); } else { send(l, 0, 0, 0, 0); line(opts, 0, msgbuf, NULL, 0, NULL); done(l, sink, &sv, w); } free(t); free(f1); free(f2); mc_nontrivial(); mc_state(mc_hash(0, want, wl)); }
    else if (mode == 1) { /* host and program names */
        static const char *H[] = { "", ".", ".hidden", "..", "a.", "a.b.c.d", "%", "%s.%n", "-", "host\t1", NULL }; int k = mc_choose(15), n = 0; unsigned opts = mc_choose(32); char *h = NULL; if (k < 10) host = H[k]; else { n = (int[]){ 63, 64, 128, 252, 253 }[k - 10]; h = rpt(n, mc_choose(3)); host = h; } snprintf(w, sizeof w, "host '%.20s' (%zu bytes), options %u", host, strlen(host), opts); MC_LOG("%s", w);
        zt_log_ty *l = mk(0, opts, &sv); send(l, 3, 2, 0, 0); line(opts, 3, msgbuf, NULL, 0, NULL); done(l, 0, &sv, w); free(h); mc_nontrivial(); mc_state(mc_hash(1, want, wl)); }
    else if (mode == 2) { int n = LN[1 + mc_choose(NLN - 1)], k = mc_choose(3), sink = mc_choose(3); unsigned opts = (unsigned[]){ 8, 31, 24, 10 }[mc_choose(4)]; if (n >= PATH_MAX) return; char *p = rpt(n, k); snprintf(prog, sizeof prog, "%s", p); zt_progname(prog, 0); free(p); snprintf(w, sizeof w, "program name of %d bytes (%d), options %u, sink %d", n, k, opts, sink); MC_LOG("%s", w);
        if (sink == 2) { zt_log_ty *l = zt_log_syslog(); MC_CHECK(!strncmp(sname, prog, 60), "%s: opened as %s", w, sname); send(l, 5, 0, 0, 0); MC_CHECK(slogs == 1 && !strcmp(slog, ": plain message\n") == 0 && strstr(slog, "plain message"), "%s: %s", w, slog); zt_log_close(l); } else { zt_log_ty *l = mk(sink, opts, &sv); send(l, 3, 2, 0, 0); line(opts, 3, msgbuf, NULL, 0, NULL); done(l, sink, &sv, w); } mc_nontrivial(); mc_state(mc_mix(n, k * 7 + sink)); }
    else if (mode == 3) { /* every error number */ int e = (int)mc_choose(145) - 5; if (e < 0) e = (int[]){ -1, INT_MIN, INT_MAX, 9999, 512 }[e + 5]; int dl = mc_choose(2); unsigned opts = OP[mc_choose(5)]; char *t = rpt((int[]){ 0, 3, 300, 4097 }[mc_choose(4)], 0); snprintf(w, sizeof w, "error %d after %zu bytes, options %u", e, strlen(t), opts); MC_LOG("%s", w); char we[200]; snprintf(we, sizeof we, "%s", strerror(e));
        zt_log_ty *l = mk(0, opts, &sv); if (dl) { zt_log_logger(l); zt_log_strerror(zt_log_crit, e, "%s|%d", t, 5); zt_log_logger(dflt); } else zt_log_lstrerror(l, zt_log_crit, e, "%s|%d", t, 5); snprintf(msgbuf, sizeof msgbuf, "%s|5: %s", t, we); line(opts, 2, msgbuf, NULL, 0, NULL); done(l, 0, &sv, w); free(t); mc_step(); mc_nontrivial(); mc_state(mc_mix(e, opts)); }
    else if (mode == 4) { /* many loggers at once: each with its own options, threshold and lines */
        int n = (int[]){ 2, 16, 64, 255, 256, 257, 300 }[mc_choose(7)], ord = mc_choose(2); zt_log_ty **l = calloc(n, sizeof *l); char **o = calloc(n, sizeof *o); size_t *ol = calloc(n, sizeof *ol); static char *ob[300]; static size_t obl[300]; snprintf(w, sizeof w, "%d loggers", n); MC_LOG("%s", w);
        for (int i = 0; i < n; i++) { out = NULL; active = 0; /* a stream of its own */ FILE *f = open_memstream(&ob[i], &obl[i]); active = 1; extern FILE *given; given = f; l[i] = zt_log_file("x.log", ZT_LOG_FILE_OVERWRITE, i % 3 * 5); given = NULL; zt_log_set_level(l[i], i % 9); }
        for (int r = 0; r < 3; r++) for (int i = 0; i < n; i++) { zt_log_logger(l[i]); zt_log_printf(i * 7 % 8, "logger %d round %d", i, r); if (r == 1) zt_log_lprintf(l[(i + 1) % n], 0, "other"); mc_step(); } zt_log_logger(dflt);
        for (int q = 0; q < n; q++) { int i = ord ? n - 1 - q : q; MC_CHECK(zt_log_get_level(l[i]) == (zt_log_level)(i % 9) && zt_log_get_opts(l[i]) == (unsigned)i % 3 * 5, "%s: settings of %d changed", w, i); zt_log_close(l[i]); wl = 0; for (int r = 0; r < 3; r++) { char t[60]; sprintf(t, "logger %d round %d", i, r); int first = i == 0; /* in round 1 the neighbour's message to us comes before ours, except for the first */ if (r == 1 && !first) line(i % 3 * 5, 0, "other", NULL, 0, NULL); if (i * 7 % 8 <= i % 9) line(i % 3 * 5, i * 7 % 8, t, NULL, 0, NULL); if (r == 1 && first) line(i % 3 * 5, 0, "other", NULL, 0, NULL); } MC_CHECK(obl[i] == wl && !memcmp(ob[i], want, wl), "%s: log %d has '%.200s', must have '%.200s'", w, i, ob[i], want); free(ob[i]); }
        free(l); free(o); free(ol); mc_nontrivial(); mc_state(n * 2 + ord); }
    else if (mode == 5) { /* long logs */ int n = (int[]){ 100, 255, 256, 257, 1000, 5000 }[mc_choose(6)], sink = mc_choose(2), tog = mc_choose(3); unsigned opts = OP[mc_choose(5)]; snprintf(w, sizeof w, "%d messages, options %u, sink %d, changes %d", n, opts, sink, tog); MC_LOG("%s", w); zt_log_ty *l = mk(sink, opts, &sv); int th = 8; for (int i = 0; i < n; i++) { char t[40]; sprintf(t, "message %d", i); if (tog == 1 && i % 10 == 0) zt_log_set_level(l, th = i / 10 % 9); if (tog == 2 && i % 3 == 0) zt_log_set_debug_info("f.c", i, "g"); if (wl > sizeof want - 400) break; zt_log_lprintf(l, i % 8, "message %d", i); if (i % 8 <= th) line(opts, i % 8, t, tog == 2 && i % 3 == 0 ? "f.c" : NULL, i, "g"); mc_step(); } done(l, sink, &sv, w); mc_nontrivial(); mc_state(mc_mix(n, opts)); }
    else { /* the macros are single statements and expressions */
        int cond = mc_choose(2), k = mc_choose(11), lv = mc_choose(8), th = mc_choose(9); unsigned opts = OP[mc_choose(5)]; snprintf(w, sizeof w, "macro %d under a condition that is %s, options %u, level %d, threshold %d", k, cond ? "true" : "false", opts, lv, th); MC_LOG("%s", w); zt_log_ty *l = mk(0, opts, &sv), *old = zt_log_logger(l); (void)old; zt_log_set_level(l, th); int ln = -1, lev = lv; const char *fn = __func__;
        switch (k) {
        case 0: if (cond) zt_log_dprintf(lv, "m %d", 1); ln = __LINE__; break;
        case 1: if (cond) ZT_LOG_XDEBUG("m %d", 1); ln = __LINE__; lev = 7; break;
        case 2: if (cond) ZT_LOG_NDEBUG("m %d", 1); ln = __LINE__; lev = 7; break;
        case 3: for (int i = 0; i < (cond ? 3 : 0); i++) zt_log_dprintf(lv, "m %d", 1); ln = __LINE__; break;
        case 4: if (cond) zt_log_printf(lv, "m %d", 1); break;
        case 5: if (cond) zt_log_strerror(lv, ENOENT, "m"); break;
        case 7: case 8: case 9: case 10: vk = k; vform(cond, lv, "m %d", 1); ln = vl; fn = vf; if (k > 8) lev = 7; break;
        default: if (cond) ZT_LOG_WITH_DEBUG(zt_log_printf(lv, "m %d", 1)); ln = __LINE__; }
        mc_step(); const char *a, *b; int c; if (!cond || k == 6) { zt_log_get_debug_info(&a, &c, &b); MC_CHECK(!a && !b, "%s: position left behind", w); } const char *m = k == 5 ? "m: No such file or directory" : "m 1"; int times = k == 3 ? 3 : 1; if (cond && lev <= th) while (times--) line(opts, lev, m, ln < 0 ? NULL : __FILE__, ln, fn); zt_log_lprintf(l, 0, "after"); line(opts, 0, "after", NULL, 0, NULL); zt_log_logger(dflt); done(l, 0, &sv, w); mc_nontrivial(); mc_state(mc_hash(6, want, wl)); }
}
void mc_run(void) { long lb = mc_live_blocks(); active = 1; scale(); active = 0; long la = mc_live_blocks(); MC_CHECK(la == lb, "%ld blocks of closed loggers are kept", la - lb); }
