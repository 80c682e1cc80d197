/* C29 (scale): large option tables, long words, long clusters, hundreds of words and collected values, long help texts. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_opts.h>
#include <errno.h>
#include <stdarg.h>
static char key[300]; static int errs, ecode; static char *emsg; static char LONGV[80001];
static int err(int code, char *f, ...) { va_list a; va_start(a, f); char *m = zt_opt_verror_str(code, f, a); va_end(a); MC_CHECK(m, "%s: no error text", key); if (!errs++) { ecode = code; emsg = m; } else free(m); return code; }
static const int L[] = { 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 70000 };
#define NL 24
static const int MANY[] = { 1, 2, 3, 8, 16, 17, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000 };
#define NM 24
static int calls, lastd; static char *lastv; static int c_val(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { (void)c; int k = 7; lastd = d; calls++; lastv = zt_opt_get_value(n, d, v, t, &k, e); return k; }
static int c_flag(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { lastd = d; calls++; return zt_opt_flag_int(n, d, c, v, t, e); }
static const char SH[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static zt_opt_def_t *table(int n, char (*nm)[40]) { zt_opt_def_t *t = calloc(n + 1, sizeof *t); for (int i = 0; i < n; i++) { t[i].sopt = i < 62 ? SH[i] : ZT_OPT_NSO; sprintf(nm[i], "option-number-%d", i); t[i].lopt = nm[i]; t[i].help = "help"; t[i].cb = c_val; } return t; }
static char *str(const char *f, ...) { va_list a; va_start(a, f); char *r; if (vasprintf(&r, f, a) < 0) abort(); va_end(a); return r; }
static int parse(int argc, char **argv, zt_opt_def_t *t) { int ac = argc; errs = 0; emsg = NULL; calls = 0; lastv = NULL; int r = zt_opt_process_args(&ac, argv, t, NULL, err); mc_step(); MC_CHECK(r == 0, "%s: result %d", key, r); return ac; }
void mc_setup(void) { mc_param("lengths", NL, NL); mc_param("counts", NM, NM); mc_shard_depth = 2; memset(LONGV, 'v', 80000); stderr = fopen("/dev/null", "w"); }
void mc_run(void) {
    int mode = mc_choose(8); char *av[8]; av[0] = "prog"; long live = mc_live_blocks(); memset(av + 1, 0, 7 * sizeof *av);
    if (mode == 0) { /* every entry of a table, every form of option */
        int n = MANY[mc_choose(23)], at = mc_choose(n), form = mc_choose(5); if (form < 3 && at >= 62) return; static char nm[1000][40]; zt_opt_def_t *t = table(n, nm); snprintf(key, sizeof key, "option %d of a table of %d, form %d", at, n, form); MC_LOG("%s", key); int k = 2;
        if (form == 0) av[1] = str("-%c", SH[at]), av[2] = str("word"), k = 3; else if (form == 1) av[1] = str("-%cword", SH[at]); else if (form == 2) av[1] = str("-%c=word", SH[at]); else if (form == 3) av[1] = str("--%s=word", nm[at]); else av[1] = str("--%s", nm[at]), av[2] = str("word"), k = 3;
        MC_CHECK(parse(k, av, t) == k && !errs, "%s: not accepted", key); MC_CHECK(calls == 1 && lastd == at && lastv && !strcmp(lastv, "word"), "%s: entry %d saw '%s'", key, lastd, lastv ? lastv : "(none)"); free(av[1]); free(av[2]); free(t); mc_nontrivial(); mc_state(mc_hash(at, &n, 4));
    } else if (mode == 1) { /* long names and values */
        int what = mc_choose(5), l = L[mc_choose(NL)], kind = mc_choose(3); char *lv = LONGV + 80000 - l, *sv = NULL, **arr = NULL; zt_opt_def_t t[4]; memset(t, 0, sizeof t); int j = mc_choose(2); t[!j].sopt = 'q'; t[!j].lopt = "qqq"; t[!j].help = "q"; t[!j].cb = zt_opt_null; t[j].sopt = 's'; t[j].lopt = what == 0 || what == 3 ? lv : "str"; t[j].help = "help"; t[j].cb = kind == 0 ? c_val : kind == 1 ? zt_opt_string : zt_opt_string_array; t[j].cb_data = kind == 1 ? (void *)&sv : (void *)&arr;
        snprintf(key, sizeof key, "length %d, form %d, kind %d", l, what, kind); MC_LOG("%s", key); int k = 2; const char *want = what == 0 || what == 3 ? "word" : lv; if (what == 0) av[1] = str("--%s=word", lv); else if (what == 1) av[1] = str("-s%s", lv); else if (what == 2) av[1] = str("--str=%s", lv); else if (what == 3) av[1] = str("--%s", lv), av[2] = str("word"), k = 3; else av[1] = str("-s"), av[2] = str("%s", lv), k = 3;
        MC_CHECK(parse(k, av, t) == k && !errs, "%s: not accepted", key); const char *got = kind == 0 ? lastv : kind == 1 ? sv : arr ? arr[0] : NULL; MC_CHECK(got && !strcmp(got, want), "%s: the value arrived as '%.30s' (%zu)", key, got ? got : "(none)", got ? strlen(got) : 0); if (arr) { MC_CHECK(!arr[1], "%s: a second value", key); free(arr[0]); free(arr); } free(sv);
        if (l > 1 && what == 0) { /* names that differ in the last character, or are one shorter or longer */ for (int d = 0; d < 3; d++) { char *o = av[1]; av[1] = str("--%s=word", lv + (d == 1)); if (d == 0) av[1][1 + l] = 'x'; if (d == 2) { free(av[1]); av[1] = str("--%sv=word", lv); } sv = NULL; arr = NULL; parse(2, av, t); MC_CHECK(errs && ecode == EINVAL && !calls && !sv && !arr, "%s: near name %d accepted", key, d); char *cut = strndup(av[1] + 2, strcspn(av[1] + 2, "=")); MC_CHECK(strstr(emsg, cut), "%s: the error message does not hold the option", key); free(cut); free(emsg); free(av[1]); av[1] = o; } }
        free(av[1]); free(av[2]); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    } else if (mode == 2) { /* many collected values, in every form */
        int n = MANY[mc_choose(NM)], form = mc_choose(3), l = mc_choose(2) ? 1 : 300; char **arr = NULL; zt_opt_def_t t[3]; memset(t, 0, sizeof t); t[0].sopt = 'a'; t[0].lopt = "arr"; t[0].help = "h"; t[0].cb = zt_opt_string_array; t[0].cb_data = &arr; t[1].sopt = 'v'; t[1].cb = c_flag; int fl = 0; t[1].cb_data = &fl; t[1].help = "v"; char **v = calloc(2 * n + 3, sizeof *v); int k = 1; v[0] = "prog";
        snprintf(key, sizeof key, "%d values collected, form %d, padding %d", n, form, l); MC_LOG("%s", key); for (int i = 0; i < n; i++) { int f = form == 2 ? i % 4 : form; if (f == 0) v[k++] = str("-a"), v[k++] = str("%*d", l, i); else if (f == 1) v[k++] = str("-va%*d", l, i); else if (f == 2) v[k++] = str("--arr=%*d", l, i); else v[k++] = str("--arr"), v[k++] = str("%*d", l, i); } v[k] = str("end");
        MC_CHECK(parse(k + 1, v, t) == k && !errs, "%s: not consumed up to the operand", key); int c = 0; while (arr && arr[c]) { MC_CHECK(atoi(arr[c]) == c && (int)strlen(arr[c]) >= l, "%s: value %d is '%s'", key, c, arr[c]); c++; } MC_CHECK(c == n, "%s: %d collected", key, c); for (int i = 0; i < n; i++) free(arr[i]); free(arr); for (int i = 1; i <= k; i++) free(v[i]); free(v); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    } else if (mode == 3) { /* a long cluster, ended by nothing, an attached value, a separate value or an unknown option */
        int n = MANY[mc_choose(NM)], end = mc_choose(5), two = mc_choose(2); int fa = 0, fb = 0; zt_opt_def_t t[5]; memset(t, 0, sizeof t); t[0].sopt = 'v'; t[0].cb = c_flag; t[0].cb_data = &fa; t[0].help = "v"; t[1].sopt = 'w'; t[1].cb = c_flag; t[1].cb_data = &fb; t[1].help = "w"; t[2].sopt = 's'; t[2].cb = c_val; t[2].help = "s"; char *w = malloc(n + 20); w[0] = '-'; for (int i = 0; i < n; i++) w[i + 1] = two && i % 3 == 1 ? 'w' : 'v'; strcpy(w + 1 + n, end == 0 ? "" : end == 1 ? "sword" : end == 2 || end == 3 ? "s" : "z"); av[1] = w; int k = 2; if (end == 2) av[k++] = "word"; av[k] = "operand"; if (end == 3) av[k] = NULL; else k++;
        snprintf(key, sizeof key, "cluster of %d, ending %d", n, end); MC_LOG("%s", key); int r = parse(k, av, t), nb = two ? (n + 1) / 3 : 0; MC_CHECK(fb == nb && fa == n - nb, "%s: flags counted %d and %d", key, fa, fb); if (end == 3 || end == 4) { MC_CHECK(errs == 1 && ecode == EINVAL, "%s: %d errors", key, errs); free(emsg); } else { MC_CHECK(!errs && r == k - 1, "%s: %d consumed", key, r); if (end) MC_CHECK(lastv && !strcmp(lastv, "word"), "%s: value '%s'", key, lastv ? lastv : "(none)"); MC_CHECK(calls == n + !!end, "%s: %d handlers ran", key, calls); } free(w); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    } else if (mode == 4) { /* many words */
        int n = MANY[mc_choose(NM)], form = mc_choose(4), tail = mc_choose(3); static char nm[300][40]; int tn = 70; zt_opt_def_t *t = table(tn, nm); char **v = calloc(2 * n + 5, sizeof *v); int k = 1; v[0] = "prog"; int fa = 0; t[69].cb = c_flag; t[69].cb_data = &fa; int want = 0, wf = 0;
        snprintf(key, sizeof key, "%d options, form %d, tail %d", n, form, tail); MC_LOG("%s", key); for (int i = 0; i < n; i++) { int e = i * 7 % tn, f = form == 3 ? i % 3 : form; want++; if (e == 69) { v[k++] = str("--%s", nm[e]); wf++; continue; } if (f == 0 && e < 62) v[k++] = str("-%c%d", SH[e], i); else if (f == 1) v[k++] = str("--%s", nm[e]), v[k++] = str("-%d", i); else v[k++] = str("--%s=%d", nm[e], i); } int stop = k; for (int i = 0; i < tail; i++) v[k++] = str(i ? "-0x" : "operand");
        int r = parse(k, v, t); MC_CHECK(!errs && r == stop, "%s: %d of %d consumed", key, r, stop); MC_CHECK(calls == want && fa == wf, "%s: %d handlers ran, must be %d", key, calls, want); for (int i = 1; i < k; i++) free(v[i]); free(v); free(t); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    } else if (mode == 5) { /* validation: one flaw anywhere in a table of n */
        int n = MANY[mc_choose(22)], flaw = mc_choose(6), i = mc_choose(n), j = n - 1 - mc_choose(n < 5 ? n : 5); static char nm[1000][40]; if (n > 62 && (flaw == 1 || flaw == 3) && (i >= 62 || j >= 62)) return; zt_opt_def_t *t = table(n, nm); int bad = 1; switch (flaw) { case 0: bad = 0; break; case 1: t[i].sopt = t[j].sopt; bad = i != j; break; case 2: t[i].lopt = strdup(nm[j]); bad = i != j; break; case 3: t[i].sopt = '_'; break; case 4: t[i].help = NULL; break; case 5: t[i].sopt = ZT_OPT_NSO; t[i].lopt = ZT_OPT_NLO; break; }
        snprintf(key, sizeof key, "table of %d, flaw %d at %d and %d", n, flaw, i, j); MC_LOG("%s", key); errs = 0; emsg = NULL; zt_opt_validate_default(t, err); mc_step(); MC_CHECK(!!errs == bad, "%s: %s", key, bad ? "accepted" : "refused"); if (errs) { MC_CHECK(ecode == EINVAL, "%s: error %d", key, ecode); free(emsg); } if (flaw == 2) free(t[i].lopt); free(t); mc_state(mc_hash(mode, key, strlen(key)));
    } else if (mode == 6) { /* help for many options with long texts: every word, in order, once; lines kept narrow */
        int n = MANY[mc_choose(20)], words = mc_choose(8), wl = mc_choose(6), how = mc_choose(2); static const int WN[] = { 1, 2, 9, 10, 11, 40, 200, 1000 }, WL[] = { 1, 4, 9, 24, 49, 50 }; if (n * WN[words] > 4000) return; words = WN[words]; wl = WL[wl]; static char nm[1000][40]; zt_opt_def_t *t = table(n, nm); t[n - 1].cb = zt_opt_help_stdout; char *text = malloc(words * (wl + 1) + 1), *p = text; for (int i = 0; i < words; i++) { memset(p, 'a' + i % 26, wl); p += wl; *p++ = ' '; } p[-1] = 0; for (int i = 0; i < n; i++) { t[i].help = text; if (i % 3 == 1) t[i].arg = "<arg>"; if (i % 5 == 2) t[i].lopt = i < 62 ? NULL : t[i].lopt; }
        snprintf(key, sizeof key, "help for %d options of %d words of %d characters", n, words, wl); MC_LOG("%s", key); char *buf = NULL; size_t bl = 0; FILE *so = stdout; stdout = open_memstream(&buf, &bl); errs = 0; emsg = NULL; int r; t[n - 1].cb_data = "[usage]"; if (how) r = zt_opt_usage("prog", "[usage]", t); else { av[1] = str(n - 1 < 62 ? "-%c" : "--%s", 0); free(av[1]); av[1] = n - 1 < 62 && t[n - 1].lopt == NULL ? str("-%c", SH[n - 1]) : str("--%s", nm[n - 1]); int ac = 2; r = zt_opt_process_args(&ac, av, t, NULL, err); free(av[1]); } fclose(stdout); stdout = so; mc_step(); free(emsg); MC_CHECK(r == 0, "%s: result %d", key, r);
        /* compare word by word, a joined long word may not occur */
        size_t cap = (size_t)n * (strlen(text) + 80) + 100; char *want = malloc(cap), *q = want; q += sprintf(q, "Usage: prog [usage] Options:"); for (int i = 0; i < n; i++) { if (t[i].sopt != ZT_OPT_NSO) q += sprintf(q, " -%c%s", t[i].sopt, t[i].lopt ? "," : ""); if (t[i].lopt) q += sprintf(q, " --%s", t[i].lopt); if (t[i].arg) q += sprintf(q, " %s", t[i].arg); q += sprintf(q, " %s", text); }
        char *a = buf, *b = want; while (*a || *b) { while (*a == ' ' || *a == '\n') a++; while (*b == ' ') b++; MC_CHECK(*a == *b, "%s: printed '%.40s' where '%.40s' belongs", key, a, b); if (*a) a++, b++; MC_CHECK((*a == ' ' || *a == '\n' || !*a) == (*b == ' ' || !*b), "%s: a word is split or joined at '%.40s'", key, a); }
        free(want); free(buf); free(text); free(t); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    } else { /* error texts */
        int l = L[mc_choose(NL)], code = mc_choose(3), how = mc_choose(2); char *lv = LONGV + 80000 - l; snprintf(key, sizeof key, "error text of %d characters, code %d", l, code); MC_LOG("%s", key); static const int C[] = { EINVAL, ERANGE, 0 }; code = C[code]; char *m; if (how) m = zt_opt_error_str(code, "word '%s' at %d", lv, 17); else { errs = 0; err(code, "word '%s' at %d", lv, 17); m = emsg; } mc_step(); char *w = str("word '%s' at 17", lv); MC_CHECK(m && strstr(m, w), "%s: incomplete", key); if (code) MC_CHECK(strstr(m, strerror(code)), "%s: no reason in it", key); free(m); free(w); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
    }
    MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", key, mc_live_blocks() - live);
}
