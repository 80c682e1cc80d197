/* C29: every short argument vector against an independent reading of it; option tables and help texts. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_opts.h>
#include <errno.h>
#include <stdarg.h>
#include <limits.h>
#include <inttypes.h>
#include <setjmp.h>
static int maxw, nwords; static char LOG[2000], REF[2000]; static int errs, ecode; static char key[600];
static void lg(char *b, const char *f, ...) { va_list a; va_start(a, f); vsnprintf(b + strlen(b), 1900 - strlen(b), f, a); va_end(a); }
static int err(int code, char *f, ...) { va_list a; va_start(a, f); char *m = zt_opt_verror_str(code, f, a), w[400] = ""; va_end(a); MC_CHECK(m, "%s: no error text", key); va_start(a, f); if (f) vsnprintf(w, sizeof w, f, a); va_end(a); MC_CHECK(strstr(m, w) && (!code || strstr(m, strerror(code))), "%s: error text '%s' does not tell the error and '%s'", key, m, w); free(m); if (!errs++) lg(LOG, " error%d", code), ecode = code; return code; }
static int v_int; static long v_long; static intmax_t v_max; static int v_bool, v_flag; static char *v_str, **v_arr;
static jmp_buf out; static volatile int armed, excode; void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int c) { if (armed) { excode = c; longjmp(out, 1); } __real_exit(c); }
typedef zt_opt_callback CB;
static int c_flag(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_flag_int(n, d, c, v, t, e); if (!errs) lg(LOG, " flag"); return r; }
static int c_null(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_null(n, d, c, v, t, e); if (!errs) lg(LOG, " null"); return r; }
static int c_int(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_int(n, d, c, v, t, e); if (!errs) lg(LOG, " int=%d", v_int); return r; }
static int c_long(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_long(n, d, c, v, t, e); if (!errs) lg(LOG, " long=%ld", v_long); return r; }
static int c_max(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_intmax(n, d, c, v, t, e); if (!errs) lg(LOG, " max=%jd", v_max); return r; }
static int c_bool(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_bool_int(n, d, c, v, t, e); if (!errs) lg(LOG, " bool=%d", v_bool); return r; }
static int c_str(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { free(v_str); v_str = NULL; int r = zt_opt_string(n, d, c, v, t, e); if (!errs) lg(LOG, " str%c=%s", t[d].sopt == 's' ? 's' : 'l', v_str ? v_str : "(none)"); return r; }
static int c_arr(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int r = zt_opt_string_array(n, d, c, v, t, e); if (!errs) { lg(LOG, " arr="); for (int i = 0; v_arr && v_arr[i]; i++) lg(LOG, "%s,", v_arr[i]); } return r; }
static int c_val(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int k = 99; char *a = zt_opt_get_value(n, d, v, t, &k, e); if (!errs) lg(LOG, " val=%s", a ? a : "(none)"); return k; }
static int c_eat(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { (void)d; (void)c; (void)t; (void)e; if (!errs) lg(LOG, " eat=%s", v[n + 1] ? v[n + 1] : "(none)"); return v[n + 1] ? 1 : 0; }
static int c_bad(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { (void)n; (void)d; (void)c; (void)v; (void)t; (void)e; if (!errs) lg(LOG, " bad"); return -3; }
enum { FLAG, NUL, INT, LONG, MAX, BOOL, STR, ARR, VAL, EAT, BAD }; static const CB CBS[] = { c_flag, c_null, c_int, c_long, c_max, c_bool, c_str, c_arr, c_val, c_eat, c_bad };
static const struct { int s; char *l; int k; } T[] = { { 'v', "verbose", FLAG }, { 'n', "num", LONG }, { 's', NULL, STR }, { -1, "str", STR }, { 'b', "bool", BOOL }, { 'a', "arr", ARR }, { 'i', "int", INT }, { 'm', "max", MAX }, { 'f', "fo", NUL }, { 'g', "get", VAL }, { 'e', "eat", EAT }, { 'x', "bad", BAD }, { 'o', "o", VAL }, { '5', NULL, FLAG }, { 'V', "VERBOSE", NUL }, { 'S', "sTR", VAL } };
static const char *W[] = { "-v", "-vv", "-n", "-n5", "5", "--num", "--num=5", "-s", "-sfoo", "-vsv", "-s=a=b", "--str", "--str=a=b", "-b", "-byes", "no", "-a", "-afv", "-z", "-vz", "--nope", "--verbose", "--verbos", "-x", "-vx", "-e", "-ve", "-g", "-gv", "-o", "--o=", "--o", "-vn5", "--str=", "-n=0x1F", "-num",
  /* wide */ "-i", "-i-7", "--int=2147483648", "-i=-2147483648", "9223372036854775807", "9223372036854775808", "-m", "--max=-0x8000000000000000", "x", "", "--num=", "--num=5x", "--bool=T", "--bool", "F", "-b=false", "--bool=maybe", "-f", "-fv", "--fo", "--verbosee", "--verbose=3", "-", "--", "-5", "-v5", "-s=", "--get", "-og", "--=5", "--eat", "-fen", "--bad", "-b=y", "010", "-a=", "--arr", "-i1e3", "-gg", "--o=-v", "-s==b", "--str==b", "--get==", "--eat=x", "-e=x", "--int==5", "-n==5", "-V", "--VERBOSE", "--Verbose", "-vV", "-Vv", "-S=x", "--sTR", "--sTR=5", "--STR" };
static int num(const char *s, long lo, long hi, long *out) { char *e; errno = 0; *out = strtol(s, &e, 0); if (errno || *out < lo || *out > hi) return ERANGE; if (e == s || *e) return EINVAL; return 0; }
static char arr[600];
/* 0 fine; error code otherwise; *used = words after the option that were used; ret = negative result of the handler */
static int ref_value(int k, int isl, const char *v, int *ret) {
    long x; int e; *ret = 0;
    switch (k) {
    case INT: if ((e = num(v, INT_MIN, INT_MAX, &x))) return e; lg(REF, " int=%ld", x); break;
    case LONG: if ((e = num(v, LONG_MIN, LONG_MAX, &x))) return e; lg(REF, " long=%ld", x); break;
    case MAX: if ((e = num(v, LONG_MIN, LONG_MAX, &x))) return e; lg(REF, " max=%ld", x); break;
    case BOOL: { static const char *Y[] = { "t", "y", "true", "yes" }, *N[] = { "f", "n", "false", "no" }; int b = -1; for (int i = 0; i < 4; i++) { if (!strcasecmp(v, Y[i])) b = 1; if (!strcasecmp(v, N[i])) b = 0; } if (b < 0) return EINVAL; lg(REF, " bool=%d", b); break; }
    case STR: lg(REF, " str%c=%s", isl ? 'l' : 's', v); break;
    case ARR: strcat(arr, v); strcat(arr, ","); lg(REF, " arr=%s", arr); break;
    case VAL: lg(REF, " val=%s", v); break;
    }
    return 0;
}
static int model(int argc, char **argv, int *ret, int *end) {
    int i; *ret = 0; arr[0] = 0;
    for (i = 1; i < argc; i++) {
        char *w = argv[i]; if (w[0] != '-') break;
        if (w[1] == '-') { size_t l = strcspn(w + 2, "="); int k = -1; for (unsigned t = 0; t < sizeof T / sizeof *T; t++) if (T[t].l && strlen(T[t].l) == l && !strncmp(T[t].l, w + 2, l)) k = t; if (k < 0) return EINVAL; char *v = w[2 + l] ? w + 3 + l : NULL;
            switch (T[k].k) { case FLAG: lg(REF, " flag"); break; case NUL: lg(REF, " null"); break; case BAD: lg(REF, " bad"); *ret = -3; return 0; case EAT: lg(REF, " eat=%s", argv[i + 1] ? argv[i + 1] : "(none)"); if (!v && argv[i + 1]) i++; break; default: { int used = 0; if (!v) { if (!(v = argv[i + 1])) return EINVAL; used = 1; } int e = ref_value(T[k].k, T[k].s == -1, v, ret); if (e) return e; i += used; } }
            continue; }
        if (!w[1]) return EINVAL;
        for (char *p = w + 1; *p; p++) { int k = -1; for (unsigned t = 0; t < sizeof T / sizeof *T; t++) if (T[t].s == *p) k = t; if (k < 0) return EINVAL;
            if (T[k].k == FLAG) lg(REF, " flag"); else if (T[k].k == NUL) lg(REF, " null"); else if (T[k].k == BAD) { lg(REF, " bad"); *ret = -3; return 0; }
            else if (T[k].k == EAT) { lg(REF, " eat=%s", argv[i + 1] ? argv[i + 1] : "(none)"); if (argv[i + 1]) { i++; break; } }
            else { char *v; int used = 0; if (p[1]) v = p[1] == '=' ? p + 2 : p + 1; else { if (!(v = argv[i + 1])) return EINVAL; used = 1; } int e = ref_value(T[k].k, 0, v, ret); if (e) return e; i += used; break; } }
    }
    *end = i; return 0;
}
static zt_opt_def_t defs[20];
static void vectors(void) {
    int n = mc_choose(maxw + 1), argc = n + 1; char **argv = malloc((argc + 1) * sizeof *argv); argv[0] = "prog"; strcpy(key, "prog"); int wide = n < maxw || mc_thorough;
    for (int i = 1; i <= n; i++) { const char *w = W[mc_choose(wide ? (int)(sizeof W / sizeof *W) : nwords)]; argv[i] = mc_dupn(w, strlen(w) + 1); lg(key, " [%s]", w); } argv[argc] = NULL;
    int builtin_error = n < maxw ? mc_choose(2) : 0; MC_LOG("%s", key); LOG[0] = REF[0] = 0; errs = 0; v_str = NULL; v_arr = NULL; v_int = v_flag = v_bool = 0; v_long = 0; v_max = 0; int ret, end = 0; long live = mc_live_blocks();
    int e = model(argc, argv, &ret, &end); int ac = argc, r = 0; excode = 0;
    if (builtin_error) { char *et = NULL; size_t el; FILE *volatile se = stderr; int how = mc_choose(2); stderr = open_memstream(&et, &el); FILE *volatile ms = stderr; armed = 1; if (!setjmp(out)) r = how ? zt_opt_process(&ac, argv, defs) : zt_opt_process_args(&ac, argv, defs, NULL, NULL); armed = 0; fclose(ms); stderr = se; MC_CHECK(e ? strstr(et, strerror(e)) != NULL : !*et, "%s: the default error handler prints '%s' for error %d", key, et, e); free(et); MC_CHECK(excode == e, "%s: the default error handler exits with %d, must be %d", key, excode, e); }
    else r = zt_opt_process_args(&ac, argv, defs, NULL, err);
    mc_step();
    size_t rl = strlen(REF); MC_CHECK(!strncmp(LOG, REF, rl), "%s: handlers saw '%s', must be '%s'", key, LOG, REF);
    if (e) { if (!builtin_error) { MC_CHECK(errs, "%s: no error reported", key); MC_CHECK(ecode == e, "%s: error %d reported, must be %d", key, ecode, e); MC_CHECK(ac <= argc, "%s: consumed %d of %d arguments", key, ac, argc); } }
    else { MC_CHECK(!errs, "%s: error %d reported", key, ecode); MC_CHECK(!strcmp(LOG, REF), "%s: handlers saw '%s', must be '%s'", key, LOG, REF); MC_CHECK(r == ret, "%s: result %d, must be %d", key, r, ret); if (!ret) MC_CHECK(ac == end, "%s: consumed %d arguments, must be %d", key, ac, end); if (*REF) mc_nontrivial(); }
    mc_state(mc_hash(e, REF, rl)); free(v_str); for (int i = 0; v_arr && v_arr[i]; i++) free(v_arr[i]); free(v_arr); MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); for (int i = 1; i <= n; i++) free(argv[i]); free(argv);
}
static int vcalls, vseen; static zt_opt_def_t *vargs; static zt_opt_error valerr; static void val(zt_opt_def_t *a, zt_opt_error e) { vcalls++; vargs = a; valerr = e; }
static int c_seen(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { (void)argn; (void)defn; (void)argc; (void)argv; (void)def; (void)error; vseen = vcalls; return 0; }
static void tables(void) { /* which option tables the default validation accepts */
    static const int S[] = { -1, 'a', 'A', '9', '-', '0', 0x80 - 256, 'a' - 1, 'z' + 1, 'A' - 1, 'Z' + 1, '0' - 1, '9' + 1 }; static char *L[] = { NULL, "x", "X", "xx" }; zt_opt_def_t t[4]; memset(t, 0, sizeof t); int n = 1 + mc_choose(2), bad = 0; strcpy(key, "table");
    for (int i = 0; i < n; i++) { int s = S[mc_choose(13)]; t[i].sopt = s; t[i].lopt = L[mc_choose(4)]; t[i].help = mc_choose(2) ? "help" : NULL; t[i].cb = zt_opt_null; lg(key, " (%d,%s,%s)", s, t[i].lopt ? t[i].lopt : "-", t[i].help ? "help" : "-"); if (s == -1 && !t[i].lopt) bad = 1; if (!t[i].help) bad = 1; if (s != -1 && !(s > 0 && s < 128 && (strchr("0123456789", s) || (s >= 'A' && s <= 'Z') || (s >= 'a' && s <= 'z')))) bad = 1; for (int k = 0; k < i; k++) { if (s != -1 && t[k].sopt == s) bad = 1; if (t[i].lopt && t[k].lopt && !strcmp(t[i].lopt, t[k].lopt)) bad = 1; } }
    errs = 0; LOG[0] = 0; MC_LOG("%s", key); zt_opt_validate_default(t, err); mc_step(); MC_CHECK(!!errs == bad, "%s: %s", key, bad ? "accepted" : "refused"); if (errs) MC_CHECK(ecode == EINVAL, "%s: error %d", key, ecode);
    /* parsing uses it, unless told to use another validation */
    static char *none[] = { "prog", NULL }; int ac = 1; errs = 0; int r = zt_opt_process_args(&ac, none, t, NULL, err); MC_CHECK(!!errs == bad, "parsing with %s: %s", key, bad ? "accepted" : "refused"); if (!bad) MC_CHECK(r == 0 && ac == 1, "parsing nothing with %s: %d, %d consumed", key, r, ac);
    { char *et = NULL; size_t el; FILE *volatile se = stderr; stderr = open_memstream(&et, &el); FILE *volatile ms = stderr; volatile int how = strlen(key) & 1; ac = 1; excode = 0; armed = 1; if (!setjmp(out)) { if (how) zt_opt_process(&ac, none, t); else zt_opt_process_args(&ac, none, t, NULL, NULL); } armed = 0; fclose(ms); stderr = se; MC_CHECK(excode == (bad ? EINVAL : 0) && !*et == !bad, "parsing with %s: exits with %d, prints '%s'", key, excode, et); free(et); }
    char word[10]; snprintf(word, sizeof word, "--%s", t[0].lopt ? t[0].lopt : ""); char *one[] = { "prog", t[0].lopt ? word : "operand", NULL }; t[0].cb = c_seen; errs = vcalls = 0; vseen = -1; ac = 2; r = zt_opt_process_args(&ac, one, t, val, err); MC_CHECK(vcalls == 1 && vargs == t && valerr == err, "parsing with %s and another validation: called %d times", key, vcalls); MC_CHECK(!errs && r == 0 && ac == (t[0].lopt ? 2 : 1), "parsing with %s and another validation: %d errors, result %d, %d consumed", key, errs, r, ac); MC_CHECK(vseen == (t[0].lopt ? 1 : -1), "parsing with %s and another validation: handler before it", key);
    mc_state(mc_hash(7, key, strlen(key)));
}
static void helps(void) { /* every help text made of a few words appears word by word */
    static const int LEN[] = { 1, 3, 24, 25, 48, 49, 50, 51, 52, 99, 100, 101, 120 }; char text[800], *p = text; int n = mc_choose(4); for (int i = 0; i < n; i++) { int l = LEN[mc_choose(13)]; memset(p, 'A' + i, l); p += l; if (i < n - 1 || mc_choose(2)) *p++ = ' '; if (i == 0 && mc_choose(2)) *p++ = ' '; } *p = 0; char *h = mc_dupn(text, p - text + 1);
    zt_opt_def_t t[3]; memset(t, 0, sizeof t); t[0].sopt = mc_choose(2) ? 'q' : -1; t[0].lopt = t[0].sopt == -1 || mc_choose(2) ? (mc_choose(2) ? "averyverylongoptionnameindeed" : "opt") : NULL; t[0].arg = mc_choose(2) ? "<arg>" : NULL; t[0].cb = zt_opt_null; t[0].help = h; t[1].sopt = 'w'; t[1].help = "second"; t[1].cb = zt_opt_help_stdout; t[1].cb_data = "[usage]";
    snprintf(key, sizeof key, "help '%s' of -%c --%s", text, t[0].sopt == 'q' ? 'q' : '?', t[0].lopt ? t[0].lopt : "-"); MC_LOG("%s", key); char *buf = NULL; size_t bl = 0; FILE *so = stdout; int how = mc_choose(2), r, ac = 2; char *av[] = { "prog", "-w", NULL }; errs = 0; ecode = -99; LOG[0] = 0;
    stdout = open_memstream(&buf, &bl); r = how ? zt_opt_usage("prog", "[usage]", t) : zt_opt_process_args(&ac, av, t, NULL, err); fclose(stdout); stdout = so; mc_step();
    MC_CHECK(r == 0, "%s: result %d", key, r); if (!how) MC_CHECK(errs == 1 && ecode == 0, "%s: the help handler reported %d errors, the first %d", key, errs, ecode); MC_CHECK(!strncmp(buf, "Usage: prog [usage]\nOptions:\n", 29), "%s: begins '%.40s'", key, buf);
    /* squeeze blanks: the words in order */
    char want[1200], got[4000]; int k = 0; sprintf(want, "Usage: prog [usage] Options: %s%s%s%s%s %s %s -w, second", t[0].sopt == 'q' ? "-q" : "", t[0].sopt == 'q' && t[0].lopt ? "," : "", t[0].sopt == 'q' && t[0].lopt ? " " : "", t[0].lopt ? "--" : "", t[0].lopt ? t[0].lopt : "", t[0].arg ? t[0].arg : "", text);
    char w2[1200]; int j = 0; for (char *c = want; *c; c++) if (*c != ' ' && *c != '\n' && *c != ',') w2[j++] = *c; w2[j] = 0; for (char *c = buf; *c && k < 3999; c++) if (*c != ' ' && *c != '\n' && *c != ',') got[k++] = *c; got[k] = 0; MC_CHECK(!strcmp(got, w2), "%s: printed text lost or repeated something", key);
    int col = 0; (void)col; free(buf); free(h); mc_nontrivial(); mc_state(mc_hash(8, key, strlen(key)));
}
static int verr(int code, char *f, ...) { va_list ap; va_start(ap, f); int r = zt_opt_verror_default(code, f, ap); va_end(ap); return r; }
static void errtexts(void) { /* the texts of the default handler, of any length */
    static const int LEN[] = { 0, 1, 7, 60, 100, 127, 128, 250, 255, 256, 300, 511, 512, 1000, 1023, 1024, 4095, 4096, 70000 }; int l = LEN[mc_choose(19)], code = (int[]){ 0, EINVAL, ERANGE, 2, 9999, -1 }[mc_choose(6)], how = mc_choose(4), k = mc_choose(3); char *t = malloc(l + 1), *et = NULL; size_t el; memset(t, 'x', l); if (l > 2) t[1] = '%'; t[l] = 0; snprintf(key, sizeof key, "text of %d characters, code %d", l, code); MC_LOG("%s", key); static char w[71000], c[200]; 
    snprintf(w, sizeof w, k == 0 ? "%s" : k == 1 ? "<%s> 7" : "%.5s 7 7", t); snprintf(c, sizeof c, "code: %d, string: \"%s", code, code ? strerror(code) : ""); FILE *se = stderr; int r = code; char *m = NULL; long live = mc_live_blocks();
    const char *f = k == 0 ? "%s" : k == 1 ? "<%s> %d" : "%.5s %d %d"; if (how == 0) m = zt_opt_error_str(code, (char *)f, t, 7, 7); else { stderr = open_memstream(&et, &el); r = how == 3 ? verr(code, (char *)f, t, 7, 7) : zt_opt_error_default(code, how == 2 ? NULL : (char *)f, t, 7, 7); fclose(stderr); stderr = se; m = et; } mc_step();
    if (how == 2 && !code) MC_CHECK(r == -1 && !*m, "%s: neither code nor text: result %d, '%s'", key, r, m); else { MC_CHECK(r == code, "%s: result %d", key, r); if (how == 2) w[0] = 0; MC_CHECK(m && strstr(m, c) && strstr(m, w), "%s: '%.300s' does not contain '%s' and '%.100s'", key, m, c, w); MC_CHECK(strlen(m) < strlen(c) + strlen(w) + 40, "%s: more than that", key); }
    free(m); MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); free(t); mc_nontrivial(); mc_state(mc_mix(l, code * 3 + how)); }
/* handlers that themselves read another vector */
static char **inner; static int ninner, qfirst, ndepth; static zt_opt_def_t ND[6];
static void nest(void) { if (ndepth) return; ndepth++; char *av[8] = { "in" }; int n = ninner + 1; for (int i = 0; i < ninner; i++) av[i + 1] = inner[i]; lg(LOG, " ("); int r = zt_opt_process_args(&n, av, ND, NULL, err); lg(LOG, " %d/%d)", r, n); ndepth--; }
static int c_nest(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { lg(LOG, " nest"); nest(); return 0; }
static int c_nval(int n, int d, int *c, char **v, zt_opt_def_t *t, zt_opt_error e) { int k = 0; if (!qfirst) nest(); char *a = zt_opt_get_value(n, d, v, t, &k, e); lg(LOG, " q=%s", a ? a : "(none)"); if (qfirst) nest(); return k; }
static void rin(void) { static int deep; if (deep) return; deep = 1; lg(REF, " ("); int i; for (i = 0; i < ninner; i++) { char *w = inner[i]; if (*w != '-') break; for (char *p = w + 1; *p; p++) { if (*p == 'v') lg(REF, " flag"); else if (*p == 'n') lg(REF, " nest"); else { char *v = p[1] ? p + 1 : inner[++i]; lg(REF, *p == 'i' ? " int=%s" : " q=%s", v); break; } } } lg(REF, " 0/%d)", i + 1); deep = 0; }
static void nested(void) {
    static const char *OW[] = { "-n", "-nv", "-vnv", "-nn", "-qx", "-q", "x", "-nqv", "-vi5", "-nvi7", "--nest", "--qv=-n", "--qv" }; static char *IN[][3] = { { 0 }, { "-v", 0 }, { "-i5", 0 }, { "-i", "5", 0 }, { "-vi5", "-v", 0 }, { "x", 0 }, { "-qv", 0 }, { "-nv", "-v", 0 } }; int ic = mc_choose(8); inner = IN[ic]; for (ninner = 0; ninner < 3 && inner[ninner]; ninner++) ; qfirst = mc_choose(2); ndepth = 0;
    static const struct { int s; char *l; CB cb; void *d; } D[] = { { 'v', "verbose", c_flag, &v_flag }, { 'n', "nest", c_nest, 0 }, { 'q', "qv", c_nval, 0 }, { 'i', "int", c_int, &v_int } }; memset(ND, 0, sizeof ND); for (int i = 0; i < 4; i++) { ND[i].sopt = D[i].s; ND[i].lopt = D[i].l; ND[i].cb = D[i].cb; ND[i].cb_data = D[i].d; ND[i].help = "h"; }
    int n = 1 + mc_choose(3), k = 0; char *av[8] = { "prog" }; k = snprintf(key, sizeof key, "inner %d%s, outer", ic, qfirst ? " after the value" : ""); for (int i = 1; i <= n; i++) { av[i] = (char *)OW[mc_choose(13)]; k += snprintf(key + k, sizeof key - k, " '%s'", av[i]); } av[n + 1] = NULL; MC_LOG("%s", key);
    LOG[0] = REF[0] = 0; errs = 0; int end = n + 1; for (int i = 1; i <= n; i++) { char *w = av[i]; if (*w != '-') { end = i; break; } if (w[1] == '-') { if (w[2] == 'n') { lg(REF, " nest"); rin(); continue; } char *v = strchr(w, '='); v = v ? v + 1 : av[++i]; if (!v) return; if (!qfirst) rin(); lg(REF, " q=%s", v); if (qfirst) rin(); continue; }
        for (char *p = w + 1; *p; p++) { if (*p == 'v') lg(REF, " flag"); else if (*p == 'n') { lg(REF, " nest"); rin(); } else { char *v = p[1] ? p + 1 : av[++i]; if (!v) return; if (*p == 'i') lg(REF, " int=%s", v); else { if (!qfirst) rin(); lg(REF, " q=%s", v); if (qfirst) rin(); } break; } } }
    int ac = n + 1, r = zt_opt_process_args(&ac, av, ND, NULL, err); mc_step(); MC_CHECK(r == 0 && ac == end && !errs && !strcmp(LOG, REF), "%s: result %d, stops at %d,%s, must be 0, %d,%s", key, r, ac, LOG, end, REF); mc_nontrivial(); mc_state(mc_hash(9, key, k));
}
void mc_setup(void) { maxw = mc_param("words", 4, 4); nwords = mc_param("deep word alphabet", 36, 36); mc_pure = 0; mc_shard_depth = 3; stderr = fopen("/dev/null", "w"); static char eb[4096]; setvbuf(stderr, eb, _IOFBF, sizeof eb); for (unsigned i = 0; i < sizeof T / sizeof *T; i++) { void *d[] = { &v_flag, NULL, &v_int, &v_long, &v_max, &v_bool, &v_str, &v_arr, NULL, NULL, NULL }; defs[i].sopt = T[i].s; defs[i].lopt = T[i].l; defs[i].cb = CBS[T[i].k]; defs[i].cb_data = d[T[i].k]; defs[i].help = "help"; } }
void mc_run(void) { switch (mc_choose(5)) { case 0: vectors(); break; case 4: nested(); break; case 1: tables(); break; case 2: helps(); break; default: errtexts(); } }
