/* C27: every short configuration file against an independent reading of the format. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <math.h>
static const char *content; static size_t clen; static int missing, opened; static int maxc, maxl, deepl, maxv;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *f, const char *m) { if (strcmp(f, "the file")) return __real_fopen(f, m); if (missing) return NULL; opened++; if (!clen) return __real_fopen("/dev/null", m); return fmemopen((void *)content, clen, "r"); }
typedef struct { char b[40], n[24], s[64]; zt_cfg_type t; long i; double f; int ref; } var;
static var V[40]; static int nv;
static int find(const char *b, const char *n) { for (int i = 0; i < nv; i++) if (!strcmp(V[i].b, b) && !strcmp(V[i].n, n)) return i; return -1; }
static int eqi(const char *a, const char *b) { for (; *a && *b; a++, b++) if ((*a | 32) != *b) return 0; return !*a && !*b; }
static int num(const char *s, long *i, double *f) { /* 1 integer, 2 float; the C notations */ char *e; const char *p = s; if (*p == '+' || *p == '-') p++; int dig = 0, flt = 0; if (*p == '0' && (p[1] | 32) == 'x') { p += 2; for (; *p; p++) { if (strchr("0123456789abcdefABCDEF", *p)) dig++; else { flt = 1; break; } } } else { int oct = *p == '0' && p[1]; for (; *p; p++) { if (*p >= '0' && *p <= (oct ? '7' : '9')) dig++; else { flt = 1; break; } } } if (dig && !flt) { *i = strtol(s, NULL, 0); return 1; } *f = strtod(s, &e); if (*s && !*e) return 2; return 0; }
static int setvar(const char *b, const char *n, const char *txt, int quoted) {
    int k = find(b, n); if (k < 0) { k = nv++; strcpy(V[k].b, b); strcpy(V[k].n, n); } var *v = &V[k]; v->ref = -1; int t;
    if (!quoted && (t = num(txt, &v->i, &v->f))) { v->t = t == 1 ? zt_cfg_int : zt_cfg_float; return k; }
    if (!quoted && (eqi(txt, "yes") || eqi(txt, "true"))) { v->t = zt_cfg_bool; v->i = 1; return k; }
    if (!quoted && (eqi(txt, "no") || eqi(txt, "false"))) { v->t = zt_cfg_bool; v->i = 0; return k; }
    v->t = zt_cfg_string; strcpy(v->s, txt); char c[64]; strcpy(c, txt); char *d = strchr(c, '.'); if (d) { *d = 0; int r = find(c, d + 1); if (r >= 0) { v->ref = r; v->t = zt_cfg_ref; } }
    return k;
}
/* 1 well-formed, 0 not: nothing but survival is demanded */
static int read_ref(const char *p, size_t n) {
    nv = 0; char blk[64] = "Global"; size_t i = 0;
    while (i < n) {
        while (i < n && (p[i] == ' ' || p[i] == '\t')) i++;
        if (i == n) break;
        if (p[i] == '\n') { i++; continue; }
        if (p[i] == ';' || p[i] == '#') { while (i < n && p[i] != '\n') i++; continue; }
        if (p[i] == '[') { size_t s = ++i; while (i < n && p[i] != ']' && p[i] != '\n') i++; if (i == n || p[i] != ']' || i - s > 30) return 0; memcpy(blk, p + s, i - s); blk[i - s] = 0; while (i < n && p[i] != '\n') i++; continue; }
        char name[64], val[128]; size_t s = i; while (i < n && strchr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", p[i]) && p[i]) i++; if (i == s || i - s > 20) return 0; memcpy(name, p + s, i - s); name[i - s] = 0;
        while (i < n && (p[i] == ' ' || p[i] == '\t')) i++; if (i == n || p[i] != '=') return 0; i++; while (i < n && (p[i] == ' ' || p[i] == '\t')) i++;
        if (i == n || p[i] == '\n' || p[i] == ';' || p[i] == '#') return 0; /* no value */
        int q = 0;
        if (p[i] == '\'' || p[i] == '"') { char e = p[i++]; s = i; while (i < n && p[i] != e && p[i] != '\n') i++; if (i == n || p[i] != e) return 0; memcpy(val, p + s, i - s); val[i - s] = 0; i++; q = 1; while (i < n && (p[i] == ' ' || p[i] == '\t')) i++; if (i < n && p[i] != '\n' && p[i] != ';' && p[i] != '#') return 0; }
        else { s = i; while (i < n && p[i] != '\n' && p[i] != ';' && p[i] != '#') i++; size_t e = i; while (p[e - 1] == ' ' || p[e - 1] == '\t') e--; memcpy(val, p + s, e - s); val[e - s] = 0; }
        while (i < n && p[i] != '\n') i++;
        setvar(blk, name, val, q);
    }
    return 1;
}
static char KEY[2000]; static void mkkey(void) { int k = 0; for (size_t i = 0; i < clen && k < 1900; i++) { if (content[i] == '\n') KEY[k++] = '\\', KEY[k++] = 'n'; else if (content[i] == '\t') KEY[k++] = '\\', KEY[k++] = 't'; else if (content[i] < 32) k += sprintf(KEY + k, "\\%03o", content[i] & 255); else KEY[k++] = content[i]; } KEY[k] = 0; }
static void absent(zt_cfg_ty *c, char *b, char *n) { if (find(b, n) >= 0) return; union { long i; double f; char *s; int b; char raw[8]; } u, w; for (int t = 0; t < 4; t++) { memset(&u, 0x5a, 8); w = u; MC_CHECK(zt_cfg_get(c, b, n, &u, t) == -1 && !memcmp(&u, &w, 8), "file \"%s\": %s.%s is not in it but is found", KEY, b, n); } }
static void check(int wf) {
    long live = mc_live_blocks(); mkkey(); MC_LOG("file \"%s\"", KEY); zt_cfg_ty *c = zt_cfg_ini("the file", 0); mc_step();
    if (!wf) { if (c) zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live, "file \"%s\": %ld blocks left", KEY, mc_live_blocks() - live); return; }
    MC_CHECK(c, "file \"%s\": rejected", KEY);
    for (int i = 0; i < nv; i++) { var *v = &V[i]; int hops = 0; while (v->ref >= 0 && hops++ < 50) v = &V[v->ref]; union { long i; double f; char *s; int b; char raw[8]; } u, w;
        for (int t = 0; t < 4; t++) { memset(&u, 0x5a, 8); w = u; int r = zt_cfg_get(c, V[i].b, V[i].n, &u, t);
            if (hops >= 50 || (int)v->t != t) MC_CHECK(r == -1 && !memcmp(&u, &w, 8), "file \"%s\": %s.%s reads as type %d", KEY, V[i].b, V[i].n, t);
            else { MC_CHECK(r >= 0, "file \"%s\": %s.%s not readable as type %d", KEY, V[i].b, V[i].n, t);
                if (t == zt_cfg_int) MC_CHECK(u.i == v->i, "file \"%s\": %s.%s is %ld", KEY, V[i].b, V[i].n, u.i); else if (t == zt_cfg_bool) MC_CHECK(u.b == v->i, "file \"%s\": %s.%s is %d", KEY, V[i].b, V[i].n, u.b);
                else if (t == zt_cfg_float) MC_CHECK(u.f == v->f || (isnan(u.f) && isnan(v->f)), "file \"%s\": %s.%s is %g", KEY, V[i].b, V[i].n, u.f); else MC_CHECK(!strcmp(u.s, v->s), "file \"%s\": %s.%s is '%s'", KEY, V[i].b, V[i].n, u.s); } } }
    absent(c, "nosuch", "a"); absent(c, "Global", "zz"); absent(c, "Global", "a"); absent(c, "a", "a"); absent(c, "", "a"); absent(c, "main", "a"); for (int i = 0; i < 9; i++) for (int j = 0; j < 5; j++) absent(c, (char *[]){ "Global", "global", "b", "B", "bb", "m", "M", "Main", "Globa" }[i], (char *[]){ "v", "V", "vv", "v1", "A" }[j]);
    zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live, "file \"%s\": %ld blocks left", KEY, mc_live_blocks() - live); if (nv) mc_nontrivial();
}
static const char *LINES[] = { "a = 1", "a=-0x1F", "a = 1.5", "a = 1e3 ", "a = yes", "a = FALSE", "a = text", "a = 'text'", "a = \"two words\"", "a = two words  ", "a = main.b", "a = Global.a", "b = main.a", "b = 'x;y#z' ; c", "b = 1 ; 2", "b=2#3", "[main]", "[Global]", "[main] trailing", "; comment", "# a = 3", "", "  \t", "  b = 07", "\tb\t=\t'1'", "b = a.b.c", "b = a=b", "b = ''", "b = 'it", "b =", "junk", "[open", "[]", "c_1 = main.b", "b = 09", "b = 1x", "b = True.", "[x y]", "c_1 = No", "c_1 = 'main.a'", "b = .5", "b = +3", "c_1 = x y.b", "=", "= 3", "b", "[main", "c_1 = \"a'b\"", "c_1 = inf", "b = 9223372036854775807", "b = -9223372036854775808" };
void mc_setup(void) { maxc = mc_param("characters", 6, 7); maxl = mc_param("lines", 3, 3); maxv = mc_param("value characters", 6, 7); deepl = mc_param("deep lines", 4, 5); mc_shard_depth = 3; stderr = __real_fopen("/dev/null", "w"); content = "junk"; clen = 4; zt_cfg_ini("the file", 0); }
void mc_run(void) {
    static char f[6000]; int n = 0; missing = 0; opened = 0;
    switch (mc_choose(8)) {
    case 0: { static const char AB[] = "a=\n 1[];'.#"; int k = mc_choose(maxc + 1); for (int i = 0; i < k; i++) f[n++] = AB[mc_choose(11)]; break; }
    case 1: { int k = mc_choose(maxl + 1); for (int i = 0; i < k; i++) { const char *l = LINES[mc_choose(sizeof LINES / sizeof *LINES)]; strcpy(f + n, l); n += strlen(l); if (i < k - 1 || mc_choose(2)) f[n++] = '\n'; } break; }
    case 2: { static const int D[] = { 0, 4, 6, 10, 11, 12, 16, 17, 33, 39, 13 }; for (int i = 0; i < deepl; i++) { const char *l = LINES[D[mc_choose(11)]]; strcpy(f + n, l); n += strlen(l); f[n++] = '\n'; } break; }
    case 3: { /* long lines around the parser's buffer */ int kind = mc_choose(4), len = 1010 + mc_choose(24), nl = mc_choose(2); if (kind == 0) { f[n++] = '['; memset(f + n, 'b', len); n += len; strcpy(f + n, "]\na=1"); n += 5; } else if (kind == 1) { strcpy(f, "a = "); n = 4; memset(f + n, 'v', len); n += len; } else if (kind == 2) { memset(f, 'n', len); n = len; strcpy(f + n, "=1"); n += 2; } else { strcpy(f, "a = 1 ;"); n = 7; memset(f + n, 'c', len); n += len; } if (nl) f[n++] = '\n';
        content = mc_dupn(f, n); clen = n; long live = mc_live_blocks(); snprintf(KEY, sizeof KEY, "long line kind %d, %d characters", kind, len); MC_LOG("%s", KEY); zt_cfg_ty *c = zt_cfg_ini("the file", 0); mc_step();
        if (kind == 1 && len + 5 + nl < 1023) { char *s; MC_CHECK(c && zt_cfg_get_string(c, "Global", "a", &s) >= 0 && strlen(s) == (size_t)len, "%s: not read", KEY); }
        if (kind == 1 && c) { char *s; if (zt_cfg_get_string(c, "Global", "a", &s) >= 0) MC_CHECK(strlen(s) == (size_t)len, "%s: cut", KEY); }
        if (c) zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", KEY, mc_live_blocks() - live); free((void *)content); mc_nontrivial(); mc_state(mc_hash(2, KEY, strlen(KEY))); return; }
    case 7: { /* names that nearly match: other case, longer, shorter */ static const char *B[] = { "", "b", "B", "bb" }, *N[] = { "v", "V", "vv", "v1" }; int pb = 0, pv = 0; for (int i = 0; i < 3; i++) { int b = mc_choose(4), v = mc_choose(4); n += b ? sprintf(f + n, "[%s]\n", B[b]) : sprintf(f + n, "[Global]\n"); if (i == 2 && mc_choose(2)) n += sprintf(f + n, "%s = %s.%s\n", N[v], pb ? B[pb] : "Global", N[pv]); else n += sprintf(f + n, "%s = %d\n", N[v], i + 1); pb = b; pv = v; } break; }
    case 6: { /* every block name; a variable in it and a reference to that */ static const char AB[] = "aB \t.;#='[1_"; char nm[16]; int k = mc_choose(maxv - 1), m = 0; for (int i = 0; i < k; i++) nm[m++] = AB[mc_choose(12)]; nm[m] = 0; int t = mc_choose(3); n = sprintf(f, "[%s]%s\nb = 5\n%sc = %s.b\n", nm, t == 1 ? " ; x" : t == 2 ? " \t" : "", t ? "[a]\n" : "", nm); break; }
    case 5: { /* every value text: quotes of both kinds, comment marks, blanks */ static const char AB[] = "a;#'\" \t"; n = sprintf(f, mc_choose(2) ? "a =" : "[m]\n b="); int k = mc_choose(maxv + 1); for (int i = 0; i < k; i++) f[n++] = AB[mc_choose(7)]; if (mc_choose(2)) n += sprintf(f + n, "\nz = 2\n"); break; }
    default: { int b = mc_choose(256); static const char *P[] = { "", "a=", "[", "a", "a='", ";", "a = x" }; int p = mc_choose(7), q = mc_choose(3); n = sprintf(f, "%s", P[p]); f[n++] = b; if (q) { strcpy(f + n, q == 1 ? "\nb = 5\n" : "'\n"); n = strlen(f) < (size_t)n ? n + 3 : (int)strlen(f); } 
        content = mc_dupn(f, n); clen = n; nv = 0; check(0); free((void *)content); mc_state(mc_hash(3, f, n)); return; }
    }
    content = mc_dupn(f, n); clen = n; int wf = read_ref(content, n);
    check(wf); mc_state(mc_hash(wf, f, n)); free((void *)content);
    if (!n) { missing = 1; long live = mc_live_blocks(); MC_CHECK(!zt_cfg_ini("the file", 0), "a missing file is read"); MC_CHECK(mc_live_blocks() == live, "missing file: memory left"); }
}
