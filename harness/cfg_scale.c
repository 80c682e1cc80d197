/* C27/C28 (scale): files of many blocks, variables, long names, values and comments; long reference chains and cycles; long assignment histories. PART selects the property. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <math.h>
static const char *content; static size_t clen; FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *f, const char *m) { if (strcmp(f, "the file")) return __real_fopen(f, m); return clen ? fmemopen((void *)content, clen, "r") : __real_fopen("/dev/null", m); }
static char key[200];
typedef struct { int t; long i; double f; const char *s; } val;
static char LONGV[2100];
static val mkval(int k, char *txt) { val v = { zt_cfg_int, 0, 0, NULL }; static char st[8][40]; static int r; char *b = st[r++ & 7];
    switch (k % 9) { case 0: v.i = k * 7 - 100; sprintf(txt, "%ld", v.i); break; case 1: v.i = k; sprintf(txt, "0x%lX", v.i); break; case 2: v.t = zt_cfg_float; v.f = k + 0.5; sprintf(txt, "%.1f", v.f); break; case 3: v.t = zt_cfg_bool; v.i = 1; strcpy(txt, k % 2 ? "Yes" : "TRUE"); break; case 4: v.t = zt_cfg_bool; v.i = 0; strcpy(txt, k % 2 ? "no" : "False"); break;
    case 5: v.t = zt_cfg_string; sprintf(b, "word %d here", k); v.s = b; strcpy(txt, b); break; case 6: v.t = zt_cfg_string; sprintf(b, "q;u#o%d = ted", k); v.s = b; sprintf(txt, "'%s'", b); break; case 7: v.t = zt_cfg_string; sprintf(b, "it's %d", k); v.s = b; sprintf(txt, "\"%s\"", b); break; default: v.i = -k; sprintf(txt, "-%d", k); } return v; }
static void is(zt_cfg_ty *c, char *b, char *n, val v) { for (int t = 0; t < 4; t++) { union { long i; double f; char *s; int b; char raw[8]; } u, w; memset(&u, 0x5a, 8); w = u; int r = zt_cfg_get(c, b, n, &u, t);
    if (t != v.t) { MC_CHECK(r == -1 && !memcmp(&u, &w, 8), "%s: [%.40s] %.40s reads as type %d too", key, b, n, t); continue; }
    MC_CHECK(r >= 0, "%s: [%.40s] %.40s not readable as type %d", key, b, n, t); if (t == zt_cfg_int) MC_CHECK(u.i == v.i, "%s: [%.40s] %.40s is %ld, must be %ld", key, b, n, u.i, v.i); else if (t == zt_cfg_bool) MC_CHECK(u.b == v.i, "%s: [%.40s] %.40s is %d", key, b, n, u.b); else if (t == zt_cfg_float) MC_CHECK(u.f == v.f, "%s: [%.40s] %.40s is %g", key, b, n, u.f); else MC_CHECK(!strcmp(u.s, v.s), "%s: [%.40s] %.40s is '%.40s' (%zu), must be '%.40s' (%zu)", key, b, n, u.s, strlen(u.s), v.s, strlen(v.s)); } mc_step(); }
static void dead(zt_cfg_ty *c, char *b, char *n) { for (int t = 0; t < 6; t++) { union { long i; char raw[8]; } u; u.i = 0x5a5a; MC_CHECK(zt_cfg_get(c, b, n, &u, t) == -1 && u.i == 0x5a5a, "%s: [%s] %s is readable as type %d", key, b, n, t); } mc_step(); }
static const int L[] = { 1, 2, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 700, 1000, 1005 };
#define NLN 18
static const int MANY[] = { 1, 2, 5, 10, 16, 31, 32, 33, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300 };
void mc_setup(void) { mc_param("counts", 18, 18); mc_shard_depth = 2; memset(LONGV, 'v', sizeof LONGV - 1); stderr = __real_fopen("/dev/null", "w"); content = "junk"; clen = 4; zt_cfg_ini("the file", 0); }
#if PART == 27
static char *buf; static size_t n; static void put(const char *s) { size_t l = strlen(s); memcpy(buf + n, s, l); n += l; } static void rep(char c, int k) { memset(buf + n, c, k); n += k; }
void mc_run(void) {
    int mode = mc_choose(4); n = 0; buf = malloc(4000000); zt_cfg_ty *c; char a[1200], b[1200], t[100]; long live0 = mc_live_blocks();
    if (mode == 0) { /* many blocks of many variables */
        int nb = MANY[mc_choose(18)], nv = MANY[mc_choose(18)], lay = mc_choose(4); if (nb * nv > 3000 || (nb == 1 && lay == 1)) { free(buf); return; } snprintf(key, sizeof key, "%d blocks of %d variables, layout %d", nb, nv, lay); MC_LOG("%s", key);
        for (int pass = 0; pass < (lay == 2 ? 2 : 1); pass++) for (int x = 0; x < (lay == 1 ? nv : nb); x++) { if (lay != 1) { sprintf(a, "[block %d]%s\n", x, x % 3 ? "" : " junk ; # ="); put(a); } for (int y = 0; y < (lay == 1 ? nb : nv); y++) { int bi = lay == 1 ? y : x, vi = lay == 1 ? x : y; if (lay == 1) { sprintf(a, "[block %d]\n", bi); put(a); } mkval(bi * 31 + vi + (lay == 2 && !pass ? 1000 : 0), t); sprintf(a, "var_%d%s%s%s\n", vi, vi % 2 ? " = " : "=", t, vi % 5 == 4 ? " ; comment # more" : ""); put(a); if (lay == 3) { if (vi % 3 == 0) put("# comment = 1\n"); if (vi % 3 == 1) put("\n \t\n"); if (vi % 3 == 2) put("\t "); } } }
        content = buf; clen = n; c = zt_cfg_ini("the file", 0); MC_CHECK(c, "%s: rejected", key); for (int x = 0; x < nb; x++) for (int y = 0; y < nv; y++) { sprintf(a, "block %d", x); sprintf(b, "var_%d", y); val v = mkval(x * 31 + y, t); is(c, a, b, v); } sprintf(a, "block %d", nb); dead(c, a, "var_0"); sprintf(b, "var_%d", nv); dead(c, "block 0", b); dead(c, "Global", "var_0");
    } else if (mode == 1) { /* long names, values, comments */
        int what = mc_choose(6), li = mc_choose(NLN + 4), end = mc_choose(2), q = 0; static const int LL[] = { 1023, 1024, 4096, 70000 }; int l = li < NLN ? L[li] : LL[li - NLN]; if (li >= NLN && what != 3 && what != 5) { free(buf); return; } if (what == 0) q = mc_choose(3); snprintf(key, sizeof key, "length %d of item %d (quoting %d)", l, what, q); MC_LOG("%s", key); char *vn = "a", *bn = "Global", *lv = LONGV + sizeof LONGV - 1 - (l < 2000 ? l : 0); val w = { zt_cfg_int, 5, 0, NULL };
        if (what == 0) { put("a = "); if (q) rep("'\""[q - 1], 1); rep('v', l); if (q) rep("'\""[q - 1], 1); w.t = zt_cfg_string; w.s = lv; } else if (what == 1) { rep('v', l); put(" = 5"); vn = lv; } else if (what == 2) { put("["); rep('v', l); put("]\na = 5"); bn = lv; } else if (what == 3) { put("; "); rep('c', l); put("\na = 5"); } else if (what == 4) { put("a = 5 ;"); rep('c', l); } else { put("[x]"); rep('c', l); put("\na = 5"); bn = "x"; }
        if (end) put("\n"); put(end ? "z = 9\n" : ""); int rf = end && l > 1 && l <= 1005 && (what == 1 || what == 2); if (rf) { sprintf(a, "[r]\nr = %s.%s\n", bn, vn); put(a); } content = buf; clen = n; c = zt_cfg_ini("the file", 0); MC_CHECK(c, "%s: rejected", key); is(c, bn, vn, w); if (end) { val z = { zt_cfg_int, 9, 0, NULL }; is(c, bn, "z", z); } if (rf) is(c, "r", "r", w); if (l > 1 && (what == 1 || what == 2)) dead(c, what == 2 ? lv + 1 : bn, what == 1 ? lv + 1 : vn);
    } else if (mode == 2) { /* a chain of references, across one or many blocks */
        int len = MANY[mc_choose(18)], spread = mc_choose(3), k = mc_choose(9), fwd = mc_choose(2); snprintf(key, sizeof key, "chain of %d references over %s, value %d%s", len, spread == 0 ? "one block" : spread == 1 ? "two blocks" : "a block each", k, fwd ? ", forward" : ""); MC_LOG("%s", key); val v = mkval(k, t);
#define BLK(i) (sprintf(a, spread == 0 ? "b" : spread == 1 ? "b%d" : "blk%d", spread == 1 ? (i) % 2 : (i)), a)
        for (int x = 0; x <= len; x++) { int i = fwd ? len - x : x; sprintf(buf + n, "[%s]\n", BLK(i)); n += strlen(buf + n); if (i == 0) sprintf(buf + n, "v0 = %s\n", t); else { BLK(i - 1); sprintf(buf + n, "v%d = %s.v%d\n", i, a, i - 1); } n += strlen(buf + n); }
        content = buf; clen = n; c = zt_cfg_ini("the file", 0); MC_CHECK(c, "%s: rejected", key); for (int i = 0; i <= len; i++) { sprintf(b, "v%d", i); if (fwd && i) { char s[100]; BLK(i - 1); sprintf(s, "%s.v%d", a, i - 1); val w = { zt_cfg_string, 0, 0, s }; is(c, BLK(i), b, w); } else is(c, BLK(i), b, v); }
    } else { /* one name assigned again and again with values of changing type */
        int times = MANY[mc_choose(18)], st = mc_choose(9); snprintf(key, sizeof key, "one variable assigned %d times from kind %d", times, st); MC_LOG("%s", key); val v = { 0 }; for (int i = 0; i < times; i++) { v = mkval(st + i * 4, t); sprintf(buf + n, "a = %s\n%s", t, i % 7 == 6 ? "[Global]\n" : ""); n += strlen(buf + n); } content = buf; clen = n; c = zt_cfg_ini("the file", 0); MC_CHECK(c, "%s: rejected", key); is(c, "Global", "a", v); dead(c, "Global", "b");
    }
    zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live0, "%s: %ld blocks left", key, mc_live_blocks() - live0); free(buf); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
}
#else
static int set(zt_cfg_ty *c, char *b, char *n, val v) { int r; if (v.t == zt_cfg_int) { long i = v.i; r = zt_cfg_set_int(c, b, n, &i); } else if (v.t == zt_cfg_float) { double f = v.f; r = zt_cfg_set_float(c, b, n, &f); } else if (v.t == zt_cfg_bool) { char *s = v.i ? "yes" : "no"; r = zt_cfg_set_bool(c, b, n, &s); } else { char *p = mc_dupn(v.s, strlen(v.s) + 1); r = zt_cfg_set_string(c, b, n, &p); MC_CHECK(!strcmp(p, v.s), "%s: the caller's string was changed", key); free(p); } MC_CHECK(r > 0, "%s: [%.40s] %.40s refused", key, b, n); return r; }
static void ref(zt_cfg_ty *c, int i, int j) { char a[40], s[40], *p = s; sprintf(a, "v%d", i); sprintf(s, "b%d.v%d", j % 3, j); char b[10]; sprintf(b, "b%d", i % 3); MC_CHECK(zt_cfg_set_string(c, b, a, &p) > 0, "%s: reference refused", key); }
void mc_run(void) {
    int mode = mc_choose(3); char a[60], b[60], t[100]; clen = 0; long live0 = mc_live_blocks(); zt_cfg_ty *c = zt_cfg_ini("the file", 0); MC_CHECK(c, "empty file rejected");
    if (mode == 0) { /* a cycle with a tail, then broken at one place */
        int cyc = 1 + mc_choose(mc_thorough ? 80 : 40), tail = mc_choose(15), brk = mc_choose(4), k = mc_choose(9); if (tail > 9) tail = tail == 10 ? 33 : tail == 11 ? 64 : tail == 12 ? 127 : tail == 13 ? 130 : 300; snprintf(key, sizeof key, "cycle of %d references with a tail of %d, broken at place %d with value %d", cyc, tail, brk, k); MC_LOG("%s", key); int n = cyc + tail; val v = mkval(k, t), one = { zt_cfg_int, 1, 0, NULL };
        for (int i = 0; i < n; i++) { sprintf(a, "v%d", i); sprintf(b, "b%d", i % 3); set(c, b, a, one); } for (int i = 1; i < n; i++) ref(c, i, i - 1); for (int i = 0; i < n; i++) { sprintf(a, "v%d", i); sprintf(b, "b%d", i % 3); is(c, b, a, one); } ref(c, 0, cyc - 1);
        for (int i = 0; i < n; i++) { sprintf(a, "v%d", i); sprintf(b, "b%d", i % 3); dead(c, b, a); }
        int at = brk == 0 ? 0 : brk == 1 ? cyc - 1 : brk == 2 ? cyc / 2 : cyc / 3; sprintf(a, "v%d", at); sprintf(b, "b%d", at % 3); set(c, b, a, v); for (int i = 0; i < n; i++) { sprintf(a, "v%d", i); sprintf(b, "b%d", i % 3); is(c, b, a, v); }
    } else if (mode == 1) { /* long strings, names and block names */
        int what = mc_choose(3), li = mc_choose(NLN + 5), twice = mc_choose(3); static const int LL[] = { 1022, 1023, 1024, 1025, 2000 }; int l = li < NLN ? L[li] : LL[li - NLN]; snprintf(key, sizeof key, "length %d of item %d, %d assignments before", l, what, twice); MC_LOG("%s", key); char *lv = LONGV + sizeof LONGV - 1 - l; val w = { zt_cfg_string, 0, 0, what == 0 ? lv : "short" }; char *bn = what == 2 ? lv : "b", *vn = what == 1 ? lv : "v"; for (int i = 0; i < twice; i++) set(c, bn, vn, mkval(i * 5, t)); set(c, bn, vn, w); is(c, bn, vn, w); if (l > 1) { if (what == 1) dead(c, bn, lv + 1); if (what == 2) dead(c, lv + 1, vn); }
        char big[4300], *p = big; if (l > 20) { /* references with long names */ sprintf(big, "%s.%s", bn, vn); if (what) { MC_CHECK(zt_cfg_set_string(c, "r", "r", &p) > 0, "%s: reference", key); is(c, "r", "r", w); big[strlen(big) - 1] ^= 1; MC_CHECK(zt_cfg_set_string(c, "r", "r", &p) > 0, "%s: reference", key); val z = { zt_cfg_string, 0, 0, big }; is(c, "r", "r", z); } }
    } else { /* many blocks and variables assigned in some order, some again */
        int nb = MANY[mc_choose(13)], nv = MANY[mc_choose(13)], ord = mc_choose(3); if (nb * nv > 1500) { zt_cfg_close(c); return; } snprintf(key, sizeof key, "%d blocks of %d variables in order %d", nb, nv, ord); MC_LOG("%s", key); int n = nb * nv; for (int pass = 0; pass < 2; pass++) for (int x = 0; x < n; x++) { int i = ord == 0 ? x : ord == 1 ? n - 1 - x : (x % 2 ? n - 1 - x / 2 : x / 2); if (pass && i % 3) continue; sprintf(b, "block%d", i / nv); sprintf(a, "var%d", i % nv); set(c, b, a, mkval(i + (pass == 0 && i % 3 == 0 ? 5 : 0), t)); }
        for (int i = 0; i < n; i++) { sprintf(b, "block%d", i / nv); sprintf(a, "var%d", i % nv); is(c, b, a, mkval(i, t)); } sprintf(b, "block%d", nb); dead(c, b, "var0"); sprintf(a, "var%d", nv); dead(c, "block0", a); }
    zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live0, "%s: %ld blocks left", key, mc_live_blocks() - live0); mc_nontrivial(); mc_state(mc_hash(mode, key, strlen(key)));
}
#endif
