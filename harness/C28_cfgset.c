/* C28: every short history of configuration assignments, each followed by reading everything in every type. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <limits.h>
#include <math.h>
static int depth_, wide; static const char *FILE0 = ""; FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *f, const char *m) { if (strcmp(f, "the file")) return __real_fopen(f, m); if (!*FILE0) return __real_fopen("/dev/null", m); return fmemopen((void *)FILE0, strlen(FILE0), "r"); }
/* names: apart, in case only, with a dot in the variable, one the beginning of the other */
static char *BS[][3] = { { "a", "b", "Global" }, { "a", "A", "GLOBAL" }, { "a", "b", "Global" }, { "a", "ab", "abc" } }, *NS[][2] = { { "x", "y" }, { "x", "X" }, { "x", "x.y" }, { "x", "xy" } }; static char **B, **N; static char file0[100], s1[40], s2[40], s3[40], s6[40];
typedef struct { int exists, t, ref; long i; double f; const char *s; } var; static var V[6]; static int blk[3];
static char LONGS[1600]; static const char *STR[] = { "text", s1, s2, s3, "", "'quo;ted'", s6, LONGS, "two words", "'unclosed", ".5x", "a.x.y" };
static const char *EXP[] = { "text", NULL, NULL, NULL, "", "quo;ted", NULL, LONGS, "two words", "'unclosed", ".5x", "a.x.y" }; static int tgt(const char *s) { const char *d = strchr(s, '.'); if (d && *s != '\'') for (int i = 0; i < 6; i++) if (strlen(B[i / 2]) == d - s && !strncmp(B[i / 2], s, d - s) && !strcmp(N[i % 2], d + 1)) return i; return -1; }
static const long LI[] = { 5, -1, LONG_MAX, LONG_MIN, 0 }; static const double DB[] = { 0.5, 1e-10, 1.0 / 3, -100.0, 1e300, 0.0, 199.999 };
static const char *BO[] = { "true", "no", "YES", "False" };
static char h[3000];
static void readall(zt_cfg_ty *c) {
    for (int i = 0; i < 6; i++) { var *v = &V[i]; int hops = 0; while (v->exists && v->ref >= 0 && hops++ < 20) v = &V[v->ref]; char *bn = B[i / 2], *nn = N[i % 2];
        for (int t = -1; t < 6; t++) { union { long i; double f; char *s; int b; char raw[8]; } u, w; memset(&u, 0x5a, 8); w = u; MC_LOG("%s: read %s.%s type %d", h, bn, nn, t); int r = zt_cfg_get(c, bn, nn, &u, t);
            if (!V[i].exists || hops >= 20 || v->t != t) { MC_CHECK(r == -1, "%s: reading %s.%s as type %d gives %d", h, bn, nn, t, r); MC_CHECK(!memcmp(&u, &w, 8), "%s: failed read of %s.%s as type %d changed the destination", h, bn, nn, t); continue; }
            MC_CHECK(r >= 0, "%s: %s.%s cannot be read as type %d", h, bn, nn, t);
            if (t >= 0) { union { long i; double f; char *s; int b; char raw[8]; } m; memset(&m, 0x5a, 8); int r2 = t == zt_cfg_int ? zt_cfg_get_int(c, bn, nn, &m.i) : t == zt_cfg_bool ? zt_cfg_get_bool(c, bn, nn, &m.b) : t == zt_cfg_float ? zt_cfg_get_float(c, bn, nn, &m.f) : zt_cfg_get_string(c, bn, nn, &m.s); MC_CHECK(r2 == r && !memcmp(&m, &u, 8), "%s: the named form reads %s.%s otherwise", h, bn, nn); }
            if (t == zt_cfg_int) MC_CHECK(u.i == v->i, "%s: %s.%s is %ld", h, bn, nn, u.i); else if (t == zt_cfg_bool) MC_CHECK(u.b == v->i, "%s: %s.%s is %d", h, bn, nn, u.b); else if (t == zt_cfg_float) MC_CHECK(u.f == v->f, "%s: %s.%s is %.17g", h, bn, nn, u.f); else MC_CHECK(!strcmp(u.s, v->s), "%s: %s.%s is '%s'", h, bn, nn, u.s);
        } }
    union { long i; char raw[8]; } u; u.i = 77; MC_CHECK(zt_cfg_get(c, "nosuch", "x", &u, zt_cfg_int) == -1 && zt_cfg_get(c, "a", "nosuch", &u, zt_cfg_int) == -1 && zt_cfg_get(c, "", "", &u, zt_cfg_int) == -1 && u.i == 77, "%s: an unknown name is found", h); mc_step();
}
void mc_setup(void) { depth_ = mc_param("assignments", 3, 4); wide = mc_param("wide", 1, 2); mc_shard_depth = 3; memset(LONGS, 'L', sizeof LONGS - 1); stderr = __real_fopen("/dev/null", "w"); FILE0 = "junk"; zt_cfg_ini("the file", 0); FILE0 = ""; }
void mc_run(void) {
    memset(V, 0, sizeof V); for (int i = 0; i < 6; i++) V[i].ref = -1; long live = mc_live_blocks(); h[0] = 0; int init = mc_choose(2), ns = mc_choose(4); B = BS[ns]; N = NS[ns]; int depth = ns ? 2 : depth_; sprintf(s1, "%s.%s", B[0], N[0]); sprintf(s2, "%s.%s", B[1], N[1]); sprintf(s3, "%s.%s", B[2], N[0]); sprintf(s6, "%s.nosuch", B[1]); sprintf(file0, "[%s]\nx = 3\n[%s]\nx = %s\n", B[0], B[1], s1); FILE0 = init ? file0 : ""; if (init) { V[0].exists = V[2].exists = 1; V[0].t = zt_cfg_int; V[0].i = 3; V[2].t = zt_cfg_ref; V[2].ref = 0; sprintf(h, "file with %s=3 %s.x=%s;", s1, B[1], s1); }
    zt_cfg_ty *c = zt_cfg_ini("the file", 0); MC_CHECK(c, "the file was rejected"); int small = depth > 2;
    for (int d = 0; d < depth; d++) {
        int i = mc_choose(d == 0 || wide > 1 ? 6 : 4); var *v = &V[i]; int big = !small || d == depth - 1; int nstr = big ? 12 : 8, ni = big ? 5 : 1, nd = big ? 7 : 1, nb = big ? 4 : 1; int k = mc_choose(nstr + ni + nd + nb + (big ? 3 : 0)), r; char e[100];
        if (k < nstr) { const char *s = STR[k]; char *p = mc_dupn(s, strlen(s) + 1); snprintf(e, sizeof e, " %s.%s = string '%.12s'", B[i / 2], N[i % 2], s); strcat(h, e); MC_LOG("%s", h); r = zt_cfg_set(c, B[i / 2], N[i % 2], &p, zt_cfg_string); MC_CHECK(!strcmp(p, s), "%s: the caller's string was changed", h); free(p); MC_CHECK(r > 0, "%s: refused", h);
            v->exists = 1; v->ref = -1; int tg = tgt(s); if (tg >= 0 && V[tg].exists) { v->ref = tg; v->t = zt_cfg_ref; } else { v->t = zt_cfg_string; v->s = EXP[k] ? EXP[k] : STR[k]; } }
        else if ((k -= nstr) < ni) { long x = LI[k]; snprintf(e, sizeof e, " %s.%s = %ld", B[i / 2], N[i % 2], x); strcat(h, e); MC_LOG("%s", h); r = zt_cfg_set_int(c, B[i / 2], N[i % 2], &x); MC_CHECK(r > 0 && x == LI[k], "%s: refused", h); v->exists = 1; v->ref = -1; v->t = zt_cfg_int; v->i = x; }
        else if ((k -= ni) < nd) { double x = DB[k]; snprintf(e, sizeof e, " %s.%s = %g", B[i / 2], N[i % 2], x); strcat(h, e); MC_LOG("%s", h); r = zt_cfg_set_float(c, B[i / 2], N[i % 2], &x); MC_CHECK(r > 0 && x == DB[k], "%s: refused", h); v->exists = 1; v->ref = -1; v->t = zt_cfg_float; v->f = x; }
        else if ((k -= nd) < nb) { char *x = (char *)BO[k]; snprintf(e, sizeof e, " %s.%s = bool %s", B[i / 2], N[i % 2], x); strcat(h, e); MC_LOG("%s", h); r = zt_cfg_set_bool(c, B[i / 2], N[i % 2], &x); MC_CHECK(r > 0, "%s: refused", h); v->exists = 1; v->ref = -1; v->t = zt_cfg_bool; v->i = k % 2 == 0; }
        else { k -= nb; int one = 1; strcat(h, k == 0 ? " refused bool" : k == 1 ? " refused type" : " refused reference"); MC_LOG("%s", h); r = zt_cfg_set(c, B[i / 2], N[i % 2], &one, k == 0 ? zt_cfg_bool : k == 1 ? 77 : zt_cfg_ref); MC_CHECK(r <= 0, "%s: accepted", h); }
        if (!init || d == depth - 1 || d == 0) readall(c);
    }
    uint64_t st = 0; for (int i = 0; i < 6; i++) st = mc_mix(st, V[i].exists * 100 + V[i].t * 10 + V[i].ref); mc_state(st); mc_nontrivial();
    zt_cfg_close(c); MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", h, mc_live_blocks() - live);
}
