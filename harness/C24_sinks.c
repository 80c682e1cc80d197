/* C24: one format and argument list through every sink; buffer sizes around the length; registered conversions. */
#include "mc.h"
#include <malloc.h>
#include <zt.h>
struct sink { char *b; size_t n, cap; int neg; };
static char key[200];
static int put(int c, void *cl) { struct sink *s = cl; if (c < 0 || c > 255) s->neg++; if (s->n < s->cap) s->b[s->n] = c; s->n++; return c; }
static int putfail(int c, void *cl) { put(c, cl); return -1; }
static size_t vf(zt_fmt_put_f p, void *cl, const char *f, ...) { va_list ap; va_start(ap, f); size_t r = zt_fmt_vformat(p, cl, f, ap); va_end(ap); return r; }
static size_t vs(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); size_t r = zt_fmt_vsprintf(b, n, f, ap); va_end(ap); return r; }
static char *va(const char *f, ...) { va_list ap; va_start(ap, f); char *r = zt_fmt_vstrprintf(f, ap); va_end(ap); return r; }
#define ARGS a, b, s
static void all(const char *f, int a, int b, const char *s, const char *want, size_t wl) {
    char *got = malloc(wl + 8); struct sink k = { got, 0, wl + 8, 0 }; size_t r; MC_LOG("%s", key); long live = mc_live_blocks();
    r = zt_fmt_format(put, &k, f, ARGS); MC_CHECK(k.n == wl && !memcmp(got, want, wl), "%s to a function: %zu characters", key, k.n); MC_CHECK(r == wl, "%s to a function returned %zu, must be %zu", key, r, wl); MC_CHECK(!k.neg, "%s delivered negative characters", key); mc_step();
    k.n = 0; r = vf(putfail, &k, f, ARGS); MC_CHECK(k.n == wl && r == wl && !memcmp(got, want, wl), "%s to a function (va_list): %zu characters, returned %zu", key, k.n, r); mc_step();
    char *m = NULL; size_t ml; FILE *st = open_memstream(&m, &ml); r = zt_fmt_fprintf(st, f, ARGS); fclose(st); MC_CHECK(ml == wl && !memcmp(m, want, wl) && r == wl, "%s to a stream: %zu characters, returned %zu", key, ml, r); free(m); mc_step();
    FILE *sv = stdout; stdout = open_memstream(&m, &ml); r = zt_fmt_printf(f, ARGS); fclose(stdout); stdout = sv; MC_CHECK(ml == wl && !memcmp(m, want, wl) && r == wl, "%s to stdout: %zu characters, returned %zu", key, ml, r); free(m); mc_step();
    for (int v = 0; v < 2; v++) { char *p = v ? va(f, ARGS) : zt_fmt_strprintf(f, ARGS); MC_CHECK(p && !memcmp(p, want, wl) && p[wl] == 0, "%s allocated is wrong", key); MC_CHECK(malloc_usable_size(p) == wl + 1, "%s allocated %zu bytes, must be %zu", key, malloc_usable_size(p), wl + 1); free(p); mc_step(); }
    for (size_t sz = wl > 12 ? wl - 4 : 1; sz <= wl + 3; sz++) for (int v = 0; v < 2; v++) { size_t n = sz - 1 < wl ? sz - 1 : wl; char *p = malloc(sz); memset(p, '!', sz); r = v ? vs(p, sz, f, ARGS) : zt_fmt_sprintf(p, sz, f, ARGS); MC_CHECK(!memcmp(p, want, n) && p[n] == 0 && r == n, "%s in %zu bytes: returned %zu, must be %zu", key, sz, r, n); free(p); mc_step(); }
    for (size_t sz = 1; sz <= 3; sz++) { size_t n = sz - 1 < wl ? sz - 1 : wl; char *p = malloc(sz); r = zt_fmt_sprintf(p, sz, f, ARGS); MC_CHECK(!memcmp(p, want, n) && p[n] == 0 && r == n, "%s in %zu bytes: returned %zu, must be %zu", key, sz, r, n); free(p); }
    MC_CHECK(mc_live_blocks() == live, "%s: memory left", key); free(got);
}
static struct { int calls, code, flags[5]; long w, p; int i; unsigned u; double d; void *q; char *s; char t; } R;
static size_t conv(int code, void *value, zt_fmt_put_f p, void *cl, unsigned char flags[256], ssize_t width, ssize_t prec) {
    R.calls++; R.code = code; for (int i = 0; i < 5; i++) R.flags[i] = flags[(int)"+- 0#"[i]]; R.w = width; R.p = prec;
    switch (R.t) { case 'i': R.i = *(int *)value; break; case 'u': R.u = *(unsigned *)value; break; case 'd': R.d = *(double *)value; break; case 'p': R.q = *(void **)value; break; case 's': R.s = *(char **)value; }
    return zt_fmt_puts("<x>", 3, p, cl, flags, width, prec);
}
static const char *TOK[] = { "a", "%%", "%d", "~x", "%s", "%-4d|", "%c" };
static int maxl;
void mc_setup(void) { mc_shard_depth = 3; maxl = mc_param("tokens", 4, 5); }
void mc_run(void) {
    static char want[6000], pad[3000]; int mode = mc_choose(4);
    if (mode == 0) { /* every short format */
        int n = mc_choose(maxl + 1), k = 0; char f[100] = ""; char *o = want; int ints[2] = { 34, -5 }; const char *s = "str";
        for (int i = 0; i < n; i++) { int t = mc_choose(7); if (t >= 2 && (t == 4) != (k == 2)) t = 0; if (t >= 2 && k > 2) t = 1; strcat(f, TOK[t]); switch (t) { case 0: *o++ = 'a'; break; case 1: *o++ = '%'; break; case 2: o += sprintf(o, "%d", ints[k++]); break; case 3: o += sprintf(o, "%x", ints[k++]); break; case 4: o += sprintf(o, "%s", s); k++; break; case 5: o += sprintf(o, "%-4d|", ints[k++]); break; case 6: *o++ = ints[k++]; } }
        *o = 0; snprintf(key, sizeof key, "format '%s'", f); all(f, 34, -5, s, want, o - want); if (k) mc_nontrivial(); mc_state(mc_hash(0, want, o - want));
    } else if (mode == 1) { /* every length across the growth steps of an allocated text */
        int l = mc_choose(mc_thorough ? 2100 : 1060), how = mc_choose(3); if (l < 3) l = 3;
        if (how == 0) { memset(pad, 'q', l - 3); pad[l - 3] = 0; snprintf(want, sizeof want, "7 -%s", pad); if (l < 4) return; snprintf(want, sizeof want, "7-1%s", pad); snprintf(key, sizeof key, "string up to length %d", l); all("%d%d%s", 7, -1, pad, want, strlen(want)); }
        else if (how == 1) { snprintf(want, sizeof want, "%*dz", l - 1, 5); snprintf(key, sizeof key, "number padded to length %d", l); all("%*d%s", l - 1, 5, "z", want, l); }
        else { char f[3000]; memset(f, 'k', l - 2); f[l - 2] = 0; strcpy(want, f); strcat(want, "7"); strcat(f, "%d%c"); want[l - 1] = 0x40; want[l] = 0; snprintf(key, sizeof key, "literal up to length %d", l); all(f, 7, 0x40, "", want, l); }
        mc_nontrivial(); mc_state(l);
    } else if (mode == 3) { /* any character can be given a conversion, and back; the others stay as they are */
        int code = 1 + mc_choose(255), t = mc_choose(5); if (strchr("+- 0#123456789*.%~", code)) return; static const char BI[] = "cdefgopsux", BT[] = "iidddupsuu"; const char *b = strchr(BI, code); R.t = "iudps"[t]; snprintf(key, sizeof key, "character %d with type %c", code, R.t); MC_LOG("%s", key); mc_step(); mc_nontrivial(); zt_fmt_ty old = zt_fmt_register(code, conv, R.t); MC_CHECK(!old == !b, "%s: %s a conversion", key, b ? "had not" : "had");
        char f[40], got[100], ex[100]; snprintf(f, sizeof f, "[%%%c|%%6%c]", code, code); R.calls = 0; size_t r = t == 2 ? zt_fmt_sprintf(got, 100, f, 1.5, 2.5) : t < 2 ? zt_fmt_sprintf(got, 100, f, 7, 8) : zt_fmt_sprintf(got, 100, f, "a", "b"); MC_CHECK(R.calls == 2 && R.code == code && r == 12 && !strcmp(got, "[<x>|   <x>]"), "%s: '%s' in %d calls", key, got, R.calls);
        for (int pass = 0; pass < 2; pass++) { /* every built-in conversion, with this one still registered, then restored */
            for (const char *c = BI; *c; c++) { if (*c == code && !pass) continue; snprintf(f, sizeof f, "%%%c:%%5%c", *c, *c); char cf[40]; strcpy(cf, f); switch (BT[c - BI]) {
                case 'd': snprintf(f, sizeof f, "%%.2%c:%%7.1%c", *c, *c); r = zt_fmt_sprintf(got, 100, f, 1.5, 250.0); snprintf(ex, sizeof ex, f, 1.5, 250.0); break;
                case 'p': r = zt_fmt_sprintf(got, 100, f, (void *)0x123, (void *)0xab); strcpy(ex, "123:   ab"); break;
                case 's': r = zt_fmt_sprintf(got, 100, f, "st", "u"); snprintf(ex, sizeof ex, f, "st", "u"); break;
                default: r = zt_fmt_sprintf(got, 100, f, 65, 66); snprintf(ex, sizeof ex, f, 65, 66); }
                MC_CHECK(r == strlen(ex) && !strcmp(got, ex), "%s, %s: %%%c gives '%s', must be '%s'", key, pass ? "then restored" : "registered", *c, got, ex); }
            if (!pass) { MC_CHECK(zt_fmt_register(code, old, b ? BT[b - BI] : 0) == conv, "%s: not registered", key); } }
        mc_state(mc_mix(code, t));
    } else { /* what registered conversions are given */
        static const char *W[] = { "", "7", "*" }, *P[] = { "", ".", ".3", ".*" }; int fl = mc_choose(32), w = mc_choose(3), p = mc_choose(4), t = mc_choose(5), code = "QZ!\x01\xff"[mc_choose(5)] & 255, wa = mc_choose(2) ? 9 : -9, pa = mc_choose(2) ? 2 : -2; char f[40], *o = f; R.t = "iudps"[t];
        if (w != 2 && wa < 0) return; if (p != 3 && pa < 0) return;
        *o++ = 'k'; *o++ = '%'; for (int i = 0; i < 5; i++) if (fl & 1 << i) *o++ = "+- 0#"[i]; o += sprintf(o, "%s%s", W[w], P[p]); *o++ = code; o += sprintf(o, "=%%d"); snprintf(key, sizeof key, "registered '%s' type %c width %d precision %d", f, R.t, wa, pa); MC_LOG("%s", key);
        zt_fmt_ty old = zt_fmt_register(code, conv, "udpsi"[t]);   /* first with another type, then replaced */ MC_CHECK(old == NULL, "%s: replaced something", key); MC_CHECK(zt_fmt_register(code, conv, R.t) == conv, "%s: the old conversion is not returned", key);
        R.calls = 0; char got[200], str[] = "text", *q = str; size_t r;
#define CALL(v) (w == 2 && p == 3 ? zt_fmt_sprintf(got, 200, f, wa, pa, v, 11) : w == 2 ? zt_fmt_sprintf(got, 200, f, wa, v, 11) : p == 3 ? zt_fmt_sprintf(got, 200, f, pa, v, 11) : zt_fmt_sprintf(got, 200, f, v, 11))
        r = t == 0 ? CALL(-77) : t == 1 ? CALL(0xfffffff0u) : t == 2 ? CALL(1.25) : CALL((void *)q);
        MC_CHECK(R.calls == 1 && R.code == code, "%s: %d calls with code %d", key, R.calls, R.code); for (int i = 0; i < 5; i++) MC_CHECK(R.flags[i] == (fl >> i & 1), "%s: flag %d is %d", key, i, R.flags[i]);
        MC_CHECK(w == 0 ? R.w == INT_MIN : R.w == (w == 1 ? 7 : wa), "%s: width %ld", key, R.w); MC_CHECK(p == 0 ? R.p == INT_MIN : p == 3 ? (pa < 0 ? R.p < 0 : R.p == pa) : R.p == (p == 1 ? 0 : 3), "%s: precision %ld", key, R.p);
        MC_CHECK(t == 0 ? R.i == -77 : t == 1 ? R.u == 0xfffffff0u : t == 2 ? R.d == 1.25 : t == 3 ? R.q == q : R.s == q, "%s: argument", key);
        int ew = w == 0 ? 0 : w == 1 ? 7 : 9, left = (fl & 2) || (w == 2 && wa < 0), ep = p == 0 || (p == 3 && pa < 0) ? 3 : p == 1 ? 0 : p == 2 ? 3 : 2; char ex[100]; snprintf(ex, sizeof ex, left ? "k%-*.*s=11" : "k%*.*s=11", ew, ep, "<x>"); MC_CHECK(r == strlen(ex) && !strcmp(got, ex), "%s is '%s' (%zu), must be '%s'", key, got, r, ex);
        MC_CHECK(zt_fmt_register(code, NULL, 0) == conv, "%s: not registered", key); mc_step(); mc_nontrivial(); mc_state(mc_hash(2, f, strlen(f)));
    }
}
