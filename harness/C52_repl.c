/* C52: the replacements for functions a C library may lack, under other names, against the originals. */
#include "mc.h"
#include <zt.h>
#include <syslog.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <limits.h>
/* the C library below them */
static int fail_in, vs_bad, vs_val; static int r_vsnprintf(char *b, size_t n, const char *f, va_list ap) { if (vs_bad && !--vs_bad) return vs_val; return vsnprintf(b, n, f, ap); }
static void *r_malloc(size_t n) { if (fail_in && !--fail_in) { errno = ENOMEM; return NULL; } void *p = malloc(n); if (p) memset(p, 0xa5, n); return p; }
static void *r_realloc(void *p, size_t n) { if (fail_in && !--fail_in) { errno = ENOMEM; return NULL; } return realloc(p, n); }
static void *r_calloc(size_t a, size_t b) { if (fail_in && !--fail_in) { errno = ENOMEM; return NULL; } return calloc(a, b); }
#undef HAVE_CONFIG_H /* nothing makes a zt_config.h any more */
/* asprintf.c */
#undef HAVE_VASPRINTF
#undef HAVE_ASPRINTF
#define vasprintf rep_vasprintf
#define asprintf rep_asprintf
#define vsnprintf r_vsnprintf
#define malloc r_malloc
#define realloc r_realloc
#define calloc r_calloc
int rep_vasprintf(char **, const char *, va_list);
int rep_asprintf(char **, const char *, ...);
#include <libzt/replace/asprintf.c>
#undef vasprintf
#undef asprintf
#undef vsnprintf
#undef malloc
#undef realloc
#undef calloc
/* basename.c */
#undef basename
#define basename rep_basename
char *rep_basename(char *);
#include <libzt/replace/basename.c>
#undef basename
/* vsyslog.c: the table of error texts it expects, the logger it writes to */
char *sys_errlist[200]; int sys_nerr; static int slogs, sprio; static char smsg[70000];
static void vrec(int pri, const char *f, va_list ap) { slogs++; sprio = pri; vsnprintf(smsg, sizeof smsg, f, ap); } static void r_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); vrec(pri, f, ap); va_end(ap); }
#define vsyslog rep_vsyslog
#define syslog r_syslog
#undef HAS_SYS_ERRLIST
#include <libzt/replace/vsyslog.c>
#undef vsyslog
#undef syslog
static int maxlen, maxtok;
static int vas(char **s, const char *f, ...) { va_list ap; va_start(ap, f); int r = rep_vasprintf(s, f, ap); va_end(ap); return r; }
static void one(int r, char *got, const char *want, int wl, int bad, int e, const char *what) {
    if (bad) { MC_CHECK(r == -1 && !got, "%s: %d, %s, must fail", what, r, got ? "a text" : "no text"); MC_CHECK(e == ENOMEM, "%s: fails with errno %d", what, e); return; }
    MC_CHECK(r == wl, "%s: %d, must be %d", what, r, wl); MC_CHECK(got && !memcmp(got, want, wl + 1), "%s: '%.60s', must be '%.60s'", what, got ? got : "(none)", want); free(got);
}
static void asp(void) {
    static const int L[] = { 0, 1, 2, 5, 60, 62, 63, 64, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 200, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 65535, 65536 }; static char s[65537], u[300], want[70000]; char what[100];
    int l = L[mc_choose(sizeof L / sizeof *L)], form = mc_choose(6), fault = mc_choose(7), var = mc_choose(2), m = (int[]){ 0, 3, 100, 126 }[mc_choose(4)]; for (int i = 0; i < l; i++) s[i] = 'a' + i % 26; s[l] = 0; memset(u, 'U', m); u[m] = 0; char *got = (char *)s; int r, wl, seen; mc_step();
    snprintf(what, sizeof what, "%s, form %d, %d and %d characters, fault %d", var ? "vasprintf" : "asprintf", form, l, m, fault); MC_LOG("%s", what); long live = mc_live_blocks(); fail_in = fault == 1 ? 1 : fault == 2 ? 2 : 0; vs_bad = fault == 3 || fault == 4 ? 1 : fault >= 5 ? 2 : 0; vs_val = fault == 4 ? INT_MAX : -1; if (fault == 6) vs_val = INT_MAX / 2; errno = 0;
    #define CALL(...) do { r = var ? vas(&got, __VA_ARGS__) : rep_asprintf(&got, __VA_ARGS__); seen = errno; wl = sprintf(want, __VA_ARGS__); } while (0)
    switch (form) { case 0: CALL("%s", s); break; case 1: CALL("%s%s", s, u); break; case 2: CALL("%d %s [%5.2f] %s %c", l - 7, s, m / 3.0, u, 'x'); break; case 3: CALL("%*s|%lld|%s", l % 4096, u, 0x123456789abcll, s); break; case 4: CALL("%.*s%%%s%zx", l, u, s, (size_t)l); break; default: CALL("%s%c%s", u, 0, s); }
    int left = fail_in || vs_bad; fail_in = vs_bad = 0; /* a fault that did not come to pass must not show; with one that did, nothing may be left behind */
    if (fault && !left) one(r, got, want, wl, 1, seen, what); else one(r, got, want, wl, 0, seen, what);
    MC_CHECK(mc_live_blocks() == live, "%s: memory left", what); mc_nontrivial(); mc_state(mc_mix(mc_mix(wl, r < 0), form));
}
static void base(void) {
    static const char AB[] = "/a."; char p[40], c[40]; int n = mc_choose(maxlen + 1); for (int i = 0; i < n; i++) p[i] = AB[mc_choose(3)]; p[n] = 0; memcpy(c, p, n + 1); int w = n; while (w && p[w - 1] != '/') w--; char *s = mc_dupn(p, n + 1); MC_LOG("basename of '%s'", p); mc_step(); char *g = rep_basename(s); MC_CHECK(g == s + w, "basename of '%s' is '%s', must be '%s'", p, g, s + w); MC_CHECK(!memcmp(s, c, n + 1), "'%s' changed", p); free(s); if (n > 1) mc_nontrivial(); mc_state(mc_hash(1, p, n));
}
static void sysl(int sev, char *f, ...) { va_list ap; va_start(ap, f); rep_vsyslog(sev, f, ap); va_end(ap); }
static void slog(void) {
    static const char *T[] = { "a", "m", " %m", "%m", "%%", "%s", "%ld", "%5.3s" }; static const int E[] = { 0, 2, 84, 133, 134, 999, -1, INT_MAX, INT_MIN }, SL[] = { 0, 3, 40, 5000 }; static const int SV[] = { LOG_ERR, LOG_DEBUG, LOG_LOCAL3 | LOG_EMERG };
    int n = mc_choose(maxtok + 1), e = E[mc_choose(9)], sl = SL[mc_choose(4)], sev = SV[n % 3]; char fmt[100] = "", et[60]; static char want[70000], str[5001]; memset(str, 's', sl); str[sl] = 0; if (sl > 2) memcpy(str, "%m%", 3); snprintf(et, sizeof et, "Unknown Error %d", e); const char *err = e > 0 && e < sys_nerr ? sys_errlist[e] : et; long a[8]; int na = 0; char *w = want; *w = 0;
    for (int i = 0; i < n; i++) { int t = mc_choose(8); strcat(fmt, T[t]); switch (t) { case 0: *w++ = 'a'; break; case 1: *w++ = 'm'; break; case 2: *w++ = ' '; /* fall through */ case 3: w = stpcpy(w, err); break; case 4: *w++ = '%'; break; case 5: a[na++] = (long)str; w = stpcpy(w, str); break; case 6: a[na++] = 1000000007l * (i + 1) * e; w += sprintf(w, "%ld", a[na - 1]); break; default: a[na++] = (long)str; w += sprintf(w, "%5.3s", str); } *w = 0; }
    for (int i = na; i < 8; i++) a[i] = 0; long live = mc_live_blocks(); char *f = mc_dupn(fmt, strlen(fmt) + 1); MC_LOG("syslog '%s', errno %d, %d characters", fmt, e, sl); mc_step(); slogs = 0; *smsg = 0; errno = e; sysl(sev, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); MC_CHECK(slogs == 1, "'%s': %d messages", fmt, slogs); MC_CHECK(sprio == sev, "'%s': priority %d, must be %d", fmt, sprio, sev); MC_CHECK(!strcmp(smsg, want), "'%s', errno %d: '%.80s', must be '%.80s'", fmt, e, smsg, want); MC_CHECK(!strcmp(f, fmt), "the format '%s' is changed", fmt); free(f); MC_CHECK(mc_live_blocks() == live, "'%s': memory left", fmt); if (n) mc_nontrivial(); mc_state(mc_hash(2, want, w - want));
}
void mc_setup(void) { maxlen = mc_param("path length", 7, 10); maxtok = mc_param("format parts", 4, 5); mc_shard_depth = 3; sys_nerr = 134; for (int i = 0; i < sys_nerr; i++) sys_errlist[i] = strdup(strerror(i)); }
void mc_run(void) { switch (mc_choose(3)) { case 0: asp(); break; case 1: base(); break; default: slog(); } }
