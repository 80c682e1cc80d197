/* C19: trimming of every short string, in place, in an exactly sized buffer. */
#include "mc.h"
#include <zt.h>
static int maxlen, letters;
static const char AB[] = { 'a', ' ', '\n', '\t', '\r' };
static const char *SETS[] = { "", "a", " ", "\n", " \t", "a\n", " \t\n", "\na \t\r" };
static const char *sh(const char *s) { static char b[4][64]; static int k; char *o = b[k++ & 3]; int n = 0; for (; *s && n < 50; s++) n += *s > 32 && *s < 127 ? sprintf(o + n, "%c", *s) : sprintf(o + n, "\\x%02x", (unsigned char)*s); o[n] = 0; return o; }
void mc_setup(void) { maxlen = mc_param("length", 7, 8); letters = mc_param("letters", 5, 5); mc_pure = 1; mc_shard_depth = 3; }
static int in(char c, const char *set) { for (; *set; set++) if (c == *set) return 1; return 0; }
void mc_run(void) {
    char b[16], w[16]; int n = mc_choose(maxlen + 1); for (int i = 0; i < n; i++) b[i] = AB[mc_choose(letters)]; b[n] = 0;
    MC_LOG("'%s'", sh(b)); char *s = mc_dupn(b, n + 1), *g;
    for (unsigned k = 0; k < sizeof SETS / sizeof *SETS; k++) {
        size_t a = 0, last = n; while ((int)a < n && in(b[n - 1 - a], SETS[k])) a++;
        for (int i = 0; i < n; i++) if (in(b[i], SETS[k])) last = i;
        MC_CHECK(zt_cstr_rspn(s, SETS[k]) == a, "rspn('%s', '%s') is %zu, must be %zu", sh(b), sh(SETS[k]), zt_cstr_rspn(s, SETS[k]), a);
        MC_CHECK(zt_cstr_rcspn(s, SETS[k]) == last, "rcspn('%s', '%s') is %zu, must be %zu", sh(b), sh(SETS[k]), zt_cstr_rcspn(s, SETS[k]), last); mc_step();
    }
    MC_CHECK(!strcmp(s, b), "'%s' changed by a span function", sh(b));
    g = zt_cstr_chomp(s); strcpy(w, b); if (n && w[n - 1] == '\n') w[n - 1] = 0;
    MC_CHECK(g == s && !strcmp(s, w), "chomp('%s') is '%s', must be '%s'", sh(b), sh(g), sh(w)); mc_step(); free(s);
    s = mc_dupn(b, n + 1); g = zt_cstr_strip(s);
    int f = 0, e = n, nl = 0; while (in(b[f], " \t")) f++; while (e > f && in(b[e - 1], " \t\n")) { if (b[e - 1] == '\n') nl = 1; e--; }
    memcpy(w, b + f, e - f); if (nl) w[e - f] = '\n'; w[e - f + nl] = 0;
    MC_CHECK(g == s && !strcmp(s, w), "strip('%s') is '%s', must be '%s'", sh(b), sh(g), sh(w)); mc_step(); free(s);
    if (n > 1) mc_nontrivial(); mc_state(mc_hash(0, b, n));
}
