/* C26 (scale): tables of many networks, long chains, all prefix lengths, several large tables at once; long address texts. */
#include "mc.h"
#include <zt.h>
#include <arpa/inet.h>
typedef struct { uint32_t lo, hi; zt_ipv4_node *n; } ent;
static const int N[] = { 1, 2, 8, 31, 33, 64, 100, 127, 129, 200, 255, 256, 257, 300, 512, 1000, 2000 }; static const uint32_t SZ[] = { 0, 1, 2, 7, 128, 256, 4096 };
static uint32_t mask(int b) { return b ? 0xffffffffu << (32 - b) : 0; }
static int maxn;
static char *txt(char *s, uint32_t v, int b, int plain) { sprintf(s, plain && b == 32 ? "%u.%u.%u.%u" : "%u.%u.%u.%u/%d", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255, b); return s; }
/* network i of a family */
static void net(int fam, int i, uint32_t *v, int *b) {
    switch (fam) {
    case 0: *v = 0x0a000000u + (uint32_t)i * 0x100; *b = 24; break;                       /* neighbours /24 */
    case 1: *v = 0xc0a80000u + (uint32_t)i; *b = 32; break;                               /* hosts */
    case 2: *v = (uint32_t)i * 2654435761u; *b = 8 + i % 25; break;                       /* mixed */
    case 3: *v = 0x80000000u + (uint32_t)i * 0x10000; *b = 16; break;                     /* all in one chain */
    case 4: *v = (uint32_t)i << 20; *b = 12; break;
    default: *v = 0xfffffff0u - (uint32_t)i * 4; *b = 30; break;
    }
    *v &= mask(*b);
}
static int texts(void) { char t[200], a[200]; int z = mc_choose(40), kind = mc_choose(6), r; uint32_t v = 1, w; int b = 5; static const char *A[] = { "10.1.2.3", "255.255.255.255", "127.255.254.200" }; const char *base = A[mc_choose(3)];
    if (kind == 0) { memset(t, '0', z); strcpy(t + z, base); } else if (kind == 1) { strcpy(t, base); memset(t + strlen(base), '1', z); t[strlen(base) + z] = 0; } else if (kind == 2) { strcpy(t, base); strcat(t, "/"); int l = strlen(t); memset(t + l, '0', z); strcpy(t + l + z, "16"); } else if (kind == 3) { strcpy(t, base); memset(t + strlen(base), ' ', z); strcpy(t + strlen(base) + z, "/8"); } else if (kind == 4) { strcpy(t, base); strcat(t, "/"); int l = strlen(t); memset(t + l, '3', z); t[l + z] = 0; } else { strcpy(t, base); for (int i = 0; i < z; i++) strcat(t, ".1"); }
    MC_LOG("parse '%s'", t); char *s = mc_dupn(t, strlen(t) + 1); r = zt_ipv4_str2net(s, &v, &b); free(s); char *sl = strchr(t, '/'); int n = sl ? sl - t : (int)strlen(t); memcpy(a, t, n); a[n] = 0; struct in_addr ia; int leg = inet_aton(a, &ia); w = leg ? ntohl(ia.s_addr) : 0; long bits = sl ? 0 : 32, ok = 1; if (sl) { if (!sl[1]) ok = 0; for (char *p = sl + 1; *p; p++) if (bits < 1000) bits = bits * 10 + *p - '0'; } if (bits > 32) bits = 32;
    MC_CHECK(r == 0 || r == -1, "'%s': %d", t, r); if (!leg || !ok) MC_CHECK(r == -1, "'%s' accepted", t); if (leg && ok && n <= 15 && kind != 0) MC_CHECK(r == 0, "'%s' refused", t); if (!r) MC_CHECK(v == w && b == bits, "'%s' is %08x/%d, must be %08x/%ld", t, v, b, w, bits); mc_step(); mc_nontrivial(); mc_state(mc_hash(3, t, strlen(t))); return 0; }
void mc_setup(void) { maxn = mc_param("table sizes", 17, 17); mc_shard_depth = 3; zt_ipv4_tbl *t = zt_ipv4_tbl_init(4); zt_ipv4_tbl_destroy(t); }
void mc_run(void) {
    int fam = mc_choose(7), ni = 0, si = 0, ord = 0, two = 0; if (fam == 6) { texts(); return; } ni = mc_choose(maxn); si = mc_choose(7); ord = mc_choose(3); two = mc_choose(2); int n = N[ni]; long live = mc_live_blocks(); char h[160], s[40]; snprintf(h, sizeof h, "%d networks of family %d in a table of %u, order %d%s", n, fam, SZ[si], ord, two ? ", beside another table" : ""); MC_LOG("%s", h);
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(SZ[si]), *t2 = two ? zt_ipv4_tbl_init(16) : NULL; ent *e = calloc(n, sizeof *e); long lv = 0;
    for (int k = 0; k < n; k++) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : (k % 2 ? n - 1 - k / 2 : k / 2), b; uint32_t v; net(fam, i, &v, &b); zt_ipv4_node *r = zt_ipv4_tbl_add_frm_str(t, txt(s, v, b, 1)); MC_CHECK(r && r->addr->addr == v && r->addr->bitlen == b && r->addr->broadcast == (v | ~mask(b)), "%s: network %d (%s)", h, i, s); e[i].lo = v; e[i].hi = v | ~mask(b); e[i].n = r; if (two) { net((fam + 1) % 6, i, &v, &b); MC_CHECK(zt_ipv4_tbl_add_frm_str(t2, txt(s, v, b, 0)), "%s: other", h); } mc_step(); }
    if (two == 1 && ord) { zt_ipv4_tbl_destroy(t2); t2 = NULL; }
    lv = mc_live_blocks(); int step = n > 300 ? n / 150 : 1;
    for (int i = 0; i < n; i += step) for (int d = 0; d < 5; d++) { /* first, last, middle address, just outside on either side */
        uint32_t v = d == 0 ? e[i].lo : d == 1 ? e[i].hi : d == 2 ? e[i].lo + (e[i].hi - e[i].lo) / 2 : d == 3 ? e[i].lo - 1 : e[i].hi + 1; int qb = d == 2 ? (int)(i % 8) + 25 : 32; uint32_t lo = v & mask(qb), hi = lo | ~mask(qb); int want = 0; for (int k = 0; k < n && !want; k++) want = e[k].lo <= lo && hi <= e[k].hi;
        zt_ipv4_node *r = zt_ipv4_tbl_search_from_str(t, txt(s, v, qb, i % 2)); MC_CHECK(!!r == want, "%s: '%s' %s", h, s, r ? "found although nothing contains it" : "not found"); if (r) { int hit = 0; for (int k = 0; k < n && !hit; k++) hit = e[k].n == r && e[k].lo <= lo && hi <= e[k].hi; MC_CHECK(hit, "%s: '%s' found in a wrong network", h, s); } mc_step(); }
    MC_CHECK(mc_live_blocks() - lv <= 4, "%s: searching keeps %ld blocks", h, mc_live_blocks() - lv);
    zt_ipv4_tbl_destroy(t); if (t2) zt_ipv4_tbl_destroy(t2); free(e); MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", h, mc_live_blocks() - live); mc_nontrivial(); mc_state(mc_hash(4, h, strlen(h)));
}
