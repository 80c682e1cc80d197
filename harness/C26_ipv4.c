/* C26: IPv4 networks: text parsing, and membership for every small set of stored networks. */
#include "mc.h"
#include <zt.h>
#include <errno.h>
#include <arpa/inet.h>
static int depth, textlen, nq, nnet;
static const char *NETS[] = { "10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/24", "10.1.2.3", "0.0.0.0/0", "10.1.2.128/25", "128.0.0.0/1", "10.1.2.3/31", "255.255.255.255", "0.0.0.0/1", "10.1.2.200/30", "192.168.0.0/15" };
static const char *QS[] = { "10.1.2.3", "10.1.2.2", "10.1.2.0/24", "10.1.2.3/23", "10.2.0.1", "10.0.0.0/7", "255.255.255.255", "128.0.0.1", "0.0.0.0", "9.255.255.255", "10.1.2.130", "10.1.2.200/29", "0.0.0.0/0", "192.169.1.1", "11.0.0.0", "10.1.2.201/32" };
static const uint32_t SZ[] = { 0, 1, 3, 128, 1024 };
static uint32_t mask(int b) { return b ? 0xffffffffu << (32 - b) : 0; }
static void parse(const char *s, uint32_t *lo, uint32_t *hi, int *bits) { unsigned a, b, c, d; int l = 32; sscanf(s, "%u.%u.%u.%u/%d", &a, &b, &c, &d, &l); uint32_t v = a << 24 | b << 16 | c << 8 | d; *lo = v & mask(l); *hi = *lo | ~mask(l); *bits = l; }
static int strict(const char *s, int n, uint32_t *v) { /* decimal dotted quad without superfluous zeros */
    *v = 0; int i = 0;
    for (int k = 0; k < 4; k++) { int d = 0, x = 0; while (i < n && s[i] >= '0' && s[i] <= '9' && d < 4) { if (d == 1 && x == 0) return 0; x = x * 10 + s[i++] - '0'; d++; } if (!d || x > 255 || d > 3) return 0; *v = *v << 8 | x; if (k < 3 && (i >= n || s[i++] != '.')) return 0; }
    return i == n;
}
static void text(const char *t) {
    int n = strlen(t); char *s = mc_dupn(t, n + 1); uint32_t a = 0xdeadbeef, v = 0; int b = 77; MC_LOG("parse '%s'", t);
    const char *sl = strchr(t, '/'); int an = sl ? sl - t : n, ok = strict(t, an, &v), bits = 32, prefix_ok = 1;
    if (sl) { const char *p = sl + 1; if (!*p) prefix_ok = 0; long x = 0; for (; *p; p++) if (*p < '0' || *p > '9') prefix_ok = 0; else if (x < 1000) x = x * 10 + *p - '0'; bits = x > 32 ? 32 : x; }
    int r = zt_ipv4_str2net(s, &a, &b); MC_CHECK(!strcmp(s, t), "'%s' changed by parsing", t);
    if (ok && prefix_ok) MC_CHECK(r == 0 && a == v && b == bits, "'%s' parsed as %d %08x/%d, must be %08x/%d", t, r, a, b, v, bits);
    else if (!prefix_ok) MC_CHECK(r == -1, "'%s' has no valid prefix length but is accepted", t);
    else { char c[64]; memcpy(c, t, an); c[an] = 0; struct in_addr ia; int leg = inet_aton(c, &ia); MC_CHECK(r == -1 || r == 0, "'%s': result %d", t, r); MC_CHECK(r == -1 || leg, "'%s' is not an address but is accepted", t); if (!r) MC_CHECK(a == ntohl(ia.s_addr) && b == bits, "'%s' parsed as %08x/%d", t, a, b); }
    free(s); mc_step();
}
static void texts(void) {
    char t[80];
    switch (mc_choose(3)) {
    case 0: { static const char AB[] = "0./12 x-"; int n = mc_choose(textlen + 1); for (int i = 0; i < n; i++) t[i] = AB[mc_choose(mc_thorough ? 8 : 6)]; t[n] = 0; text(t); break; }
    case 1: { static const char *O[] = { "0", "1", "10", "199", "255", "256", "", "01", "08", "0x1", "1 ", "-1", "999" }; static const char *P[] = { "", "/0", "/1", "/8", "/31", "/32", "/33", "/99", "/", "/-1", "/8x", "/ 8", "/+8", "/256", "/4294967304", "/99999999999999999999", "/008", "/8/8", " /8" };
        int o[4]; for (int i = 0; i < 4; i++) o[i] = mc_choose(sizeof O / sizeof *O); int p = mc_choose(sizeof P / sizeof *P); sprintf(t, "%s.%s.%s.%s%s", O[o[0]], O[o[1]], O[o[2]], O[o[3]], P[p]); text(t); break; }
    default: { static const int V[] = { 0, 1, 9, 10, 99, 100, 127, 128, 200, 255 }; uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | V[mc_choose(10)]; sprintf(t, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255);
        long live = mc_live_blocks(); char *s = zt_ipv4_int2ip(v); MC_CHECK(s && !strcmp(s, t), "%08x is written '%s'", v, s); MC_CHECK(zt_ipv4_ip2int(s) == v, "'%s' read back as %08x", s, zt_ipv4_ip2int(s)); free(s); MC_CHECK(mc_live_blocks() == live, "%s: memory left", t); text(t); for (int i = 0; i <= 32; i++) { char q[99]; sprintf(q, "%s/%d", t, i); text(q); } mc_nontrivial(); }
    }
    mc_state(mc_hash(5, t, strlen(t)));
}
typedef struct { uint32_t lo, hi; zt_ipv4_node *n; } ent;
static void query(zt_ipv4_tbl *t, ent *e, int n, const char *q, const char *h) {
    uint32_t lo, hi; int b; parse(q, &lo, &hi, &b); int want = 0, hit = 0; for (int i = 0; i < n; i++) if (e[i].lo <= lo && hi <= e[i].hi) want = 1;
    MC_LOG("%s: search %s", h, q); zt_ipv4_node *r = zt_ipv4_tbl_search_from_str(t, q); mc_step();
    MC_CHECK(!!r == want, "%s: '%s' %s", h, q, r ? "found although no stored network contains it" : "not found although a stored network contains it");
    zt_ipv4_node *nd = zt_ipv4_node_str_init(q); MC_CHECK(nd && nd->addr && nd->addr->addr == lo && nd->addr->broadcast == hi && nd->addr->mask == mask(b) && nd->addr->bitlen == b && !nd->next, "%s: node of '%s'", h, q); zt_ipv4_node *r2 = zt_ipv4_tbl_search_node(t, nd); MC_CHECK(r2 == r, "%s: searching '%s' by node and by text differ", h, q);
    zt_ipv4_addr *ad = zt_ipv4_addr_frm_str(q); MC_CHECK(ad && ad != nd->addr && ad->addr == lo && ad->broadcast == hi && ad->mask == mask(b) && ad->bitlen == b, "%s: address of '%s'", h, q); for (int i = 0; i < n; i++) MC_CHECK(!!ipv4_tbl_addr_cmp(e[i].n->addr, ad) == (e[i].lo <= lo && hi <= e[i].hi), "%s: comparing network %d with '%s'", h, i, q);
    void *x = nd->addr; zt_mem_pool_release(&x); x = nd; zt_mem_pool_release(&x); x = ad; zt_mem_pool_release(&x);
    if (r) { for (int i = 0; i < n; i++) if (e[i].n == r && e[i].lo <= lo && hi <= e[i].hi) hit = 1; MC_CHECK(hit, "%s: '%s' found in a network that does not contain it or is not stored here", h, q); }
}
static void add(zt_ipv4_tbl *t, ent *e, int *n, const char *s, int how, const char *h) {
    uint32_t lo, hi; int b; parse(s, &lo, &hi, &b); MC_LOG("%s: add %s", h, s); zt_ipv4_node *any = NULL; for (int i = 0; i < *n; i++) if (!e[i].lo && e[i].hi == 0xffffffffu) any = e[i].n;
    zt_ipv4_node *r; mc_step();
    if (how) { r = zt_ipv4_node_str_init(s); MC_CHECK(r, "%s: no node for '%s'", h, s); MC_CHECK(zt_ipv4_tbl_add_node(t, r) == 0, "%s: node refused", h); }
    else { r = zt_ipv4_tbl_add_frm_str(t, s); MC_CHECK(r, "%s: '%s' refused", h, s); if (any) { int is = 0; for (int i = 0; i < *n; i++) if (e[i].n == r && !e[i].lo && e[i].hi == 0xffffffffu) is = 1; if (is) return; } }
    MC_CHECK(r->addr->addr == lo && r->addr->broadcast == hi && r->addr->mask == mask(b) && r->addr->bitlen == b, "%s: node of '%s' is %08x-%08x /%d", h, s, r->addr->addr, r->addr->broadcast, r->addr->bitlen);
    e[*n].lo = lo; e[*n].hi = hi; e[(*n)++].n = r;
}
static void histories(void) {
    long live = mc_live_blocks(); zt_ipv4_tbl *t[2]; ent e[2][8]; int n[2] = { 0, 0 }; char h[300]; int a = mc_choose(5), b = mc_choose(3);
    t[0] = zt_ipv4_tbl_init(SZ[a]); t[1] = zt_ipv4_tbl_init(SZ[(a + 1 + b * 2) % 5]); MC_CHECK(t[0] && t[1], "no table"); sprintf(h, "tables of %u and %u", SZ[a], SZ[(a + 1 + b * 2) % 5]);
    int d = mc_choose(depth + 1);
    for (int i = 0; i < d; i++) { int w = i == 1 && b == 1, k = mc_choose(nnet), how = i == d - 1 ? mc_choose(2) : 0; sprintf(h + strlen(h), ", %s%s to %d", how ? "node " : "", NETS[k], w); add(t[w], e[w], &n[w], NETS[k], how, h); MC_CHECK(!zt_ipv4_tbl_add_frm_str(t[0], "300.1.2.3") || n[0], "%s: an invalid network was added", h); }
    for (int w = 0; w < 2; w++) for (int q = 0; q < nq; q++) query(t[w], e[w], n[w], QS[q], h);
    if (d) mc_nontrivial();
    int first = mc_choose(2); zt_ipv4_tbl_destroy(t[first]); for (int q = 0; q < 3; q++) query(t[!first], e[!first], n[!first], QS[q], h); zt_ipv4_tbl_destroy(t[!first]);
    MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left after destroying both", h, mc_live_blocks() - live); mc_state(mc_hash(1, h, strlen(h)));
}
static void lengths(void) { /* many prefix lengths in one table, in many orders */
    long live = mc_live_blocks(); static const int STEP[] = { 1, 31, 3, 7, 13, 29 }; static const char *B[] = { "10.85.170.255", "255.255.255.255", "0.0.0.1", "128.0.0.0" }; static const int C[] = { 1, 2, 31, 32 };
    int start = mc_choose(32), st = STEP[mc_choose(6)], c = C[mc_choose(4)], bi = mc_choose(4), sz = SZ[mc_choose(5)]; zt_ipv4_tbl *t = zt_ipv4_tbl_init(sz); ent e[40]; int n = 0; char h[200], s[40]; sprintf(h, "%d prefix lengths of %s from %d by %d, table of %d", c, B[bi], start + 1, st, sz);
    for (int i = 0; i < c; i++) { int l = (start + i * st) % 32 + 1; sprintf(s, "%s/%d", B[bi], l); add(t, e, &n, s, 0, h); if (i % 2) { add(t, e, &n, s, 0, h); n--; } }
    /* the second copy of a network may be what a search returns: compare by range */
    uint32_t lo, hi; int bb; parse(B[bi], &lo, &hi, &bb);
    for (int l = 0; l <= 32; l++) for (int fl = 0; fl <= 32; fl += 1) { uint32_t v = lo ^ (fl ? 1u << (fl - 1) : 0); sprintf(s, "%u.%u.%u.%u/%d", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255, l); uint32_t ql = v & mask(l), qh = ql | ~mask(l); int want = 0; for (int i = 0; i < n; i++) if (e[i].lo <= ql && qh <= e[i].hi) want = 1;
        MC_LOG("%s: search %s", h, s); zt_ipv4_node *r = zt_ipv4_tbl_search_from_str(t, s); mc_step(); MC_CHECK(!!r == want, "%s: '%s' %s", h, s, r ? "found although no stored network contains it" : "not found although a stored network contains it"); if (r) { int in = 0; for (int i = 0; i < n; i++) if (r->addr->addr == e[i].lo && r->addr->broadcast == e[i].hi) in = 1; MC_CHECK(in && r->addr->addr <= ql && qh <= r->addr->broadcast, "%s: '%s' found in the wrong network", h, s); } }
    zt_ipv4_tbl_destroy(t); MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", h, mc_live_blocks() - live); mc_nontrivial(); mc_state(mc_hash(2, h, strlen(h)));
}
void mc_setup(void) { depth = mc_param("networks", 3, 4); textlen = mc_param("textlen", 7, 7); nq = sizeof QS / sizeof *QS; nnet = mc_param("universe", 8, 12); mc_shard_depth = 3; zt_ipv4_tbl *t = zt_ipv4_tbl_init(4); zt_ipv4_tbl_destroy(t); free(zt_ipv4_int2ip(1)); }
void mc_run(void) { switch (mc_choose(3)) { case 0: texts(); break; case 1: histories(); break; default: lengths(); } }
