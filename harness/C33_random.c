/* C33: the generator against reference MT19937: seeds, seed arrays, histories on two generators, real intervals. */
#include "mc.h"
#include <zt.h>
#include <time.h>
typedef struct { uint32_t s[624]; int i; } mt;
static void seed(mt *m, uint32_t v) { m->s[0] = v; for (int i = 1; i < 624; i++) m->s[i] = 1812433253u * (m->s[i - 1] ^ m->s[i - 1] >> 30) + i; m->i = 624; }
static void aseed(mt *m, const uint32_t *k, int n) {
    seed(m, 19650218u); uint32_t *s = m->s; int i = 1, j = 0;
    for (int c = n > 624 ? n : 624; c; c--) { s[i] = (s[i] ^ (s[i - 1] ^ s[i - 1] >> 30) * 1664525u) + k[j] + j; if (++i == 624) { s[0] = s[623]; i = 1; } if (++j == n) j = 0; }
    for (int c = 623; c; c--) { s[i] = (s[i] ^ (s[i - 1] ^ s[i - 1] >> 30) * 1566083941u) - i; if (++i == 624) { s[0] = s[623]; i = 1; } }
    s[0] = 0x80000000u; m->i = 624;
}
static uint32_t temper(uint32_t y) { y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; return y ^ y >> 18; }
static uint32_t draw(mt *m) {
    if (m->i == 624) { uint32_t n[624]; memcpy(n, m->s, sizeof n); for (int k = 0; k < 624; k++) { uint32_t y = (n[k] & 0x80000000u) | (n[(k + 1) % 624] & 0x7fffffffu); n[k] = n[(k + 397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } memcpy(m->s, n, sizeof n); m->i = 0; }
    return temper(m->s[m->i++]);
}
static uint32_t untemper(uint32_t t) { /* invert by solving bit by bit */ uint32_t y = t, x; y ^= y >> 18; x = y; for (int i = 0; i < 5; i++) x = y ^ (x << 15 & 0xefc60000u); y = x; for (int i = 0; i < 8; i++) x = y ^ (x << 7 & 0x9d2c5680u); y = x; for (int i = 0; i < 4; i++) x = y ^ x >> 11; return x; }
static uint32_t S[200]; static int ns, depth;
void mc_setup(void) {
    mt m; seed(&m, 5489); uint32_t v = 0; for (int i = 0; i < 10000; i++) v = draw(&m); uint32_t k[] = { 0x123, 0x234, 0x345, 0x456 }; aseed(&m, k, 4);
    if (v != 4123659995u || draw(&m) != 1067595299u) { fprintf(stderr, "reference generator is wrong\n"); exit(3); }
    for (int i = 0; i < 32; i++) { S[ns++] = 1u << i; S[ns++] = ~(1u << i); S[ns++] = (1u << i) - 1; } S[ns++] = ~0u; S[ns++] = 5489; S[ns++] = 19650218u; depth = mc_param("depth", 6, 7); mc_shard_depth = 3;
}
static void cmp(zt_random_state *r, mt *m, int n, const char *w, unsigned a, unsigned b) { for (int i = 0; i < n; i++) { uint32_t g = zt_random_uint32(r), e = draw(m); if (g != e) mc_fail("%s %u %u: draw %d is %u, must be %u", w, a, b, i, g, e); } mc_step(); }
static zt_random_state *fresh(void) { zt_random_state *r = malloc(sizeof *r); memset(r, 0xa7, sizeof *r); return r; }
static time_t now; time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { time_t v = now ? now : __real_time(NULL); if (t) *t = v; return v; }
void mc_run(void) {
    int mode = mc_choose(6); mt m; zt_random_state *r = fresh();
    if (mode == 0) { uint32_t s = S[mc_choose(ns)]; MC_LOG("seed %u", s); zt_random_srandom(r, s); seed(&m, s); cmp(r, &m, 2600, "seed", s, 0); mc_nontrivial(); mc_state(mc_hash(s, m.s, sizeof m.s)); }
    else if (mode == 1) { uint32_t s = mc_choose(mc_thorough ? 1 << 20 : 1 << 16); MC_LOG("seed %u", s); zt_random_srandom(r, s); seed(&m, s); cmp(r, &m, 20, "seed", s, 0); mc_state(mc_hash(s, m.s, sizeof m.s)); }
    else if (mode == 2) { /* seed arrays */
        static const uint32_t A[] = { 0, 1, ~0u, 0x80000000u, 0x12345678 }; uint32_t *k; int n, big = mc_choose(2); 
        if (big) { n = (int[]){ 5, 100, 622, 623, 624, 625, 1247, 1248, 1300 }[mc_choose(9)]; int f = mc_choose(3); k = malloc(4 * n); for (int i = 0; i < n; i++) k[i] = f == 0 ? i * 2654435761u : f == 1 ? ~0u : 0; }
        else { n = 1 + mc_choose(4); k = malloc(4 * n); for (int i = 0; i < n; i++) k[i] = A[mc_choose(5)]; }
        uint32_t *c = (void *)mc_dupn(k, 4 * n); MC_LOG("seed array of %d starting %u", n, k[0]); zt_random_initstate(r, c, n); aseed(&m, k, n); MC_CHECK(!memcmp(c, k, 4 * n), "seed array modified"); free(c); cmp(r, &m, 1300, "seed array of", n, k[n - 1]); mc_nontrivial(); mc_state(mc_hash(n, m.s, sizeof m.s)); free(k); }
    else if (mode == 3) { /* two generators */
        zt_random_state *q[2] = { r, fresh() }; mt w[2]; for (int g = 0; g < 2; g++) { zt_random_srandom(q[g], 7 + g); seed(&w[g], 7 + g); } uint64_t h = 3;
        for (int d = 0; d < depth; d++) { int op = mc_choose(11); if (!op) break; int g = (op - 1) & 1, k = (op - 1) / 2; MC_LOG("generator %d: %s", g, k == 0 ? "1 draw" : k == 1 ? "623 draws" : k == 2 ? "625 draws" : k == 3 ? "seed 7" : "seed array");
            static uint32_t ka[] = { 9, 8 }; h = mc_mix(h, op); if (k < 3) cmp(q[g], &w[g], k == 0 ? 1 : k == 1 ? 623 : 625, "history", d, (unsigned)h); else if (k == 3) { zt_random_srandom(q[g], 7); seed(&w[g], 7); } else { zt_random_initstate(q[g], ka, 2); aseed(&w[g], ka, 2); } if (d > 1) mc_nontrivial(); mc_state(h); }
        for (int g = 0; g < 2; g++) cmp(q[g], &w[g], 3, "history end", g, (unsigned)h); free(q[1]); }
    else if (mode == 5) { /* used before it is seeded: as if seeded with the time, and it says so; a real result, too */
        int fill = mc_choose(3), how = mc_choose(4); time_t T[] = { 1, 1700000000, 0x7fffffff, 0x80000001, 0xffffffff, 0x100000005 }; now = T[mc_choose(6)]; memset(r, fill == 0 ? 0 : fill == 1 ? 0xff : 0xa7, sizeof *r); MC_LOG("unseeded generator at %ld, filled with %d, draw %d", (long)now, fill, how); char *o; size_t ol; FILE *se = stderr; stderr = open_memstream(&o, &ol); uint32_t u = 0; double x = 0;
        if (how == 0) u = zt_random_uint32(r); else x = how == 1 ? zt_random_float(r) : how == 2 ? zt_random_float00(r) : zt_random_float10(r); fclose(stderr); stderr = se; seed(&m, (uint32_t)now); uint32_t e = draw(&m); now = 0; MC_CHECK(how || u == e, "unseeded generator draws %u, must draw %u", u, e); MC_CHECK(how != 1 || x == e * (1.0 / 4294967295.0), "unseeded [0,1] is %.17g", x); MC_CHECK(how != 2 || x == (e + 0.5) / 4294967296.0, "unseeded (0,1) is %.17g", x); MC_CHECK(how != 3 || x == e / 4294967296.0, "unseeded [0,1) is %.17g", x);
        MC_CHECK(ol > 0, "nothing is logged about the unseeded generator"); free(o); char *o2; stderr = open_memstream(&o2, &ol); cmp(r, &m, 1300, "unseeded generator", fill, how); fclose(stderr); stderr = se; MC_CHECK(ol == 0, "a seeded generator says '%s'", o2); free(o2); mc_nontrivial(); mc_state(mc_mix(5, e + fill * 7 + how)); }
    else { /* real results at every notable output */
        uint32_t b[] = { 0, ~0u, 0x80000000u, 0x7fffffffu, 1, ~1u }, u = b[mc_choose(6)] ^ (uint32_t[]){ 0, 1, 2, 0x100, 0x200, 0x10000 }[mc_choose(6)]; MC_LOG("draw of %u as reals", u); if (temper(untemper(u)) != u) { fprintf(stderr, "reference inverse is wrong\n"); exit(3); }
        zt_random_srandom(r, 1); for (int i = 0; i < 624; i++) r->mt[i] = untemper(u); r->mti = 0; MC_CHECK(zt_random_uint32(r) == u, "draw of %u", u);
        double x = zt_random_float(r), y = zt_random_float00(r), z = zt_random_float10(r); mc_step(); mc_nontrivial(); mc_state(u);
        MC_CHECK(x >= 0 && x <= 1 && x == u * (1.0 / 4294967295.0), "[0,1] of %u is %.17g", u, x); MC_CHECK(y > 0 && y < 1 && y == (u + 0.5) / 4294967296.0, "(0,1) of %u is %.17g", u, y); MC_CHECK(z >= 0 && z < 1 && z == u / 4294967296.0, "[0,1) of %u is %.17g", u, z); if (!u) MC_CHECK(x == 0 && z == 0, "zero"); if (u == ~0u) MC_CHECK(x == 1, "one"); }
    free(r);
}
