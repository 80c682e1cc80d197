/* C03 (scale): big trees: every size, several insertion and removal orders, searches for every key and gap on the way. */
#include "mc.h"
#include <zt.h>
#define MX 2100
typedef struct { char pad[3]; long key; zt_rbt_node n; } item; static item it[MX], probe; static char in[MX]; static zt_rbt_node *H; static int N, maxn, cnt;
#define IT(x) zt_rbt_data((x), item, n)
static int cmp(zt_rbt_node *a, zt_rbt_node *b) { return IT(a)->key < IT(b)->key ? -1 : IT(a)->key > IT(b)->key; }
static zt_rbt_node *last; static int visited;
static int walk(zt_rbt_node *x, zt_rbt_node *p, int d) { if (!x) return 1; MC_CHECK(d < 64, "tree is deeper than 64"); MC_CHECK(zt_rbt_parent(x) == p, "wrong parent link"); MC_CHECK(!p || zt_rbt_colour(x) != zt_rbt_red || zt_rbt_colour(p) != zt_rbt_red, "red child of a red node"); int a = walk(zt_rbt_left(x), x, d + 1); MC_CHECK(!last || IT(last)->key < IT(x)->key, "keys out of order"); last = x; visited++; MC_CHECK(in[IT(x) - it], "node that is not in the tree"); int b = walk(zt_rbt_right(x), x, d + 1); MC_CHECK(a == b, "black heights %d and %d", a, b); return a + (zt_rbt_colour(x) == zt_rbt_black); }
static void is(const char *what, int deep) {
    last = NULL; visited = 0; MC_LOG("%s", what); walk(H, NULL, 0); MC_CHECK(visited == cnt, "%s: %d nodes, must be %d", what, visited, cnt); mc_step(); if (!deep) return; int lo = -1, hi = -1; for (int i = 0; i < N; i++) if (in[i]) { if (lo < 0) lo = i; hi = i; }
    zt_rbt_node *x = zt_rbt_min(&H); MC_CHECK(x == (lo < 0 ? NULL : &it[lo].n), "minimum"); MC_CHECK(zt_rbt_max(&H) == (hi < 0 ? NULL : &it[hi].n), "maximum");
    for (int i = 0; i < N; i++) { if (in[i]) { MC_CHECK(x == &it[i].n, "iteration"); x = zt_rbt_next(x); } } MC_CHECK(x == NULL, "iteration does not end");
    for (int i = N - 1, nx = -1; i >= -1; i--) { probe.key = i < 0 ? -5 : it[i].key + 1; MC_CHECK(zt_rbt_find(&H, &probe.n, cmp) == NULL, "finds a key that is not there"); MC_CHECK(zt_rbt_nfind(&H, &probe.n, cmp) == (nx < 0 ? NULL : &it[nx].n), "nfind above key %d", i); if (i < 0) break; if (in[i]) nx = i; probe.key = it[i].key; MC_CHECK(zt_rbt_find(&H, &probe.n, cmp) == (in[i] ? &it[i].n : NULL), "find of key %d", i); MC_CHECK(zt_rbt_nfind(&H, &probe.n, cmp) == (nx < 0 ? NULL : &it[nx].n), "nfind of key %d", i); }
}
static int perm(int o, int k, int n) { if (o == 0) return k; if (o == 1) return n - 1 - k; if (o == 2) return k % 2 ? n - 1 - k / 2 : k / 2; int m = o == 3 ? 7 : o == 4 ? 13 : 37; while (n % m == 0) m++; for (int a = m, b = n; ; ) { int t = a % b; a = b; b = t; if (!b) { if (a == 1) break; m++; a = m; b = n; } } return (int)((long)k * m % n); }
void mc_setup(void) { maxn = mc_param("nodes", 130, 260); mc_shard_depth = 3; mc_pure = 1; }
void mc_run(void) {
    int k = mc_choose(maxn + 4), oi = mc_choose(6), od = mc_choose(6), part = mc_choose(2); N = k < maxn ? k : (int[]){ 300, 511, 1000, 2048 }[k - maxn]; MC_LOG("%d nodes inserted in order %d, removed in order %d", N, oi, od); H = NULL; cnt = 0; memset(in, 0, sizeof in); for (int i = 0; i < N; i++) { memset(&it[i], 0x5a, sizeof it[i]); it[i].key = 10L * i; }
    for (int j = 0; j < N; j++) { int i = perm(oi, j, N); MC_CHECK(zt_rbt_insert(&H, &it[i].n, cmp) == NULL, "insertion of a new key is refused"); in[i] = 1; cnt++; if (N < 140 || j % 50 == 0) is("inserted", j % 16 == 5); probe.key = it[i].key; MC_CHECK(zt_rbt_insert(&H, &probe.n, cmp) == &it[i].n, "second insertion of a key"); } is("all inserted", 1);
    int half = part ? N / 2 : N; for (int j = 0; j < half; j++) { int i = perm(od, j, N); MC_CHECK(zt_rbt_remove(&H, &it[i].n) == &it[i].n, "removal returns another node"); memset(&it[i].n, 0x5b, sizeof it[i].n); in[i] = 0; cnt--; if (N < 140 || j % 50 == 0) is("removed", j % 16 == 5); } is("removed", 1);
    if (part) { for (int i = 0; i < N; i++) if (!in[i]) { MC_CHECK(zt_rbt_insert(&H, &it[i].n, cmp) == NULL, "insertion of a removed key is refused"); in[i] = 1; cnt++; if (N < 140) is("inserted again", 0); } is("inserted again", 1); }
    if (N) mc_nontrivial(); mc_state(mc_mix(mc_mix(N, oi), od * 2 + part));
}
