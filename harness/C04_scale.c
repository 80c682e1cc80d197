/* C04 (scale): long lists. */
#include "mc.h"
#include <zt.h>
#define MX 1300
typedef struct { long a; zt_elist_t e; short b; } item; static item it[MX]; static zt_elist_t H[2]; static int q[2][MX * 2], h[2], t[2], maxn;
#define E(i) (&it[i].e)
static void is(int x, const char *what) { zt_elist_t *p = &H[x], *k; int n = 0; for (int i = h[x]; i < t[x]; i++) { MC_CHECK(p->next == E(q[x][i]) && E(q[x][i])->prev == p, "%s: links at %d of %d", what, i - h[x], t[x] - h[x]); p = p->next; } MC_CHECK(p->next == &H[x] && H[x].prev == p, "%s: list of %d does not close", what, t[x] - h[x]); zt_elist_for_each(&H[x], k) { MC_CHECK(zt_elist_data(k, item, e) == &it[q[x][h[x] + n]], "%s: iteration", what); n++; } MC_CHECK(n == t[x] - h[x] && !!zt_elist_empty(&H[x]) == !n && !!zt_stack_empty(&H[x]) == !n && !!zt_queue_empty(&H[x]) == !n, "%s: %d visited, must be %d", what, n, t[x] - h[x]); mc_step(); }
static void ins(int x, int i, int front) { if (front) q[x][--h[x]] = i; else q[x][t[x]++] = i; }
void mc_setup(void) { maxn = mc_param("elements", 140, 300); mc_shard_depth = 2; mc_pure = 1; }
void mc_run(void) {
    int k = mc_choose(maxn + 3), n = k < maxn ? k : (int[]){ 255, 257, 1025 }[k - maxn], how = mc_choose(5), op = mc_choose(6); MC_LOG("%d elements built by %d, operation %d", n, how, op); zt_elist_reset(&H[0]); zt_elist_reset(&H[1]); h[0] = t[0] = h[1] = t[1] = MX; memset(it, 0x5a, sizeof it);
    for (int i = 0; i < n; i++) { int f = how == 4 ? i % 3 : 1; if (how == 0) zt_elist_add(&H[0], E(i)); else if (how == 1) zt_elist_add_tail(&H[0], E(i)), f = 0; else if (how == 2) zt_stack_push(&H[0], E(i)); else if (how == 3) zt_queue_enqueue(&H[0], E(i)); else if (f) zt_elist_add(&H[0], E(i)); else zt_elist_add_tail(&H[0], E(i)); ins(0, i, f); if (i % 10 == 0) is(0, "added"); } is(0, "built");
    if (op == 0) for (int i = 0; i <= n; i++) { zt_elist_t *e = zt_stack_pop(&H[0]); MC_CHECK(e == (i < n ? E(q[0][h[0]]) : NULL), "pop %d of %d", i, n); if (i < n) h[0]++; if (i % 10 == 0) is(0, "popped"); }
    else if (op == 1) for (int i = 0; i <= n; i++) { if (i < n) MC_CHECK(zt_queue_peek(&H[0]) == E(q[0][t[0] - 1]) && zt_stack_peek(&H[0]) == E(q[0][h[0]]), "peek"); zt_elist_t *e = zt_queue_dequeue(&H[0]); MC_CHECK(e == (i < n ? E(q[0][t[0] - 1]) : NULL), "dequeue %d of %d", i, n); if (i < n) t[0]--; if (i % 10 == 0) is(0, "dequeued"); }
    else if (op == 2) { for (int i = 0; i < n; i++) { int j = (i * 7 + n / 2) % n, at; for (at = h[0]; at < t[0]; at++) if (q[0][at] == j) break; if (at == t[0]) continue; zt_elist_remove(E(j)); memset(E(j), 0x5b, sizeof *E(j)); memmove(q[0] + at, q[0] + at + 1, (t[0] - at - 1) * sizeof(int)); t[0]--; if (i % 10 == 0) is(0, "removed"); } }
    else if (op == 3) { int m = mc_choose(4), c = (int[]){ 0, 1, 40, 200 }[m]; if (n + c > MX) mc_prune(); for (int i = 0; i < c; i++) { zt_elist_add_tail(&H[1], E(n + i)); ins(1, n + i, 0); } zt_elist_join(&H[0], &H[1]); zt_elist_reset(&H[1]); for (int i = t[1] - 1; i >= h[1]; i--) ins(0, q[1][i], 1); t[1] = h[1]; is(1, "donor"); }
    else if (op == 4) { int st = 1 + mc_choose(5), c = 0, w = h[0]; zt_elist_t *p, *x; zt_elist_for_each_safe(&H[0], p, x) { MC_CHECK(p == E(q[0][h[0] + c]), "safe iteration at %d", c); if (c % st == 0) { zt_elist_remove(p); memset(p, 0x5c, sizeof *p); q[0][h[0] + c] = -1; } c++; } MC_CHECK(c == n, "safe iteration visits %d of %d", c, n); for (int i = h[0]; i < t[0]; i++) if (q[0][i] >= 0) q[0][w++] = q[0][i]; t[0] = w; }
    else for (int i = 0; i < n; i += 3) { zt_elist_t *e = zt_queue_dequeue(&H[0]); int j = q[0][--t[0]]; MC_CHECK(e == E(j), "dequeue"); zt_elist_add(&H[1], e); ins(1, j, 1); is(1, "moved"); }
    is(0, "end"); is(1, "end"); if (n) mc_nontrivial(); mc_state(mc_mix(n, how * 6 + op));
}
