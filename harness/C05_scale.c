/* C05 (scale): long lists and many patterns of keys. */
#include "mc.h"
#include <zt.h>
#define MX 2100
typedef struct { int key; } cell; static cell c[MX]; static int got[MX * 2], maxn; static int gt(void *a, void *b) { return ((cell *)a)->key > ((cell *)b)->key; } static int ge(void *a, void *b) { return ((cell *)a)->key >= ((cell *)b)->key; }
static zt_llist mk(int from, int n) { zt_llist l = NULL; for (int i = n - 1; i >= 0; i--) l = zt_llist_cons(&c[from + i], l); return l; }
static int flat(zt_llist l) { int n = 0; while (l) { MC_CHECK(n < MX, "list does not end"); got[n++] = (int)((cell *)zt_llist_head(l) - c); l = zt_llist_tail(l); } return n; }
static void run(int n, int from, int step, const char *what) { for (int i = 0; i < n; i++) MC_CHECK(got[i] == from + i * step, "%s: element %d of %d is wrong", what, i, n); mc_step(); }
static void srt(int n, const char *what) { static char s[MX]; memset(s, 0, sizeof s); for (int i = 0; i < n; i++) { MC_CHECK(!s[got[i]], "%s: element twice", what); s[got[i]] = 1; if (i) MC_CHECK(c[got[i - 1]].key <= c[got[i]].key, "%s: %d elements out of order at %d", what, n, i); } mc_step(); }
static int pat(int p, int i, int n) { switch (p) { case 0: return i; case 1: return n - i; case 2: return i * 7 % 11; case 3: return 5; case 4: return i % 2 ? i : n * 2 - i; case 5: return i < n / 2 ? i + n : i; case 6: return (int)(i * 2654435761u >> 8); case 7: return i == n - 1 ? -1 : i; case 8: return i == 0 ? n : i; default: return -(int)(i * 2654435761u >> 20); } }
void mc_setup(void) { maxn = mc_param("length", 200, 400); mc_shard_depth = 2; }
void mc_run(void) {
    long live0 = mc_live_blocks(); int k = mc_choose(maxn + 4), n = k < maxn ? k : (int[]){ 511, 513, 1025, 2000 }[k - maxn], op = mc_choose(6); MC_LOG("%d elements, operation %d", n, op); zt_llist l;
    if (op == 0) { int p = mc_choose(10); for (int i = 0; i < n; i++) c[i].key = pat(p, i, n); l = zt_llist_sort(mk(0, n), mc_choose(2) ? gt : ge); int m = flat(l); MC_CHECK(m == n, "sort of %d elements gives %d", n, m); srt(n, "sort"); zt_llist_free(l); mc_state(mc_mix(n, p)); }
    else if (op == 1) { int m = mc_choose(6), a = m == 0 ? 0 : m == 1 ? n : m == 2 ? n / 2 : m == 3 ? n / 10 : m == 4 ? n - n / 10 : (n > 0); for (int i = 0; i < a; i++) c[i].key = i * 3 / 2; for (int i = a; i < n; i++) c[i].key = (i - a) * 2; l = zt_llist_nmerge(mk(0, a), mk(a, n - a), gt); int g = flat(l); MC_CHECK(g == n, "merge of %d and %d elements gives %d", a, n - a, g); srt(n, "merge"); zt_llist_free(l); }
    else if (op == 2) { l = mk(0, n); zt_llist r = zt_llist_reverse(l); MC_CHECK(flat(l) == n, "argument changes"); run(n, 0, 1, "argument"); MC_CHECK(flat(r) == n, "length"); run(n, n - 1, -1, "reverse"); zt_llist_free(l); r = zt_llist_nreverse(r); MC_CHECK(flat(r) == n, "length"); run(n, 0, 1, "nreverse"); zt_llist_free(r); }
    else if (op == 3) { l = mk(0, n); zt_llist b = zt_llist_split(l); if (n == 0) { MC_CHECK(!b, "split of nothing"); return; } if (n == 1) { MC_CHECK(b == l, "split of one"); zt_llist_free(l); return; } int a = flat(l); run(a, 0, 1, "front"); int d = flat(b); run(d, a, 1, "back"); MC_CHECK(a + d == n && a > 0 && d > 0, "split of %d into %d and %d", n, a, d); zt_llist_free(l); zt_llist_free(b); }
    else if (op == 4) { l = mk(0, n); for (int i = 0; i < n; i += 1 + i / 8) { MC_CHECK(zt_llist_nth(l, i) == &c[i], "nth %d of %d", i, n); int m = flat(zt_llist_nthtail(l, i)); MC_CHECK(m == n - i - 1, "nthtail %d of %d has %d", i, n, m); run(m, i + 1, 1, "nthtail"); } zt_llist_free(l); }
    else { l = NULL; for (int i = 0; i < n; i++) { zt_llist_push(&c[i], &l); } MC_CHECK(flat(l) == n, "push"); run(n, n - 1, -1, "push"); zt_llist r = NULL; for (int i = 0; i < n / 2; i++) { zt_llist p = zt_llist_ppop(&l); MC_CHECK(zt_llist_head(p) == &c[n - 1 - i], "ppop"); zt_llist_ppush(p, &r); } MC_CHECK(flat(r) == n / 2, "ppush"); run(n / 2, n - n / 2, 1, "ppush"); for (int i = 0; i < n - n / 2; i++) MC_CHECK(zt_llist_pop(&l) == &c[n - n / 2 - 1 - i], "pop"); MC_CHECK(l == NULL && zt_llist_pop(&l) == NULL, "pop of nothing"); zt_llist_free(r); }
    MC_CHECK(mc_live_blocks() == live0, "%ld cells left", mc_live_blocks() - live0); if (n > 1) mc_nontrivial(); mc_state(mc_mix(n, op + 50));
}
