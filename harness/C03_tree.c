/* C03: complete reachability.  The tree code only ever compares keys, so a
 * state is the shape and colouring of the tree with keys by rank.  Starting
 * from the empty tree, every insertion position and every removal is executed
 * by the real code on every reachable state with at most N nodes: this covers
 * histories of EVERY length over trees of that size. */
#include "mc.h"
#include <zt.h>
#include <limits.h>
#define MX 20
typedef struct { int key; zt_rbt_node n; char tail[3]; } item;
typedef struct { signed char n, head, l[MX], r[MX], p[MX], c[MX]; int from; signed char op, arg; } st;
static st *S; static int ns, cap, *tab, tabn;
static item pool[MX + 2]; static zt_rbt_node *head; static int N;
#define IT(x) ((x) ? zt_rbt_data((x), item, n) : NULL)
static int cmpkind;
static int cmp(zt_rbt_node *a, zt_rbt_node *b) {
    int d = IT(a)->key - IT(b)->key;
    return cmpkind == 0 ? d : cmpkind == 1 ? (d > 0) - (d < 0) : d > 0 ? INT_MAX : d < 0 ? INT_MIN : 0;
}
static int rk(zt_rbt_node *x) { return x ? (int)(IT(x) - pool) : -1; }
static void restore(const st *s) {
    memset(pool, 0x5a, sizeof pool);
    for (int i = 0; i < s->n; i++) {
        pool[i].key = 2 * i + 1;
        zt_rbt_left(&pool[i].n) = s->l[i] < 0 ? NULL : &pool[(int)s->l[i]].n;
        zt_rbt_right(&pool[i].n) = s->r[i] < 0 ? NULL : &pool[(int)s->r[i]].n;
        zt_rbt_parent(&pool[i].n) = s->p[i] < 0 ? NULL : &pool[(int)s->p[i]].n;
        zt_rbt_colour(&pool[i].n) = s->c[i] ? zt_rbt_black : zt_rbt_red;
    }
    head = s->head < 0 ? NULL : &pool[(int)s->head].n;
}
static char hist[1200];
static const char *history(int i) {
    if (i <= 0) { hist[0] = 0; return hist; }
    history(S[i].from);
    snprintf(hist + strlen(hist), sizeof hist - strlen(hist), "%c%d ", S[i].op, S[i].arg);
    return hist;
}
static int curstate; static char curop; static int curarg;
#define BAD(...) do { char _b[160]; snprintf(_b, sizeof _b, __VA_ARGS__); mc_fail("[%s%c%d] %s", history(curstate), curop, curarg, _b); } while (0)
/* in-order collection + red-black invariants; returns black height */
static zt_rbt_node *ord[MX + 3]; static int nord;
static int walk(zt_rbt_node *x, zt_rbt_node *par, int depth) {
    if (!x) return 1;
    if (depth > MX + 2 || nord > MX) BAD("tree has a cycle");
    if (zt_rbt_parent(x) != par) BAD("wrong parent link");
    if (zt_rbt_colour(x) != zt_rbt_red && zt_rbt_colour(x) != zt_rbt_black) BAD("node has no colour");
    if (par && zt_rbt_colour(x) == zt_rbt_red && zt_rbt_colour(par) == zt_rbt_red) BAD("red node has a red child");
    int a = walk(zt_rbt_left(x), x, depth + 1);
    ord[nord++] = x;
    int b = walk(zt_rbt_right(x), x, depth + 1);
    if (a != b) BAD("black heights differ (%d, %d)", a, b);
    return a + (zt_rbt_colour(x) == zt_rbt_black);
}
/* the tree must hold exactly want[0..n-1], in that order */
static void validate(item **want, int n) {
    nord = 0;
    walk(head, NULL, 0);
    if (head && zt_rbt_colour(head) != zt_rbt_black) BAD("root is red");
    if (nord != n) BAD("%d nodes in the tree, want %d", nord, n);
    for (int i = 0; i < n; i++) {
        if (ord[i] != &want[i]->n) BAD("node at position %d is wrong", i);
        if (memcmp(want[i]->tail, "ZZZ", 3)) BAD("memory beside the link fields was changed");
    }
    if (zt_rbt_min(&head) != (n ? &want[0]->n : NULL)) BAD("min is wrong");
    if (zt_rbt_max(&head) != (n ? &want[n - 1]->n : NULL)) BAD("max is wrong");
    zt_rbt_node *x; int i = 0;
    zt_rbt_for_each(&head, x) { if (i >= n || x != &want[i]->n) BAD("for_each yields a wrong node at %d", i); i++; }
    if (i != n) BAD("for_each yields %d nodes, want %d", i, n);
    for (i = 0; i < n; i++) if (zt_rbt_next(&want[i]->n) != (i + 1 < n ? &want[i + 1]->n : NULL)) BAD("next of %d is wrong", i);
    if (zt_rbt_next(NULL) != NULL) BAD("next(NULL)");
}
static void add(item **want, int n) {
    st s; memset(&s, 0, sizeof s); s.n = n; s.head = -1;
    int map[MX + 2]; for (int i = 0; i < n; i++) map[want[i] - pool] = i;
#define M(x) ((x) ? map[IT(x) - pool] : -1)
    s.head = M(head);
    for (int i = 0; i < n; i++) {
        zt_rbt_node *x = &want[i]->n;
        s.l[i] = M(zt_rbt_left(x)); s.r[i] = M(zt_rbt_right(x)); s.p[i] = M(zt_rbt_parent(x)); s.c[i] = zt_rbt_colour(x) == zt_rbt_black;
    }
    uint64_t h = mc_hash(14695981039346656037ULL, &s, offsetof(st, from));
    int j;
    for (j = h % tabn; tab[j] >= 0; j = (j + 1) % tabn) if (!memcmp(&S[tab[j]], &s, offsetof(st, from))) return;
    s.from = curstate; s.op = curop; s.arg = curarg;
    if (ns == cap) { cap *= 2; S = realloc(S, cap * sizeof *S); }
    S[ns] = s; tab[j] = ns++;
    mc_state(h);
}
void mc_setup(void) { N = mc_param("nodes", 14, 18); mc_pure = 0; mc_shard_depth = 2; tabn = 1 << 22; }
void mc_run(void) {
    int lim = N; cmpkind = mc_choose(3);
    int part = mc_choose(8);               /* which states get the read-only queries checked */
    MC_LOG("all trees of at most %d nodes, comparator %d", lim, cmpkind);
    cap = 1 << 12; ns = 0; S = malloc(cap * sizeof *S); tab = malloc(tabn * sizeof *tab); memset(tab, -1, tabn * sizeof *tab);
    head = NULL; curstate = -1; curop = ' '; curarg = 0; add(NULL, 0);
    item *want[MX + 2];
    for (int i = 0; i < ns; i++) {
        int n = S[i].n; st s = S[i];
        curstate = i;
        if (n < lim) for (int g = 0; g <= n; g++) {        /* insert at every gap */
            restore(&s); curop = 'i'; curarg = g;
            pool[n].key = 2 * g;
            zt_rbt_node *r = zt_rbt_insert(&head, &pool[n].n, cmp);
            if (r != NULL) BAD("insert of a new key returned %d", rk(r));
            for (int k = 0, w = 0; k < n; k++) { if (k == g) want[w++] = &pool[n]; want[w++] = &pool[k]; }
            if (g == n) want[n] = &pool[n];
            validate(want, n + 1); add(want, n + 1); mc_step();
        }
        for (int g = 0; g < n; g++) {                       /* remove every node */
            restore(&s); curop = 'r'; curarg = g;
            zt_rbt_node *r = zt_rbt_remove(&head, &pool[g].n);
            if (r != &pool[g].n) BAD("remove returned another node");
            for (int k = 0, w = 0; k < n; k++) if (k != g) want[w++] = &pool[k];
            validate(want, n - 1); add(want, n - 1); mc_step();
        }
        if (i % 8 != part) continue;
        curop = 'q'; restore(&s);
        for (int k = 0; k < n; k++) want[k] = &pool[k];
        item image[MX + 2]; memcpy(image, pool, sizeof pool);
        for (int k = 0; k <= 2 * n; k++) {                  /* every key and every gap */
            item probe; memset(&probe, 0x33, sizeof probe); probe.key = k; curarg = k; item p0 = probe;
            zt_rbt_node *f = zt_rbt_find(&head, &probe.n, cmp), *nf = zt_rbt_nfind(&head, &probe.n, cmp);
            if (f != ((k & 1) ? &pool[k / 2].n : NULL)) BAD("find gives %d", rk(f));
            int ge = k / 2;                                 /* first key >= k has rank k/2 */
            if (nf != (ge < n ? &pool[ge].n : NULL)) BAD("nfind gives %d", rk(nf));
            if (k & 1) {
                zt_rbt_node *r = zt_rbt_insert(&head, &probe.n, cmp);
                if (r != &pool[k / 2].n) BAD("duplicate insert does not return the present node");
                if (memcmp(&probe, &p0, sizeof probe)) BAD("duplicate insert changed the refused node");
            }
        }
        if (memcmp(image, pool, sizeof pool)) BAD("lookups or duplicate insertion changed the tree");
        /* safe iteration while removing: every subset for small trees, else the full and alternating ones */
        unsigned full = (1u << n) - 1, nsub = n <= 7 ? full + 1 : 4;
        for (unsigned sidx = 0; sidx < nsub; sidx++) {
            unsigned sub = n <= 7 ? sidx : (unsigned[]){ full, 0x55555555u & full, 0xaaaaaaaau & full, 0x33333333u & full }[sidx];
            restore(&s); curop = 's'; curarg = sub;
            zt_rbt_node *x, *nx; int pos = 0, left = 0; item *rest[MX];
            if (!n) { zt_rbt_for_each_safe(&head, x, nx) BAD("iteration of an empty tree"); continue; }
            zt_rbt_for_each_safe(&head, x, nx) {
                if (pos >= n || x != &pool[pos].n) BAD("safe iteration yields a wrong node at %d", pos);
                if (sub & (1u << pos)) { zt_rbt_remove(&head, x); memset(&((item *)IT(x))->n, 0x7b, sizeof(zt_rbt_node)); }
                else rest[left++] = &pool[pos];
                pos++;
            }
            if (pos != n) BAD("safe iteration visited %d of %d", pos, n);
            validate(rest, left); mc_step();
        }
    }
    mc_nontrivial();
    free(S); free(tab);
}
