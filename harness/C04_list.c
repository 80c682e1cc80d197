/* C04: elist / stack / queue.  The link state of the containers is completely
 * determined by the order of their elements, so every arrangement of up to NE
 * elements in two containers is built, every operation is applied (then a
 * second one), and the exact resulting links are required.  By induction this
 * covers every history over that many elements. */
#include "mc.h"
#include <zt.h>
#define MX 8
typedef struct { char pad[5]; zt_elist_t e; char tail[3]; } item;
static item it[MX]; static zt_elist_t H[2]; static int ne, depth;
static int seq[2][MX], len[2];
#define E(i) (&it[i].e)
static void build(int h) {                  /* canonical links for seq[h] */
    zt_elist_t *p = &H[h];
    for (int i = 0; i < len[h]; i++) { p->next = E(seq[h][i]); E(seq[h][i])->prev = p; p = p->next; }
    p->next = &H[h]; H[h].prev = p;
}
static char buf[200];
static const char *show(void) {
    char *o = buf;
    for (int h = 0; h < 2; h++) { *o++ = h ? 'B' : 'A'; *o++ = '['; for (int i = 0; i < len[h]; i++) *o++ = '0' + seq[h][i]; *o++ = ']'; }
    *o = 0; return buf;
}
static char what[400];
static void verify(void) {
    for (int h = 0; h < 2; h++) {
        zt_elist_t *p = &H[h]; zt_elist_t *x;
        for (int i = 0; i < len[h]; i++) {
            zt_elist_t *q = E(seq[h][i]);
            MC_CHECK(p->next == q && q->prev == p, "%s: links around position %d of list %c are wrong", what, i, 'A' + h);
            p = q;
        }
        MC_CHECK(p->next == &H[h] && H[h].prev == p, "%s: list %c does not close", what, 'A' + h);
        int n = 0;
        zt_elist_for_each(&H[h], x) { MC_CHECK(n < len[h] && x == E(seq[h][n]) && zt_elist_data(x, item, e) == &it[seq[h][n]], "%s: iteration", what); n++; }
        MC_CHECK(n == len[h], "%s: iteration yields %d of %d", what, n, len[h]);
        for (x = zt_elist_get_prev(&H[h]); x != &H[h]; x = zt_elist_get_prev(x)) { n--; MC_CHECK(n >= 0 && x == E(seq[h][n]), "%s: backward iteration", what); }
        MC_CHECK(n == 0, "%s: backward iteration is short", what);
        MC_CHECK(!!zt_elist_empty(&H[h]) == (len[h] == 0), "%s: empty is wrong", what);
        MC_CHECK(!!zt_stack_empty(&H[h]) == (len[h] == 0) && !!zt_queue_empty(&H[h]) == (len[h] == 0), "%s: empty is wrong", what);
        if (len[h]) {
            MC_CHECK(zt_stack_peek(&H[h]) == E(seq[h][0]), "%s: stack peek", what);
            MC_CHECK(zt_queue_peek(&H[h]) == E(seq[h][len[h] - 1]), "%s: queue peek", what);
        }
    }
    for (int i = 0; i < ne; i++) MC_CHECK(!memcmp(it[i].pad, "PPPPP", 5) && !memcmp(it[i].tail, "TTT", 3), "%s: element data changed", what);
}
static void ins(int h, int at, int e) { memmove(seq[h] + at + 1, seq[h] + at, (len[h] - at) * sizeof(int)); seq[h][at] = e; len[h]++; }
static void del(int h, int at) { memmove(seq[h] + at, seq[h] + at + 1, (len[h] - at - 1) * sizeof(int)); len[h]--; }
void mc_setup(void) { ne = mc_param("elts", 5, 7); depth = mc_param("ops", 2, 3); mc_pure = 1; mc_shard_depth = 4; }
void mc_run(void) {
    len[0] = len[1] = 0;
    for (int i = 0; i < MX; i++) { memset(&it[i], 0, sizeof it[i]); memcpy(it[i].pad, "PPPPP", 5); memcpy(it[i].tail, "TTT", 3); }
    /* arrangement: elements are interchangeable, so they are numbered in order of use; lengths suffice */
    int la = mc_choose(ne + 1), lb = mc_choose(ne + 1 - la);
    for (int i = 0; i < la; i++) { seq[0][i] = i; } len[0] = la;
    for (int i = 0; i < lb; i++) { seq[1][i] = la + i; } len[1] = lb;
    zt_elist_t i0 = zt_elist_init(i0); MC_CHECK(i0.next == &i0 && i0.prev == &i0, "zt_elist_init");
    zt_elist_reset(&H[0]); zt_elist_reset(&H[1]); MC_CHECK(zt_elist_empty(&H[0]) && H[0].prev == &H[0], "zt_elist_reset");
    build(0); build(1);
    what[0] = 0; snprintf(what, sizeof what, "%s", show());
    MC_LOG("start %s", what);
    for (int d = 0; d < depth; d++) {
        int used[MX] = { 0 }, f = -1;
        for (int h = 0; h < 2; h++) for (int i = 0; i < len[h]; i++) used[seq[h][i]] = 1;
        for (int i = 0; i < ne; i++) if (!used[i]) { f = i; break; }
        int h = mc_choose(2), op = mc_choose(10);
        const char *on[] = { "add", "add_tail", "push", "enqueue", "remove", "pop", "dequeue", "join", "safe-iterate", "insert-after" };
        if (op < 4 && f < 0) mc_prune();
        int at = op == 4 || op == 9 ? (len[h] ? (int)mc_choose(len[h]) : (mc_prune(), 0)) : 0;
        unsigned sub = op == 8 ? mc_choose(1u << len[h]) : 0;
        if (op == 9 && f < 0) mc_prune();
        snprintf(what + strlen(what), sizeof what - strlen(what), " %s(%c", on[op], 'A' + h);
        if (op == 4 || op == 9) snprintf(what + strlen(what), 20, ",%d", at);
        if (op == 8) snprintf(what + strlen(what), 20, ",%#x", sub);
        strcat(what, ")");
        MC_LOG("%s", what);
        if (f >= 0) memset(E(f), 0x5b, sizeof(zt_elist_t));
        zt_elist_t *r;
        switch (op) {
        case 0: zt_elist_add(&H[h], E(f)); ins(h, 0, f); break;
        case 1: zt_elist_add_tail(&H[h], E(f)); ins(h, len[h], f); break;
        case 2: zt_stack_push(&H[h], E(f)); ins(h, 0, f); break;
        case 3: zt_queue_enqueue(&H[h], E(f)); ins(h, 0, f); break;
        case 4: zt_elist_remove(E(seq[h][at])); del(h, at); break;
        case 5: r = zt_stack_pop(&H[h]);
            MC_CHECK(r == (len[h] ? E(seq[h][0]) : NULL), "%s returned a wrong element", what);
            if (len[h]) del(h, 0);
            break;
        case 6: r = zt_queue_dequeue(&H[h]);
            MC_CHECK(r == (len[h] ? E(seq[h][len[h] - 1]) : NULL), "%s returned a wrong element", what);
            if (len[h]) del(h, len[h] - 1);
            break;
        case 7: zt_elist_join(&H[h], &H[!h]);       /* donor head is reset by its owner */
            zt_elist_reset(&H[!h]);
            for (int i = len[!h] - 1; i >= 0; i--) ins(h, 0, seq[!h][i]);
            len[!h] = 0; break;
        case 8: { zt_elist_t *p, *n; int k = 0, cnt = len[h], order[MX]; memcpy(order, seq[h], sizeof order);
            zt_elist_for_each_safe(&H[h], p, n) {
                MC_CHECK(k < cnt && p == E(order[k]), "%s: safe iteration order", what);
                if (sub & (1u << k)) { zt_elist_remove(p); memset(p, 0x5c, sizeof *p); }
                k++;
            }
            MC_CHECK(k == cnt, "%s: safe iteration visited %d of %d", what, k, cnt);
            for (k = cnt - 1; k >= 0; k--) if (sub & (1u << k)) del(h, k);
            break; }
        case 9: zt_elist_add(E(seq[h][at]), E(f)); ins(h, at + 1, f); break;
        }
        mc_step(); verify(); if (len[0] + len[1] > 1) mc_nontrivial();
        mc_state(mc_hash(5, show(), strlen(buf)));
    }
}
