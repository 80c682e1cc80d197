/* C13/C14: every short mutator history on small object graphs, interleaved with collection increments.
 * -DLIVE adds the exactly-once and completeness checks of C14. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_gc.h>
#define MAXO 6
typedef struct obj { zt_gc_collectable_t mark; int id; struct obj *ref[2]; } obj;
static obj *O[MAXO]; static int prot[MAXO], managed[MAXO], nobj, dis, live_now, busy; static int released[MAXO]; static zt_gc_t *gc; static char h[1500]; static int destroying;
static int depth, maxobj, reenter; /* callbacks ask for a collection: nothing may come of it */
static void reach(char *r) { memset(r, 0, MAXO); int again = 1; for (int i = 0; i < nobj; i++) if (O[i] && prot[i]) r[i] = 1; while (again) { again = 0; for (int i = 0; i < nobj; i++) if (O[i] && r[i]) for (int k = 0; k < 2; k++) if (O[i]->ref[k] && !r[O[i]->ref[k]->id]) r[O[i]->ref[k]->id] = 1, again = 1; } }
static int known(void *v) { for (int i = 0; i < nobj; i++) if (O[i] && (void *)O[i] == v) return i; return -1; }
static void mark(zt_gc_t *g, void *p, void *v) {
    MC_CHECK(p == &nobj, "%s: mark callback without its data", h); int i = known(v); MC_CHECK(i >= 0 && managed[i], "%s: mark callback for an object that is not managed any more", h);
    if (reenter) zt_gc_collect(g, reenter == 1);
    for (int k = 0; k < 2; k++) if (O[i]->ref[k]) { MC_CHECK(known(O[i]->ref[k]) >= 0, "%s: object %d is scanned after the object it refers to was released", h, i); zt_gc_mark(g, O[i]->ref[k]); }
}
static void release(zt_gc_t *g, void *p, void **v) {
    (void)g; int i = known(*v); MC_CHECK(p == &nobj, "%s: release callback without its data", h); MC_CHECK(i >= 0 && managed[i], "%s: release callback for an object that is not managed any more", h);
    char r[MAXO]; reach(r);
    if (!destroying) { MC_CHECK(!prot[i], "%s: protected object %d released", h, i); MC_CHECK(!r[i], "%s: reachable object %d released", h, i); }
#ifdef LIVE
    MC_CHECK(!dis || destroying, "%s: object %d released while collection is disabled", h, i);
#endif
    released[i]++; obj *o = O[i]; O[i] = NULL; prot[i] = 0; managed[i] = 0; o->ref[0] = o->ref[1] = NULL;
    for (int k = 0; k < nobj; k++) if (O[k]) for (int j = 0; j < 2; j++) if (O[k]->ref[j] == o && destroying) O[k]->ref[j] = NULL; /* the rest goes as well */
    free(o); *v = NULL; if (reenter && !destroying) zt_gc_collect(g, reenter == 1);
}
static obj *fresh(void) { obj *o = calloc(1, sizeof *o); o->id = nobj; O[nobj] = o; prot[nobj] = 0; released[nobj] = 0; managed[nobj] = 1; nobj++; return o; }
static void addlog(const char *f, int a, int b) { char s[60]; snprintf(s, sizeof s, f, a, b); strcat(h, s); MC_LOG("%s", h); mc_step(); }
static void link_to(int a, obj *b) { O[a]->ref[O[a]->ref[0] ? 1 : 0] = b; }
static void mkroot(void) { obj *o = fresh(); zt_gc_prepare(gc, o); prot[o->id] = 1; zt_gc_protect(gc, o); addlog(" root%d", o->id, 0); }
static void mkchild(int a) { obj *o = fresh(); int id = o->id; zt_gc_prepare(gc, o); prot[id] = 2; /* the documentation guarantees a new object until the next registration */ addlog(" new%d>%d", a, id); zt_gc_register(gc, o); prot[id] = 0; link_to(a, o); }
static void op(int last) {
    char r[MAXO]; reach(r); int cand[160][3], n = 0;
#define C(a, b, c) (cand[n][0] = a, cand[n][1] = b, cand[n++][2] = c)
    if (!last) { C(0, 0, 0); C(1, 0, 0); }
    if (nobj < maxobj && !last) { C(2, -1, 0); C(3, 0, 0); for (int i = 0; i < nobj; i++) if (O[i] && r[i] && (!O[i]->ref[0] || !O[i]->ref[1])) C(2, i, 0); C(9, 0, 0); }
    for (int i = 0; i < nobj; i++) if (O[i] && r[i]) {
        if (prot[i]) C(5, i, 0); else C(4, i, 0);
        C(8, i, 0);
        for (int k = 0; k < 2; k++) if (O[i]->ref[k]) C(6, i, k);
        if (!O[i]->ref[0] || !O[i]->ref[1]) for (int j = 0; j < nobj; j++) if (O[j] && r[j] && i != j && O[i]->ref[0] != O[j]) C(7, i, j);
        if (!last) C(12, i, 0);
    }
    if (!last || !n) { if (!dis) C(10, 0, 0); else C(11, 0, 0); }
    int *c = cand[mc_choose(n)];
    switch (c[0]) {
    case 0: addlog(" collect", 0, 0); zt_gc_collect(gc, 0); break;
    case 1: addlog(" full", 0, 0); zt_gc_collect(gc, 1); break;
    case 2: if (c[1] >= 0) mkchild(c[1]); else { obj *o = fresh(); int id = o->id; zt_gc_prepare(gc, o); addlog(" lost%d", id, 0); prot[id] = 2; zt_gc_register(gc, o); prot[id] = 0; } break;
    case 3: mkroot(); break;
    case 9: { obj *o = fresh(); int id = o->id; zt_gc_prepare(gc, o); addlog(" newroot%d", id, 0); prot[id] = 2; zt_gc_register(gc, o); zt_gc_protect(gc, o); prot[id] = 1; break; }
    case 4: addlog(" protect%d", c[1], 0); prot[c[1]] = 1; zt_gc_protect(gc, O[c[1]]); break;
    case 5: addlog(" unprotect%d", c[1], 0); zt_gc_unprotect(gc, O[c[1]]); prot[c[1]] = 0; break;
    case 6: addlog(" cut%d.%d", c[1], c[2]); O[c[1]]->ref[c[2]] = NULL; break;
    case 7: addlog(" link%d>%d", c[1], c[2]); link_to(c[1], O[c[2]]); zt_gc_mark(gc, O[c[2]]); break;
    case 8: { addlog(" unregister%d", c[1], 0); obj *o = O[c[1]]; for (int k = 0; k < nobj; k++) if (O[k]) for (int j = 0; j < 2; j++) if (O[k]->ref[j] == o) O[k]->ref[j] = NULL; managed[c[1]] = 0; zt_gc_unregister(gc, o); O[c[1]] = NULL; prot[c[1]] = 0; free(o); break; }
    case 10: addlog(" disable", 0, 0); dis++; zt_gc_disable(gc); break;
    case 11: addlog(" enable", 0, 0); dis--; zt_gc_enable(gc); break;
    case 12: addlog(" mark%d", c[1], 0); zt_gc_mark(gc, O[c[1]]); break;
    }
}
void mc_setup(void) { depth = mc_param("operations", 4, 5); maxobj = mc_param("objects", 5, 6); mc_shard_depth = 6; }
static int colour_cnt[3], colour_dup, colour_unknown, seen[MAXO]; static void fe(void *v, void *d, int ty) { int i = known(v); if (i < 0 || d != &nobj || ty < 0 || ty > 2) { colour_unknown++; return; } if (seen[i]++) colour_dup++; colour_cnt[ty]++; }
void mc_run(void) {
    static const int M[] = { 1, 2, 100 }, A[] = { 1, 2, 1000 }; static const char *SH[] = { "", "root", "root>a", "root>a>b", "root>a root>b", "root>a, root2", "root>a>b, root2>b" };
    nobj = 0; dis = 0; h[0] = 0; destroying = 0; long live = mc_live_blocks(); int m = mc_choose(3), a = mc_choose(3), sh = mc_choose(7), warm = sh ? mc_choose(4) : 0; reenter = mc_choose(3);
    gc = zt_gc_init(&nobj, mark, release, M[m], A[a]); sprintf(h, "marks %d, allocs %d, %s:", M[m], A[a], SH[sh]); if (reenter) strcat(h, " callbacks collect,");
    if (sh) { mkroot(); if (sh >= 2) mkchild(0); if (sh == 3) mkchild(1); if (sh == 4) mkchild(0); if (sh >= 5) mkroot(); if (sh == 6) { mkchild(1); addlog(" link2>3", 0, 0); link_to(2, O[3]); zt_gc_mark(gc, O[3]); } }
    for (int i = 0; i < warm; i++) { if (i == 2) { addlog(" collect", 0, 0); zt_gc_collect(gc, 0); } else { addlog(" full", 0, 0); zt_gc_collect(gc, 1); } }
    int d = depth - (reenter ? 2 : 0); for (int i = 0; i < d; i++) op(i == d - 1);
    if (nobj > 2) mc_nontrivial();
    memset(seen, 0, sizeof seen); memset(colour_cnt, 0, sizeof colour_cnt); colour_dup = colour_unknown = 0; zt_gc_for_each(gc, fe, &nobj); MC_CHECK(!colour_unknown, "%s: for_each visits an object that is not managed", h);
    MC_CHECK(!colour_dup, "%s: for_each visits an object twice", h); for (int i = 0; i < nobj; i++) MC_CHECK(!O[i] || seen[i], "%s: for_each does not visit object %d", h, i);
    uint64_t st = mc_hash(m * 4 + a, colour_cnt, sizeof colour_cnt); for (int i = 0; i < nobj; i++) st = mc_mix(st, O[i] ? (O[i]->ref[0] ? O[i]->ref[0]->id + 1 : 0) * 100 + (O[i]->ref[1] ? O[i]->ref[1]->id + 1 : 0) * 10 + prot[i] : 999); mc_state(st);
#ifdef LIVE
    switch (0) {
    case 0: { if (dis) { strcat(h, " enable"); dis = 0; zt_gc_enable(gc); } char r[MAXO]; reach(r); char was[MAXO] = { 0 }; for (int i = 0; i < nobj; i++) was[i] = O[i] && !r[i];
        for (int k = 0; k < 3; k++) { strcat(h, " full"); MC_LOG("%s", h); zt_gc_collect(gc, 1); } for (int i = 0; i < nobj; i++) { MC_CHECK(!was[i] || released[i] == 1, "%s: unreachable object %d is still there", h, i); if (r[i]) MC_CHECK(O[i], "%s: reachable object %d released", h, i); } break; }
    default: break; }
#else
    if (!dis) for (int k = 0; k < 3; k++) { strcat(h, " full"); MC_LOG("%s", h); zt_gc_collect(gc, 1); } /* anything reachable must survive */
#endif
    strcat(h, " destroy"); MC_LOG("%s", h); destroying = 1; FILE *so = stdout; char *buf = NULL; size_t bl = 0; if (dis) stdout = open_memstream(&buf, &bl); zt_gc_destroy(gc); if (dis) { fclose(stdout); stdout = so; free(buf); }
    for (int i = 0; i < nobj; i++) { MC_CHECK(!O[i], "%s: object %d was not released", h, i);
    MC_CHECK(released[i] <= 1, "%s: object %d released %d times", h, i, released[i]); }
#ifdef LIVE
    MC_CHECK(mc_live_blocks() == live, "%s: %ld blocks left", h, mc_live_blocks() - live);
#endif
}
