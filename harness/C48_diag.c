/* C48: what the diagnostic displays print, against what the same object really holds: every short history of a pool,
 * of several pools and of a collector, then every display in every form. */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_gc.h>
#define MAXE 16
static int depth, gdepth; static char h[800]; static char *out; static size_t outl; static FILE *so;
static void note(const char *f, int a) { size_t o = strlen(h); snprintf(h + o, sizeof h - o, " %s%d", f, a); MC_LOG("%s", h); mc_step(); }
static void cap(void) { out = NULL; so = stdout; stdout = open_memstream(&out, &outl); }
static void uncap(void) { fclose(stdout); stdout = so; }
/* the lines of a display */
static char *ln[600]; static int nln;
static void lines(void) { nln = 0; for (char *p = out; *p && nln < 600;) { ln[nln++] = p; char *e = strchr(p, '\n'); if (!e) break; *e = 0; p = e + 1; } }
static int indent(const char *s) { return (int)strspn(s, " "); }
static int cnt[4]; static long live[4]; static char *E[4][MAXE];
static zt_mem_pool *P[4]; static const char *NM[4] = { "alpha", "be ta", "%s%d", "" };
static const struct { int elts; size_t size; } cfg[] = { { 2, 2100 }, { 3, 1300 }, { 1, 2500 }, { 0, 1000 } };
/* one pool's display begins at line i: returns the line after it */
static int pool(int i, int q, int off, int fl) {
    zt_mem_pool_stats s; zt_mem_pool_get_stats(P[q], &s); char want[200]; int ind = off * 5;
#define LINE(o, ...) do { snprintf(want, sizeof want, __VA_ARGS__); MC_CHECK(i < nln, "%s: display ends before '%s'", h, want); MC_CHECK(indent(ln[i]) == ind + 5 * (o), "%s: '%s' is indented by %d, must be %d", h, ln[i], indent(ln[i]), ind + 5 * (o)); char *g = ln[i] + indent(ln[i]); size_t gl = strlen(g); while (gl && g[gl - 1] == ' ') gl--; MC_CHECK(gl == strlen(want) && !strncmp(g, want, gl), "%s: shows '%s', must be '%s'", h, ln[i], want); i++; } while (0)
    LINE(0, "pool: \"%s\" [%p] {", NM[q], (void *)P[q]); LINE(1, "elements: {"); LINE(2, "elt cache requested: %zu elements", s.requested_elts); LINE(2, "elt cache actual: %zu elements", s.actual_elts);
    LINE(2, "total elts: %zu", s.pages * s.elts_per_page); long freee = (long)(s.pages * s.elts_per_page) - cnt[q]; LINE(2, "free elts: %ld", freee); LINE(1, "}");
    LINE(1, "pages: {"); LINE(2, "page cache: %zu page(s)", s.cached_pages); LINE(2, "free pages: %zu", s.free_pages); LINE(2, "page size: %zu", s.page_size); LINE(2, "pages in use: %zu", s.pages - s.free_pages); LINE(2, "total pages: %zu", s.pages); LINE(2, "elements per page: %zu", s.elts_per_page); LINE(2, "page allocs: %zu", s.page_allocs); LINE(2, "page frees: %zu", s.page_frees); LINE(1, "}");
    LINE(1, "overall: {"); { size_t es, tot; MC_CHECK(i < nln && sscanf(ln[i], " element size: %zu bytes + overhead = %zu bytes", &es, &tot) == 2 && es == s.elt_size && tot >= es && tot <= es + 64, "%s: '%s'", h, i < nln ? ln[i] : ""); i++; LINE(2, "page usage (num elts * elt size): %zu bytes", tot * s.elts_per_page); LINE(2, "page memory (page size * total pages): %zu bytes", s.page_size * s.pages); } LINE(1, "}");
    char *fp[64], *fd[64]; long nf = 0;
    if (fl & DISPLAY_POOL_FREE_LIST) {
        LINE(1, "free_list {");
        while (i < nln && strstr(ln[i], "elt: ")) { void *a, *b, *c; MC_CHECK(nf < 64 && indent(ln[i]) == ind + 10 && sscanf(ln[i], " elt: %p parent_page: %p data: %p", &a, &b, &c) == 3, "%s: '%s'", h, ln[i]); fp[nf] = b; fd[nf] = c; for (int k = 0; k < nf; k++) MC_CHECK(fd[k] != fd[nf], "%s: element %p listed twice", h, c); for (int k = 0; k < cnt[q]; k++) MC_CHECK(E[q][k] != c, "%s: element %p is in use and in the free list", h, c); nf++; i++; }
        if (!nf && i < nln && indent(ln[i]) == (int)strlen(ln[i])) i++;
        LINE(1, "}"); MC_CHECK(nf == freee, "%s: the free list shows %ld elements of %ld", h, nf, freee);
    }
    if (fl & DISPLAY_POOL_PAGES) {
        LINE(1, "pages {"); size_t np = 0, empty = 0; long sum = 0; void *pg[64];
        while (i < nln && strstr(ln[i], "page: ")) { void *a, *b; long n; MC_CHECK(np < 64 && sscanf(ln[i], " page: %p {", &a) == 1 && indent(ln[i]) == ind + 10, "%s: '%s'", h, ln[i]); pg[np] = a; for (size_t k = 0; k < np; k++) MC_CHECK(pg[k] != a, "%s: page %p listed twice", h, a); i++;
            MC_CHECK(i + 2 < nln && sscanf(ln[i], " num_free_elts: %ld", &n) == 1 && sscanf(ln[i + 1], " parent pool: %p", &b) == 1 && b == (void *)P[q], "%s: '%s' '%s'", h, ln[i], ln[i + 1]); i += 2; LINE(2, "}"); sum += n; if (n == (long)s.elts_per_page) empty++;
            if (fl & DISPLAY_POOL_FREE_LIST) { long c = 0; for (int k = 0; k < nf; k++) if (fp[k] == (char *)a) c++; MC_CHECK(c == n, "%s: page %p shows %ld free elements, %ld of them are listed", h, a, n, c); }
            int used = 0; for (int k = 0; k < cnt[q]; k++) if (E[q][k] > (char *)a && E[q][k] + cfg[q].size <= (char *)a + s.page_size) used++; MC_CHECK(used + n == (long)s.elts_per_page, "%s: page %p: %d elements in use, %ld free of %zu", h, a, used, n, s.elts_per_page); np++; }
        LINE(1, "}"); MC_CHECK(np == s.pages && sum == freee && empty == s.free_pages, "%s: %zu pages, %ld free elements and %zu free pages listed of %zu, %ld and %zu", h, np, sum, empty, s.pages, freee, s.free_pages);
    }
    LINE(0, "}"); mc_state(mc_mix(mc_mix(cnt[q], s.pages), mc_mix(s.free_pages, q * 4 + fl)));
    return i;
}
static int never(size_t a, size_t b, size_t c, int f, void *d) { (void)a; (void)b; (void)c; (void)f; (void)d; return 0; }
static int np, grp; static zt_mem_pool_group *g;
static void drop(void) {
    for (int q = 0; q < np; q++) while (cnt[q]) { void *e = E[q][--cnt[q]]; zt_mem_pool_release(&e); }
    if (grp) MC_CHECK(zt_mem_pool_group_destroy(g) == 0, "%s: destroy", h); else for (int q = 0; q < np; q++) MC_CHECK(zt_mem_pool_destroy(&P[q]) == 0, "%s: destroy", h);
}
static void pools(void) {
    np = 1 + mc_choose(3); grp = mc_choose(2); int keep = mc_choose(2), base = mc_choose(2); h[0] = 0; g = NULL; char names[4][16];
    for (int q = 0; q < np; q++) strcpy(names[q], NM[q]);
    note(grp ? "group of " : "pools ", np); note("keep", keep);
    if (grp) { zt_mem_pool_desc d[5]; memset(d, 0, sizeof d); for (int q = 0; q < np; q++) { d[q].name = names[q]; d[q].elts = cfg[q].elts; d[q].size = cfg[q].size; if (keep) d[q].release_test = never; } g = zt_mem_pool_group_init(d, np + base); MC_CHECK(g, "no group"); for (int q = 0; q < np; q++) P[q] = zt_mem_pool_get(names[q]); }
    else for (int q = 0; q < np; q++) P[q] = zt_mem_pool_init(names[q], cfg[q].elts, cfg[q].size, keep ? never : NULL, NULL, 0);
    for (int q = 0; q < np; q++) { MC_CHECK(P[q], "no pool"); cnt[q] = 0; }
    int n = mc_choose(depth + 1);
    for (int k = 0; k < n; k++) { int q = np > 1 ? mc_choose(np) : 0, op = mc_choose(4);
        if (op == 0) { E[q][cnt[q]++] = zt_mem_pool_alloc(P[q]); note("alloc", q); }
        else if (op == 3) { zt_mem_pool_release_free_pages(P[q]); note("trim", q); }
        else { if (!cnt[q]) { drop(); mc_prune(); } int j = op == 1 ? 0 : cnt[q] - 1; if (op == 2 && cnt[q] == 1) { drop(); mc_prune(); } void *e = E[q][j]; memmove(&E[q][j], &E[q][j + 1], (cnt[q] - j - 1) * sizeof E[q][0]); cnt[q]--; zt_mem_pool_release(&e); note(op == 1 ? "oldest" : "newest", q); } }
    int what = mc_choose(3), fl = mc_choose(4), off = mc_choose(3); if (what == 1 && !grp) { drop(); mc_prune(); } note(what == 0 ? "show" : what == 1 ? "group" : "all", off * 10 + fl); int i = 0;
    cap(); if (what == 0) for (int q = 0; q < np; q++) zt_mem_pool_display(off, P[q], fl); else if (what == 1) zt_mem_pool_group_display(off, g, fl); else zt_mem_pools_display(off, fl); uncap(); lines();
    int ind = off * 5; char want[200];
    if (what == 0) for (int q = 0; q < np; q++) i = pool(i, q, off, fl);
    else if (what == 1) { LINE(0, "Group {"); for (int q = 0; q < np; q++) i = pool(i, q, off + 1, fl); LINE(0, "}"); }
    else { LINE(0, "Pools {"); for (int q = 0; q < np; q++) { /* others may be there */ char hd[80]; snprintf(hd, sizeof hd, "[%p] {", (void *)P[q]); while (i < nln && !strstr(ln[i], hd)) i++; i = pool(i, q, off + 1, fl); } while (i < nln - 1) i++; LINE(0, "}"); }
    MC_CHECK(i == nln, "%s: '%s' follows", h, i < nln ? ln[i] : ""); free(out);
    drop();
    mc_nontrivial();
}
typedef struct obj { zt_gc_collectable_t mark; struct obj *ref; int prot; } obj; static obj *O[80]; static int no; static int colour[80];
static void gmark(zt_gc_t *g, void *p, void *v) { (void)p; obj *o = v; if (o->ref) zt_gc_mark(g, o->ref); }
static void grel(zt_gc_t *g, void *p, void **v) { (void)g; (void)p; for (int i = 0; i < no; i++) if ((void *)O[i] == *v) { free(O[i]); O[i] = O[no - 1]; no--; return; } mc_fail("%s: unknown object released", h); }
static void each(void *v, void *d, int ty) { MC_CHECK(d == &no, "callback data"); for (int i = 0; i < no; i++) if ((void *)O[i] == v) { MC_CHECK(colour[i] == -1, "%s: object listed twice", h); colour[i] = ty; return; } mc_fail("%s: unknown object %p", h, v); }
static zt_gc_t *gc; static void gdrop(void) { for (int k = 0; k < no; k++) if (O[k]->prot) zt_gc_unprotect(gc, O[k]); while (no) { obj *o = O[no - 1]; zt_gc_unregister(gc, o); no--; free(o); } zt_gc_destroy(gc); }
static void heap(void) {
    h[0] = 0; no = 0; gc = zt_gc_init(NULL, gmark, grel, 1 + mc_choose(2), 1000000); int bulk = (int[]){ 0, 9, 10, 11, 21, 30 }[mc_choose(6)]; note("bulk", bulk);
#define NEW(p) do { obj *o = calloc(1, sizeof *o); zt_gc_prepare(gc, o); O[no++] = o; if (p) { o->prot = 1; zt_gc_protect(gc, o); } else zt_gc_register(gc, o); } while (0)
    for (int i = 0; i < bulk; i++) NEW(i % 3 == 1);
    int n = mc_choose(gdepth + 1); for (int k = 0; k < n; k++) switch (mc_choose(7)) {
        case 0: NEW(0); note("new", 0); break; case 1: NEW(1); note("root", 0); break;
        case 2: zt_gc_collect(gc, 0); note("step", 0); break; case 3: zt_gc_collect(gc, 1); note("full", 0); break;
        case 4: { if (!no) { gdrop(); mc_prune(); } obj *o = O[no - 1]; if (o->prot) zt_gc_unprotect(gc, o); else zt_gc_protect(gc, o); o->prot = !o->prot; note("flip", 0); break; }
        case 5: { if (no < 2) { gdrop(); mc_prune(); } if (!O[0]->prot) { gdrop(); mc_prune(); } O[0]->ref = O[no - 1]; zt_gc_mark(gc, O[no - 1]); note("link", 0); break; }
        default: { if (!no) { gdrop(); mc_prune(); } obj *o = O[no - 1]; for (int i = 0; i < no; i++) if (O[i]->ref == o) O[i]->ref = NULL; zt_gc_unregister(gc, o); no--; free(o); note("unregister", 0); } }
    for (int i = 0; i < no; i++) colour[i] = -1; zt_gc_for_each(gc, each, &no); for (int i = 0; i < no; i++) MC_CHECK(colour[i] >= 0, "%s: object %d is in no list", h, i);
    cap(); zt_gc_print_heap(gc); uncap(); mc_step(); static const char *T[] = { "Black", "Grey", "White" }; char *p = out, *b[3]; int seen[80] = { 0 }; void *a[3], *l1, *l2, *l3, *sc; int used;
    MC_CHECK(sscanf(p, "l1: %p l2: %p l3: %p\nblack: %p grey: %p white: %p\nscan: %p\n%n", &l1, &l2, &l3, &a[0], &a[1], &a[2], &sc, &used) == 7, "%s: heap begins '%.60s'", h, p); p += used;
    for (int t = 0; t < 3; t++) { void *hd; int u = 0; char f[40]; snprintf(f, sizeof f, "%s %%p [%%n", T[t]); MC_CHECK(sscanf(p, f, &hd, &u) == 1 && u && hd == a[t], "%s: list %s begins '%.30s'", h, T[t], p); p += u; b[t] = strchr(p, ']'); MC_CHECK(b[t] && b[t][1] == '\n', "%s: list %s does not end", h, T[t]); *b[t] = 0;
        while (*p) { p += strspn(p, " ,\n"); if (!*p) break; void *e; int pr = *p == 'p'; u = 0; MC_CHECK(sscanf(p, pr ? "p(%p)%n" : "%p%n", &e, &u) == 1 && u, "%s: list %s: '%s'", h, T[t], p); p += u; int k; for (k = 0; k < no; k++) if ((void *)&O[k]->mark.list == e) break; MC_CHECK(k < no, "%s: list %s shows %p, which is no object", h, T[t], e); MC_CHECK(!seen[k]++, "%s: object %d is shown twice", h, k); MC_CHECK(colour[k] == t, "%s: object %d is shown as %s, it is %s", h, k, T[t], T[colour[k]]); MC_CHECK(pr == O[k]->prot, "%s: object %d is shown as %sprotected", h, k, pr ? "" : "un"); }
        p = b[t] + 2; mc_state(mc_mix(t, p - out)); }
    MC_CHECK(!*p, "%s: '%s' follows", h, p); for (int k = 0; k < no; k++) MC_CHECK(seen[k], "%s: object %d is not shown", h, k); free(out);
    gdrop(); mc_nontrivial();
}
void mc_setup(void) { depth = mc_param("pool operations", 4, 6); gdepth = mc_param("collector operations", 5, 7); mc_shard_depth = 4; }
void mc_run(void) { if (mc_choose(2)) heap(); else pools(); }
