/* C51: callbacks may use the library.
 * Every function of the library that calls back is used by a script; at every call of every callback, any other script
 * (the same one, on other values, included) may be run to its end before the callback returns, up to a number of times
 * and to a depth.  Each script, the interrupted ones included, must give what it gives alone. */
#include "mc.h"
#define ZT_WITH_GC
#define ZT_WITH_UNIT
#include <errno.h>
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <libzt/zt_log.h>
#include <libzt/zt_log/log_private.h>
#include <libzt/zt_time.h>
#include <arpa/inet.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
static int depth; static void pt(const char *n);
#define PT(n) pt(n)
#define WHO depth
#include "parts.h"
/* parts that keep to one thread, and more callbacks */
static unsigned long thash(const void *k, size_t l, void *c) { (void)l; PT("hash callback"); return ((long)k * 7 + *(int *)c) % 3; }
static int tcmp(const void *a, size_t al, const void *b, size_t bl, void *c) { (void)al; (void)bl; (void)c; PT("comparison callback"); return a == b; }
static int titer(void *key, size_t kl, void *d, size_t dl, void *p) { (void)kl; (void)dl; *(uint64_t *)p += mc_mix((long)key, *(int *)d); PT("iteration"); return 0; }
static uint64_t x_table(int k) { uint64_t h = 60; static int v[3] = { 5, 6, 7 }; zt_table *t = zt_table_init("c51", thash, tcmp, 2, 0, &v[k]), *u = zt_table_init(NULL, thash, tcmp, 2, 0, &v[0]); for (long i = 1; i < 4; i++) h = FI(h, zt_table_set(t, (void *)(i + k), sizeof i, &v[(i + k) % 3], sizeof v[0])); zt_table_for_each(t, titer, &h); h = FI(h, zt_table_set(t, (void *)(long)(2 + k), sizeof(long), &v[0], 1)); h = FI(h, zt_table_del(t, (void *)(long)(2 + k), sizeof(long)) == &v[(2 + k) % 3]); h = FI(h, zt_table_copy(t, u)); for (long i = 1; i < 4; i++) { int *q = zt_table_get(u, (void *)(i + k), sizeof i); h = FI(h, q ? *q : -1); } zt_table_destroy(t); zt_table_destroy(u); return h; }
static int match(const void *a, size_t al, const void *b, size_t bl, void *c) { (void)al; (void)bl; (void)c; PT("match callback"); return a == b; }
static uint64_t *dsum; static void destroy(void *p) { (void)p; PT("destroy callback"); }
static int siter(void *d, void *p) { *(uint64_t *)p += mc_mix((long)d, 5); PT("set iteration"); return 0; }
static uint64_t x_set(int k) { uint64_t h = 61; (void)dsum; zt_set *a = zt_set_init(match, destroy, NULL), *b = zt_set_init(match, NULL, NULL), *c = zt_set_init(match, NULL, NULL); for (long i = 1; i < 4; i++) { h = FI(h, zt_set_insert(a, (void *)(i + k), sizeof i)); zt_set_insert(b, (void *)(2 * i), sizeof i); } h = FI(h, zt_set_intersection(c, a, b)); h = FI(h, c->length); h = FI(h, zt_set_difference(c, a, b)); h = FI(h, c->length); h = FI(h, zt_set_union(c, a, b)); h = FI(h, c->length); zt_set_for_each(c, siter, &h); h = FI(h, zt_set_is_subset(a, c) * 2 + zt_set_is_equal(a, b)); void *d = (void *)(long)(2 + k); h = FI(h, zt_set_remove(a, &d)); zt_set_destroy(a); zt_set_destroy(b); zt_set_destroy(c); return h; }
static int xcmp(zt_rbt_node *a, zt_rbt_node *b) { PT("tree comparison"); return icmp(a, b); }
static uint64_t x_tree(int k) { uint64_t h = 62; item it[6], p; zt_rbt_node *R = NULL, *x; for (int i = 0; i < 6; i++) { it[i].key = (i * 5 + k) % 6 * 10; h = FI(h, !zt_rbt_insert(&R, &it[i].n, xcmp)); } zt_rbt_remove(&R, &it[2].n); for (int i = 0; i < 3; i++) { p.key = i * 20 + k; x = zt_rbt_find(&R, &p.n, xcmp); h = FI(h, !!x); x = zt_rbt_nfind(&R, &p.n, xcmp); h = FI(h, x ? zt_rbt_data(x, item, n)->key : -1); } zt_rbt_for_each(&R, x) h = FI(h, zt_rbt_data(x, item, n)->key); return h; }
static int lcmp(void *a, void *b) { PT("list comparison"); return (long)a > (long)b; }
static uint64_t x_llist(int k) { uint64_t h = 63; zt_llist l = NULL; for (long i = 0; i < 6; i++) zt_llist_push((void *)((i * 5 + k) % 6), &l); l = zt_llist_sort(l, lcmp); zt_pair *r = zt_llist_reverse(l); for (zt_pair *p = l; p; p = p->tail) h = FI(h, (long)p->head); for (zt_pair *p = r; p; p = p->tail) h = FI(h, (long)p->head); zt_llist_free(l); zt_llist_free(r); return h; }
static void xmark(zt_gc_t *g, void *p, void *v) { (void)p; obj *o = v; PT("mark callback"); if (o->to) zt_gc_mark(g, o->to); }
static void xrel(zt_gc_t *g, void *p, void **v) { (void)g; uint64_t *h = p; *h += ((obj *)*v)->id; PT("release callback"); free(*v); *v = NULL; }
static void xeach(void *v, void *d, int ty) { *(uint64_t *)d += mc_mix(((obj *)v)->id, ty); PT("collector iteration"); }
static uint64_t x_gc(int k) { uint64_t f = 0, h = 64; zt_gc_t *g = zt_gc_init(&f, xmark, xrel, 1 + k, 2); obj *root = calloc(1, sizeof *root), *last = root; root->id = 100 * (k + 1); zt_gc_prepare(g, root); zt_gc_protect(g, root); for (int i = 1; i < 5; i++) { obj *o = calloc(1, sizeof *o); o->id = i; zt_gc_prepare(g, o); if (i % 2) { last->to = o; last = o; zt_gc_mark(g, root); } zt_gc_register(g, o); } zt_gc_for_each(g, xeach, &h); for (int i = 0; i < 3; i++) zt_gc_collect(g, 1); h = FI(h, f); zt_gc_destroy(g); return FI(h, f); }
static int never(size_t total, size_t fp, size_t cache, int flags, void *d) { PT("release test"); return *(int *)d && total > cache && fp > 0 && !flags; }
static uint64_t x_pool(int k) { uint64_t h = 65; static int yes = 1, no = 0; char nm[20]; sprintf(nm, "c51 %d %d", depth, k); zt_mem_pool *p = zt_mem_pool_init(nm, 1, 2500 + k, never, k ? &yes : &no, 0); void *e[3]; zt_mem_pool_stats st; for (int r = 0; r < 2; r++) { for (int i = 0; i < 3; i++) { e[i] = zt_mem_pool_alloc(p); memset(e[i], k + i, 2500); } for (int i = 0; i < 3; i++) { h = F(h, e[i], 2500); zt_mem_pool_release(&e[i]); } } zt_mem_pool_get_stats(p, &st); h = FI(FI(FI(FI(h, st.pages), st.free_pages), st.page_allocs), st.page_frees); h = FI(h, zt_mem_pool_get(nm) == p); return FI(h, zt_mem_pool_destroy(&p)); }
static size_t conv(int code, void *v, zt_fmt_put_f put_, void *cl, unsigned char fl[256], ssize_t w, ssize_t p) { char t[30]; size_t n = sprintf(t, "<%c%d,%d,%d>", code, *(int *)v, fl['-'], (int)w); (void)p; PT("conversion"); return zt_fmt_puts(t, n, put_, cl, fl, w, p); }
static size_t xput(int c, void *cl) { *(uint64_t *)cl = FI(*(uint64_t *)cl, c); if (c == '|' || c == '7') PT("output callback"); return 1; }
static uint64_t x_format(int k) { uint64_t h = 66; char o[80], *s; zt_fmt_ty old = zt_fmt_register('Q', conv, 'i'); h = FI(h, zt_fmt_sprintf(o, sizeof o, "%d %-14Q|%s %5.2f", k, 40 + k, W[k], 1.25 + k)); h = FS(h, o); s = zt_fmt_strprintf("%Q and %Q|", 1 + k, 2); h = FS(h, s); free(s); h = FI(h, zt_fmt_format((zt_fmt_put_f)xput, &h, "%Q|%5d|%x", 3 + k, 77, 0x70 + k)); zt_fmt_register('Q', old, 'i'); return h; }
static void *timed(void *p) { ++*(int *)p; PT("timed function"); return p; }
static uint64_t x_time(int k) { uint64_t h = 67; int n = 0; struct time_result r; void *q = zt_time(2 + k, &r, timed, &n); return FI(FI(h, n), q == &n); }
typedef struct { zt_log_ty l; uint64_t *h; } xlog;
static void xldel(zt_log_ty *l) { free(l); }
static void xlprint(zt_log_ty *l, zt_log_level lv, const char *file, int line, const char *fn, const char *fmt, va_list ap) { char t[300], *f; uint64_t *h = ((xlog *)l)->h; PT("log callback"); f = zt_log_gen_fmt(l, fmt, file, line, fn, lv, l->opts); vsnprintf(t, sizeof t, f, ap); free(f); *h = FS(FS(FI(FI(*h, lv), file ? line : -1), fn), t); PT("log callback"); }
static zt_log_vtbl_ty xvt = { sizeof(xlog), xldel, xlprint };
static uint64_t x_log(int k) { uint64_t h = 68; zt_log_ty *l = zt_log_new(&xvt, k ? ZT_LOG_WITH_LEVEL : ZT_LOG_RAW); ((xlog *)l)->h = &h; zt_log_ty *old = zt_log_logger(l); zt_log_set_debug_info("c51.c", 100 + k, "here"); zt_log_printf(zt_log_err, "first %s", W[k]); zt_log_printf(zt_log_info, "second %d", k); zt_log_lprintf(l, zt_log_warning, "third"); h = FI(h, zt_log_logger(old) == l); zt_log_close(l); return h; }
static void ufix(void *d) { ++*(int *)d; PT("fixture callback"); } static int *ucnt[4];
static void u_ok(struct zt_unit_test *t, void *d) { ++*(int *)d; ZT_UNIT_ASSERT(t, 1); PT("test"); ZT_UNIT_ASSERT(t, 2); }
static void u_bad(struct zt_unit_test *t, void *d) { ++*(int *)d; PT("test"); ZT_UNIT_ASSERT(t, d == NULL); PT("never"); }
static void u_fail(struct zt_unit_test *t, void *d) { PT("test"); ZT_UNIT_FAIL(t, "because %d", *(int *)d); }
static uint64_t x_unit(int k) { uint64_t h = 69; int n = 0; FILE *so = stdout; char *ob = NULL; size_t on; (void)ucnt; struct zt_unit *u = zt_unit_init(); struct zt_unit_suite *s = zt_unit_register_suite_(u, W[k], ufix, ufix, &n, zt_unit_try_c); struct zt_unit_test *t[3] = { zt_unit_register_test(s, "one", u_ok), zt_unit_register_test(s, "two", u_bad), zt_unit_register_test(s, "three", u_fail) }; if (k == 2) zt_unit_register_test(s, "four", u_ok);
    stdout = open_memstream(&ob, &on); h = FI(h, zt_unit_run(u)); fclose(stdout); stdout = so; h = FS(h, ob); free(ob); h = FI(h, n); for (int i = 0; i < 3; i++) h = FI(FS(h, t[i]->error), t[i]->success * 100 + t[i]->assertions * 10 + t[i]->exceptions); h = FI(h, u->assertions * 100 + u->failures * 10 + u->successes); zt_unit_release(&u); return h; }
static void xfree(void *e) { PT("element callback"); free(e); }
static uint64_t x_parray(int k) { uint64_t h = 70; zt_ptr_array *a = zt_ptr_array_init(NULL, xfree); for (int i = 0; i < 4; i++) zt_ptr_array_add(a, strdup(W[(k + i) % 3])); h = FI(h, zt_ptr_array_del(a, zt_ptr_array_get_idx(a, 1))); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); zt_ptr_array_free(a, 1); return h; }
static int ocb(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { int used = 0; PT("option callback"); char *v = zt_opt_get_value(argn, defn, argv, def, &used, error); (void)argc; PT("option callback"); uint64_t *h = def[defn].cb_data; *h = FI(FS(*h, v), used); return *v == '!' ? -5 : used; }
static int nerr[8]; static int xerr(int code, char *fmt, ...) { (void)fmt; nerr[depth]++; PT("error callback"); return -code - 1; }
static void oval(zt_opt_def_t *d, zt_opt_error e) { (void)d; (void)e; PT("validation callback"); }
static uint64_t x_opts(int k) { uint64_t h = 71; long n = 0; nerr[depth] = 0; char *s = NULL; zt_opt_def_t t[] = { { 'c', "call", "x", ocb, &h, "h" }, { 'n', "num", NULL, zt_opt_long, &n, "h" }, { 's', "str", NULL, zt_opt_string, &s, "h" }, { 0, NULL, NULL, NULL, NULL, NULL } }; static char *V[3][7] = { { "p", "-cone", "--num=5", "-c", "two", "-s", "t" }, { "p", "--call=one", "-n6", "-c", "two", "--str", "u" }, { "p", "-c", "one", "--num", "7", "-sv", "x" } }; char *av[8]; int ac = 7; memcpy(av, V[k], sizeof V[k]); av[7] = NULL; int r = zt_opt_process_args(&ac, av, t, oval, xerr); h = FI(FI(FS(FI(h, r), s), n), ac); free(s); char *bad[] = { "p", "-zz", NULL }; ac = 2; h = FI(h, nerr[depth]); r = zt_opt_process_args(&ac, bad, t, NULL, xerr); h = FI(FI(h, r), nerr[depth]); char *bad2[] = { "p", "-c", "!", "-s", "never", NULL }; if (k) bad2[1] = "-c!"; ac = 5; r = zt_opt_process_args(&ac, bad2, t, NULL, xerr); return FI(FI(h, r), nerr[depth]); }
static uint64_t x_net(int k) { uint64_t h = 72; zt_ipv4_tbl *t = zt_ipv4_tbl_init(8); char q[30]; for (int i = 0; i < 3; i++) { sprintf(q, "10.%d.0.0/%d", i + k, 16 + i); h = FI(h, !zt_ipv4_tbl_add_frm_str(t, q)); } sprintf(q, "10.%d.0.9", k + 1); zt_ipv4_node *n = zt_ipv4_tbl_search_from_str(t, q); h = FI(h, n ? n->addr->bitlen : -1); zt_ipv4_tbl_destroy(t); return h; }
static uint64_t x_prog(int k) { uint64_t h = 73; char p[60]; (void)k; strcpy(p, zt_progname(NULL, 0)); h = FS(h, p); char *q = zt_os_progpath(); h = FI(h, q[0]); free(q); return h; }
static int xdump(void *ctx, size_t a, char *hex, char *txt) { uint64_t *h = ctx; PT("row callback"); *h = FS(FS(FI(*h, a), hex), txt); return 0; }
struct src { char *t; int at, n; }; static int xgetc(void *p) { struct src *s = p; if (s->at % 9 == 5) PT("reading callback"); return s->at < s->n ? s->t[s->at++] : EOF; }
static uint64_t x_dump(int k) { uint64_t h = 74; char t[40]; for (int i = 0; i < 40; i++) t[i] = 'a' + (i * (k + 1)) % 26; h = FI(h, zt_hexdump_str(t, 33 + k, xdump, &h)); struct src r = { t, 0, 20 + k }; return FI(h, zt_hexdump(xgetc, &r, xdump, &h)); }
static void efree(void *p) { PT("chunk callback"); *(int *)p += 1; }
static uint64_t x_ez(int k) { uint64_t h = 75; int hit[4] = { 0 }; zt_ez_mempool *p = zt_ez_mempool_init(NULL), *q = zt_ez_mempool_init(p), *r = zt_ez_mempool_init(p); zt_ez_mempool_add_buffer(p, &hit[0], 4, efree); zt_ez_mempool_add_buffer(q, &hit[1], 4, efree); zt_ez_mempool_add_buffer(q, &hit[2], 4, efree); zt_ez_mempool_add_buffer(r, &hit[3], 4, efree); h = FS(h, zt_ez_mempool_strdup(q, W[k])); zt_ez_mempool_destroy(k ? q : p); h = FI(h, hit[0] * 1000 + hit[1] * 100 + hit[2] * 10 + hit[3]); if (k) zt_ez_mempool_destroy(p); return FI(h, hit[0] * 1000 + hit[1] * 100 + hit[2] * 10 + hit[3]); }
static const script S[] = { { "using a table", x_table }, { "using sets", x_set }, { "comparing in a tree", x_tree }, { "a list", x_llist }, { "collecting", x_gc }, { "a pool", x_pool }, { "converting", x_format }, { "timing", x_time }, { "logging", x_log }, { "unit tests", x_unit }, { "removing elements", x_parray }, { "options", x_opts }, { "dumping", x_dump }, { "a hierarchy of pools", x_ez }, { "networks", x_net }, { "the program's name", x_prog }, PARTS };
#define NS (int)(sizeof S / sizeof *S)
enum { OUTER = 14 }; /* the first ones call back */
static int ready, budget, maxdepth, used, last[2]; static struct ref { uint64_t h; long live; } (*ref)[3]; static const char *inside = "";
static void pt(const char *n) {
    if (!ready || !budget || depth >= maxdepth || !mc_choose(2)) return;
    /* the second one: below the first a calling script, after it the same again */
    int s = !used ? mc_choose(NS) : depth ? mc_choose(OUTER) : last[0], k = !used ? mc_choose(2) : depth ? 0 : last[1]; if (!used) { last[0] = s; last[1] = k; } used++; budget--; depth++; mc_step(); mc_nontrivial(); MC_LOG("in the %s: %s", n, S[s].n); const char *o = inside; inside = S[s].n; uint64_t h = S[s].f(k); inside = o; depth--;
    MC_CHECK(h == ref[s][k].h, "'%s' gives another result inside a callback (%s)", S[s].n, n);
}
static void warm(void) { zt_log_ty *l; strerror(EINVAL); zt_table_pool_init(2); l = zt_log_stderr(0); zt_log_close(l); uint64_t x = 0; for (int i = 0; i < NS; i++) x += S[i].f(0); mc_state(x & 0); }
void mc_setup(void) {
    mc_forked = 1; mc_shard_depth = 3; mc_param("nested", 1, 2); files(); common(); zt_progname("c51prog", 0); warm(); ref = mmap(NULL, NS * sizeof *ref, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int s = 0; s < NS; s++) for (int k = 0; k < 3; k++) { long b = mc_live_blocks(); ref[s][k].h = S[s].f(k); ref[s][k].live = mc_live_blocks() - b; }
}
void mc_run(void) {
    int s = mc_choose(OUTER), k = mc_choose(3); budget = mc_param("nested", 1, 2); maxdepth = budget; depth = used = 0; ready = 1; MC_LOG("%s", S[s].n); long b = mc_live_blocks(); uint64_t h = S[s].f(k); ready = 0;
    MC_CHECK(h == ref[s][k].h, "'%s' gives another result when its callbacks use the library", S[s].n); MC_CHECK(mc_live_blocks() - b <= 0, "'%s' leaves %ld blocks", S[s].n, mc_live_blocks() - b); mc_state(mc_mix(s, mc_mix(k, h)));
}
