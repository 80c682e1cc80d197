/* C50: running out of memory ends an operation in an orderly way.
 * Every script is straight-line use of one part of the library.  Every allocation request the library makes is a choice
 * point: it is satisfied or refused, alone or with every later request of the same call.  A call during which a request
 * was refused may end the process through abort()/exit() after a message, report a failure (its values are then as they
 * were, nothing is lost, and the same call succeeds once there is memory), or succeed.  What the script finds at the end
 * must be what it finds with enough memory, and as many blocks must be left. */
#include "mc.h"
#define ZT_WITH_GC
#define ZT_WITH_UNIT
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <libzt/zt_log.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
static int on, sticky, down, budget, fired; static const char *script, *at; static jmp_buf OUT; static int hasmsg(void);
static int refuse(void) {
    if (!on) return 0;
    if (down) { fired++; errno = ENOMEM; return 1; }
    if (!budget || !mc_choose(2)) return 0;
    budget--; fired++; down = sticky; errno = ENOMEM; MC_LOG("a request for memory is refused%s", sticky ? ", and so is every later one of this call" : ""); return 1;
}
void *libzt_malloc(size_t n) { return refuse() ? NULL : malloc(n); }
void *libzt_calloc(size_t a, size_t b) { return refuse() ? NULL : calloc(a, b); }
void *libzt_realloc(void *p, size_t n) { return refuse() ? NULL : realloc(p, n); }
char *libzt_strdup(const char *s) { size_t n = strlen(s); return refuse() ? NULL : strdup(s + 0 * n); }
char *libzt_strndup(const char *s, size_t n) { return refuse() ? NULL : strndup(s, n); }
FILE *libzt_fopen(const char *f, const char *m) { return refuse() ? NULL : fopen(f, m); }
int libzt_vasprintf(char **r, const char *f, va_list ap) { if (refuse()) { *r = (char *)0xdead; return -1; } return vasprintf(r, f, ap); }
int libzt_asprintf(char **r, const char *f, ...) { va_list ap; int n; if (refuse()) { *r = (char *)0xdead; return -1; } va_start(ap, f); n = vasprintf(r, f, ap); va_end(ap); return n; }
static void ended(const char *how) { int f = fired; on = 0; MC_LOG("%s() was called", how); MC_CHECK(f, "%s: '%s' ends the process although there was memory", script, at); MC_CHECK(hasmsg(), "%s: '%s' ends the process without a message when memory runs out", script, at); longjmp(OUT, 1); }
void libzt_abort(void) { ended("abort"); abort(); }
void libzt_exit(int c) { ended("exit"); exit(c); }
int libzt_pthread_mutex_lock(pthread_mutex_t *m) { int r = pthread_mutex_trylock(m); MC_CHECK(r != EBUSY, "%s: '%s' waits for itself for ever when memory runs out", script, at); return r; }
static FILE *err; static char *errb; static size_t errn;
static char lname[64]; static int logged, other;
static int hasmsg(void) { fflush(stderr); if (errn > 0 || other) return 1; int n = 0, c; FILE *f = fopen(lname, "r"); while (f && (c = getc(f)) != EOF) n += c == '\n'; return n > logged; /* a line that was not asked for */ }
#define TRY(name, expr, keep) do { int got_ = 0; at = name; for (int n_ = 0; !got_; n_++) { int f_ = fired; on = 1; got_ = !!(expr); on = down = 0; mc_step(); if (!got_) { MC_LOG("%s: reports a failure", at); MC_CHECK(fired > f_, "%s: '%s' fails%s", script, at, n_ ? " again although there is memory now" : " although there was memory"); keep; } } } while (0)
#define SAME(c) MC_CHECK(c, "%s: a failing '%s' leaves other contents behind", script, at)
#define HAS(c) MC_CHECK(c, "%s: '%s' succeeds with a wrong result", script, at)
static uint64_t FS(uint64_t h, const char *s) { return s ? mc_hash(h, s, strlen(s) + 1) : mc_mix(h, 78); }
static uint64_t F(uint64_t h, const void *p, size_t n) { return p ? mc_hash(h, p, n) : mc_mix(h, 77); }
static uint64_t FI(uint64_t h, long v) { return mc_mix(h, (uint64_t)v); }
#define NO (void)0
static uint64_t s_array(void) { uint64_t h = 1; zt_array_t a, b, c; int v = 5;
    TRY("zt_array_new", a = zt_array_new(3, sizeof v), NO); zt_array_put(a, 2, &v); TRY("zt_array_resize", (zt_array_resize(a, 40), zt_array_length(a) == 40), SAME(*(int *)zt_array_get(a, 2) == 5)); TRY("zt_array_copy", b = zt_array_copy(a, 50), SAME(*(int *)zt_array_get(a, 2) == 5)); TRY("zt_array_with_cstr", c = zt_array_with_cstr("hello"), NO);
    h = F(F(h, zt_array_get(b, 2), sizeof v), zt_array_data(c), 5); h = FI(h, zt_array_length(a) * 100 + zt_array_length(b)); zt_array_free(&a); zt_array_free(&b); zt_array_free(&c); return h; }
static uint64_t s_parray(void) { uint64_t h = 2; zt_ptr_array *a, *b; TRY("zt_ptr_array_init", a = zt_ptr_array_init(NULL, free), NO); TRY("zt_ptr_array_init", b = zt_ptr_array_init(NULL, NULL), NO);
    for (int i = 0; i < 35; i++) { char t[9], *e; sprintf(t, "e%d", i); e = strdup(t); TRY("zt_ptr_array_add", zt_ptr_array_add(a, e) == 0, { SAME(a->count == i); for (int j = 0; j < i; j++) { sprintf(t, "e%d", j); SAME(!strcmp(t, zt_ptr_array_get_idx(a, j))); } }); }
    TRY("zt_ptr_array_cat", zt_ptr_array_cat(b, a) == 0, { SAME(a->count == 35); b->count = 0; }); TRY("zt_ptr_array_resize", zt_ptr_array_resize(b, 100) == 0, SAME(b->count == 35)); h = FI(h, b->count); for (int i = 0; i < b->count; i++) h = FS(h, zt_ptr_array_get_idx(b, i)); zt_ptr_array_free(b, 0); zt_ptr_array_free(a, 1); return h; }
static char big[3000];
static uint64_t s_buf(void) { uint64_t h = 3; zt_buf_t *a, *b; size_t n; zt_iov_t v[2] = { { 1500, big + 7 }, { 900, big + 33 } }; for (int i = 0; i < 3000; i++) big[i] = i * 7 + i / 256;
    TRY("zt_buf_new", a = zt_buf_new(), NO); TRY("zt_buf_new", b = zt_buf_new(), NO); TRY("zt_buf_add", zt_buf_add(a, big, 700) == 0, SAME(zt_buf_length(a) == 0)); zt_buf_drain(a, 100); TRY("zt_buf_add", zt_buf_add(a, big, 2000) == 0, SAME(zt_buf_length(a) == 600 && !memcmp(zt_buf_get(a), big + 100, 600))); zt_buf_drain(a, 300);
    n = zt_buf_length(a); TRY("zt_buf_reserve", zt_buf_reserve(a, 5000) == 0, SAME(zt_buf_length(a) == n && !memcmp(zt_buf_get(a), big + 400, 300))); HAS(zt_buf_unused_sz(a) >= 5000); TRY("zt_buf_expand", zt_buf_expand(a, 9000) == 0, SAME(zt_buf_length(a) == n && !memcmp(zt_buf_get(a), big + 400, 300) && !memcmp((char *)zt_buf_get(a) + 300, big, 2000)));
    TRY("zt_buf_add_buf", zt_buf_add_buf(b, a) == 0, SAME(zt_buf_length(b) == 0 && zt_buf_length(a) == n && !memcmp(zt_buf_get(a), big + 400, 300))); n = zt_buf_length(b); TRY("zt_buf_iov_add", zt_buf_iov_add(b, v, 2) == 0, { SAME(zt_buf_length(b) >= n && !memcmp(zt_buf_get(b), big + 400, 300)); if (zt_buf_length(b) > n) { SAME(zt_buf_length(b) == n + 1500); v[0].iov_len = 0; } });
    h = FI(h, zt_buf_length(b)); h = F(h, zt_buf_get(b), zt_buf_length(b)); zt_buf_free(a); zt_buf_free(b); return h; }
static uint64_t s_bstream(void) { uint64_t h = 4; zt_bstream_t s, c; zt_array_t d; char t[70]; TRY("zt_bstream_new", s = zt_bstream_new(), NO); for (int i = 0; i < 4; i++) TRY("zt_bstream_write", (zt_bstream_write(s, big + i * 40, 40, 1, 0), 1), NO); TRY("zt_bstream_write_uint64", (zt_bstream_write_uint64(s, 77), 1), NO); zt_bstream_rewind(s); TRY("zt_bstream_clone", c = zt_bstream_clone(s), NO); zt_bstream_read(c, t, 70, 1, 0); h = F(h, t, 70); d = c->data; h = FI(h, zt_array_length(d)); zt_bstream_free(&c); zt_bstream_free(&s); return h; }
static uint64_t s_cstr(void) { uint64_t h = 5; char *t[8]; TRY("zt_cstr_sub", t[0] = zt_cstr_sub("alphabet", 1, -2), NO); TRY("zt_cstr_dup", t[1] = zt_cstr_dup("alphabet", 0, 3, 4), NO); TRY("zt_cstr_cat", t[2] = zt_cstr_cat("alphabet", 0, -1, "tail", 1, 2), NO); TRY("zt_cstr_catv", t[3] = zt_cstr_catv("alphabet", 0, -1, "more", 0, 2, (char *)NULL), NO); TRY("zt_cstr_reverse", t[4] = zt_cstr_reverse("alphabet", 0, -1), NO); TRY("zt_cstr_map", t[5] = zt_cstr_map("alphabet", 0, -1, "abxy", "ABXY"), NO); TRY("zt_cstr_path_append", t[6] = zt_cstr_path_append("/usr/local", "lib"), NO); TRY("zt_find_basedir", t[7] = zt_find_basedir("/usr/bin", "usr"), NO); for (int i = 0; i < 8; i++) { h = FS(h, t[i]); free(t[i]); } return h; }
static uint64_t s_split(void) { uint64_t h = 6; zt_ptr_array *a; TRY("zt_cstr_split", a = zt_cstr_split("one,two,,three,four", ","), NO); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); h = FI(h, a->count); zt_cstr_split_free(a);
    for (int k = 0; k < 2; k++) { TRY("zt_cstr_cut", a = zt_cstr_cut("/one/two/three/", '/', k), NO); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); h = FI(h, a->count); zt_cstr_cut_free(a); TRY("zt_cstr_tok", a = zt_cstr_tok("/one/two/three/", '/', k), NO); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); h = FI(h, a->count); zt_cstr_cut_free(a); } return h; }
static uint64_t s_many(void) { uint64_t h = 36; zt_ptr_array *a; char t[200] = ""; for (int i = 0; i < 40; i++) sprintf(t + strlen(t), "%d/", i); TRY("zt_cstr_split", a = zt_cstr_split(t, "/"), NO); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); h = FI(h, a->count); zt_cstr_split_free(a); TRY("zt_cstr_cut", a = zt_cstr_cut(t, '/', 0), NO); h = FI(h, a->count); zt_cstr_cut_free(a); TRY("zt_cstr_tok", a = zt_cstr_tok(t, '/', 0), NO); h = FI(h, a->count); zt_cstr_cut_free(a); return h; }
static uint64_t s_base(void) { uint64_t h = 7; zt_base_definition_t *D[] = { zt_base64_rfc, zt_base32_rfc, zt_base16_rfc }; for (int d = 0; d < 3; d++) { void *e = NULL, *b = NULL; size_t en = 0, bn = 0; TRY("zt_base_encode", zt_base_encode(D[d], "some bytes", 10, &e, &en) == 0, { SAME(!e); en = 0; }); TRY("zt_base_decode", zt_base_decode(D[d], e, en, &b, &bn) == 0, { SAME(!b); bn = 0; }); h = FI(F(F(h, e, en), b, bn), bn); free(e); free(b); } return h; }
static char *viastr(const char *f, ...) { va_list ap; char *r; va_start(ap, f); r = zt_fmt_vstrprintf((char *)f, ap); va_end(ap); return r; }
static uint64_t s_format(void) { uint64_t h = 8; char *s; TRY("zt_fmt_strprintf", s = zt_fmt_strprintf("%s %200d %-300s|", "text", 5, "more"), NO); h = FS(h, s); free(s); TRY("zt_fmt_vstrprintf", s = viastr("%s %d", "text", 5), NO); h = FS(h, s); free(s); return h; }
typedef struct obj { zt_gc_collectable_t mark; int id; struct obj *to; } obj;
static int freed; static void gmark(zt_gc_t *g, void *p, void *v) { (void)p; obj *o = v; if (o->to) zt_gc_mark(g, o->to); } static void grel(zt_gc_t *g, void *p, void **v) { (void)g; (void)p; freed += ((obj *)*v)->id; free(*v); *v = NULL; }
static uint64_t s_gc(void) { uint64_t h = 9; zt_gc_t *g; freed = 0; TRY("zt_gc_init", g = zt_gc_init(NULL, gmark, grel, 2, 3), NO); obj *root = calloc(1, sizeof *root), *last = root; root->id = 1000; zt_gc_prepare(g, root); for (int i = 1; i < 5; i++) { obj *o = calloc(1, sizeof *o); o->id = i; zt_gc_prepare(g, o); TRY("zt_gc_register", (zt_gc_register(g, o), 1), NO); if (i % 2) { last->to = o; last = o; } if (i == 1) TRY("zt_gc_protect", (zt_gc_protect(g, root), 1), NO); } TRY("zt_gc_collect", (zt_gc_collect(g, 1), 1), NO); TRY("zt_gc_collect", (zt_gc_collect(g, 1), 1), NO); h = FI(h, freed); TRY("zt_gc_destroy", (zt_gc_destroy(g), 1), NO); return FI(h, freed); }
static void ezcb(void *p) { *(int *)p += 1; }
static uint64_t s_ez(void) { uint64_t h = 10; int hit = 0; zt_ez_mempool *p, *q; char *s, *m; TRY("zt_ez_mempool_init", p = zt_ez_mempool_init(NULL), NO); TRY("zt_ez_mempool_init", q = zt_ez_mempool_init(p), NO); TRY("zt_ez_mempool_strdup", s = zt_ez_mempool_strdup(q, "words"), NO); TRY("zt_ez_mempool_alloc", m = zt_ez_mempool_alloc(q, 40, NULL), NO); strcpy(m, "more"); TRY("zt_ez_mempool_add_buffer", zt_ez_mempool_add_buffer(q, &hit, sizeof hit, ezcb) == 0, NO); h = FS(FS(h, s), m); zt_ez_mempool_destroy(p); return FI(h, hit); }
static uint64_t s_pool(void) { uint64_t h = 11; zt_mem_pool *p; void *e[300]; zt_mem_heap *hp; zt_mem_pool_group *g; zt_mem_pool_desc D[] = { { "small", 2, 16, NULL, NULL, 0 }, { "large", 1, 64, NULL, NULL, 0 }, { 0 } }; TRY("zt_mem_pool_init", p = zt_mem_pool_init("c50", 2, 24, NULL, NULL, 0), SAME(!zt_mem_pool_get("c50"))); for (int i = 0; i < 300; i++) { TRY("zt_mem_pool_alloc", e[i] = zt_mem_pool_alloc(p), NO); memset(e[i], i, 24); } zt_mem_pool_stats st; memset(&st, 0, sizeof st); zt_mem_pool_get_stats(p, &st); h = FI(FI(FI(h, st.pages), st.free_pages), st.page_allocs); for (int i = 0; i < 300; i++) { h = F(h, e[i], 24); zt_mem_pool_release(&e[i]); } h = FI(h, zt_mem_pool_destroy(&p));
    TRY("zt_mem_heap_init", hp = zt_mem_heap_init("c50 heap", 100), NO); memset(zt_mem_heap_get_data(hp), 1, 100); h = FS(h, zt_mem_heap_get_name(hp)); zt_mem_heap_destroy(&hp); TRY("zt_mem_pool_group_init", g = zt_mem_pool_group_init(D, 2), SAME(!zt_mem_pool_get("small") && !zt_mem_pool_get("large"))); for (int i = 0; i < 200; i++) { TRY("zt_mem_pool_group_alloc", e[i] = zt_mem_pool_group_alloc(g, 10 + 40 * (i % 2)), NO); memset(e[i], i, 10 + 40 * (i % 2)); } for (int i = 0; i < 200; i++) zt_mem_pool_group_release(&e[i]); return FI(h, zt_mem_pool_group_destroy(g)); }
static int tsum(void *k, size_t kl, void *d, size_t dl, void *p) { uint64_t *h = p; *h += mc_mix(mc_hash(1, k, kl), *(int *)d); (void)dl; return 0; }
static int V[200];
#define NK 110
static uint64_t s_table(void) { uint64_t h = 12; zt_table *t, *u; static char k[NK][5]; TRY("zt_table_init", t = zt_table_init("t", zt_table_hash_string, zt_table_compare_string, 2, 0, NULL), NO);
    for (int i = 0; i < NK; i++) { sprintf(k[i], "k%d", i); V[i] = i; TRY("zt_table_set", zt_table_set(t, k[i], strlen(k[i]), &V[i], sizeof V[i]) == 0, { for (int j = 0; j <= i; j++) SAME(zt_table_get(t, k[j], strlen(k[j])) == (j < i ? &V[j] : NULL)); }); }
    TRY("zt_table_init", u = zt_table_init(NULL, zt_table_hash_string, zt_table_compare_string, 2, 0, NULL), NO); TRY("zt_table_copy", zt_table_copy(t, u) >= 0, NO); zt_table_for_each(t, tsum, &h); for (int i = 0; i < NK; i++) h = FI(h, zt_table_get(t, k[i], strlen(k[i])) == &V[i]); for (int i = 0; i < NK; i++) { at = "zt_table_copy"; HAS(zt_table_get(u, k[i], strlen(k[i])) == &V[i]); h = FI(h, zt_table_del(t, k[i], strlen(k[i])) == &V[i]); } zt_table_destroy(t); zt_table_destroy(u); return h; }
static int ssum(void *d, void *p) { *(uint64_t *)p += mc_mix((long)d, 3); return 0; }
static int mcount(void *d, void *p) { (void)d; ++*(size_t *)p; return 0; }
static size_t nmemb(zt_set *s) { size_t n = 0; zt_set_for_each(s, mcount, &n); return n; }
static uint64_t s_set(void) { uint64_t h = 13; zt_set *a, *b, *c[3]; TRY("zt_set_init", a = zt_set_init(zt_table_compare_int, NULL, NULL), NO); TRY("zt_set_init", b = zt_set_init(zt_table_compare_int, NULL, NULL), NO); for (int i = 0; i < 3; i++) TRY("zt_set_init", c[i] = zt_set_init(zt_table_compare_int, NULL, NULL), NO);
    for (long i = 1; i < 600; i++) { size_t n = (i % 3 ? a : b)->length; TRY("zt_set_insert", zt_set_insert(i % 3 ? a : b, (void *)i, sizeof i) == 0, { SAME(!zt_set_is_member(i % 3 ? a : b, (void *)i, sizeof i) && (i % 3 ? a : b)->length == n && nmemb(i % 3 ? a : b) == n); }); if (i % 2) TRY("zt_set_insert", zt_set_insert(b, (void *)i, sizeof i) >= 0, SAME(!zt_set_is_member(b, (void *)i, sizeof i))); }
    TRY("zt_set_union", zt_set_union(c[0], a, b) == 0, NO); TRY("zt_set_intersection", zt_set_intersection(c[1], a, b) == 0, NO); TRY("zt_set_difference", zt_set_difference(c[2], a, b) == 0, NO); for (int i = 0; i < 3; i++) { zt_set_for_each(c[i], ssum, &h); h = FI(h, c[i]->length); zt_set_destroy(c[i]); } h = FI(FI(h, a->length), b->length); h = FI(h, zt_set_is_subset(a, b)); zt_set_destroy(a); zt_set_destroy(b); return h; }
static void nfree(zt_ipv4_node *n) { zt_mem_pool_release((void **)&n->addr); zt_mem_pool_release((void **)&n); }
static int found(zt_ipv4_tbl *t, char *q) { zt_ipv4_node *n = zt_ipv4_node_str_init(q), *r; if (!n) return -1; r = zt_ipv4_tbl_search_node(t, n); int v = r ? r->addr->bitlen : -2; nfree(n); return v; }
static uint64_t s_ipv4(void) { uint64_t h = 14; zt_ipv4_tbl *t; zt_ipv4_node *n; char *s; TRY("zt_ipv4_tbl_init", t = zt_ipv4_tbl_init(8), NO); static char *N[] = { "10.0.0.0/8", "10.1.0.0/16", "192.168.7.0/24", "192.168.9.0/24" }; for (int i = 0; i < 4; i++) TRY("zt_ipv4_tbl_add_frm_str", zt_ipv4_tbl_add_frm_str(t, N[i]), SAME((found(t, "10.1.2.3") > 0) == (i > 0) && (found(t, "192.168.7.7") > 0) == (i > 2))); for (int i = 0; i < 120; i++) { char q[30]; sprintf(q, "172.16.%d.0/24", i); TRY("zt_ipv4_tbl_add_frm_str", zt_ipv4_tbl_add_frm_str(t, q), NO); } TRY("zt_ipv4_node_str_init", n = zt_ipv4_node_str_init("10.1.2.3"), NO); h = FI(h, found(t, "172.16.119.9")); zt_ipv4_node *r = zt_ipv4_tbl_search_node(t, n); h = FI(h, r ? r->addr->bitlen : 0); h = FI(h, found(t, "192.168.9.9")); h = FI(h, found(t, "192.168.7.9")); nfree(n); TRY("zt_ipv4_int2ip", s = zt_ipv4_int2ip(0x0a000001), NO); h = FS(h, s); free(s); TRY("zt_ipv4_tbl_search_from_str", r = zt_ipv4_tbl_search_from_str(t, "10.1.2.3"), NO); h = FI(h, r->addr->bitlen); zt_ipv4_tbl_destroy(t); return h; }
static uint64_t s_uuid(void) { uint64_t h = 15; zt_uuid_t u; for (int f = 0; f < 4; f++) { char *s = NULL; zt_uuid5("x", 1, UUID_NS_DNS, &u); TRY("zt_uuid_tostr", zt_uuid_tostr(&u, &s, f) > 0, NO); h = FS(h, s); free(s); } TRY("zt_uuid4", zt_uuid4(&u) == 0, NO); return FI(h, u.data.bytes[6] >> 4); }
static char cfg[64];
static uint64_t use_cfg(zt_cfg_ty *c) { uint64_t h = 18; long i = 0; double d = 0; char *s = NULL; int b = 0; h = FI(h, zt_cfg_get(c, "main", "number", &i, zt_cfg_int)); h = FI(h, i); h = FI(h, zt_cfg_get(c, "main", "ratio", &d, zt_cfg_float)); h = F(h, &d, sizeof d); h = FI(h, zt_cfg_get(c, "other", "text", &s, zt_cfg_string)); h = FS(h, s); h = FI(h, zt_cfg_get(c, "main", "flag", &b, zt_cfg_bool)); h = FI(h, b); i = 5; h = FI(h, zt_cfg_get(c, "other", "link", &i, zt_cfg_int)); h = FI(h, i); s = NULL; h = FI(h, zt_cfg_get(c, "other", "plain", &s, zt_cfg_string)); h = FS(h, s); s = NULL; h = FI(h, zt_cfg_get(c, "Global", "top", &s, zt_cfg_string)); h = FS(h, s); return h; }
static uint64_t s_cfg(void) { uint64_t h; zt_cfg_ty *c; int fd = open(cfg, O_RDONLY); close(fd); TRY("zt_cfg_ini", c = zt_cfg_ini(cfg, 0), NO); int fd2 = open(cfg, O_RDONLY); close(fd2); MC_CHECK(fd == fd2, "%s: 'zt_cfg_ini' leaves its file open", script); h = use_cfg(c); zt_cfg_close(c); return h; }
static uint64_t s_cfgset(void) { uint64_t h, w; zt_cfg_ty *c = zt_cfg_ini(cfg, 0); long i = 9; char *t = "new text", *d = "main.number", *g; w = use_cfg(c); TRY("zt_cfg_set int", zt_cfg_set(c, "main", "number", &i, zt_cfg_int) == 1, SAME(use_cfg(c) == w)); w = use_cfg(c); TRY("zt_cfg_set string", zt_cfg_set(c, "other", "plain", &t, zt_cfg_string) == 1, SAME(use_cfg(c) == w)); w = use_cfg(c); TRY("zt_cfg_set new block", zt_cfg_set(c, "fresh", "entry", &t, zt_cfg_string) == 1, SAME(use_cfg(c) == w && zt_cfg_get(c, "fresh", "entry", &g, zt_cfg_string) != 1)); TRY("zt_cfg_set new entry", zt_cfg_set(c, "fresh", "second", &i, zt_cfg_int) == 1, SAME(use_cfg(c) == w)); TRY("zt_cfg_set reference", zt_cfg_set(c, "fresh", "link", &d, zt_cfg_string) == 1, SAME(use_cfg(c) == w)); h = use_cfg(c); i = 0; h = FI(h, zt_cfg_get(c, "fresh", "link", &i, zt_cfg_int)); h = FI(h, i); h = FI(h, zt_cfg_get(c, "fresh", "entry", &g, zt_cfg_string)); h = FS(h, g); h = FI(h, zt_cfg_get(c, "fresh", "second", &i, zt_cfg_int)); zt_cfg_close(c); return FI(h, i); }
static int oerr(int code, char *fmt, ...) { (void)fmt; return code ? code : -1; }
static uint64_t s_opts(void) { uint64_t h = 19; char *s = NULL, **l = NULL, *m; zt_opt_def_t t[] = { { 's', "str", NULL, zt_opt_string, &s, "h" }, { 'l', "list", NULL, zt_opt_string_array, &l, "h" }, { 0, NULL, NULL, NULL, NULL, NULL } }; char *av[] = { "prog", "--str=abc", "-l", "one", "-ltwo", "--list", "three", NULL }; int ac = 7;
    TRY("zt_opt_process_args", zt_opt_process_args(&ac, av, t, NULL, oerr) == 0, { free(s); s = NULL; for (int i = 0; l && l[i]; i++) free(l[i]); free(l); l = NULL; ac = 7; memcpy(av, ((char *[]){ "prog", "--str=abc", "-l", "one", "-ltwo", "--list", "three", NULL }), sizeof av); }); h = FI(h, ac); h = FS(h, s); for (int i = 0; l && l[i]; i++) { h = FS(h, l[i]); free(l[i]); } free(l); free(s);
    TRY("zt_opt_error_str", m = zt_opt_error_str(EINVAL, "a message %d", 5), NO); h = FS(h, m); free(m); TRY("zt_opt_error_str", m = zt_opt_error_str(0, "other %s", "text"), NO); h = FS(h, m); free(m); TRY("zt_opt_error_str", m = zt_opt_error_str(ENOENT, NULL), NO); h = FS(h, m); free(m); return h; }
static uint64_t s_optdefault(void) { int v; TRY("zt_opt_error_default", (v = zt_opt_error_default(EINVAL, "bad value %d", 7), 1), NO); return FI(20, v); }
static uint64_t logfile(unsigned o, zt_log_ty **keep) { zt_log_ty *l, *old; (void)keep; TRY("zt_log_file", l = zt_log_file(lname, 0, o), NO); old = zt_log_logger(l); TRY("zt_log_lprintf", (zt_log_printf(zt_log_err, "a message %d", 5), 1), NO); logged++; TRY("zt_log_lstrerror", (zt_log_strerror(zt_log_err, EINVAL, "failed %s", "x"), 1), NO); logged++; TRY("zt_log_dprintf", (zt_log_dprintf(zt_log_err, "with place"), 1), NO); zt_log_logger(old); zt_log_close(l); char b[600]; int fd = open(lname, O_RDONLY), n = read(fd, b, sizeof b - 1); close(fd); unlink(lname); b[n < 0 ? 0 : n] = 0; return o & (ZT_LOG_WITH_DATE | ZT_LOG_WITH_PID) ? FI(21, strlen(b) > 50) : FS(21, b); }
static uint64_t s_log(void) { return logfile(ZT_LOG_RAW, NULL); }
static uint64_t s_log2(void) { return logfile(ZT_LOG_WITH_LEVEL | ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID | ZT_LOG_WITH_DATE | ZT_LOG_WITH_SYSNAME, NULL); }
static int nsys; void libzt_vsyslog(int l, const char *f, va_list ap) { char t[200]; (void)l; vsnprintf(t, sizeof t, f, ap); if (strstr(t, "a message")) nsys++; else other++; }
static uint64_t s_log3(void) { zt_log_ty *l, *m, *old; TRY("zt_log_stderr", l = zt_log_stderr(ZT_LOG_WITH_LEVEL), NO); TRY("zt_log_syslog", m = zt_log_syslog(), NO); old = zt_log_logger(l); TRY("zt_log_lprintf", (zt_log_printf(zt_log_err, "a message"), 1), NO); zt_log_logger(m); nsys = 0; TRY("zt_log_printf", (zt_log_printf(zt_log_err, "a %s", "message"), 1), NO); HAS(nsys == 1); zt_log_logger(old); zt_log_close(l); zt_log_close(m); return 22; }
static uint64_t s_log4(void) { TRY("zt_log_printf", (zt_log_printf(zt_log_err, "the first message"), 1), NO); TRY("zt_log_printf", (zt_log_printf(zt_log_err, "the second message"), 1), NO); return 23; }
static void hit(void *p) { (void)p; }
static uint64_t s_atexit(void) { TRY("zt_atexit", (zt_atexit(hit, NULL), 1), NO); TRY("zt_atexit", (zt_atexit(hit, NULL), 1), NO); return 24; }
static void t_ok(struct zt_unit_test *test, void *d) { (void)d; ZT_UNIT_ASSERT(test, 1); } static void t_bad(struct zt_unit_test *test, void *d) { (void)d; ZT_UNIT_ASSERT(test, 1 == 2); } static void t_fail(struct zt_unit_test *test, void *d) { (void)d; ZT_UNIT_FAIL(test, "because %d", 5); }
static uint64_t s_unit(void) { uint64_t h = 25; struct zt_unit *u; struct zt_unit_suite *s; struct zt_unit_test *t[3]; char *p = NULL; TRY("zt_unit_init", u = zt_unit_init(), NO); TRY("zt_unit_register_suite", s = zt_unit_register_suite_(u, "suite", NULL, NULL, NULL, zt_unit_try_c), NO); TRY("zt_unit_register_test", t[0] = zt_unit_register_test(s, "one", t_ok), NO); TRY("zt_unit_register_test", t[1] = zt_unit_register_test(s, "two", t_bad), NO); TRY("zt_unit_register_test", t[2] = zt_unit_register_test(s, "three", t_fail), NO);
    FILE *o = stdout; char *ob = NULL; size_t on_; stdout = open_memstream(&ob, &on_); int r; TRY("zt_unit_run", (r = zt_unit_run(u), 1), NO); fclose(stdout); stdout = o; free(ob); h = FI(h, r); for (int i = 0; i < 3; i++) h = FI(h, (long)t[i]->success * 100 + (long)t[i]->assertions); TRY("zt_unit_printf", zt_unit_printf(&p, "%d", 5) > 0, NO); h = FS(h, p); free(p); TRY("zt_unit_test_set_error", zt_unit_test_set_error(t[0], "text %d", 1) >= 0, NO); h = FS(h, t[0]->error); zt_unit_release(&u); return h; }
static uint64_t s_threads(void) { void *m, *c, *t; TRY("zt_threads_alloc_lock", m = zt_threads_alloc_lock(0), NO); TRY("zt_threads_cond_alloc", c = zt_threads_cond_alloc(0), NO); TRY("zt_threads_alloc_thread", t = zt_threads_alloc_thread(), NO); free(t); zt_threads_cond_free(c); zt_threads_free_lock(m, 0); return 26; }
static void *twice_(void *i, void *d) { (void)i; ++*(int *)d; return NULL; }
static int fds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void *(*begun[8])(void *); static void *arg[8]; static int nbegun, njoined, unstarted; /* the handle of a thread that could not be started cannot be given back */ static jmp_buf gone;
int libzt_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { (void)a; if (refuse()) { unstarted++; return EAGAIN; } begun[nbegun] = f; arg[nbegun] = p; memset(t, 0, sizeof *t); nbegun++; return 0; }
int libzt_pthread_join(pthread_t t, void **r) { (void)t; (void)r; njoined++; return 0; }
void libzt_pthread_exit(void *r) { (void)r; longjmp(gone, 1); }
static uint64_t s_tstart(void) { uint64_t h = 29; zt_threadpool *p; static struct zt_threadpool_callbacks cb; static int a[2]; memset(&cb, 0, sizeof cb); int n = fds(); nbegun = njoined = 0; cb.oput_worker = twice_; cb.iput_worker = twice_; zt_threadpool_set_callbacks(NULL); zt_threadpool_set_callbacks(&cb);
    TRY("zt_threadpool_init", p = zt_threadpool_init(2, 2, 0, 0), SAME(fds() == n)); TRY("zt_threadpool_start", zt_threadpool_start(p) == 0, SAME(nbegun < 4)); HAS(nbegun == 4); h = FI(h, (begun[0] == begun[1]) * 4 + (begun[2] == begun[3]) * 2 + (begun[1] == begun[2])); TRY("zt_threadpool_insert_oput", zt_threadpool_insert_oput(p, a) == 0, SAME(TAILQ_EMPTY(&p->oput_queue)));
    at = "the output thread of the pool"; p->kill = 2; on = 1; if (!setjmp(gone)) begun[2](arg[2]); on = down = 0; HAS(TAILQ_EMPTY(&p->oput_queue)); h = FI(h, a[0]); a[0] = 0; p->kill = 0; TRY("zt_threadpool_kill", zt_threadpool_kill(p) == 0, NO); MC_CHECK(njoined == 4, "%s: 4 threads were started but %d joined", script, njoined); return h; }
static void *twice(void *i, void *d) { (void)i; return (int *)d + 1; }
static uint64_t s_tpool(void) { uint64_t h = 27; zt_threadpool *p; static struct zt_threadpool_callbacks cb; static int a[2], b[2]; memset(&cb, 0, sizeof cb); int n = fds(); nbegun = njoined = 0; cb.iput_worker = twice; zt_threadpool_set_callbacks(&cb); zt_threadpool_disable_oput_loop();
    TRY("zt_threadpool_init", p = zt_threadpool_init(2, 2, 1, 1), SAME(fds() == n)); TRY("zt_threadpool_insert_oput", zt_threadpool_insert_oput(p, &a) == 0, SAME(TAILQ_EMPTY(&p->oput_queue))); TRY("zt_threadpool_insert_iput", zt_threadpool_insert_iput(p, &a) == 0, SAME(TAILQ_EMPTY(&p->iput_queue))); TRY("zt_threadpool_insert_iput", zt_threadpool_insert_iput(p, &b) == 0, NO); h = FI(h, zt_threadpool_get_oput(p) == &a);
    at = "zt_threadpool_start"; int f = fired, r; on = 1; r = zt_threadpool_start(p); on = down = 0; if (r) { MC_LOG("no thread was started"); MC_CHECK(fired > f, "%s: '%s' fails although there was memory", script, at); if (!nbegun) r = zt_threadpool_start(p); }
    at = "the thread of the pool"; p->kill = 1; MC_CHECK(nbegun > 0, "%s: no thread is started when there is memory", script); on = 1; if (!setjmp(gone)) begun[0](arg[0]); on = down = 0; void *x = zt_threadpool_get_oput(p), *y = zt_threadpool_get_oput(p); MC_CHECK(x == a + 1 && y == b + 1, "%s: a result there was no memory for is lost", script); p->kill = 0;
    TRY("zt_threadpool_kill", zt_threadpool_kill(p) == 0, NO); MC_CHECK(njoined == nbegun, "%s: %d threads were started but %d joined", script, nbegun, njoined); return h; }
static uint64_t s_progname(void) { char *s; TRY("zt_os_progpath", s = zt_os_progpath(), NO); uint64_t h = FI(28, s[0] == '/'); free(s); TRY("zt_progpath", (s = zt_progpath(NULL)) && *s, NO); return h; }
static uint64_t s_progpath(void) { uint64_t h = 30; char *s; FILE *f; mkdir("c50_bin", 0700); if ((f = fopen("c50_bin/c50_prog", "w"))) fclose(f); setenv("PATH", "/nowhere:./c50_bin:/bin", 1); TRY("zt_progpath", (s = zt_progpath("c50_prog")) && *s, NO); h = FS(h, s); TRY("zt_progpath", (s = zt_progpath("c50_bin/c50_prog")) && *s, NO); h = FI(h, strlen(s) > 8 && !strcmp(s + strlen(s) - 8, "/c50_bin")); TRY("zt_progpath", (s = zt_progpath("c50_missing")) && *s, NO); return FI(h, *s == '/'); }
typedef struct { const char *n; uint64_t (*f)(void); } scr;
static const scr S[] = { { "arrays", s_array }, { "pointer arrays", s_parray }, { "buffers", s_buf }, { "streams", s_bstream }, { "strings", s_cstr }, { "splitting", s_split }, { "many pieces", s_many }, { "bases", s_base }, { "formatting", s_format }, { "collector", s_gc }, { "hierarchical pools", s_ez }, { "pools", s_pool }, { "tables", s_table }, { "sets", s_set }, { "networks", s_ipv4 }, { "uuids", s_uuid }, { "reading a configuration", s_cfg }, { "setting a configuration", s_cfgset }, { "options", s_opts }, { "option errors", s_optdefault }, { "raw log file", s_log }, { "full log file", s_log2 }, { "other logs", s_log3 }, { "first message", s_log4 }, { "exit handlers", s_atexit }, { "unit tests", s_unit }, { "locks", s_threads }, { "thread pool", s_tpool }, { "starting threads", s_tstart }, { "program name", s_progname }, { "finding the program", s_progpath } };
#define NS (int)(sizeof S / sizeof *S)
static struct { uint64_t h; long live; } *ref;
static long base; static void begin(void) { err = open_memstream(&errb, &errn); fflush(err); stderr = err; fired = 0; base = mc_live_blocks(); }
static void play(int s, uint64_t *h, long *live) { *h = S[s].f(); at = "a later message"; zt_log_printf(zt_log_err, "done"); *live = mc_live_blocks() - base - unstarted; }
void mc_setup(void) {
    mc_forked = 1; mc_shard_depth = 3; sprintf(cfg, "c50_%d.ini", (int)getpid()); FILE *f = fopen(cfg, "w"); fprintf(f, "top = level\n[main]\nnumber = 12\nratio = 2.5\nflag = yes\n[other]\ntext = 'some words'\nplain = word\nlink = main.number\n"); fclose(f); strcpy(lname, "c50.log"); zt_threads_use_pthreads(); strerror(EINVAL);
    ref = mmap(NULL, NS * sizeof *ref, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int s = 0; s < NS; s++) { pid_t p = fork(); if (!p) { script = S[s].n; sprintf(lname, "c50_%d.log", (int)getpid()); begin(); play(s, &ref[s].h, &ref[s].live); _exit(0); } int st; waitpid(p, &st, 0); if (st) { fprintf(stderr, "reference run of '%s' failed\n", S[s].n); _exit(3); } }
}
void mc_run(void) {
    int s = mc_choose(NS); script = S[s].n; sticky = mc_choose(2); int warm = mc_choose(2); uint64_t h = 0; long live = 0; FILE *real = stderr; budget = mc_param("refusals", 2, 3); sprintf(lname, "c50_%d.log", (int)getpid()); begin(); MC_LOG("%s%s", script, warm ? ", after other messages" : "");
    if (warm) { at = "an earlier message"; zt_log_printf(zt_log_err, "hello"); fflush(err); errn = 0; rewind(err); fflush(err); }
    if (!setjmp(OUT)) { play(s, &h, &live); stderr = real; if (fired) mc_nontrivial(); MC_CHECK(h == ref[s].h, "%s: a call that ran out of memory leaves a wrong result", script); MC_CHECK(live <= ref[s].live, "%s: %ld blocks stay allocated that are not with enough memory", script, live - ref[s].live); mc_state(mc_mix(s, h)); }
    else { stderr = real; unlink(lname); mc_nontrivial(); mc_state(mc_mix(s, 999)); }
}
