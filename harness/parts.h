/* parts.h: straight-line use of one part of the library each, on values of its own (s_*) or reading common ones (r_*),
 * folded into a fingerprint.  The including file defines PT(name), reached in every callback, and WHO, a number that
 * tells simultaneous users apart. */
static uint64_t F(uint64_t h, const void *p, size_t n) { return p ? mc_hash(h, p, n) : mc_mix(h, 77); }
static uint64_t FS(uint64_t h, const char *s) { return s ? mc_hash(h, s, strlen(s) + 1) : mc_mix(h, 78); }
static uint64_t FI(uint64_t h, long v) { return mc_mix(h, (uint64_t)v); }
/* k: which thread's data */
static const char *W[] = { "alpha,beta,gamma", "one,,three,four", "x,yy,zzz,w,v" };
static uint64_t s_array(int k) { uint64_t h = 1; int v; zt_array_t a = zt_array_new(3, sizeof v); for (int i = 0; i < 3; i++) { v = i * 10 + k; zt_array_put(a, i, &v); } zt_array_resize(a, 8); v = 99 + k; zt_array_put(a, 7, &v); zt_array_t b = zt_array_copy(a, 8); zt_array_elem_copy(b, 1, &v); h = FI(h, v); zt_array_set_length(b, 2); for (int i = 0; i < 2; i++) h = F(h, zt_array_get(b, i), sizeof v); h = F(h, zt_array_get(a, 7), sizeof v); h = FI(h, zt_array_length(a) * 100 + zt_array_size(a)); zt_array_t c = zt_array_with_cstr((char *)W[k]); h = F(h, zt_array_data(c), zt_array_length(c)); zt_array_free(&c); zt_array_free(&b); zt_array_free(&a); return h; }
static void pfree(void *e) { PT("element callback"); free(e); }
static uint64_t s_parray(int k) { uint64_t h = 2; zt_ptr_array *a = zt_ptr_array_init(NULL, pfree), *b = zt_ptr_array_init(NULL, NULL); for (int i = 0; i < 40; i++) zt_ptr_array_add(a, strdup(W[(k + i) % 3])); zt_ptr_array_cat(b, a); zt_ptr_array_move_idx_to_idx(b, 1, 5); zt_ptr_array_del(b, zt_ptr_array_get_idx(b, 0)); for (int i = 0; i < 6; i++) h = FS(h, zt_ptr_array_get_idx(b, i)); char *d[100]; h = FI(h, zt_ptr_array_copy_data(b, d) == 0); h = FS(h, d[b->count - 1]); zt_ptr_array_free(b, 0); zt_ptr_array_free(a, 1); return h; }
static uint64_t s_buf(int k) { uint64_t h = 3; zt_buf_t *a = zt_buf_new(), *b = zt_buf_new(); for (int i = 0; i < 30; i++) zt_buf_add(a, (void *)W[k], 1 + i % 10); zt_iov_t v[2] = { { 3, (void *)W[k] }, { 5, (void *)W[(k + 1) % 3] } }; zt_buf_iov_add(a, v, 2); h = FI(h, zt_buf_iov_len(v, 2)); zt_buf_add(b, "zz", 2); zt_buf_add_buf(b, a); zt_buf_drain(b, 3); char o[10]; h = FI(h, zt_buf_remove(b, o, 10)); h = F(h, o, 10); zt_buf_reserve(b, 500); h = F(h, zt_buf_get(b), zt_buf_length(b)); zt_buf_free(a); zt_buf_free(b); return h; }
static uint64_t s_bstream(int k) { uint64_t h = 4; for (int flip = 0; flip < 2; flip++) { zt_bstream_t s = zt_bstream_new(); s->flipendian = flip; zt_bstream_write_byte(s, 'a' + k); zt_bstream_write_uint16(s, 1000 + k); zt_bstream_write_uint32(s, 100000 + k); zt_bstream_write_uint64(s, 1ull << 40 | k); zt_bstream_write_float(s, 1.5 + k); zt_bstream_write_double(s, 2.25 + k); zt_bstream_write(s, (char *)W[k], 5, 1, 0); zt_bstream_rewind(s); zt_bstream_t c = zt_bstream_clone(s); char b; uint16_t x; uint32_t y; uint64_t z; float f; double d; char t[5]; zt_bstream_read_byte(c, &b); zt_bstream_read_uint16(c, &x); zt_bstream_read_uint32(c, &y); zt_bstream_read_uint64(c, &z); zt_bstream_read_float(c, &f); zt_bstream_read_double(c, &d); zt_bstream_read(c, t, 5, 1, 0); h = FI(FI(FI(FI(h, b), x), y), z); h = F(F(F(h, &f, sizeof f), &d, sizeof d), t, 5); zt_bstream_free(&c); zt_bstream_free(&s); } return h; }
typedef struct { long key; zt_rbt_node n; } item;
static int icmp(zt_rbt_node *a, zt_rbt_node *b) { long x = zt_rbt_data(a, item, n)->key, y = zt_rbt_data(b, item, n)->key; return x < y ? -1 : x > y; }
static uint64_t s_tree(int k) { uint64_t h = 5; item it[24], p; zt_rbt_node *H = NULL; for (int i = 0; i < 24; i++) { it[i].key = (i * 7 + k) % 24 * 10; zt_rbt_insert(&H, &it[i].n, icmp); } for (int i = 0; i < 10; i++) zt_rbt_remove(&H, &it[i * 2].n); p.key = 55; zt_rbt_node *x = zt_rbt_nfind(&H, &p.n, icmp); h = FI(h, x ? zt_rbt_data(x, item, n)->key : -1); for (x = zt_rbt_min(&H); x; x = zt_rbt_next(x)) h = FI(h, zt_rbt_data(x, item, n)->key); return h; }
typedef struct obj { zt_gc_collectable_t mark; int id; struct obj *to; } obj;
static void gmark(zt_gc_t *g, void *p, void *v) { (void)p; obj *o = v; if (o->to) zt_gc_mark(g, o->to); }
static void grel(zt_gc_t *g, void *p, void **v) { (void)g; uint64_t *h = p; *h = FI(*h, ((obj *)*v)->id); PT("release callback"); free(*v); *v = NULL; }
static uint64_t s_gc(int k) { uint64_t h = 6; zt_gc_t *g = zt_gc_init(&h, gmark, grel, 2 + k, 3); obj *root = calloc(1, sizeof *root), *last = root; root->id = 1000 * k; zt_gc_prepare(g, root); zt_gc_protect(g, root); for (int i = 1; i < 8; i++) { obj *o = calloc(1, sizeof *o); o->id = 1000 * k + i; zt_gc_prepare(g, o); zt_gc_register(g, o); if (i % 3) { last->to = o; zt_gc_mark(g, o); last = o; } if (i % 4 == 0) zt_gc_collect(g, 0); } zt_gc_collect(g, 1); zt_gc_disable(g); zt_gc_enable(g); root->to = NULL; zt_gc_collect(g, 1); zt_gc_destroy(g); return h; }
static uint64_t s_cstr(int k) { uint64_t h = 7; const char *s = W[k]; char *t[8]; t[0] = zt_cstr_sub(s, 1, -2); t[1] = zt_cstr_dup(s, 0, 3, 4); t[2] = zt_cstr_cat(s, 0, -1, "tail", 1, 2); t[3] = zt_cstr_catv(s, 0, -1, "more", 0, 2, (char *)NULL); t[4] = zt_cstr_reverse(s, 0, -1); t[5] = zt_cstr_map(s, 0, -1, "abxy", "ABXY"); for (int i = 0; i < 6; i++) { h = FS(h, t[i]); free(t[i]); }
    h = FI(h, zt_cstr_cmp(s, 0, -1, W[(k + 1) % 3], 0, -1)); h = FI(h, zt_cstr_chr(s, 0, -1, ',')); h = FI(h, zt_cstr_rchr(s, 0, -1, ',')); h = FI(h, zt_cstr_upto(s, 0, -1, ",e")); h = FI(h, zt_cstr_rupto(s, 0, -1, ",e")); h = FI(h, zt_cstr_find(s, 0, -1, "e")); h = FI(h, zt_cstr_rfind(s, 0, -1, "a")); h = FI(h, zt_cstr_any(s, 0, -1, "ghy")); h = FI(h, zt_cstr_rany(s, 0, -1, "ghy")); h = FI(h, zt_cstr_len(s, 1, -1) * 100 + zt_cstr_pos(s, -1)); return h; }
static uint64_t s_trim(int k) { uint64_t h = 8; char a[60], b[60]; sprintf(a, " \t%s \r\n", W[k]); strcpy(b, a); h = FS(h, zt_cstr_chomp(a)); h = FS(h, zt_cstr_strip(b)); h = FI(h, zt_cstr_rspn(b, "agrwvu") * 100 + zt_cstr_rcspn(b, ",")); char o[30] = ""; h = FI(h, zt_cstr_copy(b, 1, -2, o, sizeof o)); h = FS(h, o); return h; }
static uint64_t s_paths(int k) { uint64_t h = 9; char o[60], p[60]; sprintf(p, "/usr/%s/lib%d.so", W[k], k); h = FS(h, zt_cstr_basename(o, sizeof o, p, ".so")); h = FS(h, zt_cstr_dirname(o, sizeof o, p)); char *q = zt_cstr_path_append(p, W[k]); h = FS(h, q); free(q); h = FI(h, zt_cstr_abspath(p)); q = zt_find_basedir(p, W[k]); h = FS(h, q); free(q); h = FI(h, zt_path_exists("/")); return h; }
static uint64_t s_split(int k) { uint64_t h = 10; for (int f = 0; f < 5; f++) { zt_ptr_array *a = f == 0 ? zt_cstr_split(W[k], ",") : f < 3 ? zt_cstr_cut(W[k], ',', f - 1) : zt_cstr_tok(W[k], ',', f - 3); for (int i = 0; i < a->count; i++) h = FS(h, zt_ptr_array_get_idx(a, i)); if (f == 0) zt_cstr_split_free(a); else zt_cstr_cut_free(a); } return h; }
static uint64_t s_numbers(int k) { uint64_t h = 11; char b[40]; static const int V[] = { -2147483647 - 1, 0, 1234567 }; ssize_t r = zt_cstr_itoa(b, V[k] + k, 0, sizeof b); h = FI(h, r); h = FS(h, b); h = FI(h, zt_cstr_int_display_len(V[k])); char x[80]; size_t n = zt_binary_to_hex((void *)W[k], 10, x, sizeof x); h = FI(h, n); h = F(h, x, 20); char y[40]; n = zt_hex_to_binary(x, 20, y, sizeof y); h = FI(h, n); h = F(h, y, 10); return h; }
static int hp(void *ctx, size_t addr, char *hex, char *txt) { uint64_t *h = ctx; *h = FS(FS(FI(*h, addr), hex), txt); PT("dump printer"); return 0; }
static uint64_t s_hexdump(int k) { uint64_t h = 12; h = FI(h, zt_hexdump_str((char *)W[k], strlen(W[k]), hp, &h)); char t[50]; for (int i = 0; i < 50; i++) t[i] = i * 5 + k; h = FI(h, zt_hexdump_str(t, 50, hp, &h)); return h; }
static size_t put(int c, void *cl) { uint64_t *h = cl; *h = FI(*h, c); if (c == '|') PT("put callback"); return 1; }
static uint64_t s_format(int k) { uint64_t h = 13; char o[300]; size_t n = zt_fmt_sprintf(o, sizeof o, "%-6d|%08x|~s|%+.3f|%c|%o|%u|%10.4e|%g|%.3s|%*d", k - 5, 0xabc + k, W[k], 1.5 + k, 'a' + k, 8 + k, 4000000000u + k, 1e10 + k, 0.0001 * (k + 1), W[k], 7, k); h = FI(h, n); h = FS(h, o); char *s = zt_fmt_strprintf("%s %d %d %s", W[k], k, 1 << 30, "a rather long tail of text that makes the result grow beyond its first size, more than once, so that it is extended while the other thread does the same with its own text"); h = FS(h, s); free(s); h = FI(h, zt_fmt_format(put, &h, "%d|%s|%5.1f", k, W[k], 2.5 * k)); return h; }
static uint64_t s_base(int k) { uint64_t h = 14; zt_base_definition_t *D[] = { zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc }; for (int d = 0; d < 6; d++) { void *e = NULL, *b = NULL; size_t en = 0, bn = 0; h = FI(h, zt_base_encode(D[d], W[k], strlen(W[k]), &e, &en)); h = F(h, e, en); h = FI(h, zt_base_decode(D[d], e, en, &b, &bn)); h = F(h, b, bn); free(e); free(b); char t[100]; void *tp = t; en = sizeof t; h = FI(h, zt_base_encode(D[d], "xyz12", 4 + k % 2, &tp, &en)); h = F(h, t, en); } return h; }
static uint64_t s_digest(int k) { uint64_t h = 15; uint8_t d[20], e[20]; char x[41]; zt_sha1_ctx c; zt_sha1_init(&c); for (int i = 0; i < 6; i++) zt_sha1_update(&c, (uint8_t *)W[(i + k) % 3], strlen(W[(i + k) % 3])); zt_sha1_finalize(&c, d); h = F(h, d, 20); zt_sha1_data((void *)W[k], strlen(W[k]), d); zt_sha1_tostr(d, x); h = F(h, x, 40); zt_str_tosha1(x, e); h = F(h, e, 20); h = FI(h, zt_hash32_buff((void *)W[k], 9, k)); h = FI(h, zt_hash64_buff((void *)W[k], 9, k)); h = FI(h, zt_hash32_cstr((void *)W[k], 5)); h = FI(h, zt_hash64_cstr((void *)W[k], 5)); return h; }
static uint64_t s_random(int k) { uint64_t h = 16; zt_random_state *s = malloc(sizeof *s); zt_random_srandom(s, 77 + k); for (int i = 0; i < 3; i++) h = FI(h, zt_random_uint32(s)); uint32_t seed[] = { 1, 2, 3 + k }; zt_random_initstate(s, seed, 3); for (int i = 0; i < 3; i++) h = FI(h, zt_random_uint32(s)); free(s); return h; }
static uint64_t s_uuid(int k) { uint64_t h = 17; zt_uuid_t u, v; h = FI(h, zt_uuid5((char *)W[k], strlen(W[k]), UUID_NS_DNS + k, &u)); h = F(h, &u, 16); for (int f = 0; f < 4; f++) { char *s = NULL; ssize_t n = zt_uuid_tostr(&u, &s, f); h = FI(h, n); h = FS(h, s); h = FI(h, zt_uuid_isvalid(s, f)); h = FI(h, zt_uuid_fromstr(s, &v, f)); h = F(h, &v, 16); h = FI(h, zt_uuid_cmp(&u, &v)); char b[60]; size_t z = sizeof b; h = FI(h, zt_uuid_fillstr(&u, b, &z, f)); h = FS(h, b); free(s); } return h; }
static char cfgname[2][3][80];
static uint64_t use_cfg(zt_cfg_ty *c, int k) { uint64_t h = 18; long i = 0; double d = 0; char *s = NULL; int b = 0; h = FI(h, zt_cfg_get(c, "main", "number", &i, zt_cfg_int)); h = FI(h, i); h = FI(h, zt_cfg_get(c, "main", "ratio", &d, zt_cfg_float)); h = F(h, &d, sizeof d); h = FI(h, zt_cfg_get(c, "other", "text", &s, zt_cfg_string)); h = FS(h, s); h = FI(h, zt_cfg_get(c, "main", "flag", &b, zt_cfg_bool)); h = FI(h, b); i = 5; h = FI(h, zt_cfg_get(c, "other", "link", &i, zt_cfg_int)); h = FI(h, i); h = FI(h, zt_cfg_get(c, "other", "nothing", &i, zt_cfg_int)); return h; }
static uint64_t s_cfg(int k) { uint64_t h; zt_cfg_ty *c = zt_cfg_ini(cfgname[0][k], 0); h = use_cfg(c, k); long i = 9 + k; h = FI(h, zt_cfg_set(c, "main", "number", &i, zt_cfg_int)); char *t = "text"; h = FI(h, zt_cfg_set(c, "new", "entry", &t, zt_cfg_string)); char *got = NULL; h = FI(h, zt_cfg_get(c, "new", "entry", &got, zt_cfg_string)); h = FS(h, got); h = FI(h, use_cfg(c, k)); zt_cfg_close(c); return h; }
static void ecb(void *p) { PT("pool callback"); *(int *)p += 1; }
static uint64_t s_ez(int k) { uint64_t h = 19; int hit = 0; zt_ez_mempool *p = zt_ez_mempool_init(NULL), *q = zt_ez_mempool_init(p), *r = zt_ez_mempool_init(q); h = FS(h, zt_ez_mempool_strdup(q, W[k])); char *m = zt_ez_mempool_alloc(r, 20 + k, NULL); h = F(h, m, 20); strcpy(m, W[k]); zt_ez_mempool_add_buffer(r, &hit, sizeof hit, ecb); h = FS(h, m); zt_ez_mempool_destroy(q); h = FI(h, hit); zt_ez_mempool_strdup(p, "x"); zt_ez_mempool_destroy(p); return h; }
static uint64_t s_time(int k) { uint64_t h = 20; struct timeval a = { 5 + k, 999999 }, b = { 3, 2 + k }, c; zt_add_time(&c, &a, &b); h = F(h, &c, sizeof c); zt_sub_time(&c, &a, &b); h = F(h, &c, sizeof c); zt_diff_time(&c, &b, &a); h = F(h, &c, sizeof c); h = FI(h, zt_cmp_time(&a, &b)); struct time_result r = { a, b }; float u, s, t; zt_time_result_to_elapsed(&r, &u, &s, &t); h = F(h, &u, sizeof u); h = F(h, &s, sizeof s); return h; }
static uint64_t s_address(int k) { uint64_t h = 21; char t[30]; uint32_t v = 0; int b = 0; sprintf(t, "10.%d.2.3/%d", k, 16 + k); h = FI(h, zt_ipv4_str2net(t, &v, &b)); h = FI(h, v); h = FI(h, b); sprintf(t, "10.%d.2.3", k); h = FI(h, zt_ipv4_ip2int(t)); char *s = zt_ipv4_int2ip(0x0a000000 + k); h = FS(h, s); free(s); return h; }
static int oflag(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { (void)argn; (void)argc; (void)argv; (void)error; PT("option callback"); ++*(int *)def[defn].cb_data; return 0; }
static int oerr(int code, char *fmt, ...) { (void)code; (void)fmt; return -1; }
static uint64_t s_opts(int k) { uint64_t h = 22; int v = 0; char *s = NULL; long n = 0; zt_opt_def_t t[] = { { 'v', "verbose", NULL, oflag, &v, "h" }, { 's', "str", NULL, zt_opt_string, &s, "h" }, { 'n', "num", NULL, zt_opt_long, &n, "h" }, { 0, NULL, NULL, NULL, NULL, NULL } }; char A[3][3][20] = { { "-vvn5", "--str=abc", "-v" }, { "-vsword", "-vn", "7" }, { "--num", "12", "-vvv" } }; char *av[5] = { "prog", A[k][0], A[k][1], A[k][2], NULL }; int ac = 4; h = FI(h, zt_opt_process_args(&ac, av, t, NULL, oerr)); h = FI(FI(FI(h, ac), v), n); h = FS(h, s); free(s); return h; }
static uint64_t s_file(int k) { uint64_t h = 23; char *o = NULL; size_t z; FILE *f = open_memstream(&o, &z); h = FI(h, zt_fmt_fprintf(f, "%s %d\n", W[k], k)); fclose(f); h = FS(h, o); free(o); return h; }
static uint64_t s_mkdir(int k) { uint64_t h = 24; (void)k; char p[60], *e; e = p + sprintf(p, "c49d_%d_%d", (int)getpid(), WHO); strcpy(e, "/e/f"); h = FI(h, zt_mkdir(p, 0755, zt_mkdir_create_parent)); h = FI(h, zt_path_exists(p)); rmdir(p); e[2] = 0; rmdir(p); *e = 0; rmdir(p); return h; }
/* readers of common values, set up before the threads start */
static zt_table *T; static zt_set *A, *B; static zt_ipv4_tbl *I; static zt_ipv4_node *Q[3][3]; static zt_cfg_ty *C; static zt_array_t AR; static zt_ptr_array *PA; static zt_buf_t *BU; static zt_rbt_node *H; static item IT[20]; static zt_gc_t *G;
static int tit(void *key, size_t kl, void *d, size_t dl, void *p) { uint64_t *h = p; *h += mc_mix((long)key, *(int *)d); (void)kl; (void)dl; PT("iteration"); return 0; }
static int sit(void *d, void *p) { uint64_t *h = p; *h += mc_mix((long)d, 3); return 0; }
static uint64_t r_table(int k) { uint64_t h = 30; for (int i = 0; i < 12; i++) { int *v = zt_table_get(T, (void *)(long)((i + k) % 12), sizeof(long)); h = FI(h, v ? *v : -1); } zt_table_for_each(T, tit, &h); return h; }
static uint64_t r_set(int k) { uint64_t h = 31; for (int i = 0; i < 8; i++) h = FI(h, zt_set_is_member(A, (void *)(long)(i + k), sizeof(long))); h = FI(h, zt_set_is_subset(A, B)); h = FI(h, zt_set_is_equal(A, B)); h = FI(h, zt_set_is_equal(A, A)); zt_set_for_each(A, sit, &h); return h; }
static uint64_t r_ipv4(int k) { uint64_t h = 32; for (int i = 0; i < 3; i++) { zt_ipv4_node *n = zt_ipv4_tbl_search_node(I, Q[k][i]); h = FI(h, n ? n->addr->addr : 0); } return h; }
static uint64_t r_cfg(int k) { return use_cfg(C, k); }
static uint64_t r_tree(int k) { uint64_t h = 33; item p; for (int i = 0; i < 10; i++) { p.key = i * 17 + k; zt_rbt_node *x = zt_rbt_find(&H, &p.n, icmp); h = FI(h, !!x); x = zt_rbt_nfind(&H, &p.n, icmp); h = FI(h, x ? zt_rbt_data(x, item, n)->key : -1); } for (zt_rbt_node *x = zt_rbt_min(&H); x; x = zt_rbt_next(x)) h = FI(h, zt_rbt_data(x, item, n)->key); zt_rbt_node *x = zt_rbt_max(&H); return FI(h, zt_rbt_data(x, item, n)->key); }
static uint64_t r_seq(int k) { uint64_t h = 34; int v; for (int i = 0; i < 5; i++) { h = F(h, zt_array_get(AR, i), sizeof v); zt_array_elem_copy(AR, i, &v); h = FI(h, v); h = FS(h, zt_ptr_array_get_idx(PA, i)); } h = FI(h, zt_array_length(AR) + k); h = F(h, zt_buf_get(BU), zt_buf_length(BU)); zt_array_t c = zt_array_copy(AR, 5); h = F(h, zt_array_data(c), 5 * sizeof v); zt_array_free(&c); zt_ptr_array *p = zt_ptr_array_init(NULL, NULL); zt_ptr_array_cat(p, PA); h = FI(h, p->count); zt_ptr_array_free(p, 0); return h; }
typedef struct { const char *n; uint64_t (*f)(int); } script;
static int vals[12];
static void common(void) {
    T = zt_table_init("t", zt_table_hash_int, zt_table_compare_int, 4, 0, NULL); A = zt_set_init(zt_table_compare_int, NULL, NULL); B = zt_set_init(zt_table_compare_int, NULL, NULL); for (long i = 0; i < 9; i++) { vals[i] = i * i; zt_table_set(T, (void *)i, sizeof i, &vals[i], 1); zt_set_insert(B, (void *)i, sizeof i); if (i % 2) zt_set_insert(A, (void *)i, sizeof i); }
    I = zt_ipv4_tbl_init(8); zt_ipv4_tbl_add_frm_str(I, "10.0.0.0/8"); zt_ipv4_tbl_add_frm_str(I, "192.168.7.0/24"); for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) { static char *q[] = { "10.1.2.3", "192.168.7.7", "172.16.0.1" }; Q[k][i] = zt_ipv4_node_str_init(q[(i + k) % 3]); } C = zt_cfg_ini(cfgname[1][0], 0); for (int i = 0; i < 20; i++) { IT[i].key = i * 7 % 20 * 10; zt_rbt_insert(&H, &IT[i].n, icmp); }
    AR = zt_array_new(5, sizeof(int)); PA = zt_ptr_array_init(NULL, NULL); BU = zt_buf_new(); for (int i = 0; i < 5; i++) { int v = i * 3; zt_array_put(AR, i, &v); zt_ptr_array_add(PA, (void *)W[i % 3]); zt_buf_add(BU, (void *)W[i % 3], 3); }
}
static void files(void) { for (int c = 0; c < 2; c++) for (int k = 0; k < 3; k++) { sprintf(cfgname[c][k], "c49_%d_%d_%d.ini", (int)getpid(), c, k); FILE *f = fopen(cfgname[c][k], "w"); fprintf(f, "[main]\nnumber = %d\nratio = %d.5\nflag = %s\n[other]\ntext = 'words %d'\nlink = main.number\n", 11 + k, k, k % 2 ? "yes" : "no", k); fclose(f); } }
static void unfiles(void) { for (int c = 0; c < 2; c++) for (int k = 0; k < 3; k++) unlink(cfgname[c][k]); }
#define PARTS { "array", s_array }, { "pointer array", s_parray }, { "buffer", s_buf }, { "stream", s_bstream }, { "tree", s_tree }, { "collector", s_gc }, { "strings", s_cstr }, { "trimming", s_trim }, { "paths", s_paths }, { "splitting", s_split }, { "numbers", s_numbers }, { "hexdump", s_hexdump }, { "formatting", s_format }, { "bases", s_base }, { "digests", s_digest }, { "random", s_random }, { "uuids", s_uuid }, { "configuration", s_cfg }, { "hierarchical pools", s_ez }, { "times", s_time }, { "addresses", s_address }, { "options", s_opts }, { "formatting to a file", s_file }, { "directories", s_mkdir }, \
        { "reading a table", r_table }, { "reading sets", r_set }, { "reading networks", r_ipv4 }, { "reading a configuration", r_cfg }, { "reading a tree", r_tree }, { "reading sequences", r_seq }
