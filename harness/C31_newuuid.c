/* C31: name-based UUIDs against an independent SHA-1; random UUIDs made by several threads under every schedule. */
#include "mc.h"
#include "ctl.h"
#include <zt.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include "sha1ref.h"
#ifndef NAMES
/* the clock stands still: everything happens within the same second */
#define R(ret, name, args, call) extern ret __real_##name args; ret __wrap_##name args { if (!sc_active) return __real_##name call;
R(time_t, time, (time_t *t), (t)) if (t) *t = 1400000000; return 1400000000; }
R(int, gettimeofday, (struct timeval *t, void *z), (t, z)) t->tv_sec = 1400000000; t->tv_usec = 0; return 0; }
R(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t)) t->tv_sec = 1400000000; t->tv_nsec = 0; return 0; }
R(clock_t, clock, (void), ()) return 0; }
#endif
static const uint8_t NS[4][16] = { /* RFC 4122, appendix C */
    { 0x6b,0xa7,0xb8,0x10,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8 }, { 0x6b,0xa7,0xb8,0x11,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8 },
    { 0x6b,0xa7,0xb8,0x12,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8 }, { 0x6b,0xa7,0xb8,0x14,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8 } };
static const char *hx(const uint8_t *d) { static char t[4][33]; static int k; char *o = t[k++ & 3]; for (int i = 0; i < 16; i++) sprintf(o + 2 * i, "%02x", d[i]); return o; }
static void want5(const uint8_t *n, size_t l, int ns, uint8_t *o) { static uint8_t b[1100000]; uint8_t d[20]; memcpy(b, NS[ns], 16); memcpy(b + 16, n, l); ref(b, l + 16, d); memcpy(o, d, 16); o[6] = (o[6] & 15) | 0x50; o[8] = (o[8] & 0x3f) | 0x80; }
static void five(const uint8_t *n, size_t l, int ns) {
    char *s = mc_dupn(n, l); zt_uuid_t *u = malloc(sizeof *u); uint8_t w[16]; memset(u, 0x5a, sizeof *u); mc_step();
    int r = zt_uuid5(s, l, ns, u); want5(n, l, ns, w);
    MC_CHECK(r == 0, "zt_uuid5 of a name of %zu bytes returns %d", l, r); MC_CHECK(!memcmp(s, n, l), "name of %zu bytes modified", l);
    MC_CHECK(!memcmp(u, w, 16), "uuid of name %s (%zu bytes) in namespace %d is %s, must be %s", l < 3 ? hx(n) + 30 - 2 * (l == 2) : "", l, ns, hx((void *)u), hx(w));
    free(s); free(u);
}
#ifndef NAMES
#define MAXU 8
static zt_uuid_t U[MAXU * 400]; static int nU, per, mixed;
static void look(zt_uuid_t *u, int t, int k) { MC_CHECK((u->data.bytes[6] & 0xf0) == 0x40, "uuid %d of thread %d: version %d", k, t, u->data.bytes[6] >> 4); MC_CHECK((u->data.bytes[8] & 0xc0) == 0x80, "uuid %d of thread %d: variant bits %d", k, t, u->data.bytes[8] >> 6); }
static void *gen(void *a) {
    int t = sc_self(); for (int k = 0; k < per; k++) {
        zt_uuid_t u; memset(&u, k * 0x5a, sizeof u); MC_LOG("T%d makes a random uuid", t); int r = zt_uuid4(&u); MC_CHECK(r == 0, "zt_uuid4 returns %d", r); look(&u, t, k); U[nU++] = u;
        if (mixed) five((const uint8_t *)"some name", 9, 1);
    } return NULL;
}
static int cmp(const void *a, const void *b) { return memcmp(a, b, sizeof(zt_uuid_t)); }
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 4; mc_param("preemptions", 2, 3); mc_param("threads", 3, 4); }
void mc_run(void) {
    int mode = mc_choose(6), nt = 2, pb = mc_param("preemptions", 2, 3), mainalso = 0, seq = 0; pthread_t p[8];
    per = 1; mixed = 0; mc_nontrivial();
    switch (mode) {
    case 0: per = 1 + mc_choose(2); break;
    case 1: nt = mc_param("threads", 3, 4); pb--; break;
    case 2: mainalso = 1; nt = 1 + mc_choose(2); if (nt == 2) pb--; break;                 /* main first, then threads, then main again */
    case 3: mixed = 1; break;                                        /* name-based ones in between */
    case 4: seq = 1; nt = 2 + mc_choose(3); per = 1 + mc_choose(2); pb = 0; break;  /* one thread after the other */
    case 5: nt = 1 + mc_choose(2); per = 400; pb = 0; mainalso = 1; break;             /* long streams: several state regenerations */
    }
    MC_LOG("%d thread(s) making %d each%s%s", nt, per, mainalso ? ", main too" : "", seq ? ", one after the other" : "");
    sc_begin(pb);
    if (mainalso) gen(NULL);
    for (int i = 0; i < nt; i++) { pthread_create(&p[i], NULL, gen, NULL); if (seq) pthread_join(p[i], NULL); }
    if (mainalso) gen(NULL);
    if (!seq) for (int i = 0; i < nt; i++) pthread_join(p[i], NULL);
    sc_end();
    qsort(U, nU, sizeof *U, cmp); for (int i = 1; i < nU; i++) MC_CHECK(cmp(&U[i - 1], &U[i]), "the same uuid is made twice by %d thread(s)", nt);
    MC_CHECK(nU == (nt + 2 * mainalso) * per, "lost count"); mc_state(mc_mix(mode * 16 + nt, sc_points));
}
#else
static int maxlen;
void mc_setup(void) { uint8_t d[20]; ref((void *)"abc", 3, d); if (d[0] != 0xa9 || d[19] != 0x9d) { fprintf(stderr, "reference SHA-1 is wrong\n"); exit(3); } maxlen = mc_param("name length", 300, 600); mc_pure = 1; mc_shard_depth = 3; }
void mc_run(void) {
    int mode = mc_choose(5), ns = mc_choose(4); static uint8_t b[1100000];
    if (mode == 0) { int l = mc_choose(2); if (l) b[0] = mc_choose(256); MC_LOG("name of %d bytes %02x", l, l ? b[0] : 0); five(b, l, ns); mc_nontrivial(); mc_state(mc_hash(ns, b, l)); }
    else if (mode == 1) { b[0] = mc_choose(256); for (int i = 0; i < 256; i++) { b[1] = i; five(b, 2, ns); mc_state(mc_hash(ns, b, 2)); } mc_nontrivial(); }
    else if (mode == 2) { int l = mc_choose(maxlen), f = mc_choose(3); for (int i = 0; i < l; i++) b[i] = f == 0 ? i * 7 + 1 : f == 1 ? 0xff : 0; MC_LOG("name of %d bytes, pattern %d", l, f); five(b, l, ns); five(b, l, ns); mc_nontrivial(); mc_state(mc_mix(mc_mix(ns, l), f)); }
    else if (mode == 4) { /* long names */ static const int L[] = { 1000, 1008, 1023, 1024, 1025, 4079, 4080, 4095, 4096, 4097, 32767, 32768, 65519, 65520, 65535, 65536, 65537, 70000, 1000000, 1048576 }; int l = L[mc_choose(20)]; for (int i = 0; i < l; i++) b[i] = i * 31 + (i >> 8) + 1; MC_LOG("name of %d bytes", l); five(b, l, ns); b[l - 1] ^= 1; five(b, l, ns); mc_nontrivial(); mc_state(mc_mix(mc_mix(ns, l), 5)); }
    else { /* unknown namespaces, and history: an unknown one and other names before */ static const int bad[] = { 4, -1, 5, 100, 0x7fffffff, -0x7fffffff - 1 }; int k = mc_choose(6); zt_uuid_t u; memset(&u, 0x5a, sizeof u); zt_log_ty *l = zt_log_file("/dev/null", ZT_LOG_FILE_APPEND, ZT_LOG_RAW), *o = zt_log_logger(l);
        MC_LOG("namespace %d", bad[k]); int r = zt_uuid5("x", 1, bad[k], &u); zt_log_logger(o == l ? NULL : o); zt_log_close(l); MC_CHECK(r == -1, "unknown namespace %d: returns %d", bad[k], r); five((void *)"after", 5, ns); mc_step(); mc_state(mc_mix(99, k)); }
}
#endif
