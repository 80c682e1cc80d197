/* C46: allocation wrappers, assertions and the basic macros. Compiled twice: with assertions and without (NDEBUG). */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_log/log_private.h>
#include <setjmp.h>
#include <limits.h>
#include <errno.h>
#include <malloc.h>
#include <stdarg.h>
#include <stddef.h>
#include <sys/select.h>
#include <poll.h>
#include <time.h>
static jmp_buf out; static volatile int armed, aborted; void __real_abort(void); void __wrap_abort(void) { if (armed) { aborted++; longjmp(out, 1); } __real_abort(); }
/* failing and dirty memory */
static int fail_in, watching, frees; static size_t biggest; static int no(size_t n) { if (!watching) return 0; if (n > biggest) biggest = n; if (n > (size_t)1 << 32) { errno = ENOMEM; return 1; } if (fail_in && !--fail_in) { errno = ENOMEM; return 1; } return 0; }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { if (no(n)) return NULL; void *p = __real_malloc(n); if (p && watching) memset(p, 0xa5, n); return p; }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX; if (no(n)) return NULL; return __real_calloc(a, b); }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *p, size_t n) { if (no(n)) return NULL; return __real_realloc(p, n); }
char *__real_strdup(const char *); char *__wrap_strdup(const char *s) { if (no(strlen(s) + 1)) return NULL; return __real_strdup(s); }
void *__real_reallocarray(void *, size_t, size_t); void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX; if (no(n)) return NULL; return __real_reallocarray(p, a, b); }
/* waiting: whichever call is used, it is recorded and returns at once */
static long long slept; static int waits, badwait, sleeping; static int nap(long long s, long ns, long per, int bad) { waits++; badwait |= bad; slept += s * 1000000000ll + (long long)ns * per; return 0; }
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { if (!sleeping) return __real_select(n, r, w, e, t); return t ? nap(t->tv_sec, t->tv_usec, 1000, n || t->tv_sec < 0 || t->tv_usec < 0 || t->tv_usec > 999999) : nap(0, 0, 0, 1); }
int __real_nanosleep(const struct timespec *, struct timespec *); int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { if (!sleeping) return __real_nanosleep(t, r); return nap(t->tv_sec, t->tv_nsec, 1, t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999); }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { (void)c; (void)r; return nap(t->tv_sec, t->tv_nsec, 1, f || t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999); }
int __wrap_usleep(unsigned n) { return nap(0, n, 1000, 0); }
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { (void)f; return nap(0, ms, 1000000, n || ms < 0); }
/* a logger that records */
static char msg[40000]; static int msgs, lvl; static void rec(zt_log_ty *l, zt_log_level level, const char *file, int line, const char *func, const char *fmt, va_list ap) { (void)l; (void)file; (void)line; (void)func; msgs++; lvl = level; vsnprintf(msg, sizeof msg, fmt, ap); } static void nod(zt_log_ty *l) { (void)l; }
static zt_log_vtbl_ty vt = { sizeof(zt_log_ty), nod, rec };
typedef struct { char c[3]; } T3; typedef struct { char c[24]; } T24; typedef struct { char c[1000]; } T1000; typedef struct { char c[65536]; } T64k;
static const size_t SZ[] = { 1, 2, 3, 4, 8, 24, 1000, 65536 };
#define BYTYPE(CALL) switch (ts) { case 0: CALL(char); break; case 1: CALL(short); break; case 2: CALL(T3); break; case 3: CALL(int); break; case 4: CALL(uint64_t); break; case 5: CALL(T24); break; case 6: CALL(T1000); break; default: CALL(T64k); }
static size_t NUM[400]; static int nnum; static void addn(size_t n) { for (int i = 0; i < nnum; i++) if (NUM[i] == n) return; NUM[nnum++] = n; }
static char line[200]; static void *volatile vp;
static int stops(int want, const char *what) { MC_CHECK(aborted == want, "%s: %s", line, want ? "the program goes on" : "the program is stopped"); MC_CHECK(msgs == want, "%s: %d messages", line, msgs); if (want) MC_CHECK(strstr(msg, "Assertion Failed: \"") && lvl == zt_log_err, "%s: message '%.60s' at level %d (%s)", line, msg, lvl, what); return want; }
static void allocs(void) {
    int kind = mc_choose(6), ts = mc_choose(8), ni = mc_choose(nnum), f = mc_choose(2); size_t n = NUM[ni], sz = SZ[ts], total; int ovf = __builtin_mul_overflow(n, sz, &total); if (!ovf && total > (1u << 22) && total < (size_t)1 << 33) return; static const char *KN[] = { "zt_malloc", "zt_mallocs", "zt_calloc", "zt_callocs", "zt_realloc", "zt_realloc of nothing" };
    if (kind >= 4 && total == 0 && !ovf) return; /* what realloc(p, 0) means is up to the C library */
    size_t old = kind == 4 ? (size_t[]){ 1, 7, 64, 5000 }[mc_choose(4)] : 0; char *o = NULL; if (kind == 4) { o = malloc(old); for (size_t i = 0; i < old; i++) o[i] = i * 7 + 1; }
    snprintf(line, sizeof line, "%s of %zu elements of %zu bytes%s, old size %zu", KN[kind], n, sz, f ? ", no memory" : "", old); MC_LOG("%s", line); mc_step(); int impossible = f || ovf || total > (size_t)1 << 32; char *volatile p = NULL; long live = mc_live_blocks(); aborted = msgs = 0; biggest = 0; fail_in = f; watching = 1; armed = 1;
    if (!setjmp(out)) switch (kind) {
#define A(T) p = (char *)zt_malloc(T, n)
    case 0: BYTYPE(A) break; case 1: p = zt_mallocs(sz, n); break;
#define B(T) p = (char *)zt_calloc(T, n)
    case 2: BYTYPE(B) break; case 3: p = zt_callocs(sz, n); break;
#define C(T) p = (char *)zt_realloc(T, (T *)o, n)
    default: BYTYPE(C) }
    armed = watching = 0;
    if (stops(impossible, "allocation")) { MC_CHECK(mc_live_blocks() == live, "%s: memory lost", line); for (size_t i = 0; i < old; i++) MC_CHECK(o[i] == (char)(i * 7 + 1), "%s: the old block is changed", line); free(o); return; }
    MC_CHECK(p, "%s: NULL", line); MC_CHECK(malloc_usable_size(p) >= total, "%s: only %zu bytes", line, malloc_usable_size(p)); if (kind == 2 || kind == 3) for (size_t i = 0; i < total; i++) MC_CHECK(!p[i], "%s: byte %zu is not zero", line, i); for (size_t i = 0; i < old && i < total; i++) MC_CHECK(p[i] == (char)(i * 7 + 1), "%s: byte %zu lost", line, i);
    memset(p, 0x5a, total); char *q = p; zt_free(q); MC_CHECK(!q, "%s: zt_free leaves the pointer", line); zt_free(q); MC_CHECK(!q && mc_live_blocks() == live - (kind == 4), "%s: zt_free does not free", line); mc_nontrivial(); mc_state(mc_mix(mc_mix(kind, n), sz));
}
static void dups(void) {
    static const int L[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 100000 }; int k = mc_choose(30 + 1), f = mc_choose(2), nul = k == 30; size_t l = nul ? 0 : L[k]; char *s = nul ? NULL : malloc(l + 1); if (s) { for (size_t i = 0; i < l; i++) s[i] = i % 255 + 1; s[l] = 0; }
    snprintf(line, sizeof line, "zt_strdup of %s%zu characters%s", nul ? "NULL and " : "", l, f ? ", no memory" : ""); MC_LOG("%s", line); mc_step(); char *volatile d = NULL; aborted = msgs = 0; long live = mc_live_blocks(); fail_in = f; watching = armed = 1; if (!setjmp(out)) d = zt_strdup(s); armed = watching = 0;
    if (!stops(f || nul, "strdup")) { MC_CHECK(d && d != s && strlen(d) == l && !memcmp(d, s, l + 1) && malloc_usable_size(d) > l, "%s: not a copy", line); free(d); } MC_CHECK(mc_live_blocks() == live, "%s: memory left", line); free(s); mc_nontrivial(); mc_state(mc_mix(k, f));
}
/* assertions: evaluated so often, says what failed, goes on or not */
static int evals, after, ret; static int ev(int v) { evals++; return v; }
static void a_plain(int v) { zt_assert(ev(v) == 1); after = 1; } static void a_nf(int v) { zt_assert_nf(ev(v) == 1); after = 1; } static void a_always(int v) { zt_assert_always(ev(v) == 1); after = 1; } static void a_ret(int v) { zt_assert_return(ev(v) == 1); after = 1; } static int a_retV_(int v) { zt_assert_returnV(ev(v) == 1, 77); after = 1; return 5; } static void a_retV(int v) { ret = a_retV_(v); } static void a_abort(int v) { if (ev(v) != 1) zt_abort("the reason"); else after = 1; } static void a_else(int v) { if (v > 5) zt_assert_always(ev(v) == 100); else zt_assert_always(ev(v) == 1); after = 1; }
static void a_ptr(int v) { zt_assert_always(v == 1 ? "text" : NULL); ev(0); after = 1; } static void a_enable(int v) { int n = 0; (void)v; (void)n; zt_assert_enable(n = ev(1)); if (v == 1) after = 1; }
static const struct { const char *name, *cond; void (*f)(int); int debug_only, stop; } AS[] = { { "zt_assert", "ev(v) == 1", a_plain, 1, 1 }, { "zt_assert_nf", "ev(v) == 1", a_nf, 1, 0 }, { "zt_assert_always", "ev(v) == 1", a_always, 0, 1 }, { "zt_assert_return", "ev(v) == 1", a_ret, 0, 2 }, { "zt_assert_returnV", "ev(v) == 1", a_retV, 0, 2 }, { "zt_abort", "the reason", a_abort, 0, 3 }, { "zt_assert_always in if/else", "ev(v) == 1", a_else, 0, 1 }, { "zt_assert_always of a pointer", "v == 1 ? \"text\" : NULL", a_ptr, 0, 4 }, { "zt_assert_enable", "", a_enable, 1, 5 } };
static void asserts(void) {
    int k = mc_choose(9); static const int V[] = { 0, 1, 2, -1, 3, INT_MAX, INT_MIN }; int v = V[mc_choose(7)], good = v == 1; evals = after = ret = aborted = msgs = 0; *msg = 0; lvl = -1; if (k == 6 && v > 5) v = 4;
#ifdef NDEBUG
    int on = !AS[k].debug_only;
#else
    int on = 1;
#endif
    MC_LOG("%s, value %d, assertions %s", AS[k].name, v, on ? "on" : "off"); mc_step(); armed = 1; if (!setjmp(out)) AS[k].f(v); armed = 0;
    int st = AS[k].stop, stop = on && !good && (st == 1 || st == 3 || st == 4), wmsg = on && !good && st != 5; MC_CHECK(aborted == stop, "%s(%d): %s", AS[k].name, v, stop ? "does not stop the program" : "stops the program"); MC_CHECK(msgs == wmsg, "%s(%d): %d messages", AS[k].name, v, msgs); if (st != 4) MC_CHECK(evals == on, "%s(%d): the condition is evaluated %d times", AS[k].name, v, evals);
    int cont = st == 5 ? good : good || !on || AS[k].stop == 0; MC_CHECK(after == cont, "%s(%d): %s", AS[k].name, v, cont ? "does not go on" : "goes on"); if (k == 4) MC_CHECK(ret == (good ? 5 : 77), "zt_assert_returnV(%d) returns %d", v, ret);
    if (wmsg) { MC_CHECK(lvl == (st == 3 ? zt_log_crit : zt_log_err), "%s(%d): level %d", AS[k].name, v, lvl); char w[200]; snprintf(w, sizeof w, "%s: \"%s\"", st == 3 ? "Exiting" : "Assertion Failed", AS[k].cond); MC_CHECK(strstr(msg, w), "%s(%d): '%s' does not hold '%s'", AS[k].name, v, msg, w); MC_CHECK(strstr(msg, " C46_base.c[") && !strstr(msg, "/C46"), "%s(%d): '%s' does not name the file", AS[k].name, v, msg); MC_CHECK(strstr(msg, k == 4 ? "a_retV_" : k == 0 ? "a_plain" : k == 1 ? "a_nf" : k == 2 ? "a_always" : k == 3 ? "a_ret" : k == 5 ? "a_abort" : k == 6 ? "a_else" : "a_ptr"), "%s(%d): '%s' does not name the function", AS[k].name, v, msg); mc_nontrivial(); }
    mc_state(mc_mix(k, v));
}
static void texts(void) { /* the message functions with texts of any length */
    static const int L[] = { 0, 1, 20, 255, 1023, 1024, 4095, 4096, 9000 }, D[] = { 0, 1, 10, 250, 1000, 3800 }; int which = mc_choose(2), sl = L[mc_choose(9)], nul = mc_choose(2), fn = mc_choose(4), dl = D[mc_choose(6)], bl = (int[]){ 1, 12, 254 }[mc_choose(3)]; static const unsigned LN[] = { 0, 1, 99999, INT_MAX }; unsigned ln = LN[mc_choose(4)]; if (nul && sl) return;
    static char s[9001], file[4400], func[3001]; memset(s, 's', sl); s[sl] = 0; if (sl > 3) memcpy(s, "a%s", 3); char *p = file; for (int i = 0; i < dl; i++) *p++ = i % 50 == 49 || i == dl - 1 ? '/' : 'd'; memset(p, 'f', bl); p[bl] = 0; char *base = p; int fl = fn == 1 ? 1 : fn == 2 ? 300 : 3000; memset(func, 'g', fl); func[fl] = 0;
    MC_LOG("%s text %d, directory %d, base %d, function %d, line %u", which ? "abort" : "assertion", sl, dl, bl, fn ? fl : -1, ln); mc_step(); msgs = aborted = 0; if (which) _zt_log_abort(nul ? NULL : s, file, ln, fn ? func : NULL); else _zt_log_assertion(nul ? NULL : s, file, ln, fn ? func : NULL);
    MC_CHECK(msgs == 1 && lvl == (which ? zt_log_crit : zt_log_err), "%d messages, level %d", msgs, lvl); char *w; if (asprintf(&w, "%s: \"%s\": %s[%u%s%s]", which ? "Exiting" : "Assertion Failed", nul ? (which ? "no message given" : "no assertion given") : s, base, ln, fn ? ":" : "", fn ? func : "") < 0) __real_abort(); MC_CHECK(!strcmp(w, msg), "message '%.100s', must be '%.100s'", msg, w); free(w); mc_nontrivial(); mc_state(mc_hash(which, msg, strlen(msg)));
}
static int asked; static long ask(long v) { asked++; return v; }
static void naps(void) { /* the waiting macro: the whole argument, once, whatever the variables around it are called */
    static const long W[] = { 0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 1999999, 2000000, 2500000, 59999999, 3600000000l }; long a = W[mc_choose(14)], b = W[mc_choose(14)], want; int form = mc_choose(16); long usec = a, msec = b, sec = a, t = a, millisec = b, *ptr = &t; int req = b > 2000000000 ? 5 : (int)b; unsigned small = a > 2000000000 ? 7 : (unsigned)a; MC_LOG("wait %ld %ld, form %d", a, b, form); mc_step(); mc_nontrivial(); slept = waits = badwait = asked = 0; sleeping = 1;
    switch (form) {
    case 0: usleep(a); want = a; break;
    case 1: usleep(a + b); want = a + b; break;
    case 2: usleep(a > b ? a - b : b - a); want = labs(a - b); break;
    case 3: usleep(usec); want = a; break;
    case 4: usleep(msec); want = b; break;
    case 5: usleep(sec); want = a; break;
    case 6: usleep(millisec); want = b; break;
    case 7: usleep(req); want = req; break;
    case 8: usleep(ask(a)); want = a; break;
    case 9: usleep(t++); want = a; MC_CHECK(t == a + 1, "usleep(t++): the argument is used %ld times", t - a); break;
    case 10: usleep(*ptr); want = a; break;
    case 11: usleep(small); want = small; break;
    case 12: if (a > b) usleep(a); else usleep(b); want = a > b ? a : b; break;
    case 13: usleep(usec + msec); want = a + b; break;
    case 14: usleep(a | 1); want = a | 1; break;
    default: usleep((a, b)); want = b; break;
    }
    sleeping = 0; if (form == 8) MC_CHECK(asked == 1, "usleep(f()): the argument is used %d times", asked); MC_CHECK(!badwait && (waits || !want), "usleep of %ld microseconds (form %d): %s", want, form, waits ? "not a wait" : "no wait"); MC_CHECK(slept == want * 1000ll, "usleep of %ld microseconds (form %d) waits for %lld nanoseconds", want, form, slept); mc_state(mc_mix(mc_mix(form, a), b));
}
static void bits(void) { /* flags of one type in a word of another */
    int tw = mc_choose(5), bw = mc_choose(7), i = mc_choose(64), j = mc_choose(64); static const int BW[] = { 8, 16, 31, 32, 63, 64, 7 }; if (i >= BW[bw] || (j && j >= BW[bw]) || i < j) return; uint64_t b = 1ull << i | 1ull << j; static const uint64_t WM[] = { 0xff, 0xffff, 0xffffffff, ~0ull, ~0ull }; uint64_t m = WM[tw], pat = 0xf7a5c3e19b6d8f2full & m, want, got; if (b & ~m) return; MC_LOG("bits %d and %d of type %d in a word of type %d", i, j, bw, tw); mc_step(); mc_nontrivial();
#define BT(T, B) do { T w_ = (T)pat; got = (uint64_t)w_; ZT_BIT_SET(w_, (B)b); got = (uint64_t)w_ & m; want = (pat | b) & m; if (got == want) { w_ = (T)pat; ZT_BIT_UNSET(w_, (B)b); got = (uint64_t)w_ & m; want = pat & ~b & m; } if (got == want) { got = ZT_BIT_ISSET((T)pat, (B)b); want = (pat & b) != 0; } if (got == want) { got = ZT_BIT_ISUNSET((T)pat, (B)b); want = !(pat & b); } } while (0)
#define BB(B) switch (tw) { case 0: BT(uint8_t, B); break; case 1: BT(uint16_t, B); break; case 2: BT(uint32_t, B); break; case 3: BT(uint64_t, B); break; default: BT(int64_t, B); }
    switch (bw) { case 0: BB(uint8_t) break; case 1: BB(uint16_t) break; case 2: BB(int) break; case 3: BB(unsigned) break; case 4: BB(long) break; case 5: BB(uint64_t) break; default: BB(signed char) }
    MC_CHECK(got == want, "bits %d and %d, of type %d, in a word of type %d: %llx, must be %llx", i, j, bw, tw, (unsigned long long)got, (unsigned long long)want); mc_state(mc_mix(mc_mix(tw, bw), mc_mix(i, j)));
}
struct hold { char a; long b; struct { int x; char y; } in; char tail; };
static void macros(void) {
    int k = mc_choose(4); long vals[] = { LONG_MIN + 1, INT_MIN, -3, -2, -1, 0, 1, 2, 3, 5, INT_MAX, LONG_MAX }; mc_step(); mc_nontrivial();
    if (k == 0) { long a = vals[mc_choose(12)], b = vals[mc_choose(12)], c = vals[mc_choose(12)]; MC_LOG("macros of %ld %ld %ld", a, b, c); MC_CHECK(MIN(a, b) == (a < b ? a : b) && MAX(a, b) == (a > b ? a : b) && ABS(a) == labs(a) && CEILING(a, b) == (a > b ? b : a) && FLOOR(a, b) == (a < b ? b : a), "MIN, MAX, ABS, CEILING or FLOOR of %ld and %ld", a, b); if (b <= c) MC_CHECK(CLAMP(a, b, c) == (a < b ? b : a > c ? c : a), "CLAMP(%ld,%ld,%ld)", a, b, c);
        int p = a & 7, q = b & 7, r = c & 7; MC_CHECK(MIN(p | 1, q & 3) == ((p | 1) < (q & 3) ? (p | 1) : (q & 3)) && MAX(p ^ 1, q & 3) == ((p ^ 1) > (q & 3) ? (p ^ 1) : (q & 3)) && 10 - MIN(p, q) == 10 - (p < q ? p : q) && 2 * MAX(p, q) == 2 * (p > q ? p : q) && ABS(p - q) == abs(p - q) && 8 - ABS(p - q) == 8 - abs(p - q) && CEILING(p ^ q, r ? 3 : 4) == ((p ^ q) > (r ? 3 : 4) ? (r ? 3 : 4) : (p ^ q)) && FLOOR(p ^ q, r ? 3 : 4) == ((p ^ q) < (r ? 3 : 4) ? (r ? 3 : 4) : (p ^ q)) && 3 * CLAMP(p ^ q, r & 1, r | 2) == 3 * ((p ^ q) > (r | 2) ? (r | 2) : (p ^ q) < (r & 1) ? (r & 1) : (p ^ q)), "macros with expressions of %d %d %d", p, q, r); mc_state(mc_hash(k, (long[]){ a, b, c }, 24)); }
    else if (k == 1) { unsigned t = mc_choose(16), b = mc_choose(16), t0 = t; MC_LOG("bits %x of %x", b, t); MC_CHECK(ZT_BIT_ISSET(t, b) == ((t & b) != 0) && ZT_BIT_ISUNSET(t, b) == ((t & b) == 0), "bit tests of %x in %x", b, t); ZT_BIT_SET(t, b); MC_CHECK(t == (t0 | b), "setting %x in %x", b, t0); t = t0; ZT_BIT_UNSET(t, b); MC_CHECK(t == (t0 & ~b), "clearing %x in %x", b, t0); t = t0; ZT_BIT_SET(t, b & 1 ? 2 : 4); MC_CHECK(t == (t0 | (b & 1 ? 2 : 4)), "setting an expression"); t = t0; ZT_BIT_UNSET(t, b | 1); MC_CHECK(t == (t0 & ~(b | 1)), "clearing an expression"); MC_CHECK(!ZT_BIT_ISSET(t0 | 8, 0) && ZT_BIT_ISSET(t0 | 8, b | 8) && ZT_BIT_ISSET(t0 ^ b, t0 ^ b) == (t0 != b), "testing an expression"); uint64_t big = 0; ZT_BIT_SET(big, 1ull << (t0 + 40)); MC_CHECK(big == 1ull << (t0 + 40) && ZT_BIT_ISSET(big, 1ull << (t0 + 40)), "bit %u", t0 + 40); mc_state(mc_mix(t0, b)); }
    else if (k == 2) { int tgt = mc_choose(41), step = 1 + mc_choose(8), start = mc_choose(tgt + 1); char b[900], w[900]; MC_LOG("indent %d %d %d", tgt, step, start); sprintf(b, "x" BLANK "y" NL, INDENT_TO(tgt, step, start)); sprintf(w, "x%*sy\n", tgt - start, ""); MC_CHECK(!strcmp(b, w), "INDENT_TO(%d,%d,%d) gives '%s'", tgt, step, start, b); sprintf(b, "x" BLANK "y" NL, INDENT(start)); sprintf(w, "x%*sy\n", start * 5, ""); MC_CHECK(!strcmp(b, w), "INDENT(%d) gives '%s'", start, b); sprintf(b, "x" BLANK "y" NL, INDENT_PAD(start, step, tgt)); sprintf(w, "x%*sy\n", start * step + tgt, ""); MC_CHECK(!strcmp(b, w), "INDENT_PAD(%d,%d,%d) gives '%s'", start, step, tgt, b);
        sprintf(b, BLANK, INDENT_PAD(start & 7, step - 1, tgt & 3)); MC_CHECK((int)strlen(b) == (start & 7) * (step - 1) + (tgt & 3), "INDENT_PAD(%d & 7, %d - 1, %d & 3) gives %zu blanks", start, step, tgt, strlen(b)); sprintf(b, BLANK, INDENT_TO(tgt + 2, step + 1, start + 1)); MC_CHECK((int)strlen(b) == tgt + 1 - start, "INDENT_TO with expressions: %zu blanks", strlen(b)); sprintf(b, BLANK, INDENT(start & 7)); MC_CHECK((int)strlen(b) == (start & 7) * 5, "INDENT(%d & 7): %zu blanks", start, strlen(b)); mc_state(mc_mix(mc_mix(tgt, step), start)); }
    else { struct hold h[3], *p = h; int arr[7], two[3][5], *e = arr; char one[1]; (void)e; MC_LOG("arrays and structures"); MC_CHECK(sizeof_array(arr) == 7 && sizeof_array(two) == 3 && sizeof_array(two[1]) == 5 && sizeof_array(one) == 1 && sizeof_array("abc") == 4, "sizeof_array"); MC_CHECK(endof_array(arr) == arr + 7 && endof_array(two) == two + 3 && endof_array(one) == one + 1, "endof_array"); MC_CHECK(zt_offsetof(struct hold, b) == offsetof(struct hold, b) && zt_offsetof(struct hold, in.y) == offsetof(struct hold, in.y) && zt_offsetof(struct hold, a) == 0, "zt_offsetof"); for (int i = 0; i < 3; i++) MC_CHECK(zt_containerof(&h[i].a, struct hold, a) == h + i && zt_containerof(&p[i].b, struct hold, b) == h + i && zt_containerof(&h[i].in.y, struct hold, in.y) == h + i && zt_containerof(&p[i].tail, struct hold, tail) == h + i && zt_containerof((char *)h + i * sizeof *h + offsetof(struct hold, in), struct hold, in) == h + i, "zt_containerof element %d", i); mc_state(mc_mix(99, 1)); }
}
void mc_setup(void) {
    mc_param("largest exponent", 64, 64); mc_shard_depth = 3; for (size_t i = 0; i <= 20; i++) addn(i); for (int k = 5; k < 64; k++) for (int d = -1; d <= 1; d++) addn(((size_t)1 << k) + d); for (unsigned i = 0; i < 8; i++) for (int d = -2; d <= 3; d++) addn(SIZE_MAX / SZ[i] + d); for (unsigned i = 0; i < 8; i++) addn((size_t)PTRDIFF_MAX / SZ[i] + 1);
    zt_log_logger(zt_log_new(&vt, 0)); zt_log_printf(zt_log_err, "first"); }
void mc_run(void) { switch (mc_choose(7)) { case 0: allocs(); break; case 1: dups(); break; case 2: asserts(); break; case 3: texts(); break; case 4: macros(); break; case 5: naps(); break; default: bits(); } }
