/* C25: checked arithmetic on all operand pairs: the exact result when it is representable, an abort otherwise. */
#include "mc.h"
#include <setjmp.h>
#include <limits.h>
#include <zt.h>
#include <libzt/zt_int.h>
#ifdef NDEBUG
#error the property is about builds with assertions
#endif
static jmp_buf out; static volatile int armed;
void __wrap__zt_log_assertion(const char *a, const char *b, unsigned c, const char *d) { (void)a; (void)b; (void)c; (void)d; }
void __real_abort(void); void __wrap_abort(void) { if (armed) longjmp(out, 1); __real_abort(); }
typedef __int128 W;
typedef W (*opf)(W, W);
#define OP(t, n, o) static W n##_##o(W a, W b) { return (W)zt_##n##_##o((t)a, (t)b); }
#define OPS(t, n) OP(t, n, add) OP(t, n, sub) OP(t, n, mul) OP(t, n, div)
#define OPS2(t, n) OP(t, n, add) OP(t, n, sub)
OPS(signed char, char) OPS(unsigned char, uchar) OPS(short, short) OPS(unsigned short, ushort) OPS(int, int) OPS(unsigned, uint) OPS2(long, long) OPS2(unsigned long, ulong)
static struct { const char *name; W min, max; opf f[4]; } T[] = {
#define F4(n) { n##_add, n##_sub, n##_mul, n##_div }
    { "char", SCHAR_MIN, SCHAR_MAX, F4(char) }, { "uchar", 0, UCHAR_MAX, F4(uchar) }, { "short", SHRT_MIN, SHRT_MAX, F4(short) }, { "ushort", 0, USHRT_MAX, F4(ushort) },
    { "int", INT_MIN, INT_MAX, F4(int) }, { "uint", 0, UINT_MAX, F4(uint) }, { "long", LONG_MIN, LONG_MAX, { long_add, long_sub } }, { "ulong", 0, ULONG_MAX, { ulong_add, ulong_sub } } };
static const char *ON[] = { "add", "sub", "mul", "div" };
static W V[8][1000]; static int NV[8];
static void val(int t, W v) { if (v < T[t].min || v > T[t].max) return; for (int i = 0; i < NV[t]; i++) if (V[t][i] == v) return; V[t][NV[t]++] = v; }
void mc_setup(void) {
    mc_pure = 1; mc_shard_depth = 3;
    int dens = mc_param("spread", 2, 5);
    for (int t = 2; t < 8; t++) { for (int d = -dens; d <= dens; d++) { for (int k = 0; k < 65; k++) { W p = (W)1 << k; val(t, p + d); val(t, -p + d); val(t, T[t].max - p + d); if (k % 8 == 0) { val(t, T[t].max / (p + 1) + d); } } val(t, 46341 + d); val(t, 181 + d); val(t, 65536 * 3 + d); val(t, d); for (int q = 3; q < 8; q += 2) { val(t, T[t].max / q + d); val(t, T[t].min / q + d); } } }
}
static void one(int t, int o, W a, W b) {
    W r = 0; volatile int ab = 0; W w = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : b ? a / b : 0; int okk = (o != 3 || b) && w >= T[t].min && w <= T[t].max;
    MC_LOG("%s_%s %lld %lld", T[t].name, ON[o], (long long)a, (long long)b);
    armed = 1; if (!setjmp(out)) r = T[t].f[o](a, b); else ab = 1; armed = 0;
    if (okk) MC_CHECK(!ab && r == w, "zt_%s_%s(%lld, %lld) %s %lld, must be %lld", T[t].name, ON[o], (long long)a, (long long)b, ab ? "aborted," : "is", (long long)r, (long long)w);
    else MC_CHECK(ab, "zt_%s_%s(%lld, %lld) is %lld, must abort", T[t].name, ON[o], (long long)a, (long long)b, (long long)r);
    mc_step();
}
void mc_run(void) {
    int t = mc_choose(mc_thorough ? 10 : 8);
    if (t >= 8) { t -= 6; W a = T[t].min + (W)(mc_choose(256) * 256); for (int k = 0; k < 256; k++) for (W b = T[t].min; b <= T[t].max; b++) for (int o = 0; o < 4; o++) one(t, o, a + k, b); mc_nontrivial(); mc_state(0); return; }   /* all pairs of shorts */
    int o = mc_choose(t < 6 ? 4 : 2);
    if (t < 2) { W a = T[t].min + mc_choose(256); for (W b = T[t].min; b <= T[t].max; b++) one(t, o, a, b); }
    else { W a = V[t][mc_choose(NV[t])]; for (int i = 0; i < NV[t]; i++) one(t, o, a, V[t][i]); }
    mc_nontrivial(); mc_state(mc_mix(t, o));
}
