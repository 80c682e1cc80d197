/* mc.h -- explicit enumeration engine for executions of the real libzt code.
 *
 * A harness implements mc_run(): ONE complete execution, from a fresh start, of
 * the code under test.  Every nondeterministic decision (which operation comes
 * next, which input byte, what the environment answers, which thread runs) is
 * taken with mc_choose(n).  The engine enumerates every choice vector by
 * depth-first backtracking, shards the tree over worker processes, and detects
 * failed checks, crashes, sanitizer reports, hangs and leaks.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* --- provided by the harness --- */
extern void mc_setup(void);            /* once per worker process           */
extern void mc_run(void);              /* one execution                     */

/* --- choice points --- */
unsigned mc_choose(unsigned n);        /* 0..n-1, enumerated exhaustively   */
void mc_prune(void) __attribute__((noreturn)); /* abandon: not an execution  */
int  mc_param(const char *name, int quick, int thorough);
const char *mc_param_str(const char *name, const char *dflt);
extern int mc_thorough;

/* --- bookkeeping --- */
void mc_step(void);                    /* one transition (operation) done   */
void mc_state(uint64_t h);             /* note a reached state              */
void mc_nontrivial(void);              /* this execution is non-trivial     */
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
}

/* --- verdicts --- */
/* key identifies the failing input / history independent of addresses.     */
void mc_fail(const char *fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

/* --- trace text (only recorded while a vector is being replayed) --- */
extern int mc_logging;
void mc_logf(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define MC_LOG(...) do { if (mc_logging) mc_logf(__VA_ARGS__); } while (0)

/* --- live heap blocks owned by the calling process (ASan builds) --- */
long mc_live_blocks(void);
long mc_live_bytes(void);

extern int mc_forked;                  /* set in mc_setup(): every execution runs in a process of its own (threads allowed) */
extern int mc_pure;                    /* set in mc_setup(): the code under test keeps no global state,
                                          so an execution may be abandoned by longjmp */
extern int mc_shard_depth;             /* default 2                         */
int mc_drained(void);                  /* threaded: this run is not ours    */

/* scratch buffers fenced by ASan redzones: exactly n bytes                  */
static inline char *mc_dupn(const void *p, size_t n) {
    char *r = malloc(n ? n : 1);
    if (n) memcpy(r, p, n);
    return r;
}
#endif
