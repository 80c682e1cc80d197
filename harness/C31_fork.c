/* C31 (fork): random UUIDs made by a process, by its threads and by the processes it forks are pairwise distinct. */
#include "mc.h"
#include <zt.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (t) *t = 1400000000; return 1400000000; } /* everything happens within one second */
#define MAXU 65536
static int mypid = 100000, step; /* process numbers follow a pattern: increasing, decreasing, alike in their low bits */
pid_t __wrap_getpid(void) { return mypid; }
static struct sh { int n, bad, procs, made; zt_uuid_t u[MAXU]; } *S; static int per;
static pid_t newproc(void) { int p = 100000 + step * __sync_add_and_fetch(&S->made, 1); pid_t f = fork(); if (!f) mypid = p; return f; }
static void gen(void) { for (int i = 0; i < per; i++) { zt_uuid_t u; memset(&u, i * 0x5a, sizeof u); if (zt_uuid4(&u)) __sync_fetch_and_add(&S->bad, 1); int k = __sync_fetch_and_add(&S->n, 1); if (k < MAXU) S->u[k] = u; } }
static void *tgen(void *a) { (void)a; gen(); return NULL; }
static void *tfork(void *a) { (void)a; gen(); pid_t p = newproc(); if (!p) { gen(); _exit(0); } __sync_fetch_and_add(&S->procs, 1); int st; waitpid(p, &st, 0); if (st) __sync_fetch_and_add(&S->bad, 1); gen(); return NULL; }
static int cmp(const void *a, const void *b) { return memcmp(a, b, sizeof(zt_uuid_t)); }
static int depth;
void mc_setup(void) { depth = mc_param("operations", 5, 6); mc_forked = 1; mc_shard_depth = 3; }
void mc_run(void) {
    static const char OP[] = "GFTKC"; static const int STEP[] = { 1, -1, 0x8000, 0x10000 }; char prog[10]; int n = 1 + mc_choose(depth), want = 0, procs = 1; per = mc_choose(2) ? 200 : 1; for (int i = 0; i < n; i++) prog[i] = OP[mc_choose(5)]; prog[n] = 0; step = STEP[per == 1 ? mc_choose(4) : 0];
    int nf = 0; for (int i = 0; i < n; i++) nf += prog[i] == 'F'; if (per > 1 && nf > 2) return; /* enough processes */
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); MC_CHECK(S != MAP_FAILED, "mmap"); MC_LOG("program %s, %d each, process numbers %d apart (G generate, F fork, T in a new thread, K a thread that forks, C a child only)", prog, per, step);
    for (int i = 0; i < n; i++) { switch (prog[i]) { case 'G': case 'T': want += procs * per; break; case 'K': want += 3 * procs * per; break; case 'C': want += procs * per; break; case 'F': procs *= 2; } mc_step(); }
    pid_t kid[10]; int nk = 0, root = 1;
    for (int i = 0; i < n; i++) { pthread_t t; int st; switch (prog[i]) {
        case 'G': gen(); break;
        case 'T': pthread_create(&t, NULL, tgen, NULL); pthread_join(t, NULL); break;
        case 'K': pthread_create(&t, NULL, tfork, NULL); pthread_join(t, NULL); break;
        case 'C': { pid_t p = newproc(); if (!p) { gen(); _exit(0); } waitpid(p, &st, 0); if (st) __sync_fetch_and_add(&S->bad, 1); break; }
        case 'F': { pid_t p = newproc(); if (!p) { root = 0; nk = 0; } else kid[nk++] = p; } } }
    for (int i = 0; i < nk; i++) { int st; waitpid(kid[i], &st, 0); if (st) __sync_fetch_and_add(&S->bad, 1); }
    if (!root) _exit(0);
    MC_CHECK(!S->bad, "program %s: a process or thread failed", prog); MC_CHECK(S->n == want && want <= MAXU, "program %s: %d uuids instead of %d", prog, S->n, want);
    qsort(S->u, S->n, sizeof *S->u, cmp); for (int i = 0; i < S->n; i++) { MC_CHECK((S->u[i].data.bytes[6] & 0xf0) == 0x40 && (S->u[i].data.bytes[8] & 0xc0) == 0x80, "program %s: not a random uuid", prog); if (i) MC_CHECK(cmp(&S->u[i - 1], &S->u[i]), "program %s: the same uuid is made twice", prog); }
    munmap(S, sizeof *S); if (procs > 1 || strpbrk(prog, "KC")) mc_nontrivial(); mc_state(mc_hash(per, prog, n));
}
