#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXVEC   16384
#define MAXVIOL  256
#define KEYLEN   400
#define LOGLEN   (1 << 18)
#define MAXW     64
#define EX_VIOL  77          /* worker: violation recorded, restart me */
#define EX_HANG  78
#define EX_ENG   79          /* engine error */

struct wk {
    uint32_t vec[MAXVEC], lim[MAXVEC];
    volatile uint32_t len, pos;
    volatile uint64_t runs, steps, nontriv, pruned, pts;
    volatile uint32_t maxlen;
    volatile int done, inrun;
    volatile uint64_t iter;
    uint32_t svec[MAXVEC]; volatile uint32_t slen;
    volatile int cdrain, cnt;
    char engerr[200];
};
struct viol { char key[KEYLEN]; char kind[24]; uint32_t *vec; uint32_t len; int listed; };
struct shared {
    volatile int stop;
    volatile int lock;
    volatile int nviol, nunlisted;
    struct viol v[MAXVIOL];
    uint64_t nstates; int states_full;
    char log[LOGLEN]; volatile uint32_t loglen;
    char rkey[KEYLEN]; volatile int rfail;
    struct wk w[MAXW];
};
static struct shared *S;
static _Atomic uint64_t *ST;           /* state hash set */
#define STBITS 22
static uint32_t *VECPOOL; static volatile uint32_t *vecpool_used;
#define VECPOOLN (4u << 20)

static struct wk *W;
static int NW = 8, ME;
static uint32_t replay_len;
static jmp_buf JB;
static int drain;
int mc_forked, mc_pure, mc_shard_depth = 2, mc_logging, mc_thorough;
static int replaying;
static char **g_argv; static int g_argc;
static char **known; static int nknown;
static double deadline;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* ---- heap accounting ---- */
static volatile long live_blocks;
long mc_live_blocks(void) { return live_blocks; }
#if defined(__SANITIZE_ADDRESS__)
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern size_t __sanitizer_get_current_allocated_bytes(void);
static void hk_m(const volatile void *p, size_t n) { (void)p; (void)n; __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); }
static void hk_f(const volatile void *p) { if (p) __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); }
long mc_live_bytes(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
long mc_live_bytes(void) { return 0; }
#endif

uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *s = p; h ^= 0xcbf29ce484222325ULL + n;
    while (n--) { h ^= *s++; h *= 0x100000001b3ULL; }
    return mc_mix(h, 0x51);
}

static void eng_error(const char *m) {
    if (W) { snprintf(W->engerr, sizeof W->engerr, "%s", m); }
    fprintf(stderr, "engine error: %s\n", m);
    _exit(EX_ENG);
}

static void finish_prune(void) __attribute__((noreturn));
static void finish_prune(void) { longjmp(JB, 2); }

unsigned mc_choose(unsigned n) {
    unsigned c;
    if (n == 0) eng_error("mc_choose(0)");
    if (n == 1) return 0;
    if (drain) return 0;
    uint32_t pos = W->pos;
    if (pos < replay_len) {
        c = W->vec[pos];
        if (W->lim[pos] == 0) W->lim[pos] = n;       /* external replay vector */
        if (W->lim[pos] != n) {
            if (replaying) { if (c >= n) c = n - 1; }
            else {
                char b[120]; snprintf(b, sizeof b, "nondeterministic harness: choice %u had %u options, now %u", pos, W->lim[pos], n);
                eng_error(b);
            }
        }
    } else if (replaying) {
        c = 0;
    } else {
        if (pos >= MAXVEC) eng_error("choice vector too long");
        c = 0; W->vec[pos] = 0; W->lim[pos] = n; W->len = pos + 1;
        W->pts++;
    }
    W->pos = pos + 1;
    if (!replaying && W->pos == (uint32_t)mc_shard_depth && W->pos >= replay_len) {
        uint64_t h = 1;
        for (uint32_t i = 0; i < W->pos; i++) h = mc_mix(h, W->vec[i]);
        if (h % NW != (uint64_t)ME) {
            if (!mc_pure) { drain = 1; return c; }
            finish_prune();
        }
    }
    return c;
}
int mc_drained(void) { return drain; }
void mc_prune(void) {
    if (mc_forked) eng_error("mc_prune in forked harness");
    if (!drain) W->pruned++;
    longjmp(JB, 3);
}
void mc_step(void) { if (!drain) W->steps++; }
static int nt;
void mc_nontrivial(void) { nt = 1; }
void mc_state(uint64_t h) {
    if (drain || replaying) return;
    if (!h) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - STBITS);
    for (int k = 0; k < 64; k++, i = (i + 1) & ((1ull << STBITS) - 1)) {
        uint64_t e = atomic_load_explicit(&ST[i], memory_order_relaxed);
        if (e == h) return;
        if (e == 0) {
            uint64_t z = 0;
            if (atomic_compare_exchange_strong(&ST[i], &z, h)) { __atomic_fetch_add(&S->nstates, 1, __ATOMIC_RELAXED); return; }
            if (z == h) return;
        }
    }
    S->states_full = 1;
}

void mc_logf(const char *fmt, ...) {
    if (!mc_logging) return;
    va_list ap; va_start(ap, fmt);
    uint32_t l = S->loglen;
    if (l < LOGLEN - 512) {
        int n = vsnprintf(S->log + l, LOGLEN - l - 2, fmt, ap);
        if (n > (int)(LOGLEN - l - 2)) n = LOGLEN - l - 2;
        if (n > 0) { l += n; if (S->log[l - 1] != '\n') S->log[l++] = '\n'; S->log[l] = 0; S->loglen = l; }
    }
    va_end(ap);
}

static int is_known(const char *key) {
    for (int i = 0; i < nknown; i++) if (!strcmp(known[i], key)) return 1;
    return 0;
}
static void lock(void) { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(10); }
static void unlock(void) { __sync_lock_release(&S->lock); }

static void record(const char *key, const char *kind, struct wk *w) {
    lock();
    for (int i = 0; i < S->nviol; i++) if (!strcmp(S->v[i].key, key)) { unlock(); return; }
    if (S->nviol >= MAXVIOL) { S->stop = 1; unlock(); return; }
    uint32_t n = w->pos, at = *vecpool_used;
    if (at + n > VECPOOLN) { S->stop = 1; unlock(); return; }
    struct viol *v = &S->v[S->nviol];
    snprintf(v->key, KEYLEN, "%s", key);
    snprintf(v->kind, sizeof v->kind, "%s", kind);
    memcpy(VECPOOL + at, w->vec, n * 4); v->vec = VECPOOL + at; v->len = n; *vecpool_used = at + n;
    v->listed = is_known(key);
    if (!v->listed) { S->nunlisted++; S->stop = 1; }
    S->nviol++;
    unlock();
}

static void fail_text(const char *key) {
    if (drain) { if (mc_forked) { W->cdrain = 1; _exit(0); } if (!mc_pure) _exit(EX_VIOL); longjmp(JB, 2); }
    if (replaying) {
        snprintf(S->rkey, KEYLEN, "%s", key); S->rfail = 1;
        mc_logf("FAILED: %s", key);
        _exit(EX_VIOL);
    }
    record(key, "check", W);
    if (!mc_pure) _exit(EX_VIOL);
    longjmp(JB, 4);
}
void mc_fail(const char *fmt, ...) {
    char key[KEYLEN];
    va_list ap; va_start(ap, fmt); vsnprintf(key, KEYLEN, fmt, ap); va_end(ap);
    for (char *p = key; *p; p++) if (*p == '\n' || *p == '\r' || (unsigned char)*p < 32) *p = '.';
    fail_text(key);
    abort();
}

/* ---- CPU-time hang detector ---- */
static volatile uint64_t last_iter; static volatile int ticks;
static int hang_ticks = 24;            /* x 250 ms of CPU */
static void on_prof(int s) {
    (void)s;
    if (!W || !W->inrun) { ticks = 0; return; }
    if (W->iter != last_iter) { last_iter = W->iter; ticks = 0; return; }
    if (++ticks >= hang_ticks) {
        if (replaying) { S->rfail = 1; snprintf(S->rkey, KEYLEN, "hang"); }
        _exit(EX_HANG);
    }
}
static void arm(void) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, NULL);
    struct itimerval it = { { 0, 250000 }, { 0, 250000 } };
    setitimer(ITIMER_PROF, &it, NULL);
}

/* every execution in a process of its own: static state starts fresh, threads may be left behind */
static void run_forked(void) {
    W->cdrain = W->cnt = 0;
    pid_t p = fork();
    if (p < 0) eng_error("fork");
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        arm();
        mc_run();
        W->cdrain = drain; W->cnt = nt;
        _exit(0);
    }
    int st; double t0 = now();
    for (int spin = 0;;) {
        pid_t r = waitpid(p, &st, 0);
        if (r == p) break;
        if (r < 0 && errno != EINTR) eng_error("waitpid");
        if (++spin > 1000 && now() - t0 > 60) { kill(p, SIGKILL); }
    }
    drain = W->cdrain; nt = W->cnt;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
    signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); pause(); _exit(99);
}
static int advance(void) {             /* next vector; 0 when exhausted */
    int i = (int)W->len - 1;
    while (i >= 0 && W->vec[i] + 1 >= W->lim[i]) i--;
    if (i < 0) return 0;
    W->vec[i]++; W->len = replay_len = i + 1;
    return 1;
}

static void worker(int resume) {
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(hk_m, hk_f);
#endif
    mc_setup();
    arm();
    if (resume == 2) W->len = W->pos;      /* once more */
    else if (resume) { W->len = W->pos; if (!advance()) { W->done = 1; _exit(0); } }
    else { W->len = 0; replay_len = 0; }
    for (;;) {
        if (S->stop || ((W->iter & 63) == 0 && deadline && now() > deadline)) { if (!S->stop) W->done = 2; else W->done = 3; _exit(0); }
        W->pos = 0; drain = 0; nt = 0; W->iter++; W->inrun = 1;
        int j = setjmp(JB);
        if (j == 0) {
            if (mc_forked) run_forked(); else mc_run();
            int owned = !drain;
            if (owned && W->pos < (uint32_t)mc_shard_depth) {
                uint64_t h = 1;
                for (uint32_t i = 0; i < W->pos; i++) h = mc_mix(h, W->vec[i]);
                owned = (h % NW == (uint64_t)ME);
            }
            if (owned) {
                W->runs++; W->nontriv += nt;
                if (W->pos > W->maxlen) W->maxlen = W->pos;
                if (nt && (W->runs & (W->runs - 1)) == 0) { memcpy(W->svec, W->vec, W->pos * 4); W->slen = W->pos; }
            }
        }
        W->inrun = 0;
        /* choices beyond the last position read belong to no execution */
        if (W->len > W->pos) W->len = W->pos;
        if (!advance()) { W->done = 1; _exit(0); }
    }
}

/* Replays a vector in a child. Returns 1 when it fails; key/log are in S. */
static int do_replay(const uint32_t *vec, uint32_t len, int quiet) {
    S->loglen = 0; S->log[0] = 0; S->rfail = 0; S->rkey[0] = 0;
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
        W = &S->w[MAXW - 1]; memset(W, 0, sizeof *W);
        memcpy(W->vec, vec, len * 4); W->len = replay_len = len; replaying = 1; mc_logging = 1;
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_install_malloc_and_free_hooks(hk_m, hk_f);
#endif
        mc_setup(); arm();
        W->iter = 1; W->inrun = 1;
        if (setjmp(JB) == 0) mc_run();
        _exit(0);
    }
    int st; double t0 = now();
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > 120) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(S->rkey, KEYLEN, "blocked"); S->rfail = 1; return 1; }
        usleep(1000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (!S->rfail) {
        /* crash: identify it by the operation in progress */
        char *e = S->log + S->loglen; if (e > S->log && e[-1] == '\n') *--e = 0;
        char *b = e; while (b > S->log && b[-1] != '\n') b--;
        snprintf(S->rkey, KEYLEN, "crash in: %s", b);
        S->rfail = 1;
        if (WIFSIGNALED(st)) mc_logging = 1, mc_logf("\nKILLED by signal %d", WTERMSIG(st)), mc_logging = 0;
        else mc_logging = 1, mc_logf("\nDIED with exit code %d (99 = sanitizer report)", WEXITSTATUS(st)), mc_logging = 0;
    }
    return 1;
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

int mc_param(const char *name, int q, int t) {
    size_t n = strlen(name);
    for (int i = 1; i < g_argc; i++)
        if (!strncmp(g_argv[i], name, n) && g_argv[i][n] == '=') return atoi(g_argv[i] + n + 1);
    return mc_thorough ? t : q;
}
const char *mc_param_str(const char *name, const char *d) {
    size_t n = strlen(name);
    for (int i = 1; i < g_argc; i++)
        if (!strncmp(g_argv[i], name, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
    return d;
}

int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv;
    mc_thorough = !strcmp(mc_param_str("tier", "quick"), "thorough");
    const char *out = mc_param_str("out", NULL), *kf = mc_param_str("known", NULL), *rp = mc_param_str("replay", NULL);
    double t0 = now();
    int secs = mc_param("secs", 0, 0); if (secs) deadline = t0 + secs;
    NW = mc_param("workers", 8, 8); if (NW > MAXW - 2) NW = MAXW - 2;
    hang_ticks = mc_param("hang", 32, 32);
    long memlimit = mc_param("mem", 3000, 3000); /* MB of a worker */
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ST = mmap(NULL, 8ull << STBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VECPOOL = mmap(NULL, 4ull * VECPOOLN + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vecpool_used = VECPOOL + VECPOOLN;
    if (kf) {
        FILE *f = fopen(kf, "r"); char line[2000];
        while (f && fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (*line) { known = realloc(known, sizeof *known * (nknown + 1)); known[nknown++] = strdup(line); }
        }
        if (f) fclose(f);
    }
    if (rp) {                          /* replay mode: vector on the command line */
        static uint32_t v[MAXVEC]; uint32_t n = 0; char *s = strdup(rp), *t;
        for (t = strtok(s, ","); t && n < MAXVEC; t = strtok(NULL, ",")) v[n++] = strtoul(t, NULL, 10);
        int f = do_replay(v, n, 0);
        printf("%s", S->log);
        printf("\n%s%s\n", f ? "REPRODUCED: " : "no failure on this vector", f ? S->rkey : "");
        return f ? 1 : 0;
    }
    pid_t pid[MAXW]; uint64_t li[MAXW]; double lt[MAXW]; int restarts = 0, engerr = 0, alive = 0, redo = 0, slow = 0;
    fflush(NULL);
    for (int i = 0; i < NW; i++) {
        pid[i] = fork(); li[i] = 0; lt[i] = now();
        if (pid[i] == 0) { ME = i; W = &S->w[i]; worker(0); }
        alive++;
    }
    long page = sysconf(_SC_PAGESIZE);
    while (alive > 0) {
        int st; pid_t r = waitpid(-1, &st, WNOHANG);
        if (r <= 0) {
            usleep(2000);
            static int tick; if (++tick % 50) continue;
            for (int i = 0; i < NW; i++) if (pid[i] > 0) {
                if (S->w[i].iter != li[i]) { li[i] = S->w[i].iter; lt[i] = now(); }
                else if (now() - lt[i] > (hang_ticks > 100 ? hang_ticks : 100)) { kill(pid[i], SIGKILL); lt[i] = now(); }
                char fn[64]; long a = 0, b = 0; snprintf(fn, sizeof fn, "/proc/%d/statm", pid[i]);
                FILE *f = fopen(fn, "r"); if (f) { if (fscanf(f, "%ld %ld", &a, &b) == 2 && b * page > memlimit * 1000000L) kill(pid[i], SIGKILL); fclose(f); }
            }
            continue;
        }
        int i; for (i = 0; i < NW && pid[i] != r; i++) ;
        if (i == NW) continue;
        pid[i] = 0;
        struct wk *w = &S->w[i];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == EX_ENG) { engerr = 1; S->stop = 1; alive--; continue; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == EX_VIOL)) {
            /* crash, sanitizer report, hang, out of memory, blocked */
            static uint32_t v[MAXVEC]; uint32_t n = w->pos; memcpy(v, w->vec, n * 4);
            int was_hang = WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG;
            char key[KEYLEN];
            lock();
            int f = do_replay(v, n, 1);
            if (!f && (was_hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))) { unlock(); redo = ++slow <= 20; goto restart; }    /* slow or ended from outside; the replay has just executed this vector and it held */
            if (!f) { fprintf(stderr, "engine: worker died (status %x), the vector alone does not reproduce it\n", st); snprintf(S->rkey, KEYLEN, "crash that depends on earlier executions (status %x)", st); }
            if (was_hang) { char *b = S->log + S->loglen; if (b > S->log && b[-1] == '\n') *--b = 0; while (b > S->log && b[-1] != '\n') b--; snprintf(key, KEYLEN, "hang in: %s", b); }
            else snprintf(key, KEYLEN, "%s", S->rkey);
            unlock();
            record(key, was_hang ? "hang" : "crash", w);
        }
    restart:
        if (S->stop) { alive--; continue; }
        if (++restarts > 20000) { fprintf(stderr, "too many restarts\n"); S->stop = 1; alive--; continue; }
        fflush(NULL);
        lt[i] = now();
        pid[i] = fork();
        if (pid[i] == 0) { ME = i; W = w; worker(1 + redo); }
        redo = 0;
    }
    uint64_t runs = 0, steps = 0, nontriv = 0, pruned = 0, pts = 0; uint32_t ml = 0; int complete = 1;
    for (int i = 0; i < NW; i++) {
        struct wk *w = &S->w[i]; runs += w->runs; steps += w->steps; nontriv += w->nontriv; pruned += w->pruned; pts += w->pts;
        if (w->maxlen > ml) ml = w->maxlen;
        if (w->done != 1) complete = 0;
        if (w->engerr[0]) fprintf(stderr, "worker %d: %s\n", i, w->engerr);
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"runs\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_saturated\":%d,\"nontrivial\":%llu,\"pruned\":%llu,\"choice_points\":%llu,\"max_choices\":%u,\"complete\":%s,\"engine_error\":%s,\"wall_s\":%.3f,\n\"violations\":[",
        (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)S->nstates, S->states_full, (unsigned long long)nontriv, (unsigned long long)pruned, (unsigned long long)pts, ml,
        complete ? "true" : "false", engerr ? "true" : "false", now() - t0);
    for (int i = 0; i < S->nviol; i++) {
        struct viol *v = &S->v[i];
        if (i) fputc(',', f);
        fprintf(f, "\n{\"key\":"); jstr(f, v->key); fprintf(f, ",\"kind\":\"%s\",\"listed\":%s,\"vector\":[", v->kind, v->listed ? "true" : "false");
        for (uint32_t k = 0; k < v->len; k++) fprintf(f, "%s%u", k ? "," : "", v->vec[k]);
        int rf = v->listed ? 1 : do_replay(v->vec, v->len, 1);
        fprintf(f, "],\"reproduced\":%s,\"trace\":", rf ? "true" : "false"); jstr(f, v->listed ? "" : S->log); fputc('}', f);
    }
    fprintf(f, "],\n\"samples\":[");
    /* two sample executions, written out: the last one of two workers */
    int ns = 0;
    for (int i = 0; i < NW && ns < 2 && !S->nunlisted; i += (NW > 1 ? NW - 1 : 1)) {
        struct wk *w = &S->w[i]; static uint32_t v[MAXVEC]; uint32_t n = w->slen; memcpy(v, w->svec, n * 4);
        if (!w->runs) continue;
        do_replay(v, n, 1);
        if (S->loglen > 3000) { strcpy(S->log + 3000, "...(cut)"); }
        if (ns++) fputc(',', f);
        fprintf(f, "{\"choices\":["); for (uint32_t k = 0; k < n && k < 200; k++) fprintf(f, "%s%u", k ? "," : "", v[k]);
        fprintf(f, "],\"trace\":"); jstr(f, S->log); fputc('}', f);
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return engerr ? 3 : S->nunlisted ? 1 : 0;
}
