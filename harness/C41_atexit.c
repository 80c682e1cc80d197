/* C41: every short sequence of exit handlers of every kind, each in its own process. */
#include "mc.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <zt.h>
static struct { int n; int ev[600]; } *sh; static int K[300], n, ids[2000];
static void note(int v) { if (sh->n < 600) sh->ev[sh->n] = v; sh->n++; }
static void plain(void *d) { note((int *)d - ids); }
static void reg1(void *d) { note((int *)d - ids); zt_atexit(plain, (int *)d + 300); }
static void reg2(void *d) { note((int *)d - ids); zt_atexit(plain, (int *)d + 300); zt_atexit(reg1, (int *)d + 600); }
static void work(void *d) { char *p = malloc(100); sprintf(p, "%p", d); note((int *)d - ids); free(p); }
static void null(void *d) { note(d ? -1 : 1999); }
static void (*FN[])(void *) = { plain, reg1, reg2, work, null };
static int want[600], nw;
static void model(int k, int id) { if (k == 4) { want[nw++] = 1999; return; } want[nw++] = id; if (k == 1) model(0, id + 300); if (k == 2) { model(1, id + 600); model(0, id + 300); } }
/* mixed with handlers of the C library, which may register more */
static int cs[64], nc; static void c0(void) { note(2000 + cs[--nc]); } static void c1(void) { int i = cs[--nc]; note(2000 + i); zt_atexit(plain, ids + i + 300); } static void c2(void) { int i = cs[--nc]; note(2000 + i); zt_atexit(plain, ids + i + 300); zt_atexit(reg1, ids + i + 600); }
static void (*CF[])(void) = { c0, c1, c2 };
static int at(int ev) { int k = -1; for (int i = 0; i < sh->n; i++) if (sh->ev[i] == ev) { if (k >= 0) return -2; k = i; } return k; }
static void mixed(void) {
    char w[200] = ""; int big = mc_choose(2); n = big ? 40 : mc_choose(mc_param("mixed", 6, 7)); for (int i = 0; i < n; i++) { K[i] = big && i > 3 ? K[i & 3] : mc_choose(6); if (i < 12) sprintf(w + strlen(w), " %d", K[i]); } MC_LOG("%d handlers, mixed%s", n, w);
    sh->n = 0; fflush(NULL); pid_t p = fork(); if (p < 0) exit(3);
    if (!p) { alarm(20); nc = 0; for (int i = 0; i < n; i++) if (K[i] < 3) zt_atexit(FN[K[i]], ids + i); else { cs[nc++] = i; atexit(CF[K[i] - 3]); } exit(5); }
    int st; if (waitpid(p, &st, 0) != p) exit(3); mc_step(); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 5, "mixed handlers%s: process ends with status %x", w, st);
    int total = 0, last = -1; for (int i = n - 1; i >= 0; i--) { int k = K[i] % 3, ev = K[i] < 3 ? i : 2000 + i, a = at(ev); MC_CHECK(a >= 0, "mixed handlers%s: handler %d %s", w, i, a == -1 ? "not called" : "called twice"); total++; if (K[i] < 3) { MC_CHECK(a > last, "mixed handlers%s: handler %d called before a later one", w, i); last = a; }
        if (k) { int b = at(i + 300); MC_CHECK(b > a, "mixed handlers%s: handler registered by %d %s", w, i, b == -1 ? "not called" : "called twice or too early"); total++; } if (k == 2) { int b = at(i + 600), c = at(i + 900); MC_CHECK(b > a && c > b, "mixed handlers%s: second handler registered by %d not called in order", w, i); MC_CHECK(b < at(i + 300), "mixed handlers%s: handlers registered by %d not in reverse order", w, i); total += 2; } }
    MC_CHECK(total == sh->n, "mixed handlers%s: %d calls, must be %d", w, sh->n, total); if (total > 1) mc_nontrivial(); mc_state(mc_hash(total, sh->ev, sh->n * sizeof(int)));
}
void mc_setup(void) { sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); mc_shard_depth = 4; }
void mc_run(void) {
    int mode = mc_choose(3); if (mode == 2) { mixed(); return; } int max = mc_param("handlers", 5, 6), code = 0, late = 0; char w[200] = ""; n = 0;
    if (mode == 0) { n = mc_choose(max + 1); for (int i = 0; i < n; i++) K[i] = mc_choose(5); if (n && n < 4) { code = mc_choose(2) * 7; late = mc_choose(2); } }
    else { static const int N[] = { 31, 32, 33, 64, 100, 257 }; n = N[mc_choose(6)]; int k = mc_choose(5), j = mc_choose(3); for (int i = 0; i < n; i++) K[i] = j == 0 ? k : j == 1 ? (i & 1 ? k : 0) : (i == n / 2 ? k : 0); if (k == 2 && n > 100) n = 100; }
    for (int i = 0; i < n && i < 12; i++) sprintf(w + strlen(w), " %d", K[i]); MC_LOG("%d handlers%s, exit %d", n, w, code);
    nw = 0; for (int i = n - 1; i >= 0; i--) model(K[i], i); sh->n = 0; fflush(NULL);
    pid_t p = fork(); if (p < 0) { fprintf(stderr, "fork\n"); exit(3); }
    if (!p) { alarm(20); for (int i = 0; i < n; i++) { zt_atexit(FN[K[i]], K[i] == 4 ? NULL : ids + i); if (late && i == 0) { char *q = malloc(10); free(q); } } exit(code); }
    int st; if (waitpid(p, &st, 0) != p) exit(3); mc_step(); for (int i = 0; i < nw; i++) mc_step();
    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "%d handlers%s: process ends with status %x", n, w, st); MC_CHECK(sh->n == nw, "%d handlers%s: %d calls, must be %d", n, w, sh->n, nw);
    for (int i = 0; i < nw; i++) MC_CHECK(sh->ev[i] == want[i], "%d handlers%s: call %d is of %d, must be of %d", n, w, i, sh->ev[i], want[i]); if (nw > 1) mc_nontrivial(); mc_state(mc_hash(nw, want, nw * sizeof *want));
}
