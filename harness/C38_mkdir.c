/* C38: zt_mkdir on every small tree x path, with failing calls and with another process creating components. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
static int active, calls, fbud, faults, cbud, creations; static char top[300], path[700]; static const char *P; static FILE *nul;
/* model tree: entries by relative name below top */
#define MAXE 64
static struct { char n[40]; int t; ino_t ino; } E[MAXE]; static int ne; /* t: 1 dir 2 file */
static int __real_mk(const char *, mode_t);
int __real_mkdir(const char *, mode_t); int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *);
static int find(const char *n) { for (int i = 0; i < ne; i++) if (!strcmp(E[i].n, n)) return i; return -1; }
static void put(const char *n, int t) { char f[400]; snprintf(f, sizeof f, "%s/%s", top, n); if (t == 1) { if (__real_mkdir(f, 0755)) return; } else { int d = open(f, O_CREAT | O_EXCL | O_WRONLY, 0644); if (d < 0) return; close(d); } struct stat s; if (__real_stat(f, &s)) exit(3); strcpy(E[ne].n, n); E[ne].t = t; E[ne++].ino = s.st_ino; }
/* prefixes of the path, resolved by name only; -1 = leaves the tree or passes something that cannot be a directory */
static char pre[16][40]; static int np, last;
static void prefixes(const char *p) {
    char st[16][4]; int d = 0; np = 0; last = -1; while (*p) { while (*p == '/') p++; if (!*p) break; char c[4] = ""; int k = 0; while (*p && *p != '/') c[k++] = *p++; if (!strcmp(c, ".")) {} else if (!strcmp(c, "..")) { if (d) d--; } else strcpy(st[d++], c);
        char n[40] = ""; for (int i = 0; i < d; i++) { if (i) strcat(n, "/"); strcat(n, st[i]); } strcpy(pre[np++], n); } last = np - 1;
}
static void before(const char *what, const char *p) {
    mc_step(); if (++calls > 60) mc_fail("does not terminate on '%s'", P);
    if (creations < cbud && np) { int k = mc_choose(1 + 2 * np); if (k) { creations++; int i = (k - 1) / 2, t = 1 + (k - 1) % 2; MC_LOG("another process creates %s '%s'", t == 1 ? "directory" : "file", pre[i]); if (t == 1) for (int j = 0; j < i; j++) if (pre[j][0] && find(pre[j]) < 0) put(pre[j], 1); if (pre[i][0] && find(pre[i]) < 0) put(pre[i], t); } }
}
int __wrap_mkdir(const char *p, mode_t m) {
    if (!active) return __real_mkdir(p, m); before("mkdir", p); if (faults < fbud) { int k = mc_choose(4); if (k) { faults++; errno = (int[]){ 0, EACCES, ENOSPC, ENOENT }[k]; MC_LOG("mkdir fails: %d", errno); return -1; } }
    int r = __real_mkdir(p, m); MC_LOG("mkdir '%s' %s", p, r ? "fails" : "succeeds"); return r;
}
int __wrap_stat(const char *p, struct stat *s) { if (!active) return __real_stat(p, s); before("stat", p); if (faults < fbud) { int k = mc_choose(3); if (k) { faults++; errno = k == 1 ? EACCES : EIO; MC_LOG("stat fails: %d", errno); return -1; } } return __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { if (!active) return __real_lstat(p, s); before("lstat", p); return __real_lstat(p, s); }
static void zap(const char *d) { static const char *N[] = { "a", "b", "f" }; for (int i = 0; i < 3; i++) { char f[400]; snprintf(f, sizeof f, "%s/%s", d, N[i]); if (unlink(f) == 0 || errno == ENOENT) continue; if (strlen(f) < strlen(top) + 14) zap(f); rmdir(f); } }
static int would(int flag) { /* sequential outcome: 1 if the directory can be had */
    char have[MAXE][40]; int n = 0; for (int i = 0; i < np; i++) { int e = pre[i][0] ? find(pre[i]) : -2; if (e == -2) continue; if (e >= 0) { if (E[e].t == 2) return 0; continue; } int h = 0; for (int j = 0; j < n; j++) h |= !strcmp(have[j], pre[i]); if (h) continue; if (!flag && i < last) return 0; strcpy(have[n++], pre[i]); }
    return np > 0 || P[0] == '/' ;
}
static int isdirnow(void) { struct stat s; return P[0] && __real_stat(path[0] ? path : P, &s) == 0 && S_ISDIR(s.st_mode); }
static void one(const char *p, int absolute, int flag, int mode) {
    P = p; snprintf(path, sizeof path, "%s%s%s", absolute ? top : "", absolute ? "/" : "", p); if (!p[0] && !absolute) path[0] = 0; prefixes(p); int w = would(flag), before_dir = isdirnow(); int init = ne; calls = faults = creations = 0;
    MC_LOG("mkdir '%s'%s%s mode %o", p, absolute ? " (absolute)" : "", flag ? " with parents" : "", mode); FILE *s = stderr; stderr = nul; active = 1; int r = zt_mkdir(path, mode, flag ? zt_mkdir_create_parent : 0); active = 0; stderr = s;
    int is = isdirnow(); MC_LOG("result %d, directory %s", r, is ? "exists" : "does not exist"); MC_CHECK(r == 0 || r == -1, "result %d", r);
    if (r == 0) MC_CHECK(is, "success, but '%s' is not a directory", p); if (r != 0 && !faults && (flag || before_dir)) MC_CHECK(!is, "failure, but '%s' is a directory", p);
    if (!faults && !creations) MC_CHECK((r == 0) == w, "'%s'%s %s", p, flag ? " with parents" : "", r ? "not created" : "reported created");
    /* nothing removed or replaced, nothing else created */
    for (int i = 0; i < ne; i++) { char f[400]; struct stat st; snprintf(f, sizeof f, "%s/%s", top, E[i].n); MC_CHECK(__real_lstat(f, &st) == 0 && st.st_ino == E[i].ino && S_ISDIR(st.st_mode) == (E[i].t == 1), "'%s' removed or replaced", E[i].n); }
    static const char *N[] = { "a", "b", "f" }; char q[40]; int made = 0;
    for (int x = 0; x < 3; x++) for (int y = -1; y < 3; y++) for (int z = -1; z < (y < 0 ? 0 : 3); z++) { sprintf(q, "%s%s%s%s%s", N[x], y < 0 ? "" : "/", y < 0 ? "" : N[y], z < 0 ? "" : "/", z < 0 ? "" : N[z]); if (find(q) >= 0) continue; char f[400]; struct stat st; snprintf(f, sizeof f, "%s/%s", top, q); if (__real_lstat(f, &st)) continue; made++; int ok = 0; for (int i = flag ? 0 : last; i >= 0 && i < np; i++) ok |= !strcmp(pre[i], q);
        MC_CHECK(ok, "'%s' created for '%s'", q, p); MC_CHECK(S_ISDIR(st.st_mode) && (st.st_mode & 0777) == (mode & ~022), "'%s' created with mode %o, must be %o", q, st.st_mode & 0777, mode & ~022); }
    if (made) mc_nontrivial(); mc_state(mc_mix(mc_mix(made, r), mc_hash(init * 4 + faults + creations, p, strlen(p))));
}
void mc_setup(void) { char c[200]; if (!getcwd(c, sizeof c)) exit(3); snprintf(top, sizeof top, "%s/t%d", c, (int)getpid()); __real_mkdir(top, 0755); snprintf(top + strlen(top), 8, "/top"); __real_mkdir(top, 0755); if (chdir(top)) exit(3); umask(022); mc_shard_depth = 4;
    static char nb[200]; nul = fopen("/dev/null", "w"); setvbuf(nul, nb, _IOFBF, sizeof nb); FILE *s = stderr; stderr = nul; zt_log_printf(zt_log_err, "x"); stderr = s; const char *f, *g; int k; zt_log_get_debug_info(&f, &k, &g); }
static void tree(int full) {
    static const char *T[] = { "a", "b" }; ne = 0; zap(top); for (int i = 0; i < 2; i++) { int t = mc_choose(3); if (!t) continue; put(T[i], t); if (t == 1 && (full || i == 0)) for (int j = 0; j < 2; j++) { char n[8]; sprintf(n, "%s/%s", T[i], T[j]); int u = mc_choose(3); if (u) put(n, u); } }
}
void mc_run(void) {
    static const char *C[] = { "a", "b", "..", "." }; char p[80] = ""; int mode = mc_choose(4), flag = mc_choose(2); fbud = cbud = 0;
    if (mode == 0) { tree(1); int n = 1 + mc_choose(3), sep = mc_choose(2), tail = mc_choose(2); for (int i = 0; i < n; i++) { if (i) strcat(p, sep ? "//" : "/"); strcat(p, C[mc_choose(4)]); } if (tail) strcat(p, "/"); /* a leading .. would leave the tree */ int d = 0; for (char *q = p; *q; q++) { if (q == p || q[-1] == '/') { if (*q == 'a' || *q == 'b') d++; else if (q[0] == '.' && q[1] == '.' && --d < 0) return; } }
        one(p, mc_choose(2), flag, (int[]){ 0755, 0700, 0777 }[mc_choose(n < 3 ? 3 : 1)]); }
    else if (mode == 1) { /* failing calls */ tree(0); static const char *Q[] = { "a", "a/b", "a/a", "b/a", "a/b/a", "a/a/b", "b/a/b", "./a/b", "a/b/" }; fbud = mc_param("faults", 2, 3); strcpy(p, Q[mc_choose(9)]); one(p, mc_choose(2) * (mc_thorough || 1), flag, 0755); }
    else if (mode == 2) { /* concurrent creation, with failing calls */ tree(0); static const char *Q[] = { "a", "a/b", "b/a", "a/b/a", "b/a/b" }; cbud = mc_param("creations", 2, 2); fbud = mc_choose(2) ? mc_param("faults beside creations", 1, 2) : 0; strcpy(p, Q[mc_choose(5)]); one(p, 0, flag, 0755); }
    else { /* odd paths */ ne = 0; zap(top); int k = mc_choose(5); static char lng[9000]; P = ""; np = 0; FILE *s = stderr; stderr = nul; calls = 0; int r, w; const char *q; 
        if (k == 0) q = "", w = -1; else if (k == 1) q = "/", w = 0; else if (k == 2) q = ".", w = 0; else { int l = k == 3 ? 300 : 8000; memset(lng, 'a', l); lng[l] = 0; if (k == 4) for (int i = 1; i < l; i += 2) lng[i] = '/'; if (k == 4) lng[l - 1] = 'a'; q = lng; w = -1; }
        MC_LOG("odd path %d", k); active = 1; char *d = mc_dupn(q, strlen(q) + 1); P = "odd path"; r = zt_mkdir(d, 0755, flag ? zt_mkdir_create_parent : 0); free(d); active = 0; stderr = s; MC_CHECK(r == w, "odd path %d: %d, must be %d", k, r, w); if (k == 4) MC_CHECK(1, "x"); 
        MC_CHECK((zt_path_exists("a") == 0) == 0, "odd path %d created something", k); put("a", 1 + mc_choose(2)); MC_CHECK(zt_path_exists("a") == 0 && zt_path_exists("b") == -1 && zt_path_exists("a/b") == -1, "existence test"); }
    zap(top);
}
