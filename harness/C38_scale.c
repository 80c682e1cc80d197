/* C38: long and deep paths and every kind of mode: exactly the missing directories are made, each with the requested mode, and paths that are too long fail. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
static char top[300]; static FILE *nul; static size_t tl;
void mc_setup(void) { char c[200]; if (!getcwd(c, sizeof c)) exit(3); snprintf(top, sizeof top, "%s/m%d", c, (int)getpid()); mkdir(top, 0755); tl = strlen(top); if (chdir(top)) exit(3); static char nb[200]; nul = fopen("/dev/null", "w"); setvbuf(nul, nb, _IOFBF, sizeof nb); mc_shard_depth = 3; FILE *s = stderr; stderr = nul; zt_log_printf(zt_log_err, "x"); stderr = s; }
void mc_run(void) {
    static const int CL[] = { 1, 2, 9, 31, 32, 63, 64, 127, 128, 200, 254, 255 }, MO[] = { 0755, 0700, 0777, 0500, 0, 0111, 01777, 02711, 04070, 0640 }, TL[] = { 60, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 3000, 4000, 4094, 4095, 4096, 4500 }, UM[] = { 022, 0, 077, 027 };
    int mode = mc_choose(2), cl, want, ab = mc_choose(2), m, um, sl; static char p[9000]; size_t start, l;
    if (mode == 0) { cl = CL[mc_choose(12)]; want = TL[mc_choose(21)]; sl = mc_choose(3); m = 0755; um = 022; } else { cl = 3; want = ab ? tl + 21 : 21; sl = 0; m = MO[mc_choose(10)]; um = UM[mc_choose(4)]; }
    if (!mc_thorough && want > 300 && cl < 31) return; if (!mc_thorough && want > 1100 && cl < 127) return; if (cl < 9 && want > 1100 && sl) return;
    l = ab ? (size_t)sprintf(p, "%s/", top) : 0; start = l; if ((int)l + 4 > want) return; size_t end[3000]; int n = 0; while ((int)l < want) { size_t c = cl; if (l + c >= (size_t)want - 1) c = want - l; if (c > 255) return; memset(p + l, 'a' + n % 26, c); l += c; end[n++] = l; if ((int)l < want) { p[l++] = '/'; if (sl == 1 && n % 3 == 0 && (int)l + 1 < want) p[l++] = '/'; if (sl == 2 && n % 3 == 1 && (int)l + 3 < want) { p[l++] = '.'; p[l++] = '/'; } } } p[l] = 0;
    int flag = mode ? 1 : mc_choose(3) > 0, ek = mc_choose(5), ex = ek == 0 ? 0 : ek == 1 ? n - 1 : ek == 2 ? n / 2 : ek == 3 ? 1 : n; if (ex > n || (ek && ex == 0)) return; int block = mode == 0 && ek == 2 && mc_choose(2); /* a file in the way */
    char k[200]; snprintf(k, sizeof k, "%s path of %d bytes, %d components of %d, %d of them there%s%s, mode %o, umask %o", ab ? "absolute" : "relative", (int)l - (int)start, n, cl, ex, block ? " and then a file" : "", flag ? ", with parents" : "", m, um); MC_LOG("%s", k);
    umask(022); int made = 0, toolong = l >= PATH_MAX; for (int i = 0; i < ex && end[i] < PATH_MAX; i++) { char s = p[end[i]]; p[end[i]] = 0; if (mkdir(p, 0755)) exit(4); p[end[i]] = s; made = i + 1; } if (block) { char s = p[end[ex]]; p[end[ex]] = 0; int d = open(p, O_CREAT | O_WRONLY, 0644); if (d < 0) block = 0; else close(d); p[end[ex]] = s; }
    umask(um); char *q = mc_dupn(p, l + 1); FILE *sv = stderr; stderr = nul; int r = zt_mkdir(q, m, flag ? zt_mkdir_create_parent : 0); stderr = sv; umask(022); MC_CHECK(!strcmp(q, p), "%s: path changed", k); free(q); mc_step();
    int ok = !toolong && !block && (flag || ex >= n - 1); int have = 0; struct stat st; int bad = -1; for (int i = 0; i < n && end[i] < PATH_MAX; i++) { char s = p[end[i]]; p[end[i]] = 0; int e = lstat(p, &st) == 0 && S_ISDIR(st.st_mode); p[end[i]] = s; if (!e) break; have = i + 1; if (i >= made && (st.st_mode & 07777) != ((unsigned)m & ~um & 01777)) bad = i; }
    int bm = bad; /* clean up first, deepest first */ if (block) { char s = p[end[ex]]; p[end[ex]] = 0; struct stat t; int isf = lstat(p, &t) == 0 && S_ISREG(t.st_mode); unlink(p); p[end[ex]] = s; MC_CHECK(isf, "%s: the file was replaced", k); }
    int stray = 0; for (int i = have - 1; i >= 0; i--) { char s = p[end[i]]; p[end[i]] = 0; if (rmdir(p)) stray = i + 1; p[end[i]] = s; }
    MC_CHECK(r == 0 || r == -1, "%s: result %d", k, r); MC_CHECK((r == 0) == ok, "%s: %s", k, r ? "not created" : "reported created"); MC_CHECK(!stray, "%s: something else was made in component %d", k, stray); if (ok) MC_CHECK(have == n, "%s: only %d components there", k, have); else if (!flag) MC_CHECK(have == made, "%s: %d components there", k, have); MC_CHECK(bm < 0, "%s: component %d has another mode", k, bm); if (have > made + 1) mc_nontrivial(); mc_state(mc_hash(mc_mix(n, cl), k, strlen(k)));
}
