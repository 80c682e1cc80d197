/* C37: zt_writepid under every sequence of interrupted, short and failing creat/write/close, on a real scratch file. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
static int active, faults, budget, hard, only_intr, sawshort, fd_, opens, closes, bad; static pid_t pid; static char name[64];
int __real_creat(const char *, mode_t); int __real_open(const char *, int, ...); ssize_t __real_write(int, const void *, size_t); int __real_close(int); pid_t __real_getpid(void);
pid_t __wrap_getpid(void) { return active ? pid : __real_getpid(); }
static int fault(int n) { if (faults >= budget) return 0; int k = mc_choose(n); if (k) faults++; return k; }
static int opened(int fd) { mc_step(); if (fd >= 0) { fd_ = fd; opens++; } return fd; }
static int openfault(void) { int k = fault(3); if (k) { MC_LOG("open: %s", k == 1 ? "interrupted" : "refused"); if (k == 1) sawshort = 1; else hard = 1; errno = k == 1 ? EINTR : EACCES; } else MC_LOG("open"); return k; }
int __wrap_creat(const char *p, mode_t m) { if (!active) return __real_creat(p, m); return openfault() ? -1 : opened(__real_creat(p, m)); }
int __wrap_open(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = f & O_CREAT ? va_arg(ap, mode_t) : 0; va_end(ap); if (!active) return __real_open(p, f, m); return openfault() ? -1 : opened(__real_open(p, f, m)); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (!active || !opens || fd != fd_) return __real_write(fd, b, n);
    mc_step(); if (n == 0) return 0; int k = fault(4 + (int)n);  if (k == 0) { MC_LOG("write %zu", n); return __real_write(fd, b, n); }
    if (k == 1) { MC_LOG("write: interrupted"); errno = EINTR; return -1; } if (k == 2) { MC_LOG("write: no space"); hard = 1; errno = ENOSPC; return -1; } if (k == 3) { MC_LOG("write: nothing written"); sawshort = 1; errno = 0; return 0; } if (k == 4) { MC_LOG("write: error"); hard = 1; errno = EIO; return -1; }
    MC_LOG("write: %d of %zu", k - 4, n); sawshort = 1; return __real_write(fd, b, k - 4);
}
int __wrap_close(int fd) {
    if (!active) return __real_close(fd); mc_step(); if (!opens || fd != fd_ || closes >= opens) { bad = 1; errno = EBADF; return -1; } closes++; int k = fault(3); __real_close(fd);
    if (k == 1) { MC_LOG("close: interrupted"); errno = EINTR; return -1; } if (k == 2) { MC_LOG("close: error"); hard = 1; errno = EIO; return -1; } MC_LOG("close"); return 0;
}
static FILE *nul;
void mc_setup(void) { snprintf(name, sizeof name, "pid.%d", (int)getpid()); budget = mc_param("faults", 3, 4); mc_shard_depth = 3; static char nb[200]; nul = fopen("/dev/null", "w"); setvbuf(nul, nb, _IOFBF, sizeof nb); FILE *s = stderr; stderr = nul; zt_log_printf(zt_log_err, "x"); stderr = s; const char *f, *g; int k; zt_log_get_debug_info(&f, &k, &g); }
void mc_run(void) {
    static const pid_t P[] = { 1, 7, 32768, 4194304, INT_MAX }; static const mode_t UM[] = { 0, 022, 077, 0777 };
    pid = P[mc_choose(5)]; int um = UM[mc_choose(4)], old = mc_choose(8), in = mc_choose(2); if (in && (old > 1 || um)) mc_prune(); faults = hard = sawshort = opens = closes = bad = 0; char w[40]; int wl = sprintf(w, "%d\n", (int)pid);
    char link_[80]; snprintf(link_, sizeof link_, "%s.lnk", name); unlink(name); unlink(link_); const char *path = name; static char sub[100];
    if (old == 3 || old == 4) { if (symlink(name, link_)) exit(3); path = link_; } else if (old == 5) path = "."; else if (old == 6) { snprintf(sub, sizeof sub, "%s.none/pid", name); path = sub; } else if (old == 7) { snprintf(sub, sizeof sub, "%s/pid", name); path = sub; }
    int exists = old == 1 || old == 2 || old == 3 || old == 7; if (exists) { int f = creat(name, 0600); if (f < 0) { fprintf(stderr, "scratch file\n"); exit(3); } if (write(f, "99999999999999999999\nold text", old == 2 ? 0 : 30) < 0) exit(3); close(f); }
    static const char *OLD[] = { "no file", "longer file", "empty file", "a link to a longer file", "a link to no file", "a directory", "a missing directory", "a file in place of the directory" };
    MC_LOG("process %d umask %03o, %s", (int)pid, um, OLD[old]); int save0 = -1, impossible = old >= 5; if (in) { MC_LOG("standard input is closed"); save0 = dup(0); close(0); } int spare = dup(1); close(spare); mode_t sv = umask(um); FILE *s = stderr; stderr = nul; active = 1; int r = zt_writepid(path); active = 0; stderr = s; umask(sv); int now = dup(1); close(now); if (in) { dup2(save0, 0); close(save0); }
    MC_LOG("result %d", r); MC_CHECK(!bad, "closes a descriptor it does not own"); MC_CHECK(now == spare && opens == closes, "descriptor leaked"); MC_CHECK(r == 0 || r == -1, "result %d", r);
    if (impossible) { MC_CHECK(r == -1, "success with %s as the name", OLD[old]); mc_state(mc_mix(old, faults)); unlink(name); return; }
    if (!hard && !sawshort) MC_CHECK(r == 0, "fails although calls were at most interrupted (%d faults)", faults);
    if (r == 0) { struct stat st; char b[64]; MC_CHECK(stat(name, &st) == 0, "success without a file"); if (path == link_) MC_CHECK(lstat(link_, &st) == 0 && S_ISLNK(st.st_mode) && stat(link_, &st) == 0, "the link was replaced"); MC_CHECK((st.st_mode & 07777) == (exists ? 0600 : (0644 & ~um)), "permissions %o under umask %03o", st.st_mode & 07777, um); chmod(name, 0600); int f = open(name, O_RDONLY); ssize_t n = f < 0 ? -1 : read(f, b, sizeof b); close(f); MC_CHECK(n == wl && !memcmp(b, w, wl), "success, but the file holds '%.*s', must be '%d'", (int)(n < 0 ? 0 : n), b, (int)pid); }
    if (hard) MC_CHECK(r != 0, "success although a call failed");
    if (faults) mc_nontrivial(); mc_state(mc_mix(mc_mix(faults, r), mc_hash(pid, w, wl))); unlink(name); unlink(link_);
    int q = mc_choose(2); if (q) { stderr = nul; r = zt_writepid(NULL); stderr = s; MC_CHECK(r == -1, "no name accepted"); }
}
