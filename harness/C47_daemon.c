/* C47: zt_daemonize in real processes, every failing call, every surrounding (descriptors, limits, directories, masks). */
#include "mc.h"
#include <zt.h>
#include <libzt/zt_daemon.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
static struct sh { volatile int returned, ret, setsids, forks, faults, bad; pid_t pid, sid, pgrp, orig, orig_sid; int mask, nfd, fds[4096], null[3], rw[3]; char cwd[600]; volatile int done[8]; } *S;
static int loops, in_w, f_call, f_at, seen, limit_fake; static rlim_t fake; static const char *CALL[] = { "(none)", "fork", "setsid", "getrlimit", "chdir" };
/* is this call of kind k the one that fails? counted over all processes of the execution */
static int hit(int k) { return in_w && f_call == k && __sync_add_and_fetch(&S->done[k], 1) == f_at ? __sync_fetch_and_add(&S->faults, 1), 1 : 0; }
pid_t __real_fork(void); pid_t __wrap_fork(void) { if (hit(1)) { errno = EAGAIN; return -1; } return __real_fork(); }
pid_t __real_setsid(void); pid_t __wrap_setsid(void) { if (hit(2)) { errno = EPERM; return -1; } return __real_setsid(); }
int __real_getrlimit(int, struct rlimit *); int __wrap_getrlimit(int r, struct rlimit *l) { if (hit(3)) { errno = EINVAL; return -1; } int x = __real_getrlimit(r, l); if (in_w && limit_fake && r == RLIMIT_NOFILE) l->rlim_cur = l->rlim_max = fake; return x; }
int __real_chdir(const char *); int __wrap_chdir(const char *p) { if (hit(4)) { errno = EACCES; return -1; } return __real_chdir(p); }
int __real_close(int); int __wrap_close(int fd) { if (in_w && (fd < 0 || fd >= 5000)) { if (fd == INT_MAX && ++loops > 1000) { S->bad = 2; _exit(1); } if (fd < 0) S->bad = 1; errno = EBADF; return -1; } return __real_close(fd); }
unsigned __real_sleep(unsigned); unsigned __wrap_sleep(unsigned n) { (void)n; return 0; }
static char base[300]; static zt_log_ty *lg;
void mc_setup(void) { mc_forked = 1; mc_shard_depth = 4; mc_param("limits", 5, 5); if (!getcwd(base, sizeof base)) exit(3); }
static const mode_t M[] = { 0, 022, 077, 0777, 0111, 0644 }; static const rlim_t LIM[] = { 16, 40, 256, 1024, 4096 };
void mc_run(void) {
    int mode = mc_choose(3), root = mc_choose(5), mask = mc_choose(6), lim = LIM[mode == 1 ? 0 : mc_choose(5)], pre = mc_choose(6), sess = mc_choose(2); f_call = f_at = 0; limit_fake = 0;
    if (mode == 1) { f_call = 1 + mc_choose(4); f_at = 1 + (f_call == 1 ? mc_choose(2) : 0); if (f_call == 4 && root == 0) return; }
    if (mode == 2) { if (root || mask > 1 || pre > 1 || sess) return; static const rlim_t F[] = { RLIM_INFINITY, (rlim_t)INT_MAX + 1, 1 << 20, 0 }; int k = mc_choose(4); if (lim != 1024) return; limit_fake = 1; fake = F[k]; if (!fake) fake = 3, pre = 0; if (!mc_thorough && (k == 1 || (k == 0 && (mask || pre)))) return; }
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); MC_CHECK(S != MAP_FAILED, "mmap"); prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    char dir[400], want[700]; snprintf(dir, sizeof dir, "%s/d%d", base, (int)getpid()); mkdir(dir, 0755); char in[500]; snprintf(in, sizeof in, "%s/sub", dir); mkdir(in, 0755); const char *R = root == 0 ? NULL : root == 1 ? "/" : root == 2 ? in : root == 3 ? "sub" : "missing"; char real[600]; if (!realpath(dir, real)) abort(); snprintf(want, sizeof want, "%s%s", root == 1 ? "/" : real, root == 2 || root == 3 ? "/sub" : "");
    MC_LOG("root %s, mask %o, limit %d%s, descriptors %d, session leader %d, failing %s %d", R ? R : "(none)", M[mask], lim, limit_fake ? " (reported differently)" : "", pre, sess, CALL[f_call], f_at); mc_step();
    int gate[2]; if (pipe(gate)) abort();
    fflush(NULL); pid_t w = __real_fork();
    if (!w) {
        __real_close(gate[1]); char c; while (read(gate[0], &c, 1) == 1); /* until the harness is ready */
        struct rlimit cpu = { 400, 400 }; setrlimit(RLIMIT_CPU, &cpu); lg = zt_log_file("/dev/null", ZT_LOG_FILE_APPEND, ZT_LOG_RAW); zt_log_logger(lg);
        if (__real_chdir(dir)) abort(); umask(027); if (sess) __real_setsid();
        struct rlimit nf; __real_getrlimit(RLIMIT_NOFILE, &nf); nf.rlim_cur = lim; setrlimit(RLIMIT_NOFILE, &nf);
        int lo = open("/dev/zero", O_RDWR), reach = limit_fake && fake == 3 ? 3 : lim; if (pre & 1) for (int i = 3; i < reach; i++) dup2(lo, i); else { for (int i = 3; i < reach; i += 7) dup2(lo, i); dup2(lo, reach - 1); } if (limit_fake && fake == 3) for (int i = 3; i < lim; i++) __real_close(i); if (pre & 2) __real_close(0); if (pre & 4) { __real_close(1); __real_close(2); }
        S->orig = getpid(); S->orig_sid = getsid(0); in_w = 1; int r = zt_daemonize((char *)R, M[mask], 0); in_w = 0;
        if (!__sync_fetch_and_add(&S->returned, 1)) {
            S->ret = r; S->pid = getpid(); S->sid = getsid(0); S->pgrp = getpgrp(); S->mask = umask(0); umask(S->mask); if (!getcwd(S->cwd, sizeof S->cwd)) S->cwd[0] = 0; struct stat n, st; stat("/dev/null", &n); int top = lim > 1024 ? lim : 1100;
            for (int i = 0; i < top; i++) if (fcntl(i, F_GETFD) != -1) { if (S->nfd < 4096) S->fds[S->nfd++] = i; if (i < 3) { S->null[i] = !fstat(i, &st) && S_ISCHR(st.st_mode) && st.st_rdev == n.st_rdev; S->rw[i] = fcntl(i, F_GETFL) & O_ACCMODE; } }
        }
        _exit(42);
    }
    __real_close(gate[0]); __real_close(gate[1]); int st, wst = -1, others = 0, killed = 0; pid_t p; while ((p = waitpid(-1, &st, 0)) > 0 || errno == EINTR) { if (p <= 0) continue; if (WIFSIGNALED(st)) killed = WTERMSIG(st); if (p == w) wst = st; else others++; }
    char cmd[400]; snprintf(cmd, sizeof cmd, "%s/sub", dir); rmdir(cmd); rmdir(dir);
    MC_CHECK(!killed, "a process is ended by signal %d", killed); MC_CHECK(S->bad != 2, "closing descriptors does not end"); MC_CHECK(!S->bad, "negative descriptors are closed"); int dies = f_call || root == 4; MC_CHECK(WIFEXITED(wst), "the caller does not exit");
    if (f_call) MC_CHECK(S->faults == 1, "%s is called %d times", CALL[f_call], S->done[f_call]);
    if (dies) { MC_CHECK(!S->returned, "a process goes on although %s fails", f_call ? CALL[f_call] : "the directory is missing"); if (f_call == 1 && f_at == 1) MC_CHECK(WEXITSTATUS(wst), "the caller reports success although it cannot fork"); munmap(S, sizeof *S); mc_nontrivial(); mc_state(mc_mix(mc_mix(f_call, f_at), root)); return; }
    MC_CHECK(S->returned == 1, "%d processes return", S->returned); MC_CHECK(WEXITSTATUS(wst) == 0, "the caller exits with %d", WEXITSTATUS(wst)); MC_CHECK(S->ret == 0, "result %d", S->ret);
    MC_CHECK(S->pid != S->orig, "the daemon is the caller"); MC_CHECK(S->sid != S->orig_sid, "the daemon stays in the session of the caller"); MC_CHECK(S->sid != S->pid, "the daemon leads its session: it can get a terminal again"); MC_CHECK(S->pgrp != S->pid && S->pgrp == S->sid, "process group");
    MC_CHECK(S->mask == (int)M[mask], "file mask %o, asked for %o", S->mask, M[mask]); MC_CHECK(!strcmp(S->cwd, want), "the daemon runs in '%s', must be '%s'", S->cwd, want);
    MC_CHECK(S->nfd == 3 && S->fds[0] == 0 && S->fds[1] == 1 && S->fds[2] == 2, "%d descriptors are open, the last is %d", S->nfd, S->nfd ? S->fds[S->nfd - 1] : -1); for (int i = 0; i < 3; i++) MC_CHECK(S->null[i] && S->rw[i] == O_RDWR, "descriptor %d is not /dev/null for reading and writing", i);
    munmap(S, sizeof *S); mc_nontrivial(); mc_state(mc_mix(mc_mix(mc_mix(root, mask), lim), pre * 2 + sess));
}
