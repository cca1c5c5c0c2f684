/* Preloaded into seatd-launch: makes it look setuid and injects failures. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

static char fcall[32]; static int fnum, ferr, logfd = -1; static pid_t main_pid;
#define REAL(f) __typeof__(f) *real_##f = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
__attribute__((constructor)) static void setup(void) {
	if (!getenv("LS_IDS")) return;
	int u[3], g[3];
	sscanf(getenv("LS_IDS"), "%d,%d,%d,%d,%d,%d", &u[0], &u[1], &u[2], &g[0], &g[1], &g[2]);
	if (getenv("LS_FAIL")) sscanf(getenv("LS_FAIL"), "%31[a-z0-9]:%d:%d", fcall, &fnum, &ferr);
	int f = open("log", O_WRONLY | O_APPEND | O_CLOEXEC);
	logfd = fcntl(f, F_DUPFD_CLOEXEC, 180);
	syscall(SYS_close, f);
	unsetenv("LD_PRELOAD"); unsetenv("LS_IDS"); unsetenv("LS_FAIL");
	main_pid = getpid();
	syscall(SYS_setgroups, 0, NULL);
	syscall(SYS_setresgid, g[0], g[1], g[2]);
	syscall(SYS_setresuid, u[0], u[1], u[2]);
}
static int inject(const char *c) {
	if (logfd == -1 || strcmp(c, fcall) || --fnum) return 0;
	char b[100];
	int n = sprintf(b, "{\"t\":\"fault\",\"c\":\"%s\",\"e\":%d}\n", c, ferr);
	syscall(SYS_write, logfd, b, n);
	errno = ferr;
	return 1;
}
pid_t fork(void) { if (inject("fork")) return -1; REAL(fork); return real_fork(); }
pid_t vfork(void) { if (inject("fork")) return -1; REAL(fork); return real_fork(); }
int pipe(int *p) { if (inject("pipe")) return -1; return syscall(SYS_pipe2, p, 0); }
int pipe2(int *p, int f) { if (inject("pipe")) return -1; return syscall(SYS_pipe2, p, f); }
int poll(struct pollfd *f, nfds_t n, int t) { if (inject("poll")) return -1; REAL(poll); return real_poll(f, n, t); }
ssize_t read(int fd, void *b, size_t n) { if (inject("read")) return -1; return syscall(SYS_read, fd, b, n); }
int chown(const char *p, uid_t u, gid_t g) { if (inject("chown")) return -1; return syscall(SYS_chown, p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { if (inject("chown")) return -1; return syscall(SYS_lchown, p, u, g); }
int chmod(const char *p, mode_t m) { if (inject("chmod")) return -1; return syscall(SYS_chmod, p, m); }
int setgid(gid_t g) { if (inject("setgid")) return -1; REAL(setgid); return real_setgid(g); }
int setuid(uid_t u) { if (inject("setuid")) return -1; REAL(setuid); return real_setuid(u); }
int setresuid(uid_t a, uid_t b, uid_t c) { if (inject("setuid")) return -1; REAL(setresuid); return real_setresuid(a, b, c); }
int setresgid(gid_t a, gid_t b, gid_t c) { if (inject("setgid")) return -1; REAL(setresgid); return real_setresgid(a, b, c); }
int execve(const char *p, char *const *a, char *const *e) { if (inject("execve")) return -1; REAL(execve); return real_execve(p, a, e); }
int execvp(const char *p, char *const *a) { if (inject("execvp")) return -1; REAL(execvp); return real_execvp(p, a); }
pid_t waitpid(pid_t p, int *st, int o) {
	if (inject(o & WNOHANG ? "waitnb" : "waitpid")) return -1;
	REAL(waitpid);
	return real_waitpid(p, st, o);
}
