/* Preloaded into seatd while it starts: records what it does to the socket path,
 * injects failures and looks at the socket as clients would. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

#define PATH "seatd.sock"
static int logfd = -1, nfd = -1, served, nw, wclosed;
static ino_t mine; static dev_t minedev;
static char fcall[32]; static int fnum, ferr, race;

static void ev(const char *fmt, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b - 2, fmt, ap);
	va_end(ap);
	b[n++] = '\n';
	syscall(SYS_write, logfd, b, n);
}
#define REAL(f) __typeof__(f) *real_##f = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)

__attribute__((constructor)) static void setup(void) {
	const char *p = getenv("ST_LOG");
	if (!p) return;
	int fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	logfd = fcntl(fd, F_DUPFD_CLOEXEC, 180);
	syscall(SYS_close, fd);
	nfd = atoi(getenv("ST_NFD") ?: "-1");
	if (getenv("ST_FAIL")) sscanf(getenv("ST_FAIL"), "%31[a-z0-9]:%d:%d", fcall, &fnum, &ferr);
	race = getenv("ST_RACE") ? atoi(getenv("ST_RACE")) : 0;
	unsetenv("LD_PRELOAD");
}
static int inject(const char *c) {
	if (logfd == -1 || strcmp(c, fcall) || --fnum) return 0;
	ev("{\"t\":\"fault\",\"c\":\"%s\"}", c);
	errno = ferr;
	return 1;
}
static const char *kind(struct stat *st) {
	switch (st->st_mode & S_IFMT) {
	case S_IFSOCK: return "sock"; case S_IFREG: return "file"; case S_IFDIR: return "dir"; case S_IFIFO: return "fifo"; case S_IFLNK: return "link"; }
	return "other";
}
static int look(struct stat *st) { return syscall(SYS_newfstatat, AT_FDCWD, PATH, st, AT_SYMLINK_NOFOLLOW); }
static int ismine(struct stat *st) { return mine && st->st_ino == mine && st->st_dev == minedev; }
static int isours(const char *p) { return !strcmp(p, PATH) || !strcmp(p, "./" PATH); }

static void snap(const char *t, const char *bytes) {
	struct stat st = {0};
	int ok = look(&st) == 0, conn = 0;
	if (ok) {
		int s = syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		struct sockaddr_un a = {.sun_family = AF_UNIX, .sun_path = PATH};
		conn = syscall(SYS_connect, s, &a, sizeof a) == 0;
		syscall(SYS_close, s);
	}
	ev("{\"t\":\"%s\",\"b\":\"%s\",\"kind\":\"%s\",\"mine\":%d,\"mode\":%d,\"uid\":%d,\"gid\":%d,\"conn\":%d}", t, bytes,
	   ok ? kind(&st) : "none", ok && ismine(&st), st.st_mode & 07777, st.st_uid, st.st_gid, conn);
}

int socket(int d, int t, int p) { if (inject("socket")) return -1; return syscall(SYS_socket, d, t, p); }
int listen(int fd, int n) { if (inject("listen")) return -1; return syscall(SYS_listen, fd, n); }
int pipe2(int *p, int f) { if (inject("pipe")) return -1; return syscall(SYS_pipe2, p, f); }
int pipe(int *p) { return pipe2(p, 0); }
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
	if (a && inject("sigaction")) return -1;
	REAL(sigaction);
	return real_sigaction(s, a, o);
}
void *calloc(size_t a, size_t b) {
	extern void *__libc_calloc(size_t, size_t);
	if (inject("calloc")) return NULL;
	return __libc_calloc(a, b);
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
	if (inject("bind")) return -1;
	const struct sockaddr_un *u = (const void *)a;
	char p[200] = "";
	memcpy(p, u->sun_path, n - 2 < sizeof p ? n - 2 : sizeof p - 1);
	if (race) { race = 0; int f = syscall(SYS_openat, AT_FDCWD, PATH, O_CREAT | O_EXCL | O_RDWR, 0600); if (f != -1) { syscall(SYS_close, f); ev("{\"t\":\"race\"}"); } }
	int r = syscall(SYS_bind, fd, a, n), e = errno;
	struct stat st;
	if (r == 0 && isours(p) && !look(&st)) { mine = st.st_ino; minedev = st.st_dev; }
	ev("{\"t\":\"bind\",\"r\":%d,\"ours\":%d}", r, isours(p));
	errno = e;
	return r;
}
static void touch(const char *c, const char *p, int r, struct stat *st, int had) {
	int e = errno;
	if (isours(p)) ev("{\"t\":\"touch\",\"c\":\"%s\",\"r\":%d,\"kind\":\"%s\",\"mine\":%d}", c, r, had ? kind(st) : "none", had && ismine(st));
	else ev("{\"t\":\"other\",\"c\":\"%s\"}", c);
	errno = e;
}
#define TOUCH(name, p, call) do { if (logfd == -1) return call; if (inject(name)) return -1; struct stat st; int had = !look(&st); int r = call; touch(name, p, r, &st, had); return r; } while (0)
int unlink(const char *p) { TOUCH("unlink", p, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { TOUCH("unlink", p, syscall(SYS_unlinkat, d, p, f)); }
int remove(const char *p) { REAL(remove); TOUCH("unlink", p, real_remove(p)); }
int rename(const char *o, const char *p) { TOUCH("rename", p, syscall(SYS_rename, o, p)); }
int chmod(const char *p, mode_t m) { TOUCH("chmod", p, syscall(SYS_chmod, p, m)); }
int chown(const char *p, uid_t u, gid_t g) { TOUCH("chown", p, syscall(SYS_chown, p, u, g)); }
int lchown(const char *p, uid_t u, gid_t g) { TOUCH("chown", p, syscall(SYS_lchown, p, u, g)); }
int fchmod(int fd, mode_t m) { if (inject("chmod")) return -1; return syscall(SYS_fchmod, fd, m); }
int fchown(int fd, uid_t u, gid_t g) { if (inject("chown")) return -1; return syscall(SYS_fchown, fd, u, g); }

ssize_t write(int fd, const void *b, size_t n) {
	if (logfd != -1 && fd == nfd && !wclosed) {
		if (inject("write")) return -1;
		ssize_t r = syscall(SYS_write, fd, b, n);
		int e = errno;
		char x[8] = "";
		for (ssize_t i = 0; i < r && i < 4; i++) strcat(x, ((char *)b)[i] == '\n' ? "N" : "?");
		if (r > 4) strcat(x, "+");
		if (r > 0) snap("ready", x);
		errno = e;
		return r;
	}
	return syscall(SYS_write, fd, b, n);
}
int close(int fd) {
	if (logfd != -1 && fd == nfd && !wclosed) { ev("{\"t\":\"rclose\"}"); wclosed = 1; }
	if (fd == logfd) { errno = EBADF; return -1; }
	return syscall(SYS_close, fd);
}
static void serving(void) {
	if (logfd == -1 || served) return;
	served = 1;
	snap("serve", "");
}
int poll(struct pollfd *f, nfds_t n, int t) { if (t != 0) serving(); REAL(poll); return real_poll(f, n, t); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *s) { serving(); REAL(ppoll); return real_ppoll(f, n, t, s); }
int epoll_wait(int e, struct epoll_event *v, int n, int t) { serving(); REAL(epoll_wait); return real_epoll_wait(e, v, n, t); }
