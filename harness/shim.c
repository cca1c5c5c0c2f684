/*
 * The outside world for a seatd server under test (LD_PRELOAD).
 *
 * Replaces, for the process it is loaded into, only what is outside seatd: the
 * Linux VT layer, DRM/evdev device nodes and the file tree they live in, and the
 * readiness the kernel reports from poll(2).  Nothing real is ever opened below
 * /dev: paths are resolved inside SHIM_ROOT and every "device" is a memfd whose
 * name tells which open file it stands for.
 *
 * The process is run in lock step: whenever poll() finds nothing ready, the shim
 * reports "idle" on the control socket and obeys commands until told to go on.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NVT 64
#define NOFD 8192
#define NCONN 4096
#define NNODE 64
#define DRM_SET _IO('d', 0x1e)
#define DRM_DROP _IO('d', 0x1f)

enum { K_NONE, K_EVDEV, K_CARD, K_RENDER, K_OTHER, K_DRMOTHER };

struct kern {
	int32_t magic, fg, sigmode, pend_rel, pend_acq, nofd, nconn, nnode;
	struct { int32_t mode, kd, kb, newvt, relsig, acqsig, pid, pad; } vt[NVT];
	struct { int32_t master, ext; char path[56]; } node[NNODE];
	struct {
		int32_t kind, node, revoked, srvheld, cliheld, flags, dead, nrev;
		char path[96];
	} ofd[NOFD];
};

static struct kern *K;
static int ctl = -1, logfd = -1;
static pid_t skip_pid = 0;
static char root[PATH_MAX];
static bool on;
static long npolls;
static long polllimit = 3000;

static int conn_of_fd[NCONN]; /* fd -> conn index, -1 */
static long budget[NCONN];
static bool conn_shut[NCONN];
static int nconn;

enum { F_OPEN, F_DUP, F_IOCTL, F_RECV, F_SEND, F_ACCEPT, F_TTY, F_SETM, F_DROPM, F_REVOKE, F_VTSTATE, F_ALLOC, F_POLL, F_MAX };
static const char *fname[] = {"open", "dup", "ioctl", "recv", "send", "accept", "tty", "setm", "dropm", "revoke", "vtstate", "alloc", "poll"};
static struct { int skip, count, err; } fault[F_MAX];
static struct { int n, sig; } armsig[F_MAX];
static int raise_q[16], raise_n, late_q[16], late_n;

#define REAL(ret, name, ...) \
	static ret (*real_##name)(__VA_ARGS__); \
	if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int raw_close(int fd) { return syscall(SYS_close, fd); }

static void logf_(const char *fmt, ...) {
	if (logfd < 0) return;
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	int e = errno;
	(void)!syscall(SYS_write, logfd, b, n);
	errno = e;
}

static bool hit(int f) {
	if (armsig[f].n > 0 && --armsig[f].n == 0) {
		int e = errno;
		raise(armsig[f].sig);
		errno = e;
	}
	if (fault[f].count > 0) {
		if (fault[f].skip > 0) {
			fault[f].skip--;
			return false;
		}
		fault[f].count--;
		errno = fault[f].err;
		return true;
	}
	return false;
}

__attribute__((constructor)) static void init(void) {
	const char *m = getenv("SHIM_MAP");
	for (int i = 0; i < NCONN; i++) conn_of_fd[i] = -1, budget[i] = -1;
	if (!m) return;
	int fd = syscall(SYS_openat, AT_FDCWD, m, O_RDWR | O_CLOEXEC);
	if (fd < 0) return;
	K = mmap(NULL, sizeof *K, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	raw_close(fd);
	if (K == MAP_FAILED) { K = NULL; return; }
	snprintf(root, sizeof root, "%s", getenv("SHIM_ROOT"));
	if (getenv("SHIM_CTL")) {
		ctl = atoi(getenv("SHIM_CTL"));
	}
	if (getenv("SHIM_LOG")) logfd = syscall(SYS_openat, AT_FDCWD, getenv("SHIM_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (logfd >= 0) {
		int n = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
		if (n >= 0) { raw_close(logfd); logfd = n; }
	}
	if (getenv("SHIM_BUILTIN")) skip_pid = getpid();
	if (getenv("SHIM_POLLLIMIT")) polllimit = atol(getenv("SHIM_POLLLIMIT"));
	on = true;
}

static bool active(void) { return on && !(skip_pid && getpid() == skip_pid); }

/* The application of an embedded server dies at the n-th call its library makes:
 * before it (0), after it (1), or in the middle of what it sends (2). */
int shim_die, shim_die_how;
static bool dying(void) { return skip_pid && shim_die > 0 && getpid() == skip_pid && --shim_die == 0; }
void shim_dying(void) { if (dying()) syscall(SYS_kill, getpid(), SIGKILL); }

/* ------------------------------------------------------------------ paths */

/* Resolve path inside root like the kernel would with root as "/".
 * out: virtual canonical path.  nofollow: do not follow the last component. */
static int vresolve(const char *path, char *out, bool nofollow) {
	char todo[PATH_MAX * 2], cur[PATH_MAX] = "", host[PATH_MAX * 2], link[PATH_MAX];
	int links = 0;
	if (path[0] == 0) { errno = ENOENT; return -1; }
	if (strlen(path) >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
	snprintf(todo, sizeof todo, "%s", path);
	char *p = todo;
	if (*p != '/') { errno = ENOENT; return -1; } /* nothing lives in the cwd */
	while (*p) {
		while (*p == '/') p++;
		if (!*p) break;
		char comp[PATH_MAX];
		size_t n = strcspn(p, "/");
		if (n > 255) { errno = ENAMETOOLONG; return -1; }
		memcpy(comp, p, n);
		comp[n] = 0;
		p += n;
		bool trailing = *p == '/';
		const char *q = p;
		while (*q == '/') q++;
		bool last = *q == 0;
		struct stat st;
		/* the directory we are in must be one */
		snprintf(host, sizeof host, "%s%s", root, cur);
		if (lstat(host, &st) < 0) return -1;
		if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
		if (strcmp(comp, ".") == 0) continue;
		if (strcmp(comp, "..") == 0) {
			char *s = strrchr(cur, '/');
			if (s) *s = 0;
			continue;
		}
		size_t cl = strlen(cur);
		snprintf(cur + cl, sizeof cur - cl, "/%s", comp);
		snprintf(host, sizeof host, "%s%s", root, cur);
		if (strncmp(cur, "/dev/tty", 8) == 0 && cur[8] >= '0' && cur[8] <= '9') {
			if (!last) { errno = ENOTDIR; return -1; }
			continue;
		}
		if (lstat(host, &st) < 0) return -1;
		if (S_ISLNK(st.st_mode)) {
			if (last && nofollow && !trailing) { errno = ELOOP; return -1; }
			if (++links > 40) { errno = ELOOP; return -1; }
			ssize_t k = readlink(host, link, sizeof link - 1);
			if (k < 0) return -1;
			link[k] = 0;
			char rest[PATH_MAX * 2];
			snprintf(rest, sizeof rest, "%s%s", link, p);
			snprintf(todo, sizeof todo, "%s", rest);
			p = todo;
			if (link[0] == '/') cur[0] = 0; else cur[cl] = 0;
		} else if (trailing && !S_ISDIR(st.st_mode)) {
			errno = ENOTDIR;
			return -1;
		}
	}
	strcpy(out, cur[0] ? cur : "/");
	return 0;
}

char *realpath(const char *path, char *resolved) {
	REAL(char *, realpath, const char *, char *);
	if (!active()) return real_realpath(path, resolved);
	if (path == NULL) { errno = EINVAL; return NULL; }
	char out[PATH_MAX];
	if (vresolve(path, out, false) < 0) return NULL;
	if (!resolved) return strdup(out);
	strcpy(resolved, out);
	return resolved;
}
char *__realpath_chk(const char *path, char *resolved, size_t n) { (void)n; return realpath(path, resolved); }
char *canonicalize_file_name(const char *path) { return realpath(path, NULL); }

static int node_of(const char *path) {
	for (int i = 0; i < K->nnode; i++) if (!strcmp(K->node[i].path, path)) return i;
	int i = K->nnode++;
	snprintf(K->node[i].path, sizeof K->node[i].path, "%s", path);
	K->node[i].master = -1;
	K->node[i].ext = 0;
	return i;
}

static int kind_of(const char *p) {
	if (!strncmp(p, "/dev/input/event", 16)) return K_EVDEV;
	if (!strncmp(p, "/dev/dri/card", 13)) return K_CARD;
	if (!strncmp(p, "/dev/dri/render", 15)) return K_RENDER;
	if (!strncmp(p, "/dev/dri/", 9)) return K_DRMOTHER;
	return K_OTHER;
}

static int vopen(const char *path, int flags) {
	char v[PATH_MAX], host[PATH_MAX * 2];
	if (vresolve(path, v, flags & O_NOFOLLOW) < 0) {
		logf_("openfail %d %s", errno, path);
		return -1;
	}
	if (!strncmp(v, "/dev/tty", 8) && v[8] >= '0' && v[8] <= '9') {
		int n = atoi(v + 8);
		if (n >= NVT) { errno = ENXIO; return -1; }
		if (hit(F_TTY)) { logf_("ttyfail %d %d", n, errno); return -1; }
		if (n == 0) n = K->fg; /* tty0 is the foreground VT at open time */
		char name[32];
		snprintf(name, sizeof name, "tty%d", n);
		return memfd_create(name, (flags & O_CLOEXEC) ? MFD_CLOEXEC : 0);
	}
	if (hit(F_OPEN)) { logf_("openfail %d %s", errno, v); return -1; }
	snprintf(host, sizeof host, "%s%s", root, v);
	struct stat st;
	if (lstat(host, &st) < 0) return -1;
	if (S_ISDIR(st.st_mode)) {
		if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; logf_("openfail %d %s", errno, v); return -1; }
	} else if (st.st_size > 6) { /* "errno=NN": a node whose open fails */
		char b[32] = {0};
		int h = syscall(SYS_openat, AT_FDCWD, host, O_RDONLY);
		(void)!syscall(SYS_read, h, b, sizeof b - 1);
		raw_close(h);
		if (!strncmp(b, "errno=", 6)) { errno = atoi(b + 6); logf_("openfail %d %s", errno, v); return -1; }
	}
	if (K->nofd >= NOFD) { errno = ENFILE; return -1; }
	int o = K->nofd;
	char name[32];
	snprintf(name, sizeof name, "ofd%d", o);
	int fd = memfd_create(name, (flags & O_CLOEXEC) ? MFD_CLOEXEC : 0);
	if (fd < 0) return -1;
	fcntl(fd, F_SETFL, flags & O_NONBLOCK);
	K->nofd++;
	memset(&K->ofd[o], 0, sizeof K->ofd[o]);
	K->ofd[o].kind = kind_of(v);
	K->ofd[o].flags = flags;
	K->ofd[o].srvheld = 1;
	snprintf(K->ofd[o].path, sizeof K->ofd[o].path, "%s", v);
	K->ofd[o].node = -1;
	if (K->ofd[o].kind == K_CARD) {
		int nd = node_of(v);
		K->ofd[o].node = nd;
		if (K->node[nd].master == -1 && !K->node[nd].ext) K->node[nd].master = o;
	}
	logf_("open %d %d %s", o, flags, v);
	return fd;
}

static bool passthru(const char *path) {
	return path[0] != '/' || !strcmp(path, "/dev/null") || !strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5);
}

#define OPENBODY(realcall) \
	mode_t mode = 0; \
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
	if (active() && !passthru(path)) return vopen(path, flags); \
	return realcall;

int open(const char *path, int flags, ...) { OPENBODY(syscall(SYS_openat, AT_FDCWD, path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPENBODY(syscall(SYS_openat, AT_FDCWD, path, flags, mode)) }
int openat(int dfd, const char *path, int flags, ...) { OPENBODY(syscall(SYS_openat, dfd, path, flags, mode)) }
int openat64(int dfd, const char *path, int flags, ...) { OPENBODY(syscall(SYS_openat, dfd, path, flags, mode)) }
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open(path, flags); }

/* ---------------------------------------------------------------- descriptors */

/* returns 't' (num = vt), 'o' (num = ofd) or 0 */
static char ident(int fd, int *num) {
	char l[64], b[128];
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	int e = errno;
	ssize_t n = readlink(l, b, sizeof b - 1);
	errno = e;
	if (n <= 0) return 0;
	b[n] = 0;
	if (!strncmp(b, "/memfd:tty", 10)) { *num = atoi(b + 10); return 't'; }
	if (!strncmp(b, "/memfd:ofd", 10)) { *num = atoi(b + 10); return 'o'; }
	return 0;
}

static void ofd_check_dead(int o) {
	if (K->ofd[o].srvheld == 0 && K->ofd[o].cliheld == 0 && !K->ofd[o].dead) {
		K->ofd[o].dead = 1;
		int nd = K->ofd[o].node;
		if (nd >= 0 && K->node[nd].master == o) K->node[nd].master = -1;
	}
}

int close(int fd) {
	if (!active()) return raw_close(fd);
	int num;
	if (fd == ctl || (logfd >= 0 && fd == logfd)) { logf_("badclose %d", fd); errno = EBADF; return -1; }
	char t = ident(fd, &num);
	int c = (fd >= 0 && fd < NCONN) ? conn_of_fd[fd] : -1;
	int r = raw_close(fd);
	if (r < 0 && errno == EBADF) { logf_("badclose %d", fd); errno = EBADF; return r; }
	if (t == 'o') { K->ofd[num].srvheld--; logf_("closeofd %d", num); ofd_check_dead(num); }
	if (c >= 0) { conn_of_fd[fd] = -1; logf_("closeconn %d", c); }
	return r;
}

static int dupped(int r, int fd) {
	int num;
	if (r >= 0 && ident(fd, &num) == 'o') K->ofd[num].srvheld++;
	return r;
}

int dup(int fd) {
	if (active() && hit(F_DUP)) return -1;
	int r = syscall(SYS_dup, fd);
	return active() ? dupped(r, fd) : r;
}

int fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	bool d = cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC;
	if (active() && d && hit(F_DUP)) return -1;
	int r = syscall(SYS_fcntl, fd, cmd, arg);
	return active() && d ? dupped(r, fd) : r;
}
int fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return fcntl64(fd, cmd, arg);
}

static int accepted(int r) {
	if (r >= 0 && r < NCONN) {
		conn_of_fd[r] = nconn;
		budget[nconn] = -1;
		conn_shut[nconn] = false;
		logf_("accept %d", nconn);
		nconn++;
		K->nconn = nconn;
	}
	return r;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
	if (!active()) return syscall(SYS_accept, fd, a, l);
	if (hit(F_ACCEPT)) return -1;
	return accepted(syscall(SYS_accept, fd, a, l));
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) {
	if (!active()) return syscall(SYS_accept4, fd, a, l, f);
	if (hit(F_ACCEPT)) return -1;
	return accepted(syscall(SYS_accept4, fd, a, l, f));
}

/* memory runs out for the program itself, not for the libraries */
extern void *__libc_calloc(size_t, size_t), *__libc_malloc(size_t);
static bool nomem(void *ra) {
	if (!K || !fault[F_ALLOC].count) return false;
	Dl_info i;
	if (!dladdr(ra, &i) || !i.dli_fname || strstr(i.dli_fname, "libc.") || strstr(i.dli_fname, "shim.so") || strstr(i.dli_fname, "ld-linux")) return false;
	return active() && hit(F_ALLOC);
}
void *calloc(size_t n, size_t z) { return nomem(__builtin_return_address(0)) ? NULL : __libc_calloc(n, z); }
void *malloc(size_t z) { return nomem(__builtin_return_address(0)) ? NULL : __libc_malloc(z); }
char *strdup(const char *s) {
	if (nomem(__builtin_return_address(0))) return NULL;
	size_t n = strlen(s) + 1;
	char *r = __libc_malloc(n);
	return r ? memcpy(r, s, n) : NULL;
}

/* the embedded server's end of its socketpair */
static void adopt(int fd) {
	if (fd >= 0 && fd < NCONN && conn_of_fd[fd] < 0 && skip_pid && nconn == 0) accepted(fd);
}

ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
	if (!active() && dying()) {
		struct iovec v = m->msg_iov[0];
		struct msghdr h = *m;
		h.msg_iov = &v;
		h.msg_iovlen = 1;
		if (v.iov_len > 3) v.iov_len = 3;
		if (shim_die_how > 0) syscall(SYS_sendmsg, fd, shim_die_how == 1 ? m : &h, flags);
		syscall(SYS_kill, getpid(), SIGKILL);
	}
	if (!active()) return syscall(SYS_sendmsg, fd, m, flags);
	adopt(fd);
	if (hit(F_SEND)) return -1;
	int c = fd < NCONN && fd >= 0 ? conn_of_fd[fd] : -1;
	if (c < 0) return syscall(SYS_sendmsg, fd, m, flags);
	size_t total = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) total += m->msg_iov[i].iov_len;
	struct msghdr mm = *m;
	struct iovec iov[8];
	if (conn_shut[c]) { errno = EPIPE; return -1; }
	if (budget[c] >= 0) {
		if (budget[c] == 0) { errno = EAGAIN; return -1; }
		size_t left = budget[c];
		size_t k = 0;
		for (size_t i = 0; i < m->msg_iovlen && i < 8 && left > 0; i++) {
			iov[k] = m->msg_iov[i];
			if (iov[k].iov_len > left) iov[k].iov_len = left;
			left -= iov[k].iov_len;
			k++;
		}
		mm.msg_iov = iov;
		mm.msg_iovlen = k;
	}
	int ofds[300], nf = 0;
	for (struct cmsghdr *h = CMSG_FIRSTHDR(&mm); h; h = CMSG_NXTHDR(&mm, h)) {
		if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) {
			int n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			for (int i = 0; i < n && nf < 300; i++) {
				int f, num;
				memcpy(&f, CMSG_DATA(h) + i * sizeof f, sizeof f);
				ofds[nf++] = ident(f, &num) == 'o' ? num : -1;
			}
		}
	}
	ssize_t r = syscall(SYS_sendmsg, fd, &mm, flags);
	if (r >= 0) {
		if (budget[c] >= 0) budget[c] -= r;
		char hex[1200];
		int hl = 0;
		size_t done = 0;
		for (size_t i = 0; i < mm.msg_iovlen; i++)
			for (size_t j = 0; j < mm.msg_iov[i].iov_len && done < (size_t)r && hl < 1190; j++, done++)
				hl += sprintf(hex + hl, "%02x", ((unsigned char *)mm.msg_iov[i].iov_base)[j]);
		hex[hl] = 0;
		for (int i = 0; i < nf; i++) if (ofds[i] >= 0) K->ofd[ofds[i]].cliheld++;
		logf_("send %d %s %d", c, hl ? hex : "-", nf);
	}
	return r;
}

ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
	if (!active()) {
		bool d = dying();
		if (d && shim_die_how == 0) syscall(SYS_kill, getpid(), SIGKILL);
		ssize_t r = syscall(SYS_recvmsg, fd, m, flags);
		if (d) syscall(SYS_kill, getpid(), SIGKILL);
		return r;
	}
	adopt(fd);
	if (hit(F_RECV)) return -1;
	return syscall(SYS_recvmsg, fd, m, flags);
}

int shutdown(int fd, int how) {
	if (active() && fd >= 0 && fd < NCONN && conn_of_fd[fd] >= 0 && how != SHUT_RD) {
		conn_shut[conn_of_fd[fd]] = true;
		logf_("shutconn %d", conn_of_fd[fd]);
	}
	return syscall(SYS_shutdown, fd, how);
}

/* ---------------------------------------------------------------- VT layer */

static void send_sig(bool acq) {
	if (acq) K->pend_acq++; else K->pend_rel++;
	logf_("%s", acq ? "sigacq" : "sigrel");
	if (K->sigmode == 1) {
		/* delivered at once, as the kernel does to a running process */
		if (acq) K->pend_acq = 0; else K->pend_rel = 0;
		int e = errno;
		raise(acq ? SIGUSR2 : SIGUSR1);
		errno = e;
	}
}
static void complete_switch(int v) {
	K->fg = v;
	logf_("fg %d", v);
	if (K->vt[v].mode == VT_PROCESS) send_sig(true);
}
static void change_console(int v) {
	int f = K->fg;
	if (v == f) return;
	if (K->vt[f].mode == VT_PROCESS) {
		K->vt[f].newvt = v;
		send_sig(false);
		return;
	}
	if (K->vt[f].kd == KD_GRAPHICS) return;
	complete_switch(v);
}

static int tty_ioctl(int vt, unsigned long req, unsigned long arg) {
	int r = 0;
	switch (req) {
	case VT_GETSTATE: {
		if (hit(F_VTSTATE)) { logf_("vtstatefail"); return -1; }
		struct vt_stat *st = (void *)arg;
		st->v_active = K->fg;
		st->v_signal = 0;
		st->v_state = 1;
		return 0;
	}
	case VT_GETMODE: {
		struct vt_mode *m = (void *)arg;
		memset(m, 0, sizeof *m);
		m->mode = K->vt[vt].mode;
		m->relsig = K->vt[vt].relsig;
		m->acqsig = K->vt[vt].acqsig;
		return 0;
	}
	case VT_SETMODE: {
		struct vt_mode *m = (void *)arg;
		if (m->mode != VT_AUTO && m->mode != VT_PROCESS) { errno = EINVAL; return -1; }
		K->vt[vt].mode = m->mode;
		K->vt[vt].relsig = m->relsig;
		K->vt[vt].acqsig = m->acqsig;
		K->vt[vt].newvt = -1;
		K->vt[vt].pid = getpid();
		logf_("setmode %d %d %d %d", vt, m->mode, m->relsig, m->acqsig);
		return 0;
	}
	case VT_RELDISP:
		if (K->vt[vt].mode != VT_PROCESS) { errno = EINVAL; r = -1; }
		else if (K->vt[vt].newvt < 0) {
			if (arg != VT_ACKACQ) { errno = EINVAL; r = -1; }
		} else if (arg == 0) K->vt[vt].newvt = -1;
		else {
			int nv = K->vt[vt].newvt;
			K->vt[vt].newvt = -1;
			logf_("reldisp %d %lu 0", vt, arg);
			complete_switch(nv);
			return 0;
		}
		int e = errno;
		logf_("reldisp %d %lu %d", vt, arg, r);
		errno = e;
		return r;
	case VT_ACTIVATE:
		if (arg == 0 || arg >= NVT) { errno = ENXIO; logf_("activate %d %ld -1", vt, (long)arg); errno = ENXIO; return -1; }
		if (K->vt[K->fg].mode == VT_AUTO && K->vt[K->fg].kd == KD_GRAPHICS) { errno = EINVAL; return -1; }
		logf_("activate %d %ld 0", vt, (long)arg);
		change_console(arg);
		return 0;
	case VT_WAITACTIVE:
		return 0;
	case KDSETMODE:
		if (arg != KD_TEXT && arg != KD_GRAPHICS) { errno = EINVAL; return -1; }
		K->vt[vt].kd = arg;
		logf_("kd %d %ld", vt, (long)arg);
		return 0;
	case KDGETMODE:
		*(int *)arg = K->vt[vt].kd;
		return 0;
	case KDSKBMODE:
		if (arg != K_UNICODE && arg != K_OFF && arg != K_XLATE && arg != K_RAW && arg != K_MEDIUMRAW) { errno = EINVAL; return -1; }
		K->vt[vt].kb = arg;
		logf_("kb %d %ld", vt, (long)arg);
		return 0;
	case KDGKBMODE:
		*(int *)arg = K->vt[vt].kb;
		return 0;
	}
	errno = ENOTTY;
	return -1;
}

static int ofd_ioctl(int o, unsigned long req) {
	int r = 0;
	int kind = K->ofd[o].kind;
	if (req == DRM_SET || req == DRM_DROP) {
		bool set = req == DRM_SET;
		int nd = K->ofd[o].node;
		if (hit(set ? F_SETM : F_DROPM)) r = -1;
		else if (kind == K_RENDER) { errno = EACCES; r = -1; }
		else if (kind != K_CARD) { errno = ENOTTY; r = -1; }
		else if (set) {
			if (K->node[nd].master == o) r = 0;
			else if (K->node[nd].master != -1 || K->node[nd].ext) { errno = EBUSY; r = -1; }
			else K->node[nd].master = o;
		} else {
			if (K->node[nd].master != o) { errno = EINVAL; r = -1; }
			else K->node[nd].master = -1;
		}
		logf_("%s %d %d", set ? "setm" : "dropm", o, r);
		return r;
	}
	if (req == EVIOCREVOKE || (unsigned)req == (unsigned)EVIOCREVOKE) {
		if (hit(F_REVOKE)) r = -1;
		else if (kind != K_EVDEV) { errno = ENOTTY; r = -1; }
		else { K->ofd[o].revoked = 1; K->ofd[o].nrev++; }
		logf_("revoke %d %d", o, r);
		return r;
	}
	errno = ENOTTY;
	return -1;
}

int ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	unsigned long arg = va_arg(ap, unsigned long);
	va_end(ap);
	if (!active()) return syscall(SYS_ioctl, fd, req, arg);
	int num;
	char t = ident(fd, &num);
	if (t && hit(F_IOCTL)) return -1;
	if (t == 't') return tty_ioctl(num, (unsigned int)req, arg);
	if (t == 'o') return ofd_ioctl(num, (unsigned int)req);
	return syscall(SYS_ioctl, fd, req, arg);
}

/* ---------------------------------------------------------------- lock step */

static int census(char *b, int max) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return 0;
	struct dirent *e;
	while ((e = readdir(d)) && n < max - 64) {
		int fd = atoi(e->d_name);
		if (e->d_name[0] == '.' || fd == dirfd(d) || fd == ctl || fd == logfd) continue;
		int num;
		char t = ident(fd, &num);
		if (t == 't') n += sprintf(b + n, " t%d", num);
		else if (t == 'o') n += sprintf(b + n, " o%d%s", num, (syscall(SYS_fcntl, fd, F_GETFD, 0) & FD_CLOEXEC) ? "" : "!");
		else if (fd < NCONN && conn_of_fd[fd] >= 0) n += sprintf(b + n, " c%d", conn_of_fd[fd]);
		else {
			struct stat st;
			if (fstat(fd, &st) < 0) continue;
			n += sprintf(b + n, " %c%d", S_ISSOCK(st.st_mode) ? 's' : S_ISFIFO(st.st_mode) ? 'p' : 'x', fd);
		}
	}
	closedir(d);
	b[n] = 0;
	return n;
}

static int fidx(const char *s) {
	for (int i = 0; i < F_MAX; i++) if (!strcmp(s, fname[i])) return i;
	return 0;
}

static int command(char *c) { /* 1: go */
	char w[32];
	int a, b, d, k;
	if (sscanf(c, "%31s", w) != 1) return 0;
	char *r = c + strlen(w);
	if (!strcmp(w, "go")) return 1;
	if (!strcmp(w, "sync")) { /* acknowledge, stay stopped */
		(void)!syscall(SYS_sendto, ctl, "idle 0", 6, MSG_NOSIGNAL, NULL, 0);
		return 0;
	}
	if (!strcmp(w, "chvt") && sscanf(r, "%d", &a) == 1) change_console(a);
	else if (!strcmp(w, "sigmode") && sscanf(r, "%d", &a) == 1) K->sigmode = a;
	else if (!strcmp(w, "deliver") && sscanf(r, "%d", &a) == 1) {
		if (a == SIGUSR1) K->pend_rel = 0;
		if (a == SIGUSR2) K->pend_acq = 0;
		if (raise_n < 16) raise_q[raise_n++] = a;
	} else if (!strcmp(w, "raise") && sscanf(r, "%d", &a) == 1) {
		if (raise_n < 16) raise_q[raise_n++] = a;
	} else if (!strcmp(w, "late") && sscanf(r, "%d", &a) == 1) {
		if (a == SIGUSR1) K->pend_rel = 0;
		if (a == SIGUSR2) K->pend_acq = 0;
		if (late_n < 16) late_q[late_n++] = a;
	} else if (!strcmp(w, "budget") && sscanf(r, "%d %d", &a, &b) == 2) { if (a >= 0 && a < NCONN) budget[a] = b; }
	else if (!strcmp(w, "ext")) {
		char p[64];
		if (sscanf(r, "%63s %d", p, &a) == 2) {
			int nd = node_of(p);
			if (a && K->node[nd].master == -1) K->node[nd].ext = 1;
			if (!a) K->node[nd].ext = 0;
		}
	} else if (!strcmp(w, "armsig")) {
		char f[32];
		if (sscanf(r, "%31s %d %d", f, &a, &b) == 3) { k = fidx(f); armsig[k].n = a; armsig[k].sig = b; }
	} else if (!strcmp(w, "fault")) {
		char f[32];
		if (sscanf(r, "%31s %d %d %d", f, &a, &b, &d) == 4) { k = fidx(f); fault[k].skip = a; fault[k].count = b; fault[k].err = d; }
	} else if (!strcmp(w, "clearfaults")) {
		memset(fault, 0, sizeof fault);
		memset(armsig, 0, sizeof armsig);
	}
	return 0;
}

static int idle(const char *what) {
	fault[F_ALLOC].count = fault[F_TTY].count = 0;
	static char b[65536];
	int n = sprintf(b, "%s %ld", what, npolls);
	n += census(b + n, sizeof b - n - 1);
	if (syscall(SYS_sendto, ctl, b, n, MSG_NOSIGNAL, NULL, 0) < 0) _exit(99);
	npolls = 0;
	for (;;) {
		char c[512];
		ssize_t r = syscall(SYS_recvfrom, ctl, c, sizeof c - 1, 0, NULL, NULL);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) _exit(99);
		c[r] = 0;
		bool go = false;
		for (char *s = strtok(c, ";"); s; s = strtok(NULL, ";")) if (command(s)) go = true;
		if (go) return 0;
	}
}

int poll(struct pollfd *fds, nfds_t n, int timeout) {
	if (!active() || ctl < 0) {
		bool d = dying();
		if (d && shim_die_how == 0) syscall(SYS_kill, getpid(), SIGKILL);
		int r = syscall(SYS_poll, fds, n, timeout);
		if (d) syscall(SYS_kill, getpid(), SIGKILL);
		return r;
	}
	if (skip_pid) for (nfds_t i = 0; i < n; i++) {
		struct stat st;
		if (fstat(fds[i].fd, &st) == 0 && S_ISSOCK(st.st_mode)) adopt(fds[i].fd);
	}
	for (;;) {
		if (raise_n > 0) {
			for (int i = 0; i < raise_n; i++) raise(raise_q[i]);
			raise_n = 0;
			errno = EINTR;
			return -1;
		}
		if (hit(F_POLL)) return -1;
		int r = syscall(SYS_poll, fds, n, 0);
		if (r < 0) return r;
		int k = 0;
		for (nfds_t i = 0; i < n; i++) {
			int c = fds[i].fd >= 0 && fds[i].fd < NCONN ? conn_of_fd[fds[i].fd] : -1;
			if (c >= 0 && budget[c] == 0) fds[i].revents &= ~POLLOUT;
			if (fds[i].revents) k++;
		}
		if (k > 0) {
			if (++npolls > polllimit) {
				idle("spin");
				continue;
			}
			for (int i = 0; i < late_n; i++) raise(late_q[i]);
			late_n = 0;
			return k;
		}
		if (timeout == 0) return 0;
		if (late_n > 0) {
			for (int i = 0; i < late_n; i++) raise(late_q[i]);
			late_n = 0;
			errno = EINTR;
			return -1;
		}
		if (timeout > 0) { idle("timeout"); if (raise_n == 0) return 0; continue; }
		idle("idle");
	}
}
int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
	(void)ss;
	return poll(fds, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
int __poll_chk(struct pollfd *fds, nfds_t n, int timeout, size_t l) { (void)l; return poll(fds, n, timeout); }

/* stat family below /dev only */
int stat(const char *path, struct stat *st) {
	if (active() && !strncmp(path, "/dev/", 5)) {
		char v[PATH_MAX], host[PATH_MAX * 2];
		if (vresolve(path, v, false) < 0) return -1;
		snprintf(host, sizeof host, "%s%s", root, v);
		return syscall(SYS_newfstatat, AT_FDCWD, host, st, 0);
	}
	return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
