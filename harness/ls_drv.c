/* Drives libseat's seatd backend (the built library) against a scripted server. */
#include "unit.h"
#include <poll.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include "libseat.h"

static char logb[1 << 23]; static int logn;
static int depth;			/* inside the library? */
static int srv = -1;			/* the server's end */
static char *plan[256]; static int nplan, iplan;
static long splan[64]; static int nsplan, isplan;
static struct libseat *seat;
static int nids, connerr, bad, base;
static char *oncb[2][UNIT_ARGS]; static int noncb[2];
static int userdata, incb;

static void ev(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (logn) logb[logn++] = ',';
	logn += vsnprintf(logb + logn, sizeof logb - logn, fmt, ap);
	va_end(ap);
}
static void bytes(const unsigned char *b, int n) {
	for (int i = 0; i < n; i++) logn += sprintf(logb + logn, "%s%d", i ? "," : "", b[i]);
}
static int mkfd(int id) {
	char name[32];
	sprintf(name, "id%d", id);
	int fd = syscall(SYS_memfd_create, name, MFD_CLOEXEC);
	ftruncate(fd, id);
	return fd;
}
static int fdid(int fd) {
	struct stat st;
	if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return -1;
	return st.st_size;
}
int close(int fd) {
	int r = syscall(SYS_close, fd);
	if (r == -1 && depth) bad++;
	return r;
}

/* token: hex bytes, optionally +N descriptors */
static void srv_send(const char *tok) {
	unsigned char b[70000]; int n = 0, nf = 0;
	const char *p = tok;
	for (; p[0] && p[0] != '+'; p += 2) { unsigned x; sscanf(p, "%2x", &x); b[n++] = x; }
	if (*p == '+') nf = atoi(p + 1);
	int fds[64];
	union { char buf[CMSG_SPACE(sizeof fds)]; struct cmsghdr h; } u;
	struct iovec iov = {b, n};
	struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1};
	int first = nids + 1;
	if (nf) {
		memset(&u, 0, sizeof u);
		m.msg_control = u.buf; m.msg_controllen = CMSG_SPACE(nf * sizeof(int));
		struct cmsghdr *c = CMSG_FIRSTHDR(&m);
		c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(nf * sizeof(int));
		for (int i = 0; i < nf; i++) fds[i] = mkfd(++nids);
		memcpy(CMSG_DATA(c), fds, nf * sizeof(int));
	}
	long r = syscall(SYS_sendmsg, srv, &m, MSG_NOSIGNAL);
	for (int i = 0; i < nf; i++) syscall(SYS_close, fds[i]);
	if (r != n) { if (r < 0) return; n = r; }
	ev("{\"t\":\"srv\",\"b\":["); bytes(b, n);
	logn += sprintf(logb + logn, "],\"ids\":[");
	for (int i = 0; i < nf; i++) logn += sprintf(logb + logn, "%s%d", i ? "," : "", first + i);
	logn += sprintf(logb + logn, "]}");
}
static void srv_hup(void) {
	if (srv != -1) { syscall(SYS_close, srv); ev("{\"t\":\"hup\"}"); }
	srv = -1;
}

int connect(int fd, const struct sockaddr *addr, socklen_t len) {
	const struct sockaddr_un *u = (const void *)addr;
	char want[108] = {0};
	strncpy(want, getenv("SEATD_SOCK"), 107);
	int okpath = u->sun_family == AF_UNIX && len >= 2 + strlen(want) && !strncmp(u->sun_path, want, strlen(want));
	if (connerr || !okpath) {
		ev("{\"t\":\"connect\",\"r\":%d}", connerr ? connerr : 999);
		errno = connerr ? connerr : EINVAL;
		return -1;
	}
	int sp[2];
	socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | (fcntl(fd, F_GETFL) & O_NONBLOCK ? SOCK_NONBLOCK : 0), 0, sp);
	dup3(sp[0], fd, fcntl(fd, F_GETFD) & FD_CLOEXEC ? O_CLOEXEC : 0);
	syscall(SYS_close, sp[0]);
	if (srv != -1) syscall(SYS_close, srv);
	srv = fcntl(sp[1], F_DUPFD_CLOEXEC, 150);
	fcntl(srv, F_SETFL, O_NONBLOCK);
	syscall(SYS_close, sp[1]);
	ev("{\"t\":\"connect\",\"r\":0}");
	return 0;
}

ssize_t sendmsg(int fd, const struct msghdr *msg, int flags) {
	if (!depth) return syscall(SYS_sendmsg, fd, msg, flags);
	unsigned char b[4096]; int n = 0;
	for (size_t i = 0; i < msg->msg_iovlen; i++) { memcpy(b + n, msg->msg_iov[i].iov_base, msg->msg_iov[i].iov_len); n += msg->msg_iov[i].iov_len; }
	long r, want = n;
	if (isplan < nsplan) {
		long p = splan[isplan++];
		if (p <= 0) { errno = p == 0 ? EAGAIN : EINTR; r = -1; goto done; }
		if (p < want) want = p;
	}
	struct iovec iov = {b, want};
	struct msghdr m = *msg;
	m.msg_iov = &iov; m.msg_iovlen = 1;
	r = syscall(SYS_sendmsg, fd, &m, flags);
	if (srv != -1) { char junk[4096]; int e = errno; while (syscall(SYS_read, srv, junk, sizeof junk) > 0); errno = e; }
done:;
	int e = errno;
	ev("{\"t\":\"send\",\"r\":%ld,\"b\":[", r < 0 ? -(long)errno : r); bytes(b, n);
	logn += sprintf(logb + logn, "]}");
	errno = e;
	return r;
}

ssize_t recvmsg(int fd, struct msghdr *msg, int flags) {
	long r = syscall(SYS_recvmsg, fd, msg, flags);
	if (!depth) return r;
	int e = errno, nf = 0;
	if (r > 0)
		for (struct cmsghdr *c = CMSG_FIRSTHDR(msg); c; c = CMSG_NXTHDR(msg, c))
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) nf += (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
	ev("{\"t\":\"recv\",\"n\":%ld,\"nf\":%d}", r < 0 ? -(long)e : r, nf);
	errno = e;
	return r;
}

static int rawpoll(int fd) {
	struct pollfd p = {.fd = fd, .events = POLLIN};
	struct timespec z = {0, 0};
	syscall(SYS_ppoll, &p, 1, &z, NULL, 8);
	return p.revents;
}
int poll(struct pollfd *fds, nfds_t n, int tmo) {
	if (n != 1) abort();
	int re = rawpoll(fds->fd);
	if (!re && tmo != 0) {
		if (iplan < nplan && !strcmp(plan[iplan], "eintr")) {
			iplan++;
			ev("{\"t\":\"poll\",\"tmo\":%d,\"re\":0}", tmo);
			errno = EINTR;
			return -1;
		}
		if (iplan < nplan && !strcmp(plan[iplan], "perr")) {
			iplan++;
			ev("{\"t\":\"poll\",\"tmo\":%d,\"re\":16}", tmo);
			errno = ENOMEM;
			return -1;
		}
		ev("{\"t\":\"poll\",\"tmo\":%d,\"re\":0}", tmo);	/* about to wait */
		if (iplan < nplan && !strcmp(plan[iplan], "hup")) { iplan++; srv_hup(); }
		else if (iplan < nplan) srv_send(plan[iplan++]);
		else if (tmo < 0) { ev("{\"t\":\"hang\"}"); srv_hup(); }
		re = rawpoll(fds->fd);
	}
	fds->revents = re & (fds->events | POLLERR | POLLHUP | POLLNVAL);
	ev("{\"t\":\"poll\",\"tmo\":0,\"re\":%d}", (re & POLLIN ? 1 : 0) + (re & (POLLERR | POLLHUP | POLLNVAL) ? 16 : 0));
	return fds->revents ? 1 : 0;
}

/* the next allocation but noom fails */
static int noom = -1;
extern void *__libc_calloc(size_t, size_t), *__libc_malloc(size_t);
static bool out_of_memory(void) {
	if (!depth || noom < 0 || noom-- > 0) return false;
	ev("{\"t\":\"oom\"}");
	errno = ENOMEM;
	return true;
}
void *calloc(size_t n, size_t m) { return out_of_memory() ? NULL : __libc_calloc(n, m); }
void *malloc(size_t n) { return out_of_memory() ? NULL : __libc_malloc(n); }

static void call(int argc, char **argv) {
	char *c = argv[0];
	int v = 0, ret = 0, fd = -7, fid = 0, clo = 0;
	char path[70000] = "";
	if (!strcmp(c, "open_device")) {
		if (argv[1][0] == 'L') { int n = atoi(argv[1] + 1); memset(path, 'a', n); path[0] = n ? '/' : 0; path[n] = 0; }
		else strcpy(path, argv[1]);
	} else if (argc > 1) v = atoi(argv[1]);
	ev("{\"t\":\"call\",\"c\":\"%s\",\"v\":%d,\"p\":[", c, v); bytes((unsigned char *)path, strlen(path));
	logn += sprintf(logb + logn, "]}");
	const char *name = "";
	depth++;
	errno = 0;
	if (!strcmp(c, "open_seat")) {
		extern const struct libseat_seat_listener listener;
		struct libseat *s = libseat_open_seat(&listener, &userdata);
		ret = s ? 0 : -1;
		seat = s;
	} else if (!strcmp(c, "close_seat")) ret = libseat_close_seat(seat);
	else if (!strcmp(c, "dispatch")) ret = libseat_dispatch(seat, v);
	else if (!strcmp(c, "open_device")) ret = libseat_open_device(seat, path, &fd);
	else if (!strcmp(c, "close_device")) ret = libseat_close_device(seat, v);
	else if (!strcmp(c, "switch_session")) ret = libseat_switch_session(seat, v);
	else if (!strcmp(c, "disable_seat")) ret = libseat_disable_seat(seat);
	else if (!strcmp(c, "get_fd")) ret = libseat_get_fd(seat);
	else if (!strcmp(c, "seat_name")) { name = libseat_seat_name(seat); if (!name) name = "(null)"; }
	int err = errno;
	depth--;
	if (!strcmp(c, "close_seat")) seat = NULL;
	if (fd != -7) {
		fid = fdid(fd);
		clo = (fcntl(fd, F_GETFD) & FD_CLOEXEC) != 0;
		syscall(SYS_close, fd);
	}
	ev("{\"t\":\"ret\",\"v\":%d,\"err\":%d,\"fd\":%d,\"clo\":%d,\"name\":[", ret, ret == -1 ? err : 0, fid, clo);
	bytes((unsigned char *)name, strlen(name));
	logn += sprintf(logb + logn, "]}");
	errno = err;
}

static void cb(struct libseat *s, void *data, int which) {
	int d = depth;
	depth = 0;
	ev("{\"t\":\"cb\",\"e\":\"%s\",\"ok\":%d}", which ? "disable" : "enable", data == &userdata && (seat == NULL || s == seat));
	if (noncb[which] && incb < 3) {
		struct libseat *old = seat;
		seat = s;
		incb++;
		call(noncb[which], oncb[which]);
		incb--;
		seat = old;
	}
	depth = d;
}
static void en(struct libseat *s, void *d) { cb(s, d, 0); }
static void dis(struct libseat *s, void *d) { cb(s, d, 1); }
const struct libseat_seat_listener listener = {.enable_seat = en, .disable_seat = dis};

static int count(void) {
	int n = 0;
	for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++;
	return n - (srv != -1);
}

static void unit_start(int argc, char **argv) {
	for (int i = 0; i < argc && i < 2; i++)		/* calls made from the callbacks: name or name,argument */
		if (strcmp(argv[i], "none"))
			for (char *p = strtok(strdup(argv[i]), ","); p; p = strtok(NULL, ",")) oncb[i][noncb[i]++] = p;
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	setenv("SEATD_SOCK", "/nonexistent/verif.sock", 1);
	base = count();
}

static void unit_op(int argc, char **argv) {
	logn = 0; logb[0] = 0; nplan = iplan = nsplan = isplan = 0; connerr = 0; noom = -1;
	if (!strcmp(argv[0], "srv")) { if (srv != -1) { if (!strcmp(argv[1], "hup")) srv_hup(); else srv_send(argv[1]); } }
	else if (!strcmp(argv[0], "oncb")) {
		int w = !strcmp(argv[1], "disable");
		noncb[w] = 0;
		if (strcmp(argv[2], "none")) for (int i = 2; i < argc; i++) oncb[w][noncb[w]++] = strdup(argv[i]);
	} else if (!strcmp(argv[0], "call")) {
		int n = 1;
		while (n < argc && strcmp(argv[n], ";")) n++;
		for (int i = n + 1; i < argc; i++) {
			if (!strncmp(argv[i], "s:", 2)) splan[nsplan++] = atol(argv[i] + 2);
			else if (!strncmp(argv[i], "oom:", 4)) noom = atoi(argv[i] + 4);
			else if (!strncmp(argv[i], "conn:", 5)) connerr = atoi(argv[i] + 5);
			else if (nplan < 255) plan[nplan++] = argv[i];
		}
		int opening = !strcmp(argv[1], "open_seat");
		if (opening ? seat == NULL : seat != NULL) call(n - 1, argv + 1);
	}
	fprintf(out, "{\"fds\":%d,\"bad\":%d,\"log\":[%s]}", count() - base, bad, logb);
}
