/* Drives seatd/poller.c with a scripted poll(2), real signals raised at chosen points. */
#include "unit.h"
#include <poll.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <sys/syscall.h>
#include "poller.h"

#define FD 1000
#define MAXS 4096
static struct poller P;
static struct src { int sig; void *p; int x; int live; } src[MAXS];
static int nsrc;
static char logb[1 << 18]; static int logn;
static const char *when; static int wsig; static int injected;
static int ready[512], nfdx;
static struct { int id, argc; char **argv; } cb[16]; static int ncb;
static int depth_poll, polled;

static void ev(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (logn) logb[logn++] = ',';
	logn += vsnprintf(logb + logn, sizeof logb - logn, fmt, ap);
	va_end(ap);
}
static int isdfl(int sig) {
	struct sigaction sa;
	sigaction(sig, NULL, &sa);
	return sa.sa_handler == SIG_DFL;
}
static void do_raise(int sig) {
	if (isdfl(sig)) { ev("{\"t\":\"noraise\",\"v\":%d}", sig); return; }
	ev("{\"t\":\"raise\",\"v\":%d}", sig);
	int e = errno;
	raise(sig);
	if (errno != e) ev("{\"t\":\"errno\"}");
}
static void inject(const char *p) {
	if (depth_poll && !injected && !strcmp(p, when)) { injected = 1; do_raise(wsig); }
}
static int ev2poll(int e) { return (e & 1 ? POLLIN : 0) | (e & 4 ? POLLOUT : 0) | (e & 8 ? POLLERR : 0) | (e & 16 ? POLLHUP : 0); }
static int poll2ev(int e) { return (e & POLLIN ? 1 : 0) | (e & POLLOUT ? 4 : 0) | (e & POLLERR ? 8 : 0) | (e & POLLHUP ? 16 : 0); }

int poll(struct pollfd *fds, nfds_t n, int timeout) {
	if (!strcmp(when, "intr") && !injected) {
		inject("intr");
		errno = EINTR;
		return -1;
	}
	int r = 0;
	logn += sprintf(logb + logn, "%s{\"t\":\"poll\",\"q\":[", logn ? "," : "");
	int c = 0;
	for (nfds_t i = 0; i < n; i++) {
		fds[i].revents = 0;
		if (fds[i].fd >= FD) {
			fds[i].revents = ev2poll(ready[fds[i].fd - FD]) & (fds[i].events | POLLERR | POLLHUP);
			logn += sprintf(logb + logn, "%s{\"fd\":%d,\"ev\":%d,\"re\":%d}", c++ ? "," : "", fds[i].fd - FD, poll2ev(fds[i].events), poll2ev(fds[i].revents));
		} else {
			struct pollfd p = {.fd = fds[i].fd, .events = fds[i].events};
			struct timespec z = {0, 0};
			syscall(SYS_ppoll, &p, 1, &z, NULL, 8);
			fds[i].revents = p.revents;
		}
		if (fds[i].revents) r++;
	}
	logn += sprintf(logb + logn, "]}");
	polled++;
	if (r == 0) ev("{\"t\":\"block\"}");
	else inject("late");
	return r;
}

ssize_t read(int fd, void *buf, size_t n) {
	if (!depth_poll) return syscall(SYS_read, fd, buf, n);
	inject("mid");
	ssize_t r = syscall(SYS_read, fd, buf, n);
	int e = errno;
	if (r == -1) inject("drain");
	errno = e;
	return r;
}

static int rank2id(int r) {
	for (int i = 0; i < nsrc; i++) if (src[i].live && --r == 0) return i;
	return -1;
}
static void op(int argc, char **argv);
static int called(int id, int v) {
	ev("{\"t\":\"call\",\"id\":%d,\"v\":%d}", id + 1, v);
	for (int j = 0; j < ncb; j++) if (cb[j].id == id) { cb[j].id = -1; op(cb[j].argc, cb[j].argv); }
	return 0;
}
static int fdfunc(int fd, uint32_t mask, void *data) {
	int id = (struct src *)data - src;
	return called(id, src[id].x + FD == fd ? (int)mask : -1);
}
static int sigfunc(int sig, void *data) { return called((struct src *)data - src, sig); }

static void op(int argc, char **argv) {
	int a = argc > 1 ? atoi(argv[1]) : 0, b = argc > 2 ? atoi(argv[2]) : 0;
	if (!strcmp(argv[0], "addfd")) {
		struct src *s = &src[nsrc++];
		*s = (struct src){.x = a, .live = 1};
		s->p = poller_add_fd(&P, FD + a, b, fdfunc, s);
		ev("{\"t\":\"addfd\",\"id\":%d,\"x\":%d,\"v\":%d}", nsrc, a, b);
	} else if (!strcmp(argv[0], "addsig")) {
		struct src *s = &src[nsrc++];
		*s = (struct src){.sig = 1, .x = a, .live = 1};
		s->p = poller_add_signal(&P, a, sigfunc, s);
		ev("{\"t\":\"addsig\",\"id\":%d,\"v\":%d}", nsrc, a);
	} else if (!strcmp(argv[0], "destroy")) {
		int id = rank2id(a);
		if (id < 0) return;
		src[id].live = 0;
		if (src[id].sig) event_source_signal_destroy(src[id].p);
		else event_source_fd_destroy(src[id].p);
		ev("{\"t\":\"destroy\",\"id\":%d}", id + 1);
	} else if (!strcmp(argv[0], "update")) {
		int id = rank2id(a);
		if (id < 0 || src[id].sig) return;
		event_source_fd_update(src[id].p, b);
		ev("{\"t\":\"update\",\"id\":%d,\"v\":%d}", id + 1, b);
	} else if (!strcmp(argv[0], "raise")) do_raise(a);
	else if (!strcmp(argv[0], "flood")) {
		/* more signals than the self-pipe has room for */
		do_raise(a);
		if (!isdfl(a)) for (int i = 0; i < b; i++) raise(a);
	}
}

static void unit_start(int argc, char **argv) {
	nfdx = atoi(argv[0]);
	when = "none";
	if (argc > 1 && atoi(argv[1])) {	/* started with signals blocked */
		sigset_t set;
		sigemptyset(&set);
		sigaddset(&set, 10);
		sigaddset(&set, 12);
		sigprocmask(SIG_BLOCK, &set, NULL);
	}
	if (poller_init(&P) == -1) abort();
}

static int arity(const char *o) { return !strcmp(o, "addfd") || !strcmp(o, "update") ? 3 : 2; }
static void unit_op(int argc, char **argv) {
	int ret = 0;
	logn = 0; logb[0] = 0;
	when = "none";
	if (!strcmp(argv[0], "poll")) {
		when = argv[1]; wsig = atoi(argv[2]); injected = 0; ncb = 0; polled = 0;
		for (int i = 0; i < nfdx; i++) ready[i + 1] = atoi(argv[3 + i]);
		for (int i = 3 + nfdx; i < argc;) {
			int ar = arity(argv[i + 1]);
			cb[ncb].id = rank2id(atoi(argv[i])); cb[ncb].argc = ar; cb[ncb].argv = argv + i + 1;
			ncb++;
			i += 1 + ar;
		}
		depth_poll = 1;
		inject("before");
		ret = poller_poll(&P);
		depth_poll = 0;
		when = "none";
		if (polled != 1) ev("{\"t\":\"polls\"}");
	} else if (!strcmp(argv[0], "finish")) {
		ret = poller_finish(&P);
		for (int i = 0; i < nsrc; i++) if (src[i].live) { src[i].live = 0; ev("{\"t\":\"destroy\",\"id\":%d}", i + 1); }
	} else op(argc, argv);
	fprintf(out, "{\"ret\":%d,\"dfl\":[%d,%d],\"log\":[%s]}", ret, isdfl(10), isdfl(12), logb);
}
