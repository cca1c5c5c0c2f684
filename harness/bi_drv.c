/* An application on the built-in backend (the built library): one operation per line of
   standard input, one JSON line of result.  The embedded server it forks runs in the world
   shim.c provides. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"

static struct libseat *seat;
static int opening, ack, data, ncb, cbs[256], nack, acks[256], badcb;
static pid_t kid;
static int base;

static void put(const char *fmt, ...) {
	char b[8192];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	(void)!write(1, b, n);
}
static int *sym(const char *n) { return dlsym(RTLD_DEFAULT, n); }
pid_t fork(void) {
	pid_t (*f)(void) = dlsym(RTLD_NEXT, "fork");
	if (!opening) return f();
	void (*d)(void) = dlsym(RTLD_DEFAULT, "shim_dying");
	pid_t p = f();
	if (p > 0) { put("{\"kid\":%d}\n", kid = p); d(); }
	return p;
}
static void cb(struct libseat *s, void *d, int v) {
	if (d != &data || (seat && s != seat)) badcb = 1;
	if (ncb < 256) cbs[ncb++] = v;
	if (!v && ack) { int r = libseat_disable_seat(s); if (nack < 256) acks[nack++] = r == 0 ? 0 : r == -1 ? errno : -1; }
}
static void en(struct libseat *s, void *d) { cb(s, d, 1); }
static void dis(struct libseat *s, void *d) { cb(s, d, 0); }
static const struct libseat_seat_listener listener = {.enable_seat = en, .disable_seat = dis};

static int count(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	for (struct dirent *e; (e = readdir(d));) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) n++;
	closedir(d);
	return n;
}
static int ofd(int fd) {
	char l[64], b[64] = "";
	sprintf(l, "/proc/self/fd/%d", fd);
	return readlink(l, b, sizeof b - 1) > 0 && !strncmp(b, "/memfd:ofd", 10) ? atoi(b + 10) : -1;
}
static void handler(int s) { (void)s; }
static void logger(enum libseat_log_level level, const char *fmt, va_list args) {
	char b[8192];
	(void)level;
	vsnprintf(b, sizeof b, fmt, args);
	errno = 4242;
}

int main(int argc, char **argv) {
	ack = argc > 1 && atoi(argv[1]);
	int sig = argc > 2 ? atoi(argv[2]) : 0;	/* what the application does with signals: 1 blocks, 2 ignores, 3 catches them */
	static const int sigs[] = {SIGUSR1, SIGUSR2, SIGINT, SIGTERM, SIGHUP};
	sigset_t all;
	sigemptyset(&all);
	for (int i = 0; i < 5; i++) {
		sigaddset(&all, sigs[i]);
		if (sig == 2) signal(sigs[i], SIG_IGN);
		if (sig == 3) signal(sigs[i], handler);
	}
	if (sig == 1) sigprocmask(SIG_BLOCK, &all, NULL);
	int log = argc > 3 ? atoi(argv[3]) : 0;		/* and with log messages: looks at them, or has them on standard error */
	if (log) libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	if (log == 1) libseat_set_log_handler(logger);
	static char in[65536];
	int len = 0, own[4096], nown = 0;
	base = count();
	for (;;) {
		char *nl;
		while (!(nl = memchr(in, '\n', len))) {
			int r = read(0, in + len, sizeof in - len);
			if (r <= 0) _exit(0);
			len += r;
		}
		*nl = 0;
		char c[32] = "", a[4096] = "", b[64] = "";
		sscanf(in, "%31s %4095s %63s", c, a, b);
		len -= nl + 1 - in;
		memmove(in, nl + 1, len);
		int v = atoi(a), r = -2, e, o = 0, clo = 0, fd = -1;
		const char *name = "";
		char x0[1];
		ncb = nack = badcb = 0;
		errno = 0;
		if (!strcmp(c, "open_seat")) {
			opening = 1;
			kid = 0;
			seat = libseat_open_seat(&listener, &data);
			e = errno;
			opening = 0;
			r = seat ? 0 : -1;
			if (seat) name = libseat_seat_name(seat);
			errno = e;
		} else if (!strcmp(c, "close_seat")) r = libseat_close_seat(seat), seat = NULL;
		else if (!strcmp(c, "dispatch")) r = libseat_dispatch(seat, v);
		else if (!strcmp(c, "disable_seat")) r = libseat_disable_seat(seat);
		else if (!strcmp(c, "switch_session")) r = libseat_switch_session(seat, v);
		else if (!strcmp(c, "close_device")) r = libseat_close_device(seat, v);
		else if (!strcmp(c, "open_device")) {
			char path[2048];
			int n = 0;
			for (char *p = a; *p && *p != '-' && n < 2047; p += 2) { unsigned x; sscanf(p, "%2x", &x); path[n++] = x; }
			path[n] = 0;
			fd = -7;
			r = libseat_open_device(seat, path, &fd);
			e = errno;
			if (r >= 0) { o = ofd(fd) + 1; int f = fcntl(fd, F_GETFD); clo = f != -1 && (f & FD_CLOEXEC); own[nown++] = fd; }
			errno = e;
		} else if (!strcmp(c, "closefd")) {
			for (int i = 0; i < nown; i++) if (ofd(own[i]) + 1 == v) { close(own[i]); own[i] = own[--nown]; r = 0; break; }
		} else if (!strcmp(c, "die")) { *sym("shim_die") = v; *sym("shim_die_how") = atoi(b); r = 0; }
		else if (!strcmp(c, "quit")) { if (v) exit(0); _exit(0); }
		else if (!strcmp(c, "spawn")) {
			int p[2];
			(void)!pipe2(p, O_CLOEXEC);
			r = fork();
			if (r == 0) {
				unsetenv("LD_PRELOAD");
				prctl(PR_SET_PDEATHSIG, 0);
				dup2(open("/dev/null", O_RDWR), 0); dup2(0, 1);
				execl("/bin/sleep", "sleep", "60", NULL);
				_exit(1);
			}
			close(p[1]);
			(void)!read(p[0], x0, 1);	/* until it is another program */
			close(p[0]);
		} else if (!strcmp(c, "wait")) {	/* is the server gone? */
			int st;
			r = -2;
			if (kid > 0 && waitpid(kid, &st, WNOHANG) == kid) { r = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); kid = 0; }
			errno = 0;
		}
		e = errno;
		char x[2048] = "", y[2048] = "";
		for (int i = 0, n = 0; i < ncb; i++) n += sprintf(x + n, i ? ",%d" : "%d", cbs[i]);
		for (int i = 0, n = 0; i < nack; i++) n += sprintf(y + n, i ? ",%d" : "%d", acks[i]);
		put("{\"c\":\"%s\",\"v\":%d,\"err\":%d,\"o\":%d,\"clo\":%d,\"cbs\":[%s],\"acks\":[%s],\"badcb\":%d,\"fds\":%d,\"name\":\"%s\"}\n", c, r, r == -1 ? e : 0, o, clo, x, y, badcb,
		    count() - base - nown, name);
	}
}
