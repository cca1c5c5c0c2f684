/* Drives libseat_open_seat's choice of a backend, and the no-op backend (the built library).
   The logind side is the one of lg_drv.c. */
#include "unit.h"
#include <poll.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/un.h>
#include <systemd/sd-bus.h>
#include <systemd/sd-login.h>
#define unit_start lg_start
#define unit_op lg_op
#define connect lg_connect
#define poll lg_poll
#define ppoll lg_ppoll
#define sd_session_is_active lg_session_is_active
#define sd_pid_get_session lg_pid_get_session
#define sd_uid_get_display lg_uid_get_display
#include "lg_drv.c"
#undef unit_start
#undef unit_op
#undef connect
#undef poll
#undef ppoll
#undef sd_session_is_active
#undef sd_pid_get_session
#undef sd_uid_get_display

#define SOCK "/nonexistent/verif-seatd"
static int child, kid, opening, tried_logind, driver, named_noop;
static char mseatd, mlogind, mbuiltin, mnoop;	/* what becomes of each backend */
static char dir[64];
static const char *files[] = {"a", "b", "fifo", "ro"};

static void try_(const char *b) { if (opening) ev("{\"t\":\"try\",\"b\":\"%s\"}", b); }
static void login(void) { if (!tried_logind) { tried_logind = 1; try_("logind"); } }
int sd_session_is_active(const char *s) { login(); return lg_session_is_active(s); }
int sd_pid_get_session(pid_t p, char **s) { login(); return lg_pid_get_session(p, s); }
int sd_uid_get_display(uid_t u, char **s) { login(); return lg_uid_get_display(u, s); }

static int peer = -1;			/* seatd's end */
int connect(int fd, const struct sockaddr *addr, socklen_t len) {
	const struct sockaddr_un *u = (const void *)addr;
	if (u->sun_family == AF_UNIX && !strcmp(u->sun_path, SOCK)) {
		try_("seatd");
		if (mseatd == 'r') { errno = ECONNREFUSED; return -1; }
		int sp[2];
		syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, sp);
		dup3(sp[0], fd, O_CLOEXEC);
		syscall(SYS_close, sp[0]);
		if (peer != -1) syscall(SYS_close, peer);
		peer = fcntl(sp[1], F_DUPFD_CLOEXEC, 290);
		syscall(SYS_close, sp[1]);
		static const char ok[] = "\1\200\10\0\6\0seatS", er[] = "\377\377\4\0\20\0\0\0", bad[] = "\4\200\0\0";
		if (mseatd == 'o') syscall(SYS_write, peer, ok, 12);
		else if (mseatd == 'e') syscall(SYS_write, peer, er, 8);
		else if (mseatd == 'b') syscall(SYS_write, peer, bad, 4);
		else syscall(SYS_close, peer), peer = -1;
		return 0;
	}
	login();
	driver = 1;
	int r = lg_connect(fd, addr, len), e = errno;
	driver = 0;
	errno = e;
	return r;
}
int socketpair(int d, int t, int p, int *v) {
	if (!driver && opening && !child) {
		if (named_noop) { if (mnoop == 's') { errno = EMFILE; return -1; } }
		else { try_("builtin"); if (mbuiltin == 's') { errno = EMFILE; return -1; } }
	}
	return syscall(SYS_socketpair, d, t, p, v);
}
pid_t fork(void) {
	if (!depth) return syscall(SYS_fork);
	try_("builtin");
	if (mbuiltin == 'f') { errno = EAGAIN; return -1; }
	pid_t p = syscall(SYS_fork);
	if (p == 0) {
		child = 1;
		if (mbuiltin == 'x') _exit(1);
	} else kid = p;
	return p;
}
static int be_poll(struct pollfd *f, nfds_t n, int tmo) {
	if (child || !depth || (f && n == 1 && f->fd != cfd && f->fd < 256 && kid > 0)) return rawpoll(f, n, tmo);
	return wait_(f, n, tmo);
}
int poll(struct pollfd *f, nfds_t n, int tmo) { return be_poll(f, n, tmo); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
	return be_poll(f, n, !ts ? -1 : ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000);
}
static void be_en(struct libseat *s, void *d) { ev("{\"t\":\"cb\",\"v\":1,\"ok\":%d}", d == &userdata && (!seat || s == seat)); }
static void be_dis(struct libseat *s, void *d) { ev("{\"t\":\"cb\",\"v\":0,\"ok\":%d}", d == &userdata && (!seat || s == seat)); }

static void unit_start(int argc, char **argv) {
	lg_start(0, NULL);
	setenv("SEATD_SOCK", SOCK, 1);
	setenv("SEATD_VTBOUND", "0", 1);
	xdg = 0; sr = pr = dr = 0;
	sprintf(dir, "%s/%d", getenv("VERIF_BE_DIR"), getpid());
	mkdir(dir, 0700);
	char p[128], t[128];
	for (int i = 0; i < 4; i++) {
		sprintf(p, "%s/%s", dir, files[i]);
		if (i == 2) mkfifo(p, 0600); else syscall(SYS_close, open(p, O_CREAT | O_RDWR | O_CLOEXEC, 0600));
	}
	sprintf(p, "%s/link", dir); sprintf(t, "%s/a", dir); symlink(t, p);
	sprintf(p, "%s/sub", dir); mkdir(p, 0700);
}
static int own[512], nown;		/* descriptors the application got */

static void unit_op(int argc, char **argv) {
	logn = 0; logb[0] = 0; nplan = iplan = nidle = iidle = 0;
	char *c = argv[0];
	int v = argc > 1 ? atoi(argv[1]) : 0, r = -2, e, file = -1, clo = 0, nb = 0, rw = 0, kst = -1;
	const char *name = "";
	errno = 0;
	if (!strcmp(c, "open")) {	/* open NAME LISTENER MODES */
		if (seat) goto none;
		if (!strcmp(argv[1], "unset")) unsetenv("LIBSEAT_BACKEND"); else setenv("LIBSEAT_BACKEND", strcmp(argv[1], "empty") ? argv[1] : "", 1);
		mseatd = argv[3][0]; mlogind = argv[3][1]; mbuiltin = argv[3][2]; mnoop = argv[3][3];
		tried_logind = kid = 0;
		named_noop = !strcmp(argv[1], "noop");
		xdg = 0; pr = mlogind == 'p' ? -61 : 0; dr = mlogind == 'p' ? -2 : 0; sr = mlogind == 's' ? -61 : 0; connerr = mlogind == 'n' ? ECONNREFUSED : 0;
		static char *okp[] = {"R", "R", "R", "R", "R", "R", "R", "R"}, *nogs[] = {"R", "E2"}, *noct[] = {"R", "R", "R", "R", "R", "R", "E16"};
		char **pl = mlogind == 'g' ? nogs : mlogind == 'c' ? noct : okp;
		nplan = mlogind == 'g' ? 2 : mlogind == 'c' ? 7 : 8;
		for (int i = 0; i < nplan; i++) plan[i] = pl[i];
		struct libseat_seat_listener *l = calloc(1, sizeof *l), *arg = l;
		l->enable_seat = strcmp(argv[2], "noenable") ? be_en : NULL;
		l->disable_seat = strcmp(argv[2], "nodisable") ? be_dis : NULL;
		if (!strcmp(argv[2], "null")) arg = NULL;
		depth = opening = 1;
		seat = libseat_open_seat(arg, &userdata);
		e = errno;
		if (seat) name = libseat_seat_name(seat);
		depth = opening = 0;
		r = seat ? 0 : -1;
		nplan = iplan = 0;
	} else {
		if (!seat) goto none;
		depth = 1;
		if (!strcmp(c, "dispatch")) {
			static char *intr[] = {"eintr"};
			idle[0] = intr[0]; nidle = v < 0;	/* nothing will ever come */
			r = libseat_dispatch(seat, v);
		} else if (!strcmp(c, "open_device")) {
			char p[128];
			int fd = -7;
			sprintf(p, "%s/%s", dir, argv[1]);
			r = libseat_open_device(seat, p, &fd);
			struct stat a, b;
			if (r >= 0 && !fstat(fd, &a)) {
				for (int i = 0; i < 4; i++) { sprintf(p, "%s/%s", dir, files[i]); if (!stat(p, &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino) file = i; }
				clo = flg(fd); nb = (fcntl(fd, F_GETFL) & O_NONBLOCK) != 0; rw = (fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDWR;
				own[nown++] = fd;
			}
			e = errno;
		} else if (!strcmp(c, "close_device")) { r = libseat_close_device(seat, nown ? own[v % nown] : 5); e = errno; if (nown) { syscall(SYS_close, own[v % nown]); own[v % nown] = own[nown - 1]; nown--; } errno = e; }
		else if (!strcmp(c, "switch_session")) r = libseat_switch_session(seat, v);
		else if (!strcmp(c, "disable_seat")) r = libseat_disable_seat(seat);
		else if (!strcmp(c, "get_fd")) r = libseat_get_fd(seat);
		else if (!strcmp(c, "seat_name")) { r = 0; name = libseat_seat_name(seat); }
		else if (!strcmp(c, "close_seat")) { if (peer != -1) { send(peer, "\2\200\0\0", 4, MSG_NOSIGNAL); } r = libseat_close_seat(seat); seat = NULL; }
		e = errno;
		depth = 0;
	}
	/* the embedded server ends when it has nobody to serve */
	if (!seat && kid > 0) {
		int st;
		kst = -2;
		for (int i = 0; i < 300; i++) {
			if (waitpid(kid, &st, WNOHANG) == kid) { kst = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); break; }
			usleep(i < 100 ? 1000 : 20000);
		}
		if (kst == -2) { kill(kid, SIGKILL); waitpid(kid, &st, 0); }
		kid = 0;
	}
	if (!seat) { pump(); if (peer != -1) { syscall(SYS_close, peer); peer = -1; } }
	ev("{\"t\":\"ret\",\"c\":\"%s\",\"v\":%d,\"err\":%d,\"name\":\"%s\",\"file\":%d,\"clo\":%d,\"nb\":%d,\"rw\":%d,\"kid\":%d,\"kst\":%d}", c, r, r == -1 ? e : 0, name, file, clo, nb, rw, kid > 0, kst);
none:
	fprintf(out, "{\"fds\":%d,\"bad\":%d,\"log\":[%s]}", count() - base - nown, bad, logb);
}
