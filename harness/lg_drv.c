/* Drives libseat's logind backend (the built library, the real sd-bus) against a scripted logind:
   a second sd-bus connection in the same process, run whenever the library waits. */
#include "unit.h"
#include <poll.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/un.h>
#include <systemd/sd-bus.h>
#include <systemd/sd-login.h>
#include "libseat.h"

#define ADDR "/nonexistent/verif-bus"
#define L1 "org.freedesktop.login1"
#define SESS L1 ".Session"
#define PROPS "org.freedesktop.DBus.Properties"

static char logb[1 << 22]; static int logn;
static int depth;			/* inside the library? */
static int inside;			/* inside the server? */
static sd_bus *srv; static int cfd = -1;
static char *plan[256]; static int nplan, iplan;
static char *idle[256]; static int nidle, iidle;
static struct libseat *seat;
static int base, bad, incb, userdata, act, mpause, mprops, connerr, hello;
static int pingerr, pinghold, nheld; static sd_bus_message *held[256];
static char spath[256], seatpath[256];
static int xdg, xr, pr, dr, sr;
static char *oncb[2][UNIT_ARGS]; static int noncb[2];
static struct { int id, fd; dev_t rdev; } devs[512]; static int ndevs, maxfd = 128;	/* (the highest a device was given) */

static void ev(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (logn) logb[logn++] = ',';
	logn += vsnprintf(logb + logn, sizeof logb - logn, fmt, ap);
	va_end(ap);
}
int close(int fd) {
	int r = syscall(SYS_close, fd);
	if (r == -1 && depth && !inside) bad++;
	return r;
}

/* ---- the session ---- */
static const char *idok(void) { return xdg ? (xr >= 0 ? "x1" : "") : pr == 0 ? "p2" : dr >= 0 ? "d3" : ""; }
int sd_session_is_active(const char *s) { return s && !strcmp(s, "x1") ? xr : -ENXIO; }
int sd_pid_get_session(pid_t p, char **s) { if (pr == 0 && s) *s = strdup("p2"); return pr; }
int sd_uid_get_display(uid_t u, char **s) { if (dr >= 0 && s) *s = strdup("d3"); return dr; }
int sd_session_get_seat(const char *id, char **s) {
	if (!id || strcmp(id, idok())) return -ENXIO;
	if (sr >= 0) *s = strdup("seatZ");
	return sr;
}

/* ---- the bus ---- */
static void end(void) {
	for (int i = 0; i < nheld; i++) sd_bus_message_unref(held[i]);
	nheld = pinghold = pingerr = 0;
	if (srv) sd_bus_close(srv);
	srv = sd_bus_unref(srv);
}
static void hup(void) {
	if (!srv) return;
	end();
	ev("{\"t\":\"hup\"}");
}
static void from(sd_bus_message *m, const char *who) { sd_bus_message_set_sender(m, who); sd_bus_message_set_destination(m, ":1.9"); }
static void out_(sd_bus_message *m) { sd_bus_send(srv, m, NULL); sd_bus_message_unref(m); }
/* "path, interface, member" of a signal */
static sd_bus_message *sig(const char *p, const char *i, const char *n) {
	sd_bus_message *m = NULL;
	sd_bus_message_new_signal(srv, &m, p, i, n);
	sd_bus_message_set_sender(m, ":1.5");
	return m;
}
static char fx[512];
static void fxadd(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (fx[0]) strcat(fx, ",");
	vsnprintf(fx + strlen(fx), sizeof fx - strlen(fx), fmt, ap);
	va_end(ap);
}
static void dict(sd_bus_message *m, const char *k, const char *t, ...) {
	va_list ap;
	sd_bus_message_open_container(m, 'e', "sv");
	sd_bus_message_append(m, "s", k);
	sd_bus_message_open_container(m, 'v', t);
	va_start(ap, t);
	sd_bus_message_appendv(m, t, ap);
	va_end(ap);
	sd_bus_message_close_container(m);
	sd_bus_message_close_container(m);
}
/* signals: a word over letters, sent as one message
   A<v>  the value of Active     I<v>  Active invalidated (now v)    u  another property
   p/f/g<n>  device n paused, forced or gone    options: o other interface, q other path, z wrong types */
static void signal_(const char *t) {
	int other = 0, path = 0, wrong = 0, fwd;
	fx[0] = 0;
	for (const char *c = t; *c; c++) { other |= *c == 'o'; path |= *c == 'q'; wrong |= *c == 'z'; }
	sd_bus_message *m;
	const char *p = path ? "/org/freedesktop/login1/session/other" : spath;
	if (!*p) p = "/org/freedesktop/login1/session/none";
	if (strpbrk(t, "pfg")) {
		const char *c = strpbrk(t, "pfg");
		int n = c[1] - '0';
		m = sig(p, other ? L1 ".Elsewhere" : SESS, "PauseDevice");
		if (wrong) sd_bus_message_append(m, "su", "x", 3);
		else sd_bus_message_append(m, "uus", 13, 64 + n, *c == 'p' ? "pause" : *c == 'f' ? "force" : "gone");
		if (!wrong && !other && !path && *c == 'p') fxadd("{\"k\":\"set\",\"v\":0},{\"k\":\"done\",\"v\":%d}", n);
		fwd = (mpause && !other && !path) || path == 2;
	} else if (*t == 'r') {
		m = sig(p, SESS, "ResumeDevice");
		int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
		sd_bus_message_append(m, "uuh", 13, 64, fd);
		syscall(SYS_close, fd);
		fwd = 1;	/* sent to the controller alone */
	} else if (*t == 'n') {
		m = sig("/org/freedesktop/DBus", "org.freedesktop.DBus", "NameAcquired");
		sd_bus_message_append(m, "s", ":1.9");
		fwd = 1;
	} else {
		m = sig(p, PROPS, "PropertiesChanged");
		sd_bus_message_append(m, "s", other ? L1 ".Seat" : SESS);
		sd_bus_message_open_container(m, 'a', "{sv}");
		int eff = !other && !path;
		for (const char *c = t; *c; c++) {
			if (*c == 'u') dict(m, "IdleHint", "b", 1), dict(m, "LockedHint", "s", "x"), dict(m, "Other", "a{su}", 1, "y", 3);
			if (*c == 'A') {
				if (wrong) dict(m, "Active", "s", "yes"), eff = 0;
				else dict(m, "Active", "b", c[1] - '0');
				if (eff) { fxadd("{\"k\":\"set\",\"v\":%d}", c[1] - '0'); act = c[1] - '0'; }
			}
		}
		sd_bus_message_close_container(m);
		sd_bus_message_open_container(m, 'a', "s");
		for (const char *c = t; *c; c++) {
			if (*c == 'i') sd_bus_message_append(m, "s", "IdleSinceHint");
			if (*c == 'I') {
				sd_bus_message_append(m, "s", "Active");
				if (eff) { fxadd("{\"k\":\"get\",\"v\":0}"); act = c[1] - '0'; }
			}
		}
		sd_bus_message_close_container(m);
		fwd = mprops && !path;
	}
	ev("{\"t\":\"sig\",\"fwd\":%d,\"s\":\"%s\",\"act\":%d,\"fx\":[%s]}", fwd, t, act, fx);
	if (fwd) out_(m); else sd_bus_message_unref(m);
}
static void pong(sd_bus_message *m) {
	sd_bus_message *r = NULL;
	if (pingerr) sd_bus_message_new_method_errorf(m, &r, "org.freedesktop.DBus.Error.Failed", "no");
	else sd_bus_message_new_method_return(m, &r);
	from(r, ":1.5");
	out_(r);
}
static void step(const char *t) {
	if (!srv || (!hello && *t != 'H')) return;
	if (!strcmp(t, "H")) hup();
	else if (!strcmp(t, "pe")) pingerr = 1;
	else if (!strcmp(t, "pr")) pingerr = 0;
	else if (!strcmp(t, "ph")) pinghold = 1;
	else if (!strcmp(t, "pa")) {
		pinghold = 0;
		for (int i = 0; i < nheld; i++) { ev("{\"t\":\"pong\"}"); pong(held[i]); sd_bus_message_unref(held[i]); }
		nheld = 0;
	} else if (*t) signal_(t);
}
static void steps(const char *g) {
	char *d = strdup(g), *s;
	for (char *t = strtok_r(d, ".", &s); t; t = strtok_r(NULL, ".", &s)) step(t);
	free(d);
}

static int method(sd_bus_message *m, void *u, sd_bus_error *e) {
	uint8_t type;
	sd_bus_message_get_type(m, &type);
	if (type != SD_BUS_MESSAGE_METHOD_CALL) return 1;
	const char *n = sd_bus_message_get_member(m), *p = sd_bus_message_get_path(m), *i = sd_bus_message_get_interface(m), *d = sd_bus_message_get_destination(m);
	if (!strcmp(n, "Ping")) {
		int h = pinghold && nheld < 256;
		ev("{\"t\":\"bus\",\"m\":\"Ping\",\"p\":\"\",\"s\":\"\",\"a\":[],\"r\":%d,\"v\":0}", h ? -3 : 0);
		if (h) held[nheld++] = sd_bus_message_ref(m); else pong(m);
		return 1;
	}
	const char *s = "", *s2 = "";
	uint32_t a = 0, b = 0; int x = 0;
	char args[64] = "";
	int known = 1, dev = 0;
	if (d && !strcmp(d, "org.freedesktop.DBus")) {
		if (!strcmp(n, "AddMatch")) {
			sd_bus_message_read(m, "s", &s);
			s = strstr(s, "PauseDevice") ? "pause" : strstr(s, "PropertiesChanged") ? "props" : "other";
		} else if (strcmp(n, "Hello")) known = 0;
	} else if (d && !strcmp(d, L1) && i && !strncmp(i, L1 ".", 23)) {
		int man = !strcmp(i, L1 ".Manager"), ses = !strcmp(i, SESS), st = !strcmp(i, L1 ".Seat");
		if (man && (!strcmp(n, "GetSession") || !strcmp(n, "GetSeat"))) sd_bus_message_read(m, "s", &s);
		else if (ses && !strcmp(n, "TakeControl")) { sd_bus_message_read(m, "b", &x); sprintf(args, "%d", x); }
		else if (ses && (!strcmp(n, "TakeDevice") || !strcmp(n, "ReleaseDevice") || !strcmp(n, "PauseDeviceComplete"))) {
			sd_bus_message_read(m, "uu", &a, &b);
			dev = 1; sprintf(args, "%u,%u", a, b);
		} else if (ses && !strcmp(n, "SetType")) sd_bus_message_read(m, "s", &s);
		else if (ses && !strcmp(n, "ReleaseControl")) ;
		else if (st && !strcmp(n, "SwitchTo")) { sd_bus_message_read(m, "u", &a); sprintf(args, "%u", a); }
		else known = 0;
	} else if (d && !strcmp(d, L1) && i && !strcmp(i, PROPS) && !strcmp(n, "Get")) {
		sd_bus_message_read(m, "ss", &s2, &s);
		if (strcmp(s2, SESS)) s = "other";
	} else known = 0;
	const char *where = !p ? "" : !strcmp(p, "/org/freedesktop/login1") ? "mgr" : *spath && !strcmp(p, spath) ? "sess" : *seatpath && !strcmp(p, seatpath) ? "seat" : "other";
	if (d && !strcmp(d, "org.freedesktop.DBus")) where = "bus";

	const char *g = iplan < nplan ? plan[iplan++] : "R";
	char *dup = strdup(g), *sv;
	int done = 0, hang = 0;
	char *toks[300]; int nt = 0;
	for (char *t = strtok_r(dup, ".", &sv); t && nt < 298; t = strtok_r(NULL, ".", &sv)) toks[nt++] = t;
	int has = 0;
	for (int k = 0; k < nt; k++) has |= strchr("REXH", toks[k][0]) != NULL;
	if (!has) toks[nt++] = "R";
	for (int k = 0; k < nt; k++) {
		char *t = toks[k];
		if (!strchr("REXH", *t) || done) { if (strchr("REX", *t) == NULL) step(t); continue; }
		done = 1;
		if (*t == 'H') { hup(); break; }
		sd_bus_message *r = NULL;
		int code = *t == 'E' ? atoi(t + 1) : 0;
		if (!known && !code) code = ENOSYS;
		int wrong = *t == 'X' && (!strcmp(n, "TakeDevice") || !strcmp(n, "GetSession") || !strcmp(n, "GetSeat") || !strcmp(n, "Get"));
		ev("{\"t\":\"bus\",\"m\":\"%s\",\"p\":\"%s\",\"s\":\"%s\",\"a\":[%s],\"r\":%d,\"v\":%d}", n, where, s, args, code ? code : wrong ? -2 : 0, act);
		if (code) { char en[64]; snprintf(en, sizeof en, "System.Error.%s", strerrorname_np(code)); sd_bus_message_new_method_errorf(m, &r, en, "refused"); }
		else {
			sd_bus_message_new_method_return(m, &r);
			if (wrong) sd_bus_message_append(r, "t", (uint64_t)7);
			else if (!strcmp(n, "Hello")) sd_bus_message_append(r, "s", ":1.9");
			else if (!strcmp(n, "AddMatch")) { if (*s == 'p' && s[1] == 'a') mpause = 1; if (*s == 'p' && s[1] == 'r') mprops = 1; }
			else if (!strcmp(n, "GetSession")) { sprintf(spath, "/org/freedesktop/login1/session/_3%.20s", s); sd_bus_message_append(r, "o", spath); }
			else if (!strcmp(n, "GetSeat")) { sprintf(seatpath, "/org/freedesktop/login1/seat/%.20s", s); sd_bus_message_append(r, "o", seatpath); }
			else if (!strcmp(n, "Get")) sd_bus_message_append(r, "v", "b", act);
			else if (!strcmp(n, "TakeDevice")) {
				static const char *names[] = {"/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/dev/urandom", NULL};
				int fd = -1;
				for (int k = 0; names[k] && fd == -1; k++) {
					struct stat st;
					if (!stat(names[k], &st) && st.st_rdev == makedev(a, b)) fd = open(names[k], O_RDONLY | O_CLOEXEC);
				}
				if (fd == -1) fd = open("/", O_PATH | O_CLOEXEC);
				sd_bus_message_append(r, "hb", fd, 0);
				syscall(SYS_close, fd);
			}
		}
		from(r, *where == 'b' ? "org.freedesktop.DBus" : ":1.5");
		out_(r);
		if (!strcmp(n, "Hello") && !code) hello = 1, signal_("n");
	}
	free(dup);
	return 1;
}
static void pump(void) {
	if (inside) return;
	int e = errno;
	inside = 1;
	while (srv) {
		int r = sd_bus_process(srv, NULL);
		if (r > 0) continue;
		if (r < 0) end();	/* the library has left */
		break;
	}
	inside = 0;
	errno = e;
}
int connect(int fd, const struct sockaddr *addr, socklen_t len) {
	const struct sockaddr_un *u = (const void *)addr;
	if (u->sun_family != AF_UNIX || strcmp(u->sun_path, ADDR) || connerr) { errno = connerr ? connerr : ENOENT; return -1; }
	int sp[2];
	socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, sp);
	dup3(sp[0], fd, O_CLOEXEC);
	syscall(SYS_close, sp[0]);
	cfd = fd;
	int s = fcntl(sp[1], F_DUPFD_CLOEXEC, 900);
	syscall(SYS_close, sp[1]);
	inside = 1;
	end();
	hello = mpause = mprops = 0; spath[0] = seatpath[0] = 0;
	sd_bus_new(&srv);
	sd_bus_set_fd(srv, s, s);
	sd_id128_t id; memset(&id, 7, sizeof id);
	sd_bus_set_server(srv, 1, id);
	sd_bus_set_anonymous(srv, 1);
	sd_bus_set_trusted(srv, 1);
	sd_bus_negotiate_fds(srv, 1);
	sd_bus_add_filter(srv, NULL, method, NULL);
	sd_bus_start(srv);
	inside = 0;
	return 0;
}
static int rawpoll(struct pollfd *f, nfds_t n, int tmo) {
	struct timespec ts = {tmo / 1000, tmo % 1000 * 1000000L};
	return syscall(SYS_ppoll, f, n, tmo < 0 ? NULL : &ts, NULL, 8);
}
static int wait_(struct pollfd *f, nfds_t n, int tmo) {
	if (!depth || inside) return rawpoll(f, n, tmo);
	for (;;) {
		pump();
		int r = rawpoll(f, n, 0);
		if (r != 0 || tmo == 0) return r;
		ev("{\"t\":\"idle\",\"tmo\":%d}", tmo < 0 ? -1 : tmo);
		if (iidle < nidle) {
			char *g = idle[iidle++];
			if (!strcmp(g, "eintr")) { errno = EINTR; return -1; }
			inside = 1; steps(g); inside = 0;
			continue;
		}
		if (tmo > 0) return 0;
		if (!srv) { ev("{\"t\":\"hang\"}"); fprintf(out, "{\"fds\":0,\"bad\":%d,\"log\":[%s]}\n", bad, logb); fflush(out); _exit(9); }
		inside = 1; hup(); inside = 0;
	}
}
int poll(struct pollfd *f, nfds_t n, int tmo) { return wait_(f, n, tmo); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
	return wait_(f, n, !ts ? -1 : ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000);
}

/* ---- the application ---- */
static int flg(int fd) { int f = fcntl(fd, F_GETFD); return f != -1 && (f & FD_CLOEXEC); }
static void call(int argc, char **argv) {
	char *c = argv[0];
	int d = depth, v = argc > 1 ? atoi(argv[1]) : 0, k = -1, fd = -1, r = 0, id;
	struct stat st = {0};
	char dev[64] = "", name[256] = "";
	if (!strcmp(c, "open_device") && argc > 1 && !stat(argv[1], &st)) sprintf(dev, "%u,%u", major(st.st_rdev), minor(st.st_rdev));
	if (!strcmp(c, "open_device") && ndevs == 300) return;
	if (!strcmp(c, "close_device") && argc > 1) {
		if (argv[1][0] == '#') {
			if (!ndevs) return;
			k = atoi(argv[1] + 1) % ndevs;
			v = devs[k].id;
			sprintf(dev, "%u,%u", major(devs[k].rdev), minor(devs[k].rdev));
		}
	}
	if (!strcmp(c, "open_seat"))
		ev("{\"t\":\"call\",\"c\":\"open_seat\",\"v\":0,\"d\":[],\"env\":{\"xdg\":%d,\"xr\":%d,\"pr\":%d,\"dr\":%d,\"sr\":%d,\"conn\":%d,\"ty\":%d}}", xdg, xr, pr, dr, sr, connerr, !!getenv("XDG_SESSION_TYPE"));
	else ev("{\"t\":\"call\",\"c\":\"%s\",\"v\":%d,\"d\":[%s]}", c, v, dev);
	errno = 0;
	depth = 1;
	if (!strcmp(c, "open_seat")) { extern const struct libseat_seat_listener listener; seat = libseat_open_seat(&listener, &userdata); r = seat ? 0 : -1; }
	else if (!strcmp(c, "close_seat")) { r = libseat_close_seat(seat); seat = NULL; }
	else if (!strcmp(c, "dispatch")) r = libseat_dispatch(seat, v);
	else if (!strcmp(c, "disable_seat")) r = libseat_disable_seat(seat);
	else if (!strcmp(c, "open_device")) { fd = -7; r = libseat_open_device(seat, argv[1], &fd); }
	else if (!strcmp(c, "close_device")) r = libseat_close_device(seat, v);
	else if (!strcmp(c, "switch_session")) r = libseat_switch_session(seat, v);
	else if (!strcmp(c, "get_fd")) r = libseat_get_fd(seat);
	else if (!strcmp(c, "seat_name")) snprintf(name, sizeof name, "%s", libseat_seat_name(seat));
	int e = errno;
	depth = 0;
	char ret[64] = "";
	int clo = 0;
	if (!strcmp(c, "open_device") && r >= 0) {
		struct stat s2;
		if (!fstat(fd, &s2)) {
			sprintf(ret, "%u,%u", major(s2.st_rdev), minor(s2.st_rdev));
			clo = flg(fd);
			if (fd > maxfd) maxfd = fd;
			devs[ndevs].id = r; devs[ndevs].fd = fd; devs[ndevs++].rdev = s2.st_rdev;
		}
	}
	if (k >= 0 && r >= 0) { syscall(SYS_close, devs[k].fd); devs[k] = devs[--ndevs]; }
	ev("{\"t\":\"ret\",\"v\":%d,\"err\":%d,\"d\":[%s],\"clo\":%d,\"name\":\"%s\"}", r, r == -1 ? e : 0, ret, clo, name);
	if (!d) {		/* is there, or will there be, something to wake up for? */
		pump();
		struct pollfd pf = {.fd = cfd, .events = POLLIN};
		ev("{\"t\":\"rd\",\"v\":%d}", seat && rawpoll(&pf, 1, 0) > 0);
	}
	depth = d;
}
static void cb(struct libseat *s, void *data, int which) {
	int d = depth;
	depth = 0;
	struct libseat *old = seat;
	ev("{\"t\":\"cb\",\"v\":%d,\"ok\":%d}", !which, data == &userdata && (seat == NULL || s == seat));
	if (incb < 3 && noncb[which]) {
		seat = s;
		incb++;
		depth = d;
		call(noncb[which], oncb[which]);
		incb--;
		seat = old;
	}
	depth = d;
}
static void en(struct libseat *s, void *d) { cb(s, d, 0); }
static void dis(struct libseat *s, void *d) { cb(s, d, 1); }
const struct libseat_seat_listener listener = {.enable_seat = en, .disable_seat = dis};

static int count(void) {
	int n = 0;
	for (int i = 0; i < maxfd + 128 && i < 900; i++) if (fcntl(i, F_GETFD) != -1) n++;
	return n;
}
static void unit_start(int argc, char **argv) {
	for (int i = 0; i < argc && i < 2; i++)		/* calls made from the callbacks: name or name,argument */
		if (strcmp(argv[i], "none"))
			for (char *p = strtok(strdup(argv[i]), ","); p; p = strtok(NULL, ",")) oncb[i][noncb[i]++] = p;
	act = argc > 2 ? atoi(argv[2]) : 1;
	setenv("LIBSEAT_BACKEND", "logind", 1);
	setenv("DBUS_SYSTEM_BUS_ADDRESS", "unix:path=" ADDR, 1);
	unsetenv("XDG_SESSION_ID"); unsetenv("XDG_SESSION_TYPE");
	base = count();
}
/* XDG_SESSION_ID (0/1), results of the session lookups, session type, errno of connect */
static void env(char **a) {
	xdg = atoi(a[0]); xr = atoi(a[1]); pr = atoi(a[2]); dr = atoi(a[3]); sr = atoi(a[4]);
	if (xdg) setenv("XDG_SESSION_ID", "x1", 1); else unsetenv("XDG_SESSION_ID");
	if (atoi(a[5])) setenv("XDG_SESSION_TYPE", "wayland", 1); else unsetenv("XDG_SESSION_TYPE");
	connerr = atoi(a[6]);
}
static void unit_op(int argc, char **argv) {
	logn = 0; logb[0] = 0; nplan = iplan = nidle = iidle = 0;
	if (!strcmp(argv[0], "srv")) { if (srv) { inside = 1; for (int i = 1; i < argc; i++) steps(argv[i]); inside = 0; pump(); } }
	else if (!strcmp(argv[0], "act")) act = atoi(argv[1]);
	else if (!strcmp(argv[0], "env")) env(argv + 1);
	else if (!strcmp(argv[0], "oncb")) {
		int w = !strcmp(argv[1], "disable");
		noncb[w] = 0;
		if (strcmp(argv[2], "none")) for (int i = 2; i < argc; i++) oncb[w][noncb[w]++] = strdup(argv[i]);
	} else if (!strcmp(argv[0], "call")) {
		int n = 1;
		while (n < argc && strcmp(argv[n], ";")) n++;
		for (int i = n + 1; i < argc; i++) {
			if (!strncmp(argv[i], "i:", 2)) idle[nidle++] = argv[i] + 2;
			else plan[nplan++] = argv[i];
		}
		int opening = !strcmp(argv[1], "open_seat");
		if (n > 2 && !strncmp(argv[2], "env=", 4)) {
			char *a[8] = {0}; int k = 0;
			for (char *p = strtok(argv[2] + 4, ","); p && k < 8; p = strtok(NULL, ",")) a[k++] = p;
			if (k == 7) env(a);
		}
		if (opening ? seat == NULL : seat != NULL) call(n - 1, argv + 1);
	}
	fprintf(out, "{\"fds\":%d,\"bad\":%d,\"log\":[%s]}", count() - base - ndevs, bad, logb);
}
