/* Stand-ins for seatd and for the command in runs of seatd-launch. As seatd it follows ./plan,
 * as the command its arguments; both report to ./log. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#define PATH "seatd.sock"
static int logfd;
static void ev(const char *fmt, ...) {
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b - 2, fmt, ap);
	va_end(ap);
	b[n++] = '\n';
	write(logfd, b, n);
}
static void list(char *b, char **v) {
	*b = 0;
	for (int i = 0; v[i]; i++) sprintf(b + strlen(b), "%s\"%s\"", i ? "," : "", v[i]);
}
static int left;
static void onterm(int s) { (void)s; if (!left++) ev("{\"t\":\"term\"}"); _exit(0); }
static int pingable(const char *p) {
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	strncpy(a.sun_path, p, sizeof a.sun_path - 1);
	int s = socket(AF_UNIX, SOCK_STREAM, 0);
	unsigned char q[4] = {7, 0, 0, 0}, r[4] = {0};
	if (connect(s, (void *)&a, sizeof a)) return 0;
	write(s, q, 4);
	return read(s, r, 4) == 4 && r[0] == 7 && r[1] == 128;
}
extern char **environ;
int main(int argc, char **argv) {
	const char *me = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
	int f = open("log", O_WRONLY | O_APPEND | O_CLOEXEC);
	logfd = fcntl(f, F_DUPFD_CLOEXEC, 100);
	close(f);
	uid_t u[3]; gid_t g[3];
	getresuid(&u[0], &u[1], &u[2]); getresgid(&g[0], &g[1], &g[2]);
	char args[2048];
	list(args, argv + 1);
	struct stat st = {0};
	if (!strcmp(me, "seatd")) {
		int nenv = 0;
		for (char **e = environ; *e; e++) nenv++;
		int nfd = -1;
		for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "-n")) nfd = atoi(argv[i + 1]);
		char a2[2048] = "";
		for (int i = 1; i < argc; i++) sprintf(a2 + strlen(a2), "%s\"%s\"", i > 1 ? "," : "", i > 1 && !strcmp(argv[i - 1], "-n") ? "FD" : argv[i]);
		signal(SIGTERM, onterm);
		signal(SIGPIPE, SIG_IGN);
		ev("{\"t\":\"seatd\",\"args\":[%s],\"euid\":%d,\"nfd\":%d}", a2, u[1], fcntl(nfd, F_GETFD) != -1);
		char plan[1024] = "";
		int pf = open("plan", O_RDONLY);
		if (pf != -1) { int n = read(pf, plan, sizeof plan - 1); if (n > 0) plan[n] = 0; close(pf); }
		char *save;
		for (char *t = strtok_r(plan, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
			int n = strchr(t, ':') ? atoi(strchr(t, ':') + 1) : 0;
			if (!strcmp(t, "bind")) {
				struct sockaddr_un a = {.sun_family = AF_UNIX, .sun_path = PATH};
				int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
				if (bind(s, (void *)&a, sizeof a) == 0) { listen(s, 5); ev("{\"t\":\"bound\"}"); }
			} else if (!strcmp(t, "ready")) { ev("{\"t\":\"ready\"}"); write(nfd, "\n", 1); close(nfd); }
			else if (!strcmp(t, "close")) close(nfd);
			else if (!strncmp(t, "sleep", 5)) usleep(n * 1000);
			else if (!strncmp(t, "exit", 4)) { sigset_t m; sigfillset(&m); sigprocmask(SIG_SETMASK, &m, NULL); if (!left++) ev("{\"t\":\"sdexit\"}"); _exit(n); }
			else if (!strncmp(t, "kill", 4)) { sigset_t m; sigfillset(&m); sigprocmask(SIG_SETMASK, &m, NULL); if (!left++) ev("{\"t\":\"sdexit\"}"); kill(getpid(), SIGKILL); }
			else if (!strcmp(t, "real")) {	/* the real server */
				char self[4096];
				int n = readlink("/proc/self/exe", self, sizeof self - 1);
				self[n] = 0;
				strcpy(strstr(self, "/pfx/bin/seatd"), "/m/seatd");
				ev("{\"t\":\"real\"}");
				char fdn[16];
				snprintf(fdn, sizeof fdn, "%d", nfd);
				char *av[16]; int k = 0;
				for (int i = 0; i < argc && k < 15; i++) av[k++] = argv[i];
				av[k] = NULL;
				execve(self, av, environ);
				_exit(1);
			}
		}
		for (;;) pause();
	}
	const char *p = getenv("SEATD_SOCK");
	int have = p && stat(p, &st) == 0;
	ev("{\"t\":\"cmd\",\"args\":[%s],\"ids\":[%d,%d,%d,%d,%d,%d],\"sock\":\"%s\",\"mark\":\"%s\",\"kind\":\"%s\",\"uid\":%d,\"gid\":%d,\"mode\":%d}",
	   args, u[0], u[1], u[2], g[0], g[1], g[2], p ? p : "", getenv("MARK") ? getenv("MARK") : "", have ? S_ISSOCK(st.st_mode) ? "sock" : "other" : "none", st.st_uid, st.st_gid, st.st_mode & 07777);
	int code = 0, sig = 0;
	for (int i = 1; i < argc; i++) {
		int n = strchr(argv[i], ':') ? atoi(strchr(argv[i], ':') + 1) : 0;
		if (!strncmp(argv[i], "exit:", 5)) code = n;
		else if (!strncmp(argv[i], "sig:", 4)) sig = n;
		else if (!strncmp(argv[i], "sleep:", 6)) usleep(n * 1000);
		else if (!strcmp(argv[i], "ping")) ev("{\"t\":\"ping\",\"ok\":%d}", p && pingable(p));
	}
	if (sig) {
		signal(sig, SIG_DFL);
		sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL);
		ev("{\"t\":\"cmdend\",\"code\":%d}", 128 + sig);
		kill(getpid(), sig);
		_exit(99);
	}
	ev("{\"t\":\"cmdend\",\"code\":%d}", code & 255);
	_exit(code);
}
