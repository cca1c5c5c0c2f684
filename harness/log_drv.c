/* Drives common/log.c through its macros; standard error is a file or a terminal. */
#include "unit.h"
#include <stdbool.h>
#include <time.h>
#include "log.h"

static int tty, errfd;
/* around the first initialisation, and around the message */
static double i0, i1, m0, m1;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static char calls[65536]; static int ncalls;
static char want[65536];		/* the message as it is meant to be */

static void called(const char *who, enum libseat_log_level level, const char *fmt, va_list args) {
	static char b[65536];
	vsnprintf(b, sizeof b, fmt, args);
	/* behind the place it comes from */
	char *p = strchr(b, ']');
	int ok = b[0] == '[' && p && p[1] == ' ' && !strcmp(p + 2, want);
	ncalls += sprintf(calls + ncalls, "%s{\"h\":\"%s\",\"level\":%d,\"text\":%d}", ncalls ? "," : "", who, level, ok);
	errno = 4242;
}
static void A(enum libseat_log_level l, const char *f, va_list a) { called("A", l, f, a); }
static void B(enum libseat_log_level l, const char *f, va_list a) { called("B", l, f, a); }
static void sw(enum libseat_log_level l, const char *f, va_list a) { called("sw", l, f, a); libseat_set_log_handler(A); }
static void mute(enum libseat_log_level l, const char *f, va_list a) { called("mute", l, f, a); libseat_set_log_level(LIBSEAT_LOG_LEVEL_SILENT); }

static void unit_start(int argc, char **argv) {
	tty = argc > 0 && atoi(argv[0]);
	if (tty) {
		errfd = posix_openpt(O_RDWR | O_NOCTTY);
		grantpt(errfd); unlockpt(errfd);
		dup2(open(ptsname(errfd), O_RDWR | O_NOCTTY), 2);
		fcntl(errfd, F_SETFL, O_NONBLOCK);
	} else {
		int p[2];
		(void)!pipe(p);
		errfd = p[0];
		fcntl(errfd, F_SETFL, O_NONBLOCK);
		fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
		dup2(p[1], 2);
	}
}
#define PLAIN() switch (l) { case 1: log_error(s); break; case 2: log_info(s); break; default: log_debug(s); }
#define LOG(...) switch (l) { case 1: log_errorf(__VA_ARGS__); break; case 2: log_infof(__VA_ARGS__); break; default: log_debugf(__VA_ARGS__); }

static void unit_op(int argc, char **argv) {
	int v = argc > 1 ? atoi(argv[1]) : 0;
	int e = 0;
	ncalls = 0; calls[0] = 0;
	if (!strcmp(argv[0], "level")) libseat_set_log_level(v);
	else if (!strcmp(argv[0], "handler")) libseat_set_log_handler(!strcmp(argv[1], "A") ? A : !strcmp(argv[1], "B") ? B : !strcmp(argv[1], "sw") ? sw : !strcmp(argv[1], "mute") ? mute : NULL);
	else if (!strcmp(argv[0], "init")) { int f = !i0; if (f) i0 = now(); log_init(); if (f) i1 = now(); }
	else if (!strcmp(argv[0], "wait")) usleep(20000);
	else if (!strcmp(argv[0], "log")) {
		int l = v;
		char *m = argv[2];
		static char s[4096];
		m0 = now();
		long x = 123456789012L; double d = 2.5;
		if (!strcmp(m, "plain")) { strcpy(s, "100% of %s and %n"); strcpy(want, s); errno = atoi(argv[3]); PLAIN() }
		else if (!strcmp(m, "empty")) { s[0] = 0; want[0] = 0; errno = atoi(argv[3]); PLAIN() }
		else if (!strcmp(m, "long")) { memset(s, 'x', 4000); s[4000] = 0; sprintf(want, "%s|%s", s, s); errno = atoi(argv[3]); LOG("%s|%s", s, s) }
		else if (!strcmp(m, "errno")) { sprintf(want, "failed: %s", strerror(atoi(argv[3]))); errno = atoi(argv[3]); LOG("failed: %s", strerror(errno)) }
		else { sprintf(want, "%d %s %ld %c %.1f", -5, "a]b", x, 'y', d); errno = atoi(argv[3]); LOG("%d %s %ld %c %.1f", -5, "a]b", x, 'y', d) }
		e = errno;
		m1 = now();
	}
	static char b[1 << 20];
	int n = 0, r;
	fflush(stderr);
	while ((r = read(errfd, b + n, sizeof b - 1 - n)) > 0) n += r;
	b[n] = 0;
	fprintf(out, "{\"errno\":%d,\"calls\":[%s],\"err\":[", e, calls);
	int first = 1;
	for (char *p = b; *p;) {
		char *q = strchr(p, '\n');
		if (!q) q = p + strlen(p); else *q++ = 0;
		char *cr = strchr(p, '\r');
		if (cr && !cr[1]) *cr = 0;
		/* HH:MM:SS.mmm severity [place] text; the severity a word or a colour */
		int h, mi, se, ms, k = 0, level = -1, time = 0, text = 0;
		static const char *word[] = {"", "[ERROR] ", "[INFO] ", "[DEBUG] "}, *colour[] = {"", "\33[1;31m ", "\33[1;34m ", "\33[1;90m "};
		if (sscanf(p, "%2d:%2d:%2d.%3d %n", &h, &mi, &se, &ms, &k) == 4 && k) {
			char *t = strchr(p, ' ') + 1;
			for (int i = 1; i < 4; i++) {
				const char *c[] = {word[i], colour[i]};
				for (int j = 0; j < 2; j++) if (!strncmp(t, c[j], strlen(c[j]))) { level = i; t += strlen(c[j]); if (j && strlen(t) >= 4 && !strcmp(t + strlen(t) - 4, "\33[0m")) t[strlen(t) - 4] = 0; goto found; }
			}
		found:;
			char *z = strchr(t, ']');
			text = t[0] == '[' && z && z[1] == ' ' && !strcmp(z + 2, want);
			double is = h * 3600 + mi * 60 + se + ms / 1e3;
			time = i0 && is >= m0 - i1 - .002 && is <= m1 - i0 + .002;
		}
		fprintf(out, "%s{\"level\":%d,\"text\":%d,\"time\":%d}", first ? "" : ",", level, text, time);
		first = 0;
		p = q;
	}
	fprintf(out, "]}");
}
