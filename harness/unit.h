/* Runs walks of operations, each in a child process, one JSON line per operation. */
#ifndef UNIT_H
#define UNIT_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/wait.h>

static void unit_start(int argc, char **argv);	/* arguments of the "walk" line */
static void unit_op(int argc, char **argv);	/* performs one operation and prints one line */
static FILE *out;

/* what the program does with log messages: nothing; looks at them and leaves errno changed; has them on standard error */
#include "libseat.h"
#pragma weak libseat_set_log_level
#pragma weak libseat_set_log_handler
static void unit_logger(enum libseat_log_level level, const char *fmt, va_list args) {
	char b[8192];
	(void)level;
	vsnprintf(b, sizeof b, fmt, args);
	errno = 4242;
}
static void unit_log(int how) {
	if (how == 1 && libseat_set_log_handler) libseat_set_log_handler(unit_logger);
	if (how && libseat_set_log_level) libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
}

#define UNIT_ARGS 512
static int unit_split(char *line, char **argv) {
	int n = 0;
	for (char *p = strtok(line, " \n"); p && n < UNIT_ARGS; p = strtok(NULL, " \n")) argv[n++] = p;
	return n;
}

int main(int argc, char **argv) {
	(void)argc; (void)argv;
	size_t cap = 1 << 20, len = 0;
	char *buf = malloc(cap);
	ssize_t r;
	while ((r = read(0, buf + len, cap - len - 1)) > 0) {
		len += r;
		if (cap - len < 65536) buf = realloc(buf, cap *= 2);
	}
	buf[len] = 0;
	int ofd = fcntl(1, F_DUPFD_CLOEXEC, 200);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
	close(nul);
	out = fdopen(ofd, "w");
	char *walk = buf, *end = buf + len;
	while (walk < end) {
		/* a walk is a "walk ..." line and the operations up to the next one */
		char *next = strstr(walk + 4, "\nwalk");
		char *stop = next ? next + 1 : end;
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			alarm(10);
			char *line = walk, *args[UNIT_ARGS];
			int first = 1;
			while (line < stop) {
				char *nl = memchr(line, '\n', stop - line);
				if (!nl) nl = stop;
				char save = *nl;
				*nl = 0;
				char *copy = strdup(line);
				*nl = save;
				int n = unit_split(copy, args);
				if (n) {
					if (first) {
						int l = n > 1 && args[1][0] == 'L';	/* walk [Lx] arguments */
						if (l) unit_log(args[1][1] - '0');
						unit_start(n - 1 - l, args + 1 + l), first = 0;
					}
					else { unit_op(n, args); fprintf(out, "\n"); }
					fflush(out);
				}
				free(copy);
				line = nl + 1;
			}
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
		kill(-pid, SIGKILL);
		fprintf(out, "\nEND %d\n", st);
		fflush(out);
		walk = stop;
	}
	return 0;
}
#endif
