/* nanny PRELOAD program args...: runs the program, reports its end to ./log, waits for what it left behind */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
static void ev(const char *s) { int f = open("log", O_WRONLY | O_APPEND | O_CLOEXEC); write(f, s, strlen(s)); close(f); }
static void killall(void) {	/* our remaining descendants are our children: we are their subreaper */
	char p[64], buf[4096];
	sprintf(p, "/proc/self/task/%d/children", getpid());
	FILE *f = fopen(p, "r");
	int pid;
	if (f) { while (fscanf(f, "%d", &pid) == 1) kill(pid, SIGKILL); fclose(f); return; }
	(void)buf;
	DIR *d = opendir("/proc");
	for (struct dirent *e; d && (e = readdir(d));) {
		int q = atoi(e->d_name), pp;
		char n[64];
		if (q <= 0) continue;
		sprintf(n, "/proc/%d/stat", q);
		FILE *g = fopen(n, "r");
		if (!g) continue;
		if (fscanf(g, "%*d (%*[^)]) %*c %d", &pp) == 1 && pp == getpid()) kill(q, SIGKILL);
		fclose(g);
	}
}
int main(int argc, char **argv) {
	(void)argc;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	umask(022);
	int ign = getenv("LS_CHLD") != NULL;
	pid_t c = fork();
	if (c == 0) {
		signal(SIGCHLD, ign ? SIG_IGN : SIG_DFL);
		unsetenv("LS_CHLD");
		setenv("LD_PRELOAD", argv[1], 1);
		execv(argv[2], argv + 2);
		_exit(126);
	}
	int st, left = 0;
	char b[100];
	int tmo = 20000, done = 0;
	while (1) {
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p == c) {
			sprintf(b, "{\"t\":\"exit\",\"code\":%d}\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
			ev(b);
			done = 1; tmo = 2500;
		} else if (p == -1 && errno == ECHILD) break;
		else if (p == 0) {
			usleep(1000);
			if (--tmo <= 0) {
				if (!done) { kill(c, SIGKILL); tmo = 500; done = 1; ev("{\"t\":\"exit\",\"code\":999}\n"); continue; }
				left = 1; killall(); tmo = 500;
			}
		}
	}
	sprintf(b, "{\"t\":\"end\",\"left\":%d}\n", left);
	ev(b);
	return 0;
}
