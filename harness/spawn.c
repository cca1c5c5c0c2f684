/* spawn SRC DST PRELOAD program args...: runs program with descriptor SRC as DST */
#define _GNU_SOURCE
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
int main(int argc, char **argv) {
	int s = atoi(argv[1]), d = atoi(argv[2]);
	if (s >= 0 && s != d) { dup2(s, d); close(s); }
	umask(022);
	setenv("LD_PRELOAD", argv[3], 1);
	execv(argv[4], argv + 4);
	return 127;
}
