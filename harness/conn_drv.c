/* Drives common/connection.c over a scripted kernel: sendmsg, recvmsg and close are ours. */
#include "unit.h"
#include <stdbool.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include "connection.h"

#define SOCK 77
#define OUTFD 1000000	/* descriptors put into the connection */
#define INFD 2000000	/* descriptors sent by the peer */
#define PAT 251

static struct connection *C;
static long ip, fp, op, gp;		/* stream positions of the peer's next byte/fd and of our next byte/fd */
static long plan[64]; static int nplan, iplan;
static long rn, rk; static int rcred;		/* what recvmsg has */
static long rm;				/* what it handed over */
static char logb[1 << 16]; static int logn;
static char resb[1 << 14];
static long clo[4096], cli[4096]; static int nclo, ncli, nbad;
static bool quiet;

int close(int fd) {
	if (fd >= INFD) { if (ncli < 4096) cli[ncli++] = fd - INFD; }
	else if (fd >= OUTFD) { if (nclo < 4096) clo[nclo++] = fd - OUTFD; }
	else nbad++;
	return 0;
}

ssize_t sendmsg(int fd, const struct msghdr *msg, int flags) {
	long len = 0; int first = -1, ok = fd == SOCK, prev = -1;
	for (size_t i = 0; i < msg->msg_iovlen; i++)
		for (size_t j = 0; j < msg->msg_iov[i].iov_len; j++) {
			int b = ((unsigned char *)msg->msg_iov[i].iov_base)[j];
			if (first < 0) first = b; else if (b != (prev + 1) % PAT) ok = 0;
			prev = b; len++;
		}
	if (!(flags & MSG_DONTWAIT) || !(flags & MSG_NOSIGNAL)) ok = 0;
	if (quiet) return ok ? len : (errno = EPIPE, -1);
	logn += sprintf(logb + logn, "%s{\"len\":%ld,\"first\":%d,\"ok\":%d,\"fds\":[", logn ? "," : "", len, first, ok);
	if (msg->msg_control && msg->msg_controllen > 0) {
		struct msghdr m = *msg;
		int n = 0;
		for (struct cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c))
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS)
				for (size_t i = 0; i < (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++)
					logn += sprintf(logb + logn, "%s%d", n++ ? "," : "", ((int *)CMSG_DATA(c))[i] - OUTFD);
	}
	logn += sprintf(logb + logn, "]}");
	long r;
	if (iplan < nplan) {
		long p = plan[iplan++];
		r = p > 0 ? (p < len ? p : len) : p == 0 ? -EAGAIN : p == -1 ? -EINTR : -EPIPE;
	} else r = len;
	sprintf(resb + strlen(resb), "%s%ld", resb[0] ? "," : "", r);
	if (r < 0) { errno = -r; return -1; }
	return r;
}

ssize_t recvmsg(int fd, struct msghdr *msg, int flags) {
	static int intr;
	if (fd != SOCK || !(flags & MSG_DONTWAIT) || !(flags & MSG_CMSG_CLOEXEC)) nbad++;
	if (!quiet && (intr++ % 3) == 0) { errno = EINTR; return -1; }
	if (rn < 0) { errno = EAGAIN; return -1; }
	if (rn == 0) { msg->msg_controllen = 0; return 0; }
	rm = 0;
	for (size_t i = 0; i < msg->msg_iovlen && rm < rn; i++)
		for (size_t j = 0; j < msg->msg_iov[i].iov_len && rm < rn; j++) {
			((unsigned char *)msg->msg_iov[i].iov_base)[j] = (ip + rm) % PAT;
			rm++;
		}
	if (rm == 0) return 0;
	size_t room = msg->msg_controllen, used = 0;
	char *cb = msg->msg_control;
	if (rcred && room >= CMSG_SPACE(sizeof(struct ucred)) + CMSG_LEN(rk * sizeof(int))) {
		struct cmsghdr *c = (struct cmsghdr *)cb;
		memset(cb, 0, CMSG_SPACE(sizeof(struct ucred)));
		c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_CREDENTIALS; c->cmsg_len = CMSG_LEN(sizeof(struct ucred));
		used = CMSG_SPACE(sizeof(struct ucred));
	}
	if (rk > 0) {
		if (room - used < CMSG_LEN(rk * sizeof(int))) { nbad++; rk = 0; }	/* the descriptors would be lost */
		else {
			struct cmsghdr *c = (struct cmsghdr *)(cb + used);
			c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(rk * sizeof(int));
			for (long i = 0; i < rk; i++) ((int *)CMSG_DATA(c))[i] = INFD + fp + i;
			used += CMSG_LEN(rk * sizeof(int));
		}
	}
	msg->msg_controllen = used;
	msg->msg_flags = 0;
	ip += rm; fp += rk;
	return rm;
}

static void unit_start(int argc, char **argv) {
	(void)argc; (void)argv;
	nbad = 0;
	C = calloc(1, sizeof *C);
	C->fd = SOCK;
}

static void list(const char *k, long *v, int n) {
	fprintf(out, ",\"%s\":[", k);
	for (int i = 0; i < n; i++) fprintf(out, "%s%ld", i ? "," : "", v[i]);
	fprintf(out, "]");
}

static void unit_op(int argc, char **argv) {
	long a = argc > 1 ? atol(argv[1]) : 0, b = argc > 2 ? atol(argv[2]) : 0;
	static unsigned char buf[70000];
	long ret = 0, first = 0, ok = 1;
	nclo = ncli = 0; logn = 0; logb[0] = resb[0] = 0; rm = 0; nplan = iplan = 0;
	errno = 0;
	if (!strcmp(argv[0], "put")) {
		for (int i = 2; i < argc; i++) plan[nplan++] = atol(argv[i]);
		for (long i = 0; i < a; i++) buf[i] = (op + i) % PAT;
		ret = connection_put(C, buf, a);
		if (ret != -1) op += a;
	} else if (!strcmp(argv[0], "flush")) {
		for (int i = 1; i < argc; i++) plan[nplan++] = atol(argv[i]);
		ret = connection_flush(C);
	} else if (!strcmp(argv[0], "putfd")) {
		ret = connection_put_fd(C, OUTFD + gp);
		if (ret != -1) gp++;
	} else if (!strcmp(argv[0], "read")) {
		rn = a; rk = b; rcred = argc > 3;
		ret = connection_read(C);
	} else if (!strcmp(argv[0], "get")) {
		memset(buf, 0xee, sizeof buf);
		ret = connection_get(C, buf, a);
		if (ret != -1) for (long i = 1; i < a; i++) if (buf[i] != (buf[i - 1] + 1) % PAT) ok = 0;
		if (buf[a] != 0xee || (ret == -1 && buf[0] != 0xee)) ok = 0;
		first = buf[0];
	} else if (!strcmp(argv[0], "getfd")) {
		int fd = -1;
		ret = connection_get_fd(C, &fd);
		first = fd - INFD;
	} else if (!strcmp(argv[0], "restore")) connection_restore(C, a);
	else if (!strcmp(argv[0], "closefds")) connection_close_fds(C);
	else if (!strcmp(argv[0], "spin")) {
		/* pass a * 256 bytes in both directions (counters wrap around after 4 GB) */
		quiet = true;
		for (long r = 0; r < a; r++) {
			rn = 256; rk = 0;
			unsigned char e = ip % PAT;
			if (connection_read(C) != 256 || connection_get(C, buf, 256) != 256 || buf[0] != e || buf[255] != (e + 255) % PAT) ok = 0;
			for (int i = 0; i < 256; i++) buf[i] = (op + i) % PAT;
			if (connection_put(C, buf, 256) == -1 || connection_flush(C) == -1) ok = 0;
			op += 256;
			if ((r & 0xfffff) == 0) alarm(60);
		}
		quiet = false;
		rn = 0;
	}
	int err = ret == -1 ? errno : 0;
	fprintf(out, "{\"ret\":%ld,\"err\":%d,\"first\":%ld,\"ok\":%ld,\"pend\":%zu,\"m\":%ld,\"bad\":%d,\"log\":[%s],\"res\":[%s]",
		ret, err, first, ok, connection_pending(C), rm, nbad, logb, resb);
	list("clo", clo, nclo); list("cli", cli, ncli);
	fprintf(out, "}");
}
