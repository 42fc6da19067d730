/* A man in the middle: runs the real program with its stdin/stdout and forwards bytes, cutting or fragmenting the streams as the
   plan says. Plan (/tmp/mitm/plan): seq dir(c|s|-) offset frag. Counters are reset when a new seq is seen at the first byte of a request.
   State (/tmp/mitm/state): seq nreq nresp childexit(-1 running, -2 did not terminate). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static long seq = -1, off, frag, nreq, nresp, nextseq; static char dir = '-'; static int child = -1, exitcode = -1;

static void state(void) {
	char b[128]; int n = snprintf(b, sizeof b, "%ld %ld %ld %d\n", seq, nreq, nresp, exitcode);
	int fd = open("/tmp/mitm/state.tmp", O_WRONLY | O_CREAT | O_TRUNC, 0666);
	if (fd >= 0) { if (write(fd, b, n) != n) {} close(fd); rename("/tmp/mitm/state.tmp", "/tmp/mitm/state"); }
}
static void plan(void) {
	FILE *f = fopen("/tmp/mitm/plan", "r"); long s, o, fr; char d;
	if (f) { if (fscanf(f, "%ld %c %ld %ld", &s, &d, &o, &fr) == 4 && s != seq) { seq = s; dir = d; off = o; frag = fr; nreq = nresp = 0; } fclose(f); }
}
static int put(int fd, const char *b, size_t n) {
	while (n) { size_t k = frag > 0 && (size_t)frag < n ? (size_t)frag : n; ssize_t w = write(fd, b, k);
		if (w < 0) { if (errno == EINTR) continue; return -1; } b += w; n -= w; if (frag > 0 && n) usleep(frag < 4 ? 30 : 200); }
	return 0;
}
static void reap(int to_stdout) {
	/* the child's stdin has ended: it must terminate by itself; whatever it still says is forwarded */
	(void)to_stdout;
	for (int i = 0; i < 2000; i++) { int st; if (waitpid(child, &st, WNOHANG) == child) { exitcode = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); state(); return; } usleep(10000); }
	exitcode = -2; state(); kill(child, SIGKILL); waitpid(child, NULL, 0);
}
int main(int argc, char **argv) {
	char *p = getenv("PATH"); const char *me = "/tmp/mitm/bin:"; (void)argc;
	signal(SIGPIPE, SIG_IGN);
	if (p && !strncmp(p, me, strlen(me))) setenv("PATH", strdup(p + strlen(me)), 1);
	int in[2], out[2]; if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) return 90;
	child = fork();
	if (!child) { signal(SIGPIPE, SIG_DFL); dup2(in[0], 0); dup2(out[1], 1); execvp("python3", argv); _exit(127); }
	close(in[0]); close(out[1]);
	FILE *f = fopen("/tmp/mitm/pid", "w"); if (f) { fprintf(f, "%d", child); fclose(f); }
	static char b[1 << 20]; int open_in = 1;
	for (;;) {
		struct pollfd pf[2] = { { open_in ? 0 : -1, POLLIN, 0 }, { out[0], POLLIN, 0 } };
		if (poll(pf, 2, -1) < 0) continue;
		if (pf[0].revents) {
			ssize_t n = read(0, b, sizeof b);
			if (n <= 0) { open_in = 0; close(in[1]); }
			else {
				plan();
				if (dir == 'c' && nreq + n > off) { long k = off - nreq; if (k > 0) put(in[1], b, k); nreq += n; state(); close(in[1]);
					/* forward the remaining output up to its end, then report how the child ended */
					for (;;) { struct pollfd q = { out[0], POLLIN, 0 }; int r = poll(&q, 1, 20000); if (r < 0) continue;
						if (!r) { exitcode = -2; state(); kill(child, SIGKILL); waitpid(child, NULL, 0); close(1); return 0; }
						ssize_t m = read(out[0], b, sizeof b); if (m <= 0) break; nresp += m; put(1, b, m); }
					close(1); reap(0); return 0; }
				nreq += n; state(); put(in[1], b, n);
			}
		}
		if (pf[1].revents) {
			ssize_t n = read(out[0], b, sizeof b);
			if (n <= 0) { int st; close(1); if (waitpid(child, &st, 0) == child) exitcode = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); state(); return exitcode; }
			if (dir == 's' && nresp + n > off) { long k = off - nresp; if (k > 0) put(1, b, k); nresp += n; state(); close(1); close(0); close(in[1]); close(out[0]); reap(0); return 0; }
			nresp += n; state(); put(1, b, n);
		}
	}
	(void)nextseq;
}
