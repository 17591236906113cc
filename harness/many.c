/* many LIST CMD...: LIST holds sources, each followed by a NUL byte; each is written to p.myr, CMD is run, and
 * its wait status and the start of what it wrote come out, each record ended by a NUL; with MANY_TWICE in the
 * environment, what succeeds is run again, and the status is 77 if p.s or p.use came out different */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

static int
differ(char *a, char *b)
{
	FILE *f, *g;
	int c, d;

	f = fopen(a, "r");
	g = fopen(b, "r");
	if (!f || !g)
		return 1;
	do {
		c = getc(f);
		d = getc(g);
	} while (c == d && c != EOF);
	fclose(f);
	fclose(g);
	return c != d;
}

int
main(int argc, char **argv)
{
	char *buf, *p, *e, *end, out[65536];
	int fd, pfd[2], st, killed, again;
	size_t n, i;
	ssize_t r;
	struct stat sb;
	struct rlimit rl;
	pid_t pid;
	struct pollfd po;

	if (argc < 3)
		return 2;
	fd = open(argv[1], O_RDONLY);
	if (fd < 0 || fstat(fd, &sb) < 0)
		return 2;
	buf = malloc(sb.st_size + 1);
	for (n = 0; n < (size_t)sb.st_size; n += r)
		if ((r = read(fd, buf + n, sb.st_size - n)) <= 0)
			return 2;
	close(fd);
	rl.rlim_cur = rl.rlim_max = (rlim_t)4 << 30;
	setrlimit(RLIMIT_AS, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	end = buf + n;
	for (p = buf; p < end; p = e + 1) {
		e = memchr(p, 0, end - p);
		if (!e)
			return 2;
		again = 0;
		fd = open("p.myr", O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || write(fd, p, e - p) != e - p)
			return 2;
		close(fd);
		unlink("p.s");
		unlink("p.use");
run:
		if (pipe(pfd) < 0)
			return 2;
		pid = vfork();
		if (pid < 0)
			return 2;
		if (!pid) {
			dup2(pfd[1], 1);
			dup2(pfd[1], 2);
			close(pfd[0]);
			close(pfd[1]);
			execv(argv[2], argv + 2);
			_exit(127);
		}
		close(pfd[1]);
		n = 0;
		killed = 0;
		for (;;) {
			po.fd = pfd[0];
			po.events = POLLIN;
			if (!killed && poll(&po, 1, 60000) <= 0) {
				kill(pid, SIGKILL);
				killed = 1;
			}
			r = read(pfd[0], out + n, sizeof(out) - n);
			if (r <= 0)
				break;
			n += r;
			if (n == sizeof(out))
				n = sizeof(out) / 2;
		}
		close(pfd[0]);
		waitpid(pid, &st, 0);
		if (getenv("MANY_TWICE") && !killed && st == 0) {
			if (!again) {
				again = 1;
				rename("p.s", "q.s");
				rename("p.use", "q.use");
				goto run;
			}
			if (differ("p.s", "q.s") || differ("p.use", "q.use"))
				st = 77 << 8;
		}
		printf("%d ", killed ? 9999 : WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
		if (n > 400)
			n = 400;
		for (i = 0; i < n; i++)
			putchar(out[i] ? out[i] : ' ');
		putchar(0);
	}
	return 0;
}
