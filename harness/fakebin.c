/* stands in for the tools a build runs: asks the checker what to do, and leaves the files the tool would leave */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>

static void leave(const char *p, const char *text)
{
	FILE *f = fopen(p, "w");

	if (!f) {
		perror(p);
		exit(7);
	}
	fputs(text, f);
	fclose(f);
}

int main(int argc, char **argv)
{
	struct sockaddr_un sa = {.sun_family = AF_UNIX};
	char *tool = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
	char buf[4096] = "", path[1024], what = 'k', *out = NULL, *src = NULL, *t;
	int i, fd;

	strcat(buf, tool);
	for (i = 1; i < argc; i++) {
		strncat(buf, "\t", sizeof buf - strlen(buf) - 2);
		strncat(buf, argv[i], sizeof buf - strlen(buf) - 2);
		if ((!strcmp(argv[i], "-o") || !strcmp(argv[i], "-O") || !strcmp(argv[i], "-rcs")) && i + 1 < argc)
			out = argv[i + 1];
		if (strlen(argv[i]) > 4 && !strcmp(argv[i] + strlen(argv[i]) - 4, ".myr"))
			src = argv[i];
	}
	strcat(buf, "\n");
	if (getenv("MCV_SOCK")) {
		strcpy(sa.sun_path, getenv("MCV_SOCK"));
		fd = socket(AF_UNIX, SOCK_STREAM, 0);
		if (connect(fd, (struct sockaddr *)&sa, sizeof sa) || write(fd, buf, strlen(buf)) < 0 || read(fd, &what, 1) != 1)
			return 9;
	} else if (getenv("MCV_LOG")) {
		fd = open(getenv("MCV_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0666);
		if (write(fd, buf, strlen(buf)) < 0)
			return 9;
		close(fd);
		t = getenv("MCV_FAIL");
		if (t && *t && strstr(buf, t))
			what = 'f';
	}
	if (what == 'f')
		return 1;
	if (what == 's') {
		signal(SIGSEGV, SIG_DFL);
		raise(SIGSEGV);
	}
	if (!out)
		return 8;
	if (src) {
		snprintf(path, sizeof path, "%s/%s", out, src);
		t = strrchr(path, '.');
		strcpy(t, ".o");
		leave(path, "o");
		strcpy(t, ".use");
		leave(path, "use");
	} else {
		leave(out, getenv("MCV_TEXT") ? getenv("MCV_TEXT") : "out");
		if (!strcmp(tool, "ld"))
			chmod(out, 0755);
	}
	return 0;
}
