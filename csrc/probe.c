/* Says what it was started with.  "probe ... @in" also reads standard input;
"@exit N", "@sig N", "@err" do what they say.  With a file named in VF-LAUNCH
mode ("launch FILE") it starts a program with an arbitrary vector and
environment. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>

extern char **environ;
static char buf[1 << 20];

static void hex(const char *s, long n)
{
	long i;
	if (n == 0)
		printf("-");
	for (i = 0; i < n; i++)
		printf("%02x", (unsigned char)s[i]);
	printf(" ");
}

static char *line(FILE *f)
{
	static char l[1 << 20];
	char *r;
	long i, n;
	if (!fgets(l, sizeof l, f))
		exit(99);
	n = strcspn(l, "\n") / 2;
	r = malloc(n + 1);
	for (i = 0; i < n; i++) {
		unsigned v;
		sscanf(l + 2 * i, "%2x", &v);
		r[i] = v;
	}
	r[n] = 0;
	return r;
}

static int launch(char *file)
{
	FILE *f = fopen(file, "r");
	char *prog = line(f), **a, **e;
	int i, n = atoi(line(f)), fds;
	a = calloc(n + 1, sizeof *a);
	for (i = 0; i < n; i++)
		a[i] = line(f);
	n = atoi(line(f));
	e = calloc(n + 1, sizeof *e);
	for (i = 0; i < n; i++)
		e[i] = line(f);
	fds = atoi(line(f));
	fclose(f);
	for (i = 0; i < 3; i++)
		if (fds & 1 << i)
			close(i);
	execve(prog, a, e);
	perror("launch");
	return 99;
}

int main(int argc, char **argv)
{
	int i;
	long n, k;
	char exe[5000];

	if (argc == 3 && !strcmp(argv[1], "@launch"))
		return launch(argv[2]);
	printf("exe ");
	n = readlink("/proc/self/exe", exe, sizeof exe);
	hex(exe, n < 0 ? 0 : n);
	printf("cwd ");
	if (!getcwd(exe, sizeof exe))
		exe[0] = 0;
	hex(exe, strlen(exe));
	printf("argv ");
	for (i = 0; i < argc; i++)
		hex(argv[i], strlen(argv[i]));
	printf("env ");
	for (i = 0; environ[i]; i++)
		hex(environ[i], strlen(environ[i]));
	for (i = 0; i < argc; i++) {
		if (!strcmp(argv[i], "@in")) {
			n = 0;
			while ((k = read(0, buf + n, sizeof buf - n)) > 0)
				n += k;
			printf("in ");
			hex(buf, n);
		} else if (!strcmp(argv[i], "@err"))
			fprintf(stderr, "to-stderr");
		else if (!strcmp(argv[i], "@exit")) {
			printf("end");
			fflush(0);
			_exit(atoi(argv[i + 1]));
		} else if (!strcmp(argv[i], "@sig")) {
			printf("end");
			fflush(0);
			kill(getpid(), atoi(argv[i + 1]));
		}
	}
	printf("end");
	return 0;
}
