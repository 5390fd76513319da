/* Stands in for `git` on the PATH of the programs under test.
 * FG_LOG    file to which every call is appended: cwd \x1f arg \x1f arg ... \n
 * FG_PLAN   "<n>:<kind>,..." faults by the number of the call (from 0), kind one of
 *           fail-before fail-after kill-before kill-after gone (this and all later calls cannot start);
 *           m<k> fails before with a message and status that git has for trouble, m<k>+ that and all later calls;
 *           @FILE takes it from there
 * FG_SOCK   unix socket of a scheduler: "S <id> <log line>" before and "E <id> <status>" after the call,
 *           each waiting for one byte in reply
 * FG_ROOT   calls from outside this directory are refused
 * FG_SELF   path of this program, for `gone`
 * The real git runs without any of these. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

static int sock = -1;

static const struct { int rc; const char *out, *err; } TROUBLE[] = {
	{128, "", "fatal: unable to access 'https://github.com/org/repo/': Could not resolve host: github.com\n"},
	{128, "", "fatal: unable to access 'https://github.com/org/repo/': Failed to connect to github.com port 443 after 130000 ms: Connection timed out\n"},
	{128, "", "error: RPC failed; curl 56 GnuTLS recv error (-54): Error in the pull function.\nfatal: the remote end hung up unexpectedly\nfatal: early EOF\n"},
	{128, "", "fatal: Unable to create '.git/index.lock': File exists.\n\nAnother git process seems to be running in this repository, e.g.\nan editor opened by 'git commit'.\n"},
	{128, "", "fatal: detected dubious ownership in repository at '.'\n"},
	{1, "", "error: cannot lock ref 'refs/remotes/origin/main': Unable to create '.git/refs/remotes/origin/main.lock': File exists.\n"},
	{128, "", "remote: Repository not found.\nfatal: repository 'https://github.com/org/repo/' not found\n"},
	{128, "", ""},
	{129, "", "warning: something\n"},
	{128, "", "fatal: could not read Username for 'https://github.com': terminal prompts disabled\n"},
	{1, "", ""},
	{128, "", "error: unable to write file src/w.rs\nfatal: sha1 file '.git/objects/pack/tmp_pack' write error: No space left on device\n"},
	{255, "", "\xff\xfe\n"},
	{128, "", "fatal: bad object HEAD\nfatal: loose object is corrupt\n"},
};

static void tell(const char *m) {
	if (sock < 0)
		return;
	size_t n = strlen(m);
	for (size_t i = 0; i < n;) {
		ssize_t w = write(sock, m + i, n - i);
		if (w <= 0)
			_exit(97);
		i += w;
	}
	char c;
	if (read(sock, &c, 1) != 1)
		_exit(97);
}

int main(int argc, char **argv) {
	char cwd[4096], *line;
	if (!getcwd(cwd, sizeof cwd))
		return 96;
	const char *root = getenv("FG_ROOT"), *log = getenv("FG_LOG"), *plan = getenv("FG_PLAN"), *self = getenv("FG_SELF");
	if (root && (strncmp(cwd, root, strlen(root)) || (cwd[strlen(root)] != '/' && cwd[strlen(root)]))) {
		fprintf(stderr, "fakegit: %s is outside of %s\n", cwd, root);
		return 95;
	}
	static char from[4096];
	if (plan && *plan == '@') {
		FILE *p = fopen(plan + 1, "r");
		size_t n = p ? fread(from, 1, sizeof from - 1, p) : 0;
		from[n] = 0;
		plan = from;
		if (p)
			fclose(p);
	}
	size_t len = 0;
	FILE *f = open_memstream(&line, &len);
	fputs(cwd, f);
	for (int i = 1; i < argc; i++) {
		fputc(0x1f, f);
		for (char *c = argv[i]; *c; c++)
			fputc(*c == '\n' ? 0x1e : *c, f);
	}
	fputc('\n', f);
	fclose(f);
	const char *kind = "";
	static char buf[64];
	if (log) {
		int fd = open(log, O_RDWR | O_CREAT | O_APPEND, 0666);
		if (fd < 0)
			return 94;
		flock(fd, LOCK_EX);
		int n = 0;
		char b[65536];
		ssize_t r;
		lseek(fd, 0, SEEK_SET);
		while ((r = read(fd, b, sizeof b)) > 0)
			for (ssize_t i = 0; i < r; i++)
				n += b[i] == '\n';
		if (write(fd, line, len) != (ssize_t)len)
			return 94;
		flock(fd, LOCK_UN);
		close(fd);
		for (const char *p = plan; p && *p;) {
			int k = atoi(p);
			const char *c = strchr(p, ':'), *e = strchr(p, ',');
			size_t l = e ? (size_t)(e - c - 1) : strlen(c + 1);
			int later = c[l] == '+' && c[1] == 'm';
			if ((k == n || (later && n > k)) && l < sizeof buf) {
				memcpy(buf, c + 1, l);
				kind = buf;
			}
			/* The program goes away right before the call. */
			if (k == n + 1 && l == 4 && !strncmp(c + 1, "gone", 4) && self)
				unlink(self);
			p = e ? e + 1 : NULL;
		}
	}
	const char *s = getenv("FG_SOCK");
	char msg[16384];
	if (s) {
		struct sockaddr_un a = {.sun_family = AF_UNIX};
		strncpy(a.sun_path, s, sizeof a.sun_path - 1);
		sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		if (connect(sock, (struct sockaddr *)&a, sizeof a))
			return 97;
		snprintf(msg, sizeof msg, "S %d %s", getpid(), line);
		tell(msg);
	}
	if (!strcmp(kind, "fail-before")) {
		fprintf(stderr, "fatal: injected failure\n");
		return 1;
	}
	if (kind[0] == 'm') {
		unsigned m = (unsigned)atoi(kind + 1) % (sizeof TROUBLE / sizeof *TROUBLE);
		fputs(TROUBLE[m].out, stdout);
		fputs(TROUBLE[m].err, stderr);
		return TROUBLE[m].rc;
	}
	if (!strcmp(kind, "kill-before"))
		raise(SIGKILL);
	pid_t pid = fork();
	if (pid < 0)
		return 93;
	if (!pid) {
		/* Nested calls of git are not observed. */
		const char *names[] = {"FG_LOG", "FG_PLAN", "FG_SOCK", "FG_ROOT", "FG_SELF"};
		for (int i = 0; i < 5; i++)
			unsetenv(names[i]);
		setenv("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", 1);
		argv[0] = "git";
		execv("/usr/bin/git", argv);
		_exit(92);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	snprintf(msg, sizeof msg, "E %d %d\n", getpid(), rc);
	tell(msg);
	if (!strcmp(kind, "fail-after")) {
		fprintf(stderr, "fatal: injected failure\n");
		return 1;
	}
	if (!strcmp(kind, "kill-after"))
		raise(SIGKILL);
	return rc;
}
