/* Preloaded into the program under test: before opening a file below $MC_GATE whose name ends in .rs, it tells the
 * scheduler at $MC_GATE_SOCK "O <thread> <path>" and waits for one byte in reply. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

static const char *dir, *addr;

__attribute__((constructor)) static void init(void) {
	dir = getenv("MC_GATE");
	addr = getenv("MC_GATE_SOCK");
	/* Not for the programs that it starts. */
	unsetenv("LD_PRELOAD");
}

static void gate(int at, const char *path) {
	size_t l = path ? strlen(path) : 0;
	if (!dir || !addr || l < 3 || strcmp(path + l - 3, ".rs"))
		return;
	int old = errno;
	char full[PATH_MAX * 2];
	if (path[0] == '/' || at != AT_FDCWD)
		snprintf(full, sizeof full, "%s", path);
	else {
		char cwd[PATH_MAX];
		if (!getcwd(cwd, sizeof cwd))
			return;
		snprintf(full, sizeof full, "%s/%s", cwd, path);
	}
	if (at == AT_FDCWD && strncmp(full, dir, strlen(dir))) {
		errno = old;
		return;
	}
	int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	strncpy(a.sun_path, addr, sizeof a.sun_path - 1);
	if (s >= 0 && !connect(s, (struct sockaddr *)&a, sizeof a)) {
		char m[PATH_MAX * 3], c;
		int n = snprintf(m, sizeof m, "O %ld %s\n", syscall(SYS_gettid), full);
		if (write(s, m, n) == n)
			while (read(s, &c, 1) < 0 && errno == EINTR)
				;
	}
	if (s >= 0)
		close(s);
	errno = old;
}

#define OPEN(name)                                                      \
	int name(const char *p, int flags, ...) {                           \
		static int (*real)(const char *, int, ...);                     \
		if (!real)                                                      \
			real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); \
		va_list v;                                                      \
		va_start(v, flags);                                             \
		mode_t m = flags & (O_CREAT | __O_TMPFILE) ? va_arg(v, mode_t) : 0; \
		va_end(v);                                                      \
		if (!(flags & (O_DIRECTORY | O_PATH)))                          \
			gate(AT_FDCWD, p);                                          \
		return real(p, flags, m);                                       \
	}
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                    \
	int name(int at, const char *p, int flags, ...) {                   \
		static int (*real)(int, const char *, int, ...);                \
		if (!real)                                                      \
			real = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, #name); \
		va_list v;                                                      \
		va_start(v, flags);                                             \
		mode_t m = flags & (O_CREAT | __O_TMPFILE) ? va_arg(v, mode_t) : 0; \
		va_end(v);                                                      \
		if (!(flags & (O_DIRECTORY | O_PATH)))                          \
			gate(at, p);                                                \
		return real(at, p, flags, m);                                   \
	}
OPENAT(openat)
OPENAT(openat64)
