/* Preloaded into git: ends it right before the k-th call that changes files.
 * MC_CRASH  "<k>:<signal>:<0|1>": k from 0, 1 for the whole process group
 * MC_COUNT  file of 8 bytes that holds the number of such calls so far, for all processes of one command */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static uint64_t *count;
static long at = -1;
static int sig, group;

__attribute__((constructor)) static void init(void) {
	const char *p = getenv("MC_COUNT"), *c = getenv("MC_CRASH");
	int fd = p ? open(p, O_RDWR | O_CLOEXEC) : -1;
	if (fd < 0 || !c || sscanf(c, "%ld:%d:%d", &at, &sig, &group) != 3)
		return;
	void *m = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (m != MAP_FAILED)
		count = m;
}

static void step(void) {
	if (!count)
		return;
	if ((long)__atomic_fetch_add(count, 1, __ATOMIC_SEQ_CST) != at)
		return;
	if (group)
		kill(0, sig);
	else
		raise(sig);
}

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int changes(int flags) { return flags & (O_CREAT | O_TRUNC); }
#define OPEN(name) \
	int name(const char *p, int flags, ...) { \
		va_list a; va_start(a, flags); mode_t m = flags & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); \
		REAL(name); if (changes(flags)) step(); return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
	int name(int d, const char *p, int flags, ...) { \
		va_list a; va_start(a, flags); mode_t m = flags & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); \
		REAL(name); if (changes(flags)) step(); return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
int rename(const char *a, const char *b) { REAL(rename); step(); return real(a, b); }
int link(const char *a, const char *b) { REAL(link); step(); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); step(); return real(a, b); }
int unlink(const char *a) { REAL(unlink); step(); return real(a); }
int rmdir(const char *a) { REAL(rmdir); step(); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); step(); return real(a, m); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); step(); return real(fd, n); }
ssize_t write(int fd, const void *b, size_t n) {
	REAL(write);
	struct stat s;
	if (count && fd > 2 && !fstat(fd, &s) && S_ISREG(s.st_mode))
		step();
	return real(fd, b, n);
}
