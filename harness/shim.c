/* LD_PRELOAD library for the command-line checks: fails the k-th call that the
 * program itself makes (SHIM_FAIL=k, SHIM_ERRNO), counted from its first fopen,
 * reports the calls seen (SHIM_LOG), and dumps the writable memory when the
 * process exits (SHIM_DUMP). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <time.h>
#include <unistd.h>
static uintptr_t lo, hi;
static long fail = -1, n = 0;
static int eno, armed, inited;
static char log_[4096]; static size_t loglen;
static int cb(struct dl_phdr_info *i, size_t s, void *d)
{
	if (lo) return 1;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
		uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
		if (!lo || a < lo) lo = a;
		if (b > hi) hi = b;
	}
	return 1;	/* the first one is the program */
}
__attribute__((constructor)) static void init(void)
{
	const char *f = getenv("SHIM_FAIL"), *e = getenv("SHIM_ERRNO");
	if (f) fail = atol(f);
	eno = e ? atoi(e) : 0;
	dl_iterate_phdr(cb, 0);
	inited = 1;
}
static int hit(void *ra, const char *name, int de)
{
	if (!inited || (uintptr_t)ra < lo || (uintptr_t)ra >= hi) return 0;
	if (!strcmp(name, "fopen")) armed = 1;
	if (!armed) return 0;
	if (loglen + 24 < sizeof log_) { size_t l = strlen(name); memcpy(log_ + loglen, name, l); loglen += l; log_[loglen++] = ' '; }
	if (n++ != fail) return 0;
	errno = eno ? eno : de;
	return 1;
}
#define RA __builtin_return_address(0)
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) *(void **)&real = dlsym(RTLD_NEXT, #name)
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t s) { if (hit(RA, "malloc", ENOMEM)) return 0; return __libc_malloc(s); }
void *calloc(size_t a, size_t b) { if (hit(RA, "calloc", ENOMEM)) return 0; return __libc_calloc(a, b); }
void *realloc(void *p, size_t b) { if (hit(RA, "realloc", ENOMEM)) return 0; return __libc_realloc(p, b); }
int posix_memalign(void **p, size_t a, size_t s) { REAL(int, posix_memalign, void **, size_t, size_t); if (hit(RA, "posix_memalign", ENOMEM)) return errno; return real(p, a, s); }
char *strdup(const char *s) { if (hit(RA, "strdup", ENOMEM)) return 0; size_t l = strlen(s) + 1; char *r = __libc_malloc(l); if (r) memcpy(r, s, l); return r; }
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { if (hit(RA, "mmap", ENOMEM)) return MAP_FAILED; return (void *)syscall(SYS_mmap, a, l, p, f, fd, o); }
int open(const char *p, int f, ...) { va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); REAL(int, open, const char *, int, ...); if (hit(RA, "open", EMFILE)) return -1; return real(p, f, m); }
ssize_t read(int fd, void *b, size_t l) { if (hit(RA, "read", EIO)) return -1; return syscall(SYS_read, fd, b, l); }
ssize_t __read_chk(int fd, void *b, size_t l, size_t z) { if (hit(RA, "read", EIO)) return -1; return syscall(SYS_read, fd, b, l); }
int close(int fd) { if (hit(RA, "close", EIO)) { syscall(SYS_close, fd); errno = eno ? eno : EIO; return -1; } return syscall(SYS_close, fd); }
int clock_gettime(clockid_t c, struct timespec *t) { REAL(int, clock_gettime, clockid_t, struct timespec *); if (hit(RA, "clock_gettime", EFAULT)) return -1; return real(c, t); }
int clock_getres(clockid_t c, struct timespec *t) { REAL(int, clock_getres, clockid_t, struct timespec *); if (hit(RA, "clock_getres", EFAULT)) return -1; return real(c, t); }
int getrlimit(__rlimit_resource_t r, struct rlimit *l) { REAL(int, getrlimit, __rlimit_resource_t, struct rlimit *); if (hit(RA, "getrlimit", EFAULT)) return -1; return real(r, l); }
int sysinfo(struct sysinfo *s) { REAL(int, sysinfo, struct sysinfo *); if (hit(RA, "sysinfo", EFAULT)) return -1; return real(s); }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); if (hit(RA, "fopen", EMFILE)) return 0; return real(p, m); }
int fclose(FILE *f) { REAL(int, fclose, FILE *); if (hit(RA, "fclose", EIO)) { int e = errno; real(f); errno = e; return EOF; } return real(f); }
int fflush(FILE *f) { REAL(int, fflush, FILE *); if (hit(RA, "fflush", EIO)) return EOF; return real(f); }
static void put(int fd, const void *b, size_t l) { const char *c = b; while (l) { long k = syscall(SYS_write, fd, c, l); if (k <= 0) return; c += k; l -= k; } }
__attribute__((destructor)) static void fini(void)
{
	const char *l = getenv("SHIM_LOG"), *d = getenv("SHIM_DUMP");
	if (l) { int fd = syscall(SYS_open, l, O_WRONLY | O_CREAT | O_TRUNC, 0600); put(fd, log_, loglen); syscall(SYS_close, fd); }
	if (!d) return;
	static char maps[1 << 18]; size_t m = 0; long k;
	int fd = syscall(SYS_open, "/proc/self/maps", O_RDONLY);
	while ((k = syscall(SYS_read, fd, maps + m, sizeof maps - 1 - m)) > 0) m += k;
	syscall(SYS_close, fd);
	maps[m] = 0;
	fd = syscall(SYS_open, d, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	for (char *p = maps; *p;) {
		char *e = strchr(p, '\n'); if (!e) break; *e = 0;
		char *q; uintptr_t a = strtoul(p, &q, 16), b = strtoul(q + 1, &q, 16);
		/* not this library's own buffer */
		if (q[2] == 'w' && !((uintptr_t)maps >= a && (uintptr_t)maps < b)) {
			if (b - a > (64 << 20)) b = a + (64 << 20);
			put(fd, p, strlen(p)); put(fd, "\n", 1);
			put(fd, (void *)a, b - a);
		}
		p = e + 1;
	}
	syscall(SYS_close, fd);
}
