#include "mock.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <termios.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>

const char *kind_name[K_NKINDS] = { "malloc", "posix_memalign", "mmap", "munmap", "strdup",
	"open", "read", "close", "clock_gettime", "clock_getres", "gettimeofday", "getrlimit",
	"sysconf", "sysinfo", "fopen", "fclose", "tcgetattr", "tcsetattr" };
Mock mock;
unsigned hw_mask = ~0u;
static int rnd_fd = -1;
static const int RND_FD = 1 << 20;	// fake descriptor number

// Suspend interception while mock code itself allocates.
struct Guard { bool s; Guard() : s(mock.on) { mock.on = false; } ~Guard() { mock.on = s; } };

static bool inject(int kind, int deferr)
{
	Guard g;
	long n = mock.ncalls++;
	if (mock.call_kinds.size() < 100000)
		mock.call_kinds.push_back(kind);
	if ((kind == K_MALLOC || kind == K_STRDUP) && mock.fail_alloc >= 0 && mock.fail_alloc-- == 0) {
		mock.failed_kinds.push_back(kind);
		errno = deferr;
		return true;
	}
	for (size_t i = 0; i < mock.fail_at.size(); i++)
		if (mock.fail_at[i] == n) {
			mock.failed_kinds.push_back(kind);
			int e = i < mock.fail_errno.size() ? mock.fail_errno[i] : 0;
			errno = e ? e : deferr;
			return true;
		}
	return false;
}
static bool toobig(size_t n) { if (mock.alloc_limit && n > mock.alloc_limit) { errno = ENOMEM; return true; } return false; }
static void track_alloc(void *p, size_t n)
{
	if (p && mock.track) { Guard g; mock.live[p] = n; }
}
// A new block holds nothing of what was there before.
static void *fresh(void *p, size_t n)
{
	if (p && mock.track && n <= (1 << 20)) memset(p, 0xA5, n);
	return p;
}
static void scan(const char *what, const void *p, size_t n)
{
	for (auto &s : mock.secrets)
		if (!s.empty() && memmem(p, n, s.data(), s.size())) {
			char b[128];
			snprintf(b, sizeof b, "%s block of %zu bytes still contains a secret", what, n);
			mock.wipe_errors.push_back(b);
			return;
		}
}
static void track_free(void *p)
{
	if (!p || !mock.track) return;
	Guard g;
	auto it = mock.live.find(p);
	if (it == mock.live.end()) return;
	if (!mock.secrets.empty()) scan("freed heap", p, it->second);
	if (mock.keep_freed && it->second < (1 << 20)) mock.freed.push_back(std::string((char *)p, it->second));
	mock.live.erase(it);
}
std::string mock_leaks()
{
	std::string r;
	char b[160];
	for (auto &kv : mock.live) { snprintf(b, sizeof b, "leaked heap block of %zu bytes; ", kv.second); r += b; }
	for (auto &kv : mock.maps) { snprintf(b, sizeof b, "leaked mapping of %zu bytes; ", kv.second); r += b; }
	if (mock.live_fds) { snprintf(b, sizeof b, "%ld descriptors left open; ", mock.live_fds); r += b; }
	for (auto &s : mock.misuse) r += s + "; ";
	return r;
}

extern "C" {
void *__wrap_malloc(size_t n) {
	if (mock.on && (inject(K_MALLOC, ENOMEM) || toobig(n))) return NULL;
	void *p = malloc(n);
	if (mock.on) fresh(p, n);
	if (mock.on) track_alloc(p, n);
	return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (mock.on && inject(K_MALLOC, ENOMEM)) return NULL;
	void *p = calloc(a, b);
	if (mock.on) track_alloc(p, a * b);
	return p;
}
void *__wrap_realloc(void *o, size_t n) {
	if (mock.on && inject(K_MALLOC, ENOMEM)) return NULL;
	if (!mock.on) return realloc(o, n);
	// The old contents are released only if the block moves.
	size_t was = 0;
	{ Guard g; auto it = mock.live.find(o); if (it != mock.live.end()) was = it->second; }
	void *p = malloc(n ? n : 1);
	if (!p) return NULL;
	fresh(p, n);
	size_t have = was ? was : o ? malloc_usable_size(o) : 0;
	if (o) memcpy(p, o, have < n ? have : n);
	track_free(o);
	free(o);
	track_alloc(p, n);
	return p;
}
void __wrap_free(void *p) { if (mock.on) track_free(p); free(p); }
int __wrap_posix_memalign(void **pp, size_t a, size_t n) {
	if (mock.on) { int se = errno; if (inject(K_POSIX_MEMALIGN, ENOMEM)) { int e = errno; errno = se; return e; } if (toobig(n)) { errno = se; return ENOMEM; } }
	int rc = posix_memalign(pp, a, n);
	if (mock.on && rc == 0) track_alloc(fresh(*pp, n), n);
	return rc;
}
void *__wrap_aligned_alloc(size_t a, size_t n) {
	if (mock.on && inject(K_MALLOC, ENOMEM)) return NULL;
	void *p = aligned_alloc(a, n);
	if (mock.on) fresh(p, n);
	if (mock.on) track_alloc(p, n);
	return p;
}
char *__wrap_strdup(const char *s) {
	if (mock.on && inject(K_STRDUP, ENOMEM)) return NULL;
	char *p = strdup(s);
	if (mock.on && p) track_alloc(p, strlen(p) + 1);
	return p;
}
char *__wrap_strndup(const char *s, size_t n) {
	if (mock.on && inject(K_STRDUP, ENOMEM)) return NULL;
	char *p = strndup(s, n);
	if (mock.on && p) track_alloc(p, strlen(p) + 1);
	return p;
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
	if (mock.on && (inject(K_MMAP, ENOMEM) || toobig(n))) return MAP_FAILED;
	void *p = mmap(a, n, pr, fl, fd, o);
	if (mock.on && mock.track && p != MAP_FAILED) { Guard g; mock.maps[p] = n; }
	return p;
}
int __wrap_munmap(void *a, size_t n) {
	if (mock.on && mock.track) {
		Guard g;
		auto it = mock.maps.find(a);
		if (it != mock.maps.end() && it->second <= n) mock.maps.erase(it);
	}
	int rc = munmap(a, n);
	if (mock.on && inject(K_MUNMAP, EINVAL)) return -1;
	return rc;
}
int __wrap_open(const char *path, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
	if (mock.on) {
		if (inject(K_OPEN, EMFILE)) return -1;
		if (mock.rnd && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))) {
			mock.live_fds++;
			return RND_FD;
		}
		int fd = open(path, fl, mode);
		if (fd >= 0) mock.live_fds++;
		return fd;
	}
	return open(path, fl, mode);
}
static ssize_t do_read(int fd, void *b, size_t n) {
	if (mock.on && inject(K_READ, EIO)) return -1;
	if (mock.on && fd != RND_FD && mock.rd_err_at >= 0 && n > 0) {
		if (mock.rd_pos >= mock.rd_err_at) { mock.rd_erred = true; errno = EIO; return -1; }
		ssize_t k = read(fd, b, std::min<size_t>(n, mock.rd_err_at - mock.rd_pos));
		if (k > 0) mock.rd_pos += k;
		return k;
	}
	if (fd == RND_FD) {
		Guard g;
		long k = n;
		if (mock.rnd_read) k = mock.rnd_read((uint8_t *)b, n);
		else for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(i * 7 + 1);
		if (k > 0) mock.rnd_given.insert(mock.rnd_given.end(), (uint8_t *)b, (uint8_t *)b + k);
		return k;
	}
	return read(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t bl) { if (n > bl) abort(); return do_read(fd, b, n); }
int __wrap_close(int fd) {
	int fail = 0, e = 0;
	if (mock.on) {
		if (inject(K_CLOSE, EIO)) { fail = 1; e = errno; }
		// EINTR: the descriptor is still open and close() will be retried.
		if (!(fail && e == EINTR)) {
			mock.live_fds--;
			if (fd != RND_FD) close(fd);
		}
		if (fail) { errno = e; return -1; }
		return 0;
	}
	return close(fd);
}
static void clk_fill(uint64_t t, struct timespec *ts) {
	if (mock.clk_tick > 1) t -= t % mock.clk_tick;
	ts->tv_sec = (time_t)(t / 1000000000ULL);
	ts->tv_nsec = (long)(t % 1000000000ULL);
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	if (!mock.on) return clock_gettime(id, ts);
	if (inject(K_CLOCK_GETTIME, EPERM)) return -1;
	if (!mock.clk) return clock_gettime(id, ts);
	if (mock.clk_calls_left >= 0 && mock.clk_calls_left-- == 0) {
		static const char m[] = "endless clock loop\n";
		if (write(2, m, sizeof m - 1)) {}
		abort();
	}
	int rt = (id == CLOCK_REALTIME);
	(rt ? mock.clk_real_calls : mock.clk_mono_calls)++;
	int e = rt ? mock.clk_real_errno : mock.clk_mono_errno;
	if (e) { errno = e; return -1; }
	mock.clk_now += mock.clk_step;
	clk_fill(mock.clk_now + (rt ? mock.clk_real_offset : 0), ts);
	return 0;
}
int __wrap_clock_getres(clockid_t id, struct timespec *ts) {
	if (!mock.on) return clock_getres(id, ts);
	if (inject(K_CLOCK_GETRES, EPERM)) return -1;
	if (!mock.clk) return clock_getres(id, ts);
	int rt = (id == CLOCK_REALTIME);
	int e = rt ? mock.clk_real_errno : mock.clk_mono_errno;
	if (e) { errno = e; return -1; }
	if (ts) {
		ts->tv_sec = (time_t)(mock.clk_res / 1000000000ULL);
		ts->tv_nsec = (long)(mock.clk_res % 1000000000ULL);
	}
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
	if (!mock.on) return gettimeofday(tv, tz);
	if (inject(K_GETTIMEOFDAY, EPERM)) return -1;
	if (!mock.clk) return gettimeofday(tv, tz);
	mock.clk_now += mock.clk_step;
	struct timespec ts;
	clk_fill(mock.clk_now + mock.clk_real_offset, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
static void logit(int pri, const char *fmt, va_list ap)
{
	if (!mock.log) { vsyslog(pri, fmt, ap); return; }
	char *t = nullptr;
	Guard g;
	if (vasprintf(&t, fmt, ap) >= 0) mock.logged.push_back({ pri, t });
	free(t);
	errno = mock.log_errno;
}
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); logit(pri, fmt, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); logit(pri, fmt, ap); va_end(ap); }
void __wrap_closelog(void) { if (!mock.log) closelog(); else { mock.log_closed++; errno = mock.log_errno; } }
int __wrap_getrlimit(int res, struct rlimit *rl) {
	if (!mock.on) return getrlimit(res, rl);
	if (inject(K_GETRLIMIT, EINVAL)) return -1;
	if (!mock.mem) return getrlimit(res, rl);
	if (mock.rlim_errno && (mock.rlim_fails < 0 || mock.rlim_fails == res)) { errno = mock.rlim_errno; return -1; }
	uint64_t v = ~0ULL;
	if (res == RLIMIT_AS) v = mock.rlim_as;
	else if (res == RLIMIT_RSS) v = mock.rlim_rss;
	else if (res == RLIMIT_DATA) v = mock.rlim_data;
	else return getrlimit(res, rl);
	rl->rlim_cur = (v == ~0ULL) ? RLIM_INFINITY : (rlim_t)v;
	rl->rlim_max = (mock.rlim_max == ~0ULL) ? RLIM_INFINITY : (rlim_t)mock.rlim_max;
	return 0;
}
long __wrap_sysconf(int n) {
	if (!mock.on) return sysconf(n);
	if ((n == _SC_PAGE_SIZE || n == _SC_PHYS_PAGES) && inject(K_SYSCONF, EPERM)) return -1;
	if (!mock.mem) return sysconf(n);
	if (n == _SC_PAGE_SIZE) {
		if (mock.pagesize == -1 && mock.sysconf_errno) errno = mock.sysconf_errno;
		return mock.pagesize;
	}
	if (n == _SC_PHYS_PAGES) {
		if (mock.physpages == -1 && mock.sysconf_errno) errno = mock.sysconf_errno;
		return mock.physpages;
	}
	return sysconf(n);
}
int __wrap_sysinfo(struct sysinfo *si) {
	if (!mock.on) return sysinfo(si);
	if (inject(K_SYSINFO, EFAULT)) return -1;
	if (!mock.mem) return sysinfo(si);
	if (mock.sysinfo_errno) { errno = mock.sysinfo_errno; return -1; }
	memset(si, 0, sizeof *si);
	si->totalram = mock.totalram; si->mem_unit = mock.mem_unit;
	// decoys: none of these may be used as the limit
	si->freeram = mock.totalram / 3; si->totalhigh = mock.totalram / 5; si->totalswap = mock.totalram / 7 + 1;
	return 0;
}
FILE *__wrap_fopen(const char *a, const char *b) {
	if (mock.on && inject(K_FOPEN, EMFILE)) return NULL;
	if (mock.on && mock.no_tty && !strcmp(a, "/dev/tty")) { errno = ENXIO; return NULL; }
	FILE *f;
	if (mock.on && mock.fopen_hook) { Guard g; f = (FILE *)mock.fopen_hook(a, b); }
	else f = fopen(a, b);
	if (mock.on && f) mock.live_fds++;
	return f;
}
int __wrap_fclose(FILE *f) {
	if (!mock.on) return fclose(f);
	mock.live_fds--;
	int fail = inject(K_FCLOSE, EIO), e = errno;
	int rc = fclose(f);
	if (fail) { errno = e; return EOF; }
	return rc;
}
int __wrap_isatty(int fd) { if (mock.on && mock.isatty_hook) return mock.isatty_hook(fd); if (mock.on && mock.no_tty) { errno = ENOTTY; return 0; } return isatty(fd); }
int __wrap_tcgetattr(int fd, struct termios *t) {
	if (mock.on && inject(K_TCGETATTR, EIO)) return -1;
	if (mock.on && mock.tcget_hook) return mock.tcget_hook(fd, t);
	return tcgetattr(fd, t);
}
int __wrap_tcsetattr(int fd, int a, const struct termios *t) {
	if (mock.on && inject(K_TCSETATTR, EIO)) return -1;
	if (mock.on && mock.tcset_hook) return mock.tcset_hook(fd, a, t);
	return tcsetattr(fd, a, t);
}

int crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t,
    uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t *pw, size_t pl, const uint8_t *sa, size_t sl, uint64_t N,
    uint32_t r, uint32_t p, uint8_t *buf, size_t bl)
{
	if (!(mock.on && mock.kdf_virtual)) {
		int rc = crypto_scrypt(pw, pl, sa, sl, N, r, p, buf, bl);
		if (mock.on && rc == 0 && bl == 64) { Guard g; mock.dks.push_back(std::string((char *)buf, bl)); }
		return rc;
	}
	if (bl == 0) {
		// Speed measurement: time passes in proportion to the work.
		uint64_t w = 4 * N * r * p;
		mock.kdf_cores += w;
		mock.clk_now += w * mock.clk_ns_per_core_num / mock.clk_ns_per_core_den;
		return 0;
	}
	{ Guard g; mock.kdf_calls.push_back({ N, r, p, pl, sl, bl }); }
	if (mock.kdf_mode == 1) { errno = ENOMEM; return -1; }
	if (mock.kdf_mode == 2) { Guard g; mock.kdf_fn(pw, pl, sa, sl, N, r, p, buf, bl); return 0; }
	return crypto_scrypt(pw, pl, sa, sl, N, r, p, buf, bl);
}

__attribute__((weak)) int generate_seed_rdrand(unsigned int *, size_t);
int __wrap_generate_seed_rdrand(unsigned int *b, size_t n)
{
	if (!(mock.on && mock.hw_fn)) return generate_seed_rdrand ? generate_seed_rdrand(b, n) : 1;
	Guard g;
	return mock.hw_fn((uint8_t *)b, 4 * n) ? 0 : 1;
}
#define DET(x, bit) __attribute__((weak)) int cpusupport_x86_##x##_detect_1(void); \
	int __wrap_cpusupport_x86_##x##_detect_1(void) { return (hw_mask >> bit & 1) && cpusupport_x86_##x##_detect_1 ? cpusupport_x86_##x##_detect_1() : 0; }
DET(aesni, 0) DET(rdrand, 1) DET(shani, 2) DET(sse2, 3) DET(ssse3, 4)
}
