// Virtual operating system under the code being tested: every libc call the
// tree makes for memory, clocks, limits, entropy and terminals goes through
// the __wrap_ functions in mock.cpp (build.py renames the undefined symbols of the
// tree's objects with objcopy), which pass through unless told otherwise.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

enum Kind { K_MALLOC, K_POSIX_MEMALIGN, K_MMAP, K_MUNMAP, K_STRDUP, K_OPEN, K_READ,
	K_CLOSE, K_CLOCK_GETTIME, K_CLOCK_GETRES, K_GETTIMEOFDAY, K_GETRLIMIT, K_SYSCONF,
	K_SYSINFO, K_FOPEN, K_FCLOSE, K_TCGETATTR, K_TCSETATTR, K_NKINDS };
extern const char *kind_name[K_NKINDS];

struct Mock {
	bool on = false;		// record/intercept at all
	// --- fault injection: fail the n-th (0-based) intercepted fallible call
	std::vector<long> fail_at;	// global call indices to fail
	std::vector<int> fail_errno;	// errno per entry (parallel)
	long ncalls = 0;		// fallible calls seen so far
	std::vector<int> call_kinds;	// kind of each call seen
	std::vector<int> failed_kinds;	// kinds actually failed
	long fail_alloc = -1;		// fail the n-th heap allocation (malloc, strdup, ...)
	size_t alloc_limit = 0;		// larger heap/mmap requests fail with ENOMEM
	// --- leak / wipe tracking
	bool track = false;
	std::map<void *, size_t> live;	// live heap blocks allocated by the code
	std::map<void *, size_t> maps;	// live mmaps
	long live_fds = 0;
	bool no_tty = false;		// no controlling terminal
	std::vector<std::string> secrets; // byte patterns that must not be in freed blocks
	std::vector<std::string> wipe_errors;
	bool keep_freed = false;	// keep the contents of freed blocks
	std::vector<std::string> freed;
	std::vector<std::string> dks;	// derived keys returned by crypto_scrypt
	std::vector<std::string> misuse; // double free etc.
	long rd_err_at = -1, rd_pos = 0; bool rd_erred = false;	// read() of other files fails after so many bytes
	// --- /dev/urandom
	bool rnd = false;		// mock it
	std::function<long(uint8_t *, size_t)> rnd_read; // returns bytes, 0, or -1
	std::vector<uint8_t> rnd_given;	// bytes handed out
	// --- the hardware generator: fills n bytes or returns false
	std::function<bool(uint8_t *, size_t)> hw_fn;
	std::function<void *(const char *, const char *)> fopen_hook;	// replaces fopen (returns FILE *)
	std::function<int(int)> isatty_hook;
	std::function<int(int, void *)> tcget_hook;
	std::function<int(int, int, const void *)> tcset_hook;
	// --- the system log
	bool log = false;
	std::vector<std::pair<int, std::string>> logged;	// priority and text
	int log_errno = 0;		// errno after logging
	long log_closed = 0;
	// --- clocks (ns)
	bool clk = false;
	uint64_t clk_now = 0;
	uint64_t clk_res = 1;		// reported resolution
	uint64_t clk_tick = 0;		// values are rounded down to multiples (0: 1)
	uint64_t clk_step = 0;		// advance per clock_gettime call
	uint64_t clk_ns_per_core_num = 0, clk_ns_per_core_den = 1; // advance by KDF work
	int clk_mono_errno = 0;		// fail CLOCK_MONOTONIC with this errno
	int clk_real_errno = 0;
	uint64_t clk_real_offset = 0;	// CLOCK_REALTIME = now + offset
	long clk_mono_calls = 0, clk_real_calls = 0;
	long clk_calls_left = -1;	// guard against endless loops (throws exit)
	// --- memory limits
	bool mem = false;
	uint64_t totalram = 0; uint32_t mem_unit = 1; int sysinfo_errno = 0;
	uint64_t rlim_as = ~0ULL, rlim_rss = ~0ULL, rlim_data = ~0ULL; int rlim_errno = 0, rlim_fails = -1;	// which one (-1: all)
	uint64_t rlim_max = ~0ULL;
	long pagesize = 4096, physpages = -1; int sysconf_errno = 0;
	// --- KDF
	bool kdf_virtual = false;	// intercept crypto_scrypt
	int kdf_mode = 0;		// 0: real; 1: record and fail with -1; 2: use kdf_fn
	std::function<void(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t)> kdf_fn;
	uint64_t kdf_cores = 0;		// total cores "computed" in measurement calls
	struct KdfCall { uint64_t N; uint32_t r, p; size_t plen, slen, dklen; };
	std::vector<KdfCall> kdf_calls;	// calls with dklen > 0
	void reset() { *this = Mock(); }
};
extern Mock mock;
extern unsigned hw_mask;	// bit0 aesni, 1 rdrand, 2 shani, 3 sse2, 4 ssse3 allowed
// Live tracking helpers
std::string mock_leaks();	// "" if nothing leaked
