// C01, C02: scrypt_kdf / crypto_scrypt against RFC 7914.
#include "mock.hpp"
#include "pt.hpp"
#include "ref.hpp"
#include <atomic>
#include <cerrno>
#include <sys/mman.h>
#include <thread>
extern "C" {
#include "crypto_scrypt.h"
}
#define CANARY 0xA5

static uint64_t mem_avail()
{
	FILE *f = fopen("/proc/meminfo", "r"); char l[256]; unsigned long long v = 0;
	while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu kB", &v) == 1) break;
	if (f) fclose(f);
	return v * 1024;
}
// Call the KDF with misaligned buffers and canaries; compare with the reference.
static void check_kdf(pt::Ctx &c, const Bytes &pw, const Bytes &sa, uint64_t N, uint32_t r, uint32_t p, size_t n, size_t off, const Bytes *expect = nullptr)
{
	c.note("N=%llu r=%u p=%u pwlen=%zu saltlen=%zu outlen=%zu align=%zu hw=%x", (unsigned long long)N, r, p, pw.size(), sa.size(), n, off, hw_mask & 0x1f);
	Bytes pwb(off, 1), sab(off, 2), out(n + 128, CANARY);
	pwb.insert(pwb.end(), pw.begin(), pw.end());
	sab.insert(sab.end(), sa.begin(), sa.end());
	Bytes pw0 = pwb, sa0 = sab;
	uint8_t *o = out.data() + 32 + off;
	errno = 0;
	int rc = crypto_scrypt(pwb.data() + off, pw.size(), sab.data() + off, sa.size(), N, r, p, o, n);
	CHECK(rc == 0, "valid parameters rejected: rc=%d errno=%d", rc, errno);
	Bytes want;
	if (expect) want = *expect;
	else { want.resize(n); ref::scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, want.data(), n); }
	for (size_t i = 0; i < n; i++)
		CHECK(o[i] == want[i], "wrong output at byte %zu of %zu: got %s want %s", i, n, pt::hex(o + i, n - i, 8).c_str(), pt::hex(&want[i], n - i, 8).c_str());
	for (size_t i = 0; i < out.size(); i++)
		if (i < 32 + off || i >= 32 + off + n) CHECK(out[i] == CANARY, "wrote outside the output buffer at offset %ld of %zu", (long)i - 32 - (long)off, n);
	CHECK(pwb == pw0 && sab == sa0, "input buffers were modified");
}
static void kdf_random(pt::Ctx &c)
{
	pt::Src &s = c.s;
	unsigned logN; uint64_t r, p, budget = 1 << 13;
	switch (s.draw(5)) {
	case 0: logN = s.range(1, 5); r = s.range(1, 8); p = s.range(1, 8); break;
	case 1: logN = s.range(1, 12); r = s.range(1, 4); p = 1; break;
	case 2: logN = s.range(1, 3); r = s.size(1500) ; p = s.range(1, 3); break;
	case 3: logN = s.range(1, 3); r = s.range(1, 3); p = s.size(1500); break;
	case 4: logN = s.range(1, 10); r = 8; p = s.range(1, 3); break;
	default: logN = s.range(1, 16); r = s.range(1, 64); p = s.range(1, 64); budget = 1 << 15; break;
	}
	if (r == 0) r = 1;
	if (p == 0) p = 1;
	uint64_t N = 1ULL << logN;
	while (N * r * p > budget) { if (p > 1) p /= 2; else if (r > 1) r /= 2; else N /= 2; }
	Bytes pw = s.bytes(s.size(s.chance(1, 20) ? 70000 : 300)), sa = s.bytes(s.size(s.chance(1, 20) ? 70000 : 300));
	size_t n = s.chance(1, 12) ? s.size(70000) : s.size(300);
	size_t off = s.draw(15);
	if (s.chance(1, 8)) {	// an invalid call in between must not disturb anything
		uint8_t junk[8];
		crypto_scrypt(pw.data(), pw.size(), sa.data(), sa.size(), s.pick<uint64_t>({ 0, 1, 3, 6 }), r, p, junk, 8);
	}
	check_kdf(c, pw, sa, N, r, p, n, off);
	if (n > 0 && (r > 1 || p > 1 || pw.size() > 64 || n != 64)) c.nontrivial();
	char t[32]; snprintf(t, sizeof t, "logN=%d", __builtin_ctzll(N)); c.tag(t);
}
// Every (logN, r, p, outlen) in a small box, exhaustively.
static void kdf_grid(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	unsigned logN = 1 + i % 7; i /= 7;
	unsigned r = 1 + i % 10; i /= 10;
	unsigned p = 1 + i % 5; i /= 5;
	static const size_t ns[] = { 0, 1, 31, 32, 33, 64, 65 };
	size_t n = ns[i % 7]; i /= 7;
	Bytes pw(c.s.index % 131, 'p'), sa(c.s.index % 97, 's');
	check_kdf(c, pw, sa, 1ULL << logN, r, p, n, 0);
	c.nontrivial();
}
static const uint64_t GRID = 7 * 10 * 5 * 7;
// RFC 7914 section 12 vectors and the reference itself.
static void kdf_vectors(pt::Ctx &c)
{
	static const struct { const char *pw, *sa; uint64_t N; uint32_t r, p; const char *hex; } V[] = {
		{ "", "", 16, 1, 1, "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906" },
		{ "password", "NaCl", 1024, 8, 16, "fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b3731622eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640" },
		{ "pleaseletmein", "SodiumChloride", 16384, 8, 1, "7023bdcb3afd7348461c06cd81fd38ebfda8fbba904f8e3ea9b543f6545da1f2d5432955613f0fcf62d49705242a9af9e61e85dc0d651e40dfcf017b45575887" },
		{ "pleaseletmein", "SodiumChloride", 1048576, 8, 1, "2101cb9b6a511aaeaddbbe09cf70f881ec568d574a2ffd4dabe5ee9820adaa478e56fd8f4ba5d09ffa1c6d927c40f4c337304049e8a952fbcbf45c6fa77a41a4" } };
	auto &v = V[c.s.index % 4];
	Bytes want;
	for (const char *h = v.hex; *h; h += 2) { unsigned x; sscanf(h, "%2x", &x); want.push_back(x); }
	Bytes r(64);
	if (v.N <= 16384) {
		ref::scrypt(v.pw, strlen(v.pw), v.sa, strlen(v.sa), v.N, v.r, v.p, r.data(), 64);
		CHECK(r == want, "HARNESS: reference scrypt disagrees with RFC 7914");
	}
	check_kdf(c, Bytes(v.pw, v.pw + strlen(v.pw)), Bytes(v.sa, v.sa + strlen(v.sa)), v.N, v.r, v.p, 64, 0, &want);
	c.nontrivial();
}
// Large parameters: indices and sizes beyond 16, 24, 31 and 32 bits.
struct Big { uint64_t N; uint32_t r, p; size_t n, pl, sl; uint64_t mem; };
static const Big bigs[] = {
	{ 1 << 17, 1, 1, 64, 8, 32, 0 }, { 1 << 16, 8, 1, 64, 8, 32, 0 }, { 1 << 18, 3, 2, 64, 8, 32, 0 }, { 1 << 20, 1, 1, 32, 8, 32, 0 },
	{ 2, 1 << 16, 1, 64, 8, 32, 0 }, { 4, 65537, 2, 64, 8, 32, 0 }, { 2, 1 << 20, 1, 64, 8, 32, 0 }, { 8, 1 << 17, 1, 64, 1, 1, 0 },
	{ 2, 1, 65536, 64, 8, 32, 0 }, { 2, 1, 65537, 64, 8, 32, 0 }, { 2, 1, 1 << 20, 64, 8, 32, 0 }, { 2, 3, 1 << 18, 64, 8, 32, 0 }, { 4, 1, (1 << 17) + 3, 100, 8, 32, 0 },
	{ 2, 1, 1, 3 << 20, 8, 32, 0 }, { 16, 1, 1, 32 * 65536 + 7, 8, 32, 0 }, { 2, 1, 1, (32 << 18) + 1, 70, 0, 0 },
	{ 2, 1, 1, 64, 20 << 20, 8, 0 }, { 2, 1, 1, 64, 8, 20 << 20, 0 }, { 2, 8, 1, 64, 0, 0, 0 },
	{ 1 << 23, 1, 1, 64, 8, 32, 0 }, { 1 << 22, 2, 1, 64, 8, 32, 0 }, { 1 << 21, 5, 1, 64, 8, 32, 0 },
};
static void kdf_big(pt::Ctx &c)
{
	const Big &b = bigs[c.s.index];
	Bytes pw(b.pl, 'x'), sa(b.sl, 'y');
	for (size_t i = 0; i < b.pl; i++) pw[i] = (uint8_t)(i * 31 + (i >> 9));
	for (size_t i = 0; i < b.sl; i++) sa[i] = (uint8_t)(i * 17 + (i >> 7));
	check_kdf(c, pw, sa, b.N, b.r, b.p, b.n, 0);
	c.nontrivial();
}
// V larger than 4 GiB (and, in the thorough tier, than 16 GiB).
static void kdf_huge_n(pt::Ctx &c, unsigned logN, uint32_t r)
{
	uint64_t need = (128ULL * r << logN) + (1ULL << 30);
	if (mem_avail() < need * 11 / 10) { c.note("skipped: not enough memory"); throw pt::Discard{}; }
	check_kdf(c, Bytes(5, 'h'), Bytes(32, 'u'), 1ULL << logN, r, 1, 64, 0);
	c.nontrivial();
}
// V beyond 4 GiB on the SSE2 path (byte offsets leave 32 bits) and beyond 16 GiB on
// the portable one (word offsets do); the expected values were computed once by ref::scrypt
// (kdf_huge_ref recomputes them in the thorough tier).
static const struct { unsigned logN; uint32_t r; unsigned hw; const char *hex; } KNOWN[] = {
	{ 26, 1, 0x1f, "f7453875da065d877cee279f3cef81d59af0d12ddbb958d34e6076ace9d7fcb09c3776c177ced7d741a896d360ebc2ff9eda1dd8f7a49f774235d88d5447168f" },
	{ 25, 5, 0x00, "7c9af26c71ccb38bc3f9c2efa4b475212f6bf75ca4d2fae7c2e272219f8da0608525eb4b574ea8f139ebcbf42a07cf3a2fca6fe45fbb4b41b1e6d3c60cd514de" },
	{ 26, 1, 0x00, "f7453875da065d877cee279f3cef81d59af0d12ddbb958d34e6076ace9d7fcb09c3776c177ced7d741a896d360ebc2ff9eda1dd8f7a49f774235d88d5447168f" },
};
static Bytes unhex(const char *h) { Bytes o; for (; *h; h += 2) { unsigned x; sscanf(h, "%2x", &x); o.push_back(x); } return o; }
static void kdf_huge_known(pt::Ctx &c)
{
	auto &k = KNOWN[c.s.index];
	if (mem_avail() < (128ULL * k.r << k.logN) / 10 * 11) { c.note("skipped: not enough memory"); throw pt::Discard{}; }
	hw_mask = k.hw | ~0x1fu;
	Bytes w = unhex(k.hex);
	check_kdf(c, Bytes(5, 'h'), Bytes(32, 'u'), 1ULL << k.logN, k.r, 1, 64, 0, &w);
	c.nontrivial();
}
static void kdf_huge_ref(pt::Ctx &c)
{
	auto &k = KNOWN[c.s.index];
	if (mem_avail() < (128ULL * k.r << k.logN) / 10 * 11) { c.note("skipped: not enough memory"); throw pt::Discard{}; }
	Bytes o(64), w = unhex(k.hex);
	ref::scrypt("hhhhh", 5, Bytes(32, 'u').data(), 32, 1ULL << k.logN, k.r, 1, o.data(), 64);
	CHECK(o == w, "HARNESS: recorded value");
	c.nontrivial();
}
// p > 2^25: the p blocks occupy more than 4 GiB.  The reference is computed
// in slices by several threads, without storing B.
static void kdf_huge_p(pt::Ctx &c, uint32_t r, uint32_t p, uint64_t N)
{
	size_t bl = (size_t)128 * r, total = bl * p;
	if (mem_avail() < 2 * total + (1ULL << 30)) { c.note("skipped: not enough memory"); throw pt::Discard{}; }
	Bytes pw = { 'h', 'u', 'g', 'e' }, sa(32, 7), want(64);
	uint8_t *B = (uint8_t *)mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	std::thread th([&] {
		std::atomic<uint32_t> next(0);
		std::vector<std::thread> ts;
		for (int k = 0; k < 7; k++) ts.emplace_back([&] {
			for (;;) {
				uint32_t i0 = next.fetch_add(4096);
				if (i0 >= p) return;
				for (uint32_t i = i0; i < p && i < i0 + 4096; i++) {
					uint8_t *b = B + bl * i;
					for (size_t k = 0; k < bl / 32; k++)
						ref::pbkdf2_block(pw.data(), pw.size(), sa.data(), sa.size(), 1, (uint32_t)(bl / 32 * i + k + 1), b + 32 * k);
					ref::smix(b, r, N);
				}
			}
		});
		for (auto &t : ts) t.join();
		ref::pbkdf2(pw.data(), pw.size(), B, total, 1, want.data(), 64);
	});
	uint8_t out[64];
	int rc = crypto_scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, out, 64);
	th.join();
	munmap(B, total);
	c.note("N=%llu r=%u p=%u", (unsigned long long)N, r, p);
	CHECK(rc == 0, "valid parameters rejected: rc=%d", rc);
	CHECK(!memcmp(out, want.data(), 64), "wrong output: got %s want %s", pt::hex(out, 16).c_str(), pt::hex(want, 16).c_str());
	c.nontrivial();
}

// ---- C02
static bool pow2(uint64_t n) { return n >= 2 && (n & (n - 1)) == 0; }
static void kdf_params(pt::Ctx &c)
{
	pt::Src &s = c.s;
	uint64_t N; uint32_t r, p; size_t n;
	switch (s.draw(5)) {
	case 0: N = 1ULL << s.draw(63); break;
	case 1: N = s.value64(); break;
	case 2: N = s.draw(20); break;
	case 3: N = (1ULL << s.draw(63)) | (1ULL << s.draw(63)); break;
	default: N = 1ULL << s.range(1, 8); break;
	}
	auto gen32 = [&]() -> uint32_t {
		switch (s.draw(4)) {
		case 0: return s.range(1, 16);
		case 1: return (uint32_t)((1ULL << s.draw(32)) - s.draw(1));
		case 2: return s.draw(40);
		case 3: return (uint32_t)s.value64();
		default: return s.draw(0xffffffff);
		}
	};
	r = gen32(); p = gen32();
	if (s.chance(1, 4) && r) {	// sit exactly on the r*p < 2^30 boundary
		uint64_t q = (1ULL << 30) / r; q += s.draw(2); if (q) q -= 1; p = (uint32_t)q;
	}
	const uint64_t LIM = ((1ULL << 32) - 1) * 32;
	switch (s.draw(5)) {
	case 0: n = LIM + s.draw(64); break;
	case 1: n = s.value64(); break;
	default: n = s.draw(100); break;
	}
	mock.alloc_limit = 1ULL << s.range(10, 22);
	bool bad_einval = r == 0 || p == 0 || !pow2(N);
	bool bad_efbig = n > LIM || (uint64_t)r * p >= (1ULL << 30);
	bool nomem = false;
	if (!bad_einval && !bad_efbig) {
		unsigned __int128 v = (unsigned __int128)128 * r * N, L = mock.alloc_limit;
		uint64_t b = 128ULL * r * p, xy = 256ULL * r + 64;
		nomem = v > L || b > L || xy > L;
		if (!nomem && v + b + xy + 1024 > L) throw pt::Discard{};
		// allocatable but too much work, or an output we cannot provide
		if (!nomem && ((double)N * r * p > 1 << 16 || n > 4096)) throw pt::Discard{};
	}
	c.note("N=%llu r=%u p=%u outlen=%zu memory_limit=%zu", (unsigned long long)N, r, p, n, mock.alloc_limit);
	size_t cap = n <= 4096 ? n : 64;
	Bytes out(cap + 64, CANARY);
	Bytes pw(s.draw(5), 'a'), sa(s.draw(5), 'b');
	crypto_scrypt(NULL, 0, NULL, 0, 2, 1, 1, out.data(), 0);	// one-time self tests
	mock.track = true; mock.on = true;
	errno = 0;
	int rc = crypto_scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, out.data() + 32, n);
	int e = errno;
	mock.on = false;
	if (bad_einval || bad_efbig || nomem) {
		CHECK(rc == -1, "invalid or unsatisfiable parameters: rc=%d", rc);
		CHECK(e != 0, "errno not set");
		CHECK((bad_einval && e == EINVAL) || (bad_efbig && e == EFBIG) || (!bad_einval && !bad_efbig && e == ENOMEM), "unexpected errno %d (einval=%d efbig=%d nomem=%d)", e, bad_einval, bad_efbig, nomem);
		for (auto b : out) CHECK(b == CANARY, "output buffer written on failure");
		c.tag(bad_einval ? "EINVAL" : bad_efbig ? "EFBIG" : "ENOMEM");
	} else {
		CHECK(rc == 0, "valid parameters rejected: rc=%d errno=%d", rc, e);
		Bytes want(n);
		ref::scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, want.data(), n);
		CHECK(!memcmp(want.data(), out.data() + 32, n), "wrong output");
		c.tag("accepted");
	}
	std::string l = mock_leaks();
	CHECK(l.empty(), "%s", l.c_str());
	c.nontrivial();
}
// Each allocation of a valid call fails in turn: -1, nothing leaked, then works.
static void kdf_nomem(pt::Ctx &c)
{
	pt::Src &s = c.s;
	uint64_t N = 1ULL << s.range(1, 6); uint32_t r = s.range(1, 9), p = s.range(1, 5);
	uint8_t out[80], want[64];
	Bytes pw = s.bytes(s.draw(10)), sa = s.bytes(s.draw(10));
	memset(out, CANARY, sizeof out);
	// trigger one-time self tests outside the measured call
	crypto_scrypt(NULL, 0, NULL, 0, 2, 1, 1, out, 0);
	mock.track = true; mock.on = true;
	long k = s.draw(8);
	int e1 = s.pick<int>({ 0, ENOMEM, EAGAIN, EINVAL });
	mock.fail_at = { k }; mock.fail_errno = { e1 };
	int rc = crypto_scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, out + 8, 64);
	mock.on = false;
	c.note("N=%llu r=%u p=%u fail_call=%ld of %ld", (unsigned long long)N, r, p, k, mock.ncalls);
	std::string l = mock_leaks();
	if (!mock.failed_kinds.empty()) {
		int kd = mock.failed_kinds[0];
		c.note("kind=%s", kind_name[kd]);
		CHECK(rc == -1, "%s failed but the call returned %d", kind_name[kd], rc);
		CHECK(l.empty(), "after %s failure: %s", kind_name[kd], l.c_str());
		c.nontrivial(); c.tag(kind_name[kd]);
	} else CHECK(rc == 0, "rc=%d without a fault", rc);
	ref::scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, want, 64);
	rc = crypto_scrypt(pw.data(), pw.size(), sa.data(), sa.size(), N, r, p, out + 8, 64);
	CHECK(rc == 0 && !memcmp(out + 8, want, 64), "wrong result after an earlier failure");
	for (int i = 0; i < 80; i++) if (i < 8 || i >= 72) CHECK(out[i] == CANARY, "wrote outside the buffer");
}
// The very first call of a process (with its self tests) under allocation
// failures: -1 or the right answer, never a crash; a retry works.
static void kdf_first(pt::Ctx &c)
{
	pt::Src &s = c.s;
	uint64_t N = 1ULL << s.range(1, 4); uint32_t r = s.range(1, 3), p = s.range(1, 2);
	uint8_t out[64], want[64];
	memset(out, CANARY, sizeof out);
	if (s.chance(1, 3)) mock.alloc_limit = s.range(64, 20000);
	else {
		long k = s.draw(6); unsigned n = s.range(1, 6);
		for (unsigned i = 0; i < n; i++) { mock.fail_at.push_back(k); mock.fail_errno.push_back(ENOMEM); k += s.range(1, 3); }
	}
	mock.track = true; mock.on = true;
	int rc = crypto_scrypt((const uint8_t *)"x", 1, (const uint8_t *)"y", 1, N, r, p, out, 64);
	mock.on = false;
	c.note("N=%llu r=%u p=%u faults=%zu limit=%zu rc=%d", (unsigned long long)N, r, p, mock.failed_kinds.size(), mock.alloc_limit, rc);
	std::string l = mock_leaks();
	CHECK(l.empty(), "%s", l.c_str());
	ref::scrypt("x", 1, "y", 1, N, r, p, want, 64);
	if (rc == 0) CHECK(!memcmp(out, want, 64), "success with a wrong result");
	else CHECK(rc == -1 && (!mock.failed_kinds.empty() || mock.alloc_limit), "failed (rc=%d) without a fault", rc);
	mock.reset();
	rc = crypto_scrypt((const uint8_t *)"x", 1, (const uint8_t *)"y", 1, N, r, p, out, 64);
	CHECK(rc == 0 && !memcmp(out, want, 64), "wrong result after an earlier failure (rc=%d)", rc);
	c.nontrivial();
}

std::vector<pt::Target> pt_targets()
{
	return {
		{ "kdf_random", kdf_random, "random valid (N,r,p), lengths and alignments; non-trivial: non-empty output and not the plain r=1,p=1,64-byte shape", 0, 120, false, 0x1e },
		{ "kdf_grid", kdf_grid, "every logN 1..7 x r 1..10 x p 1..5 x seven output lengths", GRID, 120, false, 0x1e },
		{ "kdf_vectors", kdf_vectors, "RFC 7914 vectors", 4, 120 },
		{ "kdf_big", kdf_big, "enumerated large parameters and lengths", sizeof bigs / sizeof *bigs, 300 },
		{ "kdf_huge_n8", [](pt::Ctx &c) { kdf_huge_n(c, 26, 1); }, "V = 8 GiB", 1, 600 },
		{ "kdf_huge_n16", [](pt::Ctx &c) { kdf_huge_n(c, 27, 1); }, "V = 16 GiB", 1, 900 },
		{ "kdf_huge_n24", [](pt::Ctx &c) { kdf_huge_n(c, 26, 3); }, "V = 24 GiB", 1, 900 },
		{ "kdf_huge_known", kdf_huge_known, "V = 8 GiB on the SSE2 and of 8 and 20 GiB on the portable path", 3, 900, true },
		{ "kdf_huge_ref", kdf_huge_ref, "the reference reproduces kdf_huge_known's values", 2, 900 },
		{ "kdf_huge_p", [](pt::Ctx &c) { kdf_huge_p(c, 1, (1u << 25) + 3, 2); }, "p > 2^25 (B > 4 GiB)", 1, 800 },
		{ "kdf_huge_rp", [](pt::Ctx &c) { kdf_huge_p(c, 8, (1u << 22) + 5, 2); }, "r*p > 2^25 with r = 8", 1, 800 },
		{ "kdf_params", kdf_params, "arbitrary N, r, p, output length, memory limit", 0, 60, false, 0x1e },
		{ "kdf_first", kdf_first, "the first call in a fresh process with one to six failing allocations", 0, 60, true, 0x1e },
		{ "kdf_nomem", kdf_nomem, "one allocation fails; non-trivial: a fault was actually injected", 0, 60, false, 0x1e },
	};
}
