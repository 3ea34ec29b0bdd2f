// C12 memory allowance, C16 random bytes, C20 numbers, C21 sizes, C23 CPU speed,
// C24 diagnostics, C17/C15/C19 passphrase input without a terminal.
#include "encio.hpp"
#include <sys/resource.h>
#include <syslog.h>
#include "config.h"
#include <ctype.h>
#include <fcntl.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
#include "crypto_entropy.h"
#include "humansize.h"
#include "insecure_memzero.h"
#include "memlimit.h"
#include "monoclock.h"
#include "readpass.h"
#include "passphrase_entry.h"
#include "scryptenc_cpuperf.h"
#include "scryptenc_print_error.h"
#include "warnp.h"
}
#include "numref.hpp"
// ---------------------------------------------------------------- C12
static uint64_t some_mem(pt::Src &s)
{
	switch (s.draw(5)) {
	case 0: return 1ULL << s.range(10, 44);
	case 1: return s.range(1, 64) << s.range(10, 38);
	case 2: return 1048576 * s.range(0, 8) + s.draw(3);
	case 3: return s.draw(1ULL << 45);
	case 4: return s.draw(4 << 20);
	default: return s.value64() >> s.range(1, 20);
	}
}
static void memtouse_(pt::Ctx &c)
{
	pt::Src &s = c.s;
	mock.mem = true;
	static const uint32_t units[] = { 1, 1, 1, 4096, 1024, 65536, 3 };
	mock.mem_unit = units[s.draw(6)];
	uint64_t ram = some_mem(s);
	mock.totalram = std::max<uint64_t>(ram / mock.mem_unit, 1);
	ram = mock.totalram * mock.mem_unit;
	u128 m = ram;
	bool fail = false; std::string what = "";
	auto rl = [&](uint64_t &v, bool used) { if (s.chance(1, 2)) { v = some_mem(s); if (used && v < m) m = v; } };
	rl(mock.rlim_as, true);
	rl(mock.rlim_rss, true);
#ifdef HAVE_MMAP
	rl(mock.rlim_data, false);
#else
	rl(mock.rlim_data, true);
#endif
	// a hard limit is not the limit in force
	if (s.chance(1, 3)) mock.rlim_max = some_mem(s);
	switch (s.draw(4)) {
	case 0: mock.pagesize = 4096; mock.physpages = -1; mock.sysconf_errno = 0; break;
	case 1: mock.pagesize = 4096; mock.physpages = -1; mock.sysconf_errno = EINVAL; break;
	default:
		mock.pagesize = s.pick<long>({ 4096, 16384, 65536, 1024 });
		mock.physpages = std::max<long>(some_mem(s) / mock.pagesize, 1);
		if ((u128)mock.pagesize * mock.physpages < m) m = (u128)mock.pagesize * mock.physpages;
		break;
	}
	if (s.chance(1, 10)) {
		fail = true;
		switch (s.draw(2)) {
		case 0: mock.sysinfo_errno = s.pick<int>({ EFAULT, EINVAL, ENOSYS }); what = "sysinfo fails"; break;
		case 1: mock.rlim_errno = s.pick<int>({ EINVAL, EPERM, EFAULT }); what = "getrlimit fails"; mock.rlim_fails = s.pick<int>({ -1, RLIMIT_AS, RLIMIT_RSS }); break;
		default: if (s.draw(1)) mock.physpages = -1; else mock.pagesize = -1;
			mock.sysconf_errno = s.pick<int>({ EIO, EPERM, ENOSYS }); what = "sysconf fails"; break;
		}
	}
	double frac;
	switch (s.draw(3)) {
	case 0: frac = 1.0 / (1 << s.draw(8)); break;
	case 1: frac = (double)s.range(1, 64) / 64; break;
	case 2: frac = (double)s.range(1, 1000) / 1000; break;
	default: frac = (double)s.range(1, 1ULL << 52) / (double)(1ULL << 52); break;
	}
	size_t maxmem = 0;
	switch (s.draw(3)) { case 0: break; case 1: maxmem = some_mem(s); break; case 2: maxmem = (uint64_t)((double)m * frac) + s.draw(4) - 2; break; default: maxmem = s.value64(); }
	char b[400];
	snprintf(b, sizeof b, "ram=%llu*%u as=%llx rss=%llx data=%llx max=%llx page=%ld*%ld(errno %d) frac=%.17g maxmem=%zu %s",
	    (unsigned long long)mock.totalram, mock.mem_unit, (unsigned long long)mock.rlim_as, (unsigned long long)mock.rlim_rss,
	    (unsigned long long)mock.rlim_data, (unsigned long long)mock.rlim_max, mock.pagesize, mock.physpages, mock.sysconf_errno, frac, maxmem, what.c_str());
	c.note("%s", b);
	size_t got = 0xdeadbeef;
	errno = s.draw(1) ? EIO : 0;	// must not matter
	mock.on = true;
	int rc = memtouse(maxmem, frac, &got);
	mock.on = false;
	if (fail) { CHECK(rc != 0, "success (%zu) although %s", got, what.c_str()); c.nontrivial(); c.tag("failure"); return; }
	CHECK(rc == 0, "fails without any fault");
	long double x = (long double)frac * (long double)(uint64_t)m;
	long double lo = floorl(x) - 1 - x * 0x1p-51L, hi = floorl(x) + 1 + x * 0x1p-51L;
	// exact when every intermediate value is
	double y = frac * (double)(uint64_t)m;
	if ((uint64_t)m < (1ULL << 53) && (long double)y == x) lo = hi = floorl(x);
	auto cl = [&](long double v) { if (maxmem > 0 && v > (long double)maxmem) v = (long double)maxmem; if (v < 1048576) v = 1048576; return v; };
	CHECK((long double)got >= cl(lo) && (long double)got <= cl(hi), "allowance %zu, expected %.0Lf..%.0Lf (limit %llu)", got, cl(lo), cl(hi), (unsigned long long)m);
	if (got > 1048576) c.nontrivial();
	c.tag(got == 1048576 ? "minimum" : maxmem && got == maxmem ? "explicit maximum" : "fraction");
}
// ---------------------------------------------------------------- C16
struct Drbg {
	uint8_t K[32], V[32]; unsigned ctr = 0; bool inst = false;
	void upd(const uint8_t *d, size_t n) {
		Bytes m(V, V + 32); m.push_back(0); m.insert(m.end(), d, d + n);
		ref::hmac(K, 32, m.data(), m.size(), K); ref::hmac(K, 32, V, 32, V);
		if (!n) return;
		m.assign(V, V + 32); m.push_back(1); m.insert(m.end(), d, d + n);
		ref::hmac(K, 32, m.data(), m.size(), K); ref::hmac(K, 32, V, 32, V);
	}
	void gen(uint8_t *b, size_t n) {
		for (size_t i = 0; i < n; i += 32) { ref::hmac(K, 32, V, 32, V); memcpy(b + i, V, std::min<size_t>(32, n - i)); }
		upd(nullptr, 0); ctr++;
	}
};
// A generated entropy stream that fails once at chosen offsets.
struct Ent {
	uint64_t seed; size_t pos = 0; std::vector<std::pair<size_t, int>> fails; size_t fi = 0;
	std::vector<uint32_t> chunks; size_t ci = 0;
	uint8_t at(size_t i) { pt::Rng r{ seed + i / 8 * 0x51ed27ULL }; return (uint8_t)(r.next() >> (8 * (i % 8))); }
	long read(uint8_t *b, size_t n) {
		size_t k = n;
		if (!chunks.empty()) { uint32_t x = chunks[ci++ % chunks.size()]; if (x && k > x) k = x; }
		if (fi < fails.size()) {
			if (pos >= fails[fi].first) { int e = fails[fi++].second; if (!e) return 0; errno = e; return -1; }
			if (k > fails[fi].first - pos) k = fails[fi].first - pos;
		}
		for (size_t i = 0; i < k; i++) b[i] = at(pos + i);
		pos += k;
		return k;
	}
	// model: true if the next need bytes can be read in one attempt
	bool take(size_t &mpos, size_t &mfi, size_t need, Bytes &out) {
		out.clear();
		if (mfi < fails.size() && mpos + need > fails[mfi].first) { mpos = std::max(mpos, fails[mfi].first); mfi++; return false; }
		for (size_t i = 0; i < need; i++) out.push_back(at(mpos + i));
		mpos += need;
		return true;
	}
};
static void drbg(pt::Ctx &c)
{
	pt::Src &s = c.s;
	bool hw = s.chance(1, 2);
	if (hw) hw_mask |= 2u; else hw_mask &= ~2u;
	auto E = std::make_shared<Ent>();
	E->seed = s.draw(0xffffff);
	// what the hardware generator gave, or empty if it failed
	auto H = std::make_shared<std::vector<Bytes>>();
	size_t hu = 0;
	unsigned hfail = s.chance(1, 3) ? 1 + s.draw(3) : 0;	// one in so many calls fails
	mock.hw_fn = [H, E, hfail](uint8_t *b, size_t n) {
		pt::Rng r{ E->seed * 77 + H->size() };
		for (size_t i = 0; i < n; i++) b[i] = (uint8_t)r.next();
		bool ok = !hfail || H->size() % (hfail + 1);
		H->push_back(ok ? Bytes(b, b + n) : Bytes());
		return ok;
	};
	for (uint64_t n = s.draw(3); n; n--) E->chunks.push_back(s.range(1, 48));
	size_t at = 0;
	if (s.chance(1, 2)) for (uint64_t n = s.draw(3); n; n--) { at += s.draw(90); E->fails.push_back({ at, s.pick<int>({ 0, EIO, EAGAIN, EINTR }) }); at++; }
	mock.rnd = true; mock.track = true;
	mock.rnd_read = [E](uint8_t *b, size_t n) { return E->read(b, n); };
	Drbg D; size_t mpos = 0, mfi = 0, total = 0, nfail = 0, big = 0;
	unsigned calls = 0, nops = 1 + s.draw(s.chance(1, 3) ? 600 : 12);
	c.note("entropy seed %llx, %zu failures, %zu read sizes, hardware %s; %u requests:", (unsigned long long)E->seed, E->fails.size(), E->chunks.size(), !hw ? "off" : hfail ? "failing at times" : "on", nops);
	std::unordered_set<uint64_t> seen;
	for (unsigned o = 0; o < nops; o++) {
		if (total > 3000000) break;
		bool enc = s.chance(1, 12);
		size_t n = enc ? 32 : nops > 12 ? s.draw(70) : s.chance(1, 5) ? 65536 * s.draw(4) + s.size(70000) : s.size(3000);
		if (c.desc.size() < 400) c.note(enc ? "enc" : "%zu", n);
		Bytes exp(n), b(n + 32, 0xA5), ent;
		bool ok = true;
		auto hwmix = [&] { if (hu < H->size()) { if (!(*H)[hu].empty()) { D.upd((*H)[hu].data(), (*H)[hu].size()); c.tag("hardware bytes"); } hu++; } };
		auto expect = [&] {	// after the request: the model needs what the hardware gave
			if (!D.inst) {
				if (E->take(mpos, mfi, 48, ent)) { memset(D.K, 0, 32); memset(D.V, 1, 32); D.ctr = 1; D.upd(ent.data(), 48); D.inst = true; hwmix(); }
				else ok = false;
			}
			for (size_t p = 0; ok && p < n;) {
				if (D.ctr > 256) { if (E->take(mpos, mfi, 32, ent)) { D.upd(ent.data(), 32); D.ctr = 1; c.tag("reseed"); hwmix(); } else { ok = false; break; } }
				size_t k = std::min<size_t>(65536, n - p);
				D.gen(&exp[p], k);
				p += k;
			}
		};
		if (enc) {
			OpRes R = do_enc(E_BUF, Bytes(3, 'd'), Bytes(4, 'p'), expl(1, 1, 1), 0, 1);
			expect();
			if (!ok) CHECK(R.rc == SCRYPT_ESALT, "encryption returns %d although no salt is available", R.rc);
			else { CHECK(R.rc == 0, "encryption returns %d", R.rc); CHECK(!memcmp(&R.out[16], exp.data(), 32), "the salt is not the next 32 bytes of the generator"); }
			calls++;
		} else {
			CapErr ce;
			mock.on = true;
			int rc = crypto_entropy_read(b.data(), n);
			mock.on = false;
			expect();
			calls++;
			CHECK((rc == 0) == ok, "request %u (%zu bytes): code %d, expected %s (%zu entropy bytes used, %zu expected)", o, n, rc, ok ? "success" : "failure", E->pos, mpos);
			if (ok) {
				size_t d = 0; while (d < n && b[d] == exp[d]) d++;
				CHECK(d == n, "request %u (%zu bytes) differs from HMAC_DRBG at byte %zu", o, n, d);
			}
			for (size_t i = n; i < n + 32; i++) CHECK(b[i] == 0xA5, "request of %zu bytes wrote past its end", n);
		}
		CHECK(E->pos == mpos, "%zu bytes of entropy consumed, expected %zu", E->pos, mpos);
		CHECK(mock.live_fds == 0, "descriptor left open");
		CHECK(hu == H->size(), "hardware bytes taken %zu times, expected %zu", H->size(), hu);
		if (!ok) { nfail++; continue; }
		for (size_t i = 0; i + 16 <= n && i < 4096; i += 16)
			CHECK(seen.insert(pt::hash_bytes(&exp[i], 16)).second, "HARNESS: model repeats");
		total += n; if (n > 65536) big++;
	}
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
	if (total) c.nontrivial();
	if (nfail) c.tag("failed request");
	if (big) c.tag("split request");
}
// With the hardware generator mixed in: no repetition, same OS entropy.
static void drbg_hw(pt::Ctx &c)
{
	pt::Src &s = c.s;
	if (s.draw(1)) hw_mask &= ~2u;
	auto E = std::make_shared<Ent>();
	E->seed = s.draw(0xffff);
	mock.rnd = true;
	mock.rnd_read = [E](uint8_t *b, size_t n) { return E->read(b, n); };
	unsigned n = 1 + s.draw(700);
	size_t len = s.range(8, 64);
	c.note("%u requests of %zu bytes, entropy seed %llx, RDRAND %s", n, len, (unsigned long long)E->seed, hw_mask & 2 ? "allowed" : "off");
	std::unordered_set<std::string> seen;
	for (unsigned i = 0; i < n; i++) {
		std::string b(len, '\0');
		mock.on = true;
		int rc = crypto_entropy_read((uint8_t *)&b[0], len);
		mock.on = false;
		CHECK(rc == 0, "request %u fails", i);
		for (size_t k = 0; k + 8 <= len; k += 8) CHECK(seen.insert(b.substr(k, 8)).second, "request %u repeats earlier output", i);
		CHECK(E->pos == 48 + 32 * (i / 256), "request %u: %zu bytes of OS entropy used", i, E->pos);
	}
	c.nontrivial();
}
// ---------------------------------------------------------------- C21
static std::string hs_ref(uint64_t v)
{
	// the largest representable value not above v, by search
	char b[40];
	if (v < 1000) { snprintf(b, sizeof b, "%d B", (int)v); return b; }
	u128 unit = 1; std::string best; u128 bestv = 0;
	for (const char *p = "kMGTPE"; *p; p++) {
		unit *= 1000;
		for (int x = 10; x <= 99; x++) { u128 w = unit * x / 10; if (w <= v && w > bestv) { bestv = w; snprintf(b, sizeof b, "%d.%d %cB", x / 10, x % 10, *p); best = b; } }
		u128 q = v / unit; if (q > 999) q = 999;
		if (q >= 10) { u128 w = unit * q; if (w > bestv) { bestv = w; snprintf(b, sizeof b, "%d %cB", (int)q, *p); best = b; } }
	}
	return best;
}
static void humansize_(pt::Ctx &c)
{
	pt::Src &s = c.s;
	uint64_t v;
	if (s.chance(1, 2)) { // just around a displayed value
		u128 t = 1; for (unsigned k = s.draw(6); k; k--) t *= 1000;
		u128 x = t * s.range(1, 1000) * (s.draw(1) ? 1 : 0) + t / 10 * s.range(0, 10000);
		x += s.draw(2); if (x) x -= 1;
		v = x > ~0ULL ? ~0ULL - s.draw(2) : (uint64_t)x;
	} else v = s.value64();
	c.note("%llu", (unsigned long long)v);
	mock.track = true; mock.on = true;
	char *h = humansize(v);
	mock.on = false;
	CHECK(h, "no result");
	std::string got = h, want = hs_ref(v);
	free(h);
	CHECK(got == want, "\"%s\", expected \"%s\"", got.c_str(), want.c_str());
	if (v >= 1000) c.nontrivial();
	c.tag(got.size() > 2 ? got.substr(got.size() - 2).c_str() : "B");
}
static void humansize_parse_(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string t;
	static const char al[] = "0123456789 kMGTPEBbKmgtpei.-+x\t\n,_";
	switch (s.draw(4)) {
	case 0: case 1: {
		static const char *sf[] = { "", "k", "M", "G", "T", "P", "E" };
		unsigned u = s.draw(6); u128 mult = 1; for (unsigned i = 0; i < u; i++) mult *= 1000;
		u128 v = s.draw(1) ? s.value64() : (~0ULL / mult) + s.draw(4) - 2;
		if (s.chance(1, 8)) v = (u128)~0ULL * s.range(1, 12) + s.draw(20) - 10;
		if (s.chance(1, 2) && mult > 1) v = v % ((~0ULL / mult) + 3);
		t = std::string(s.chance(1, 6) ? s.draw(30) : 0, '0') + dec(v) + (s.draw(1) ? " " : "") + sf[u] + (s.draw(1) ? "B" : "");
		if (s.chance(1, 3)) { size_t p = s.draw(t.size()); char ch = al[s.draw(sizeof al - 2)]; if (s.draw(1) && p < t.size()) t[p] = ch; else t.insert(p, 1, ch); }
		break; }
	case 2: for (uint64_t n = s.draw(8); n; n--) t += al[s.draw(sizeof al - 2)]; break;
	case 3: { Bytes b = s.literal(8); for (auto x : b) if (x) t += (char)x; break; }
	default: t = std::string(s.size(60), '9') + (s.draw(1) ? "E" : ""); break;
	}
	u128 w; bool ok = hp_ref(t, w);
	c.note("\"%s\"", t.c_str());
	uint64_t got = 0x5555;
	std::unique_ptr<char[]> z(new char[t.size() + 1]); memcpy(z.get(), t.c_str(), t.size() + 1);
	int rc = humansize_parse(z.get(), &got);
	CHECK((rc == 0) == ok, "%s, expected %s", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection");
	if (ok) { CHECK(got == (uint64_t)w, "parsed as %llu, expected %llu", (unsigned long long)got, (unsigned long long)w); c.nontrivial(); }
	c.tag(ok ? "accepted" : "rejected");
}
// All strings up to length 5 over the interesting characters.
static const char HPA[] = "019 kMEBGTPb.";
static const uint64_t HPN = 13 * 13 * 13;	// prefixes; suffixes inside
static void humansize_grid(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	std::string pre;
	for (int k = 0; k < 3; k++) { pre += HPA[i % 13]; i /= 13; }
	c.note("all strings starting with \"%s\" (and its prefixes) up to length 5", pre.c_str());
	auto one = [&](const std::string &t) {
		u128 w; bool ok = hp_ref(t, w); uint64_t got = 7;
		int rc = humansize_parse(t.c_str(), &got);
		CHECK((rc == 0) == ok, "\"%s\" %s", t.c_str(), rc ? "rejected" : "accepted");
		if (ok) CHECK(got == (uint64_t)w, "\"%s\" parsed as %llu", t.c_str(), (unsigned long long)got);
	};
	for (int k = 0; k <= 3; k++) one(pre.substr(0, k));
	for (int a = 0; a < 13; a++) { one(pre + HPA[a]); for (int b = 0; b < 13; b++) one(pre + HPA[a] + HPA[b]); }
	c.nontrivial();
}
// ---------------------------------------------------------------- C20 numbers (the parser is a C macro: see parsenum_c.c)
extern "C" {
int pn_int(const char *, int, int, int *);
int pn_u32(const char *, uint32_t, uint32_t, uint32_t *);
int pn_size(const char *, size_t, size_t, size_t *);
int pn_u64(const char *, uint64_t *);
int pn_double(const char *, double, double, double *);
int pn_double_any(const char *, double *);
}
static void parsenum_int(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string t = num_string(s, s.chance(1, 6));
	bool neg; u128 v; bool num = int_ref(t, neg, v);
	__int128 x = v > ((u128)1 << 90) ? (__int128)1 << 90 : (__int128)v; if (neg) x = -x;
	int kind = s.draw(3);
	int rc; bool ok; __int128 got;
	if (kind == 0) {
		int lo = (int)s.value64(), hi = (int)s.value64(); if (s.draw(1)) { lo = 10; hi = 40; } if (lo > hi) std::swap(lo, hi);
		if (num && s.chance(1, 3) && x < 2000000000 && x > -2000000000) { if (s.draw(1)) { lo = (int)x + s.draw(1); hi = std::max(lo, hi); } else { hi = (int)x - s.draw(1); lo = std::min(lo, hi); } }
		c.note("int in [%d, %d] from \"%s\"", lo, hi, t.c_str());
		int r = 0; rc = pn_int(t.c_str(), lo, hi, &r); got = r; ok = num && x >= lo && x <= hi;
	} else if (kind == 1) {
		uint32_t lo = (uint32_t)s.value64(), hi = (uint32_t)s.value64(); if (s.draw(1)) { lo = 1; hi = 2048; } if (lo > hi) std::swap(lo, hi);
		if (num && s.chance(1, 3) && x <= 0xfffffff0 && x > 0) { if (s.draw(1)) { lo = (uint32_t)x + s.draw(1); hi = std::max(lo, hi); } else { hi = (uint32_t)x - s.draw(1); lo = std::min(lo, hi); } }
		c.note("uint32 in [%u, %u] from \"%s\"", lo, hi, t.c_str());
		uint32_t r = 0; rc = pn_u32(t.c_str(), lo, hi, &r); got = r; ok = num && x >= (__int128)lo && x <= (__int128)hi;
	} else if (kind == 2) {
		size_t lo = s.value64(), hi = s.value64(); if (lo > hi) std::swap(lo, hi);
		c.note("size_t in [%zu, %zu] from \"%s\"", lo, hi, t.c_str());
		size_t r = 0; rc = pn_size(t.c_str(), lo, hi, &r); got = r; ok = num && x >= (__int128)lo && x <= (__int128)hi;
	} else {
		c.note("uint64 from \"%s\"", t.c_str());
		uint64_t r = 0; rc = pn_u64(t.c_str(), &r); got = r; ok = num && x >= 0 && x <= (__int128)~0ULL;
	}
	CHECK((rc == 0) == ok, "%s, expected %s", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection");
	if (ok) { CHECK(got == x, "value is %lld", (long long)got); c.nontrivial(); }
	else CHECK(errno == EINVAL || errno == ERANGE, "errno %d after rejection", errno);
	c.tag(ok ? "accepted" : "rejected");
}
static void parsenum_double(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string t = num_string(s, true);
	double lo = s.draw(1) ? 0 : (double)s.draw(100) / 8, hi = s.pick<double>({ 0.5, INFINITY, 300, 1e6 });
	if (lo > hi) lo = 0;
	bool any = s.chance(1, 4);
	if (any) { lo = -INFINITY; hi = INFINITY; }
	char *e; errno = 0; double v = strtod(t.c_str(), &e);
	bool ok = *e == 0 && e != t.c_str() && errno == 0 && v >= lo && v <= hi;
	if (errno == ERANGE && v == HUGE_VAL && hi == INFINITY) { pt::Discard d; throw d; }	// 1e999: either reading is fine
	if (any) c.note("double from \"%s\"", t.c_str()); else c.note("double in [%g, %g] from \"%s\"", lo, hi, t.c_str());
	double r = 0; int rc = any ? pn_double_any(t.c_str(), &r) : pn_double(t.c_str(), lo, hi, &r);
	CHECK((rc == 0) == ok, "%s, expected %s", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection");
	if (ok) { CHECK(r == v, "value is %.17g, expected %.17g", r, v); c.nontrivial(); }
	c.tag(ok ? "accepted" : "rejected");
}
// ---------------------------------------------------------------- C23
static void cpuperf(pt::Ctx &c)
{
	pt::Src &s = c.s;
	mock.clk = true; mock.kdf_virtual = true; mock.kdf_mode = 1;
	// ns per core = num/den
	uint64_t num = s.range(1, 1000), den = s.pick<uint64_t>({ 1, 8, 64 });
	if (s.chance(1, 4)) num *= 1000;
	mock.clk_ns_per_core_num = num; mock.clk_ns_per_core_den = den;
	double t = (double)num / den;			// ns per core
	static const uint64_t ticks[] = { 1, 1000, 10000, 1000000, 1000000, 10000000, 100000000, 1000000000 };
	uint64_t tick = ticks[s.draw(7)];
	mock.clk_tick = tick;
	mock.clk_res = tick;
	if (s.chance(1, 6)) { static const uint64_t cr[] = { 1, 2000000, 15625000, 1500000000 }; mock.clk_res = cr[s.draw(3)]; }	// an upper limit may be loose
	if (mock.clk_res < tick && tick > 1) mock.clk_res = tick;
	uint64_t it = (uint64_t)(512 * t) + 1;
	if (std::max(mock.clk_res, tick) / it > 100000) { mock.clk_res = tick = mock.clk_tick = 1000000; if (tick / it > 100000) { mock.clk_res = tick = mock.clk_tick = 1000; } }
	mock.clk_now = s.chance(1, 2) ? s.range(1, 5) * 1000000000ULL - s.draw(3000000) : s.draw(1ULL << 60);
	mock.clk_step = s.chance(1, 2) ? 0 : s.draw(2000);
	mock.clk_calls_left = 3000000;
	mock.clk_real_offset = s.draw(1) ? s.draw(1ULL << 60) : 0;
	int e = 0;
	switch (s.draw(9)) {
	case 0: e = mock.clk_mono_errno = EINVAL; break;
	case 1: e = mock.clk_mono_errno = ENOSYS; break;
	case 2: e = mock.clk_mono_errno = s.pick<int>({ EPERM, EFAULT, EIO }); break;
	case 3: mock.clk_mono_errno = s.draw(1) ? EINVAL : ENOSYS; e = mock.clk_real_errno = s.pick<int>({ EINVAL, EPERM, ENOSYS }); break;
	case 4:	// one later reading fails
		mock.fail_at = { (long)s.draw(s.draw(1) ? 6 : 300) }; mock.fail_errno = { s.pick<int>({ EPERM, EFAULT, EIO }) };
		break;
	default: break;
	}
	c.note("%g ns per core, resolution %llu ns, ticks of %llu ns, start %llu, %llu ns per clock call, errno mono %d real %d, reading %ld fails",
	    t, (unsigned long long)mock.clk_res, (unsigned long long)tick, (unsigned long long)mock.clk_now, (unsigned long long)mock.clk_step, mock.clk_mono_errno, mock.clk_real_errno, mock.fail_at.empty() ? -1 : mock.fail_at[0]);
	double got = -1;
	CapErr ce;
	mock.on = true;
	int rc = scryptenc_cpuperf(&got);
	mock.on = false;
	std::string err = ce.end();
	bool unsup = mock.clk_mono_errno == EINVAL || mock.clk_mono_errno == ENOSYS;
	if (!mock.failed_kinds.empty()) e = mock.fail_errno[0];
	bool fail = !mock.failed_kinds.empty() || mock.clk_mono_errno && (!unsup || mock.clk_real_errno);
	if (fail) { CHECK(rc == SCRYPT_ECLOCK, "code %d although the clock fails with errno %d", rc, e); c.tag("clock error"); c.nontrivial(); return; }
	CHECK(rc == 0, "code %d", rc);
	if (!mock.clk_mono_errno) CHECK(mock.clk_real_calls == 0, "the real-time clock is used although the monotonic clock works");
	double st = (double)mock.clk_step;
	double g = (double)std::max<uint64_t>(tick, 1000);		// what the clock can show
	double W = 512 * t + 8 * st + 2;				// one measuring step
	double D = std::max(std::max((double)mock.clk_res, g), 512 * t - g);	// shortest possible measured interval
	// Measuring starts at a tick and ends at a tick: the interval is off by at
	// most one step (and never by more than the granularity).
	double err_ = std::min(g, W + 64 * t + 8 * st + 2) / D + 1e-9;
	double hi = 512 / (512 * t), lo = 512 / (512 * t + 8 * st + 1);
	hi *= 1e9 * (1 + err_ * 1.0 / std::max(1e-3, 1 - std::min(err_, 0.999))); lo *= 1e9 / (1 + err_);
	if (err_ >= 1) hi = INFINITY;
	CHECK(got >= lo * 0.999999 && got <= hi * 1.000001, "%.6g cores per second, expected %.6g..%.6g", got, lo, hi);
	CHECK(mock.kdf_cores * t >= mock.clk_res * 0.999 || st, "measured for less than one clock resolution");
	if (err_ < 0.2) c.nontrivial();
	c.tag(err_ < 0.02 ? "within 2%" : err_ < 0.2 ? "within 20%" : "coarse");
	if (unsup) c.tag("real-time fallback");
}
static void timediff(pt::Ctx &c)
{
	pt::Src &s = c.s;
	struct timeval a, b;
	a.tv_sec = s.draw(1ULL << 33); a.tv_usec = s.draw(999999);
	b.tv_sec = a.tv_sec + s.draw(s.draw(1) ? 3 : 1000000); b.tv_usec = s.draw(999999);
	c.note("%lld.%06d to %lld.%06d", (long long)a.tv_sec, (int)a.tv_usec, (long long)b.tv_sec, (int)b.tv_usec);
	double d = timeval_diff(a, b);
	double w = (double)(((__int128)b.tv_sec - a.tv_sec) * 1000000 + b.tv_usec - a.tv_usec) / 1e6;
	CHECK(fabs(d - w) <= 1e-9 + fabs(w) * 1e-12, "difference %.9f, expected %.9f", d, w);
	mock.clk = true; mock.clk_now = s.draw(1ULL << 62); mock.clk_tick = 1;
	struct timeval tv;
	mock.on = true; int rc = monoclock_get(&tv); mock.on = false;
	CHECK(rc == 0 && tv.tv_sec == (time_t)(mock.clk_now / 1000000000ULL) && tv.tv_usec == (long)(mock.clk_now % 1000000000ULL / 1000), "clock %llu ns read as %lld.%06ld", (unsigned long long)mock.clk_now, (long long)tv.tv_sec, (long)tv.tv_usec);
	mock.clk_res = s.value64() >> s.draw(40); double r;
	mock.on = true; rc = monoclock_getres(&r); mock.on = false;
	CHECK(rc == 0 && fabs(r - (double)mock.clk_res * 1e-9) <= (double)mock.clk_res * 1e-9 * 1e-9 + 1e-15, "resolution %llu ns read as %g", (unsigned long long)mock.clk_res, r);
	c.nontrivial();
}
// ---------------------------------------------------------------- C24
static std::string name_string(pt::Src &s)
{
	std::string t;
	switch (s.draw(4)) {
	case 0: return "scrypt";
	case 1: { Bytes b = s.literal(20); for (auto x : b) if (x) t += (char)x; return t; }
	case 2: { t = s.pick<const char *>({ "%s%n", "/usr/bin/scrypt", "a/b/", "%d %x %s", "./x y", "//", "\xff\xfe", "a: b" }); return t; }
	case 3: return std::string(s.size(9000), 'n');
	default: { for (uint64_t n = s.draw(5); n; n--) { t += "/"; t += std::string(s.draw(6), 'a' + (char)s.draw(3)); } return t; }
	}
}
static const struct { int code; const char *msg; bool sys; } msgs[] = {
	{ SCRYPT_ELIMIT, "Error determining amount of available memory", true },
	{ SCRYPT_ECLOCK, "Error reading clocks", true }, { SCRYPT_EKEY, "Error computing derived key", true },
	{ SCRYPT_ESALT, "Error reading salt", true }, { SCRYPT_EOPENSSL, "OpenSSL error", true },
	{ SCRYPT_ENOMEM, "Error allocating memory", true }, { SCRYPT_EINVAL, "Input is not valid scrypt-encrypted block", false },
	{ SCRYPT_EVERSION, "Unrecognized scrypt format version", false }, { SCRYPT_ETOOBIG, "Decrypting file would require too much memory", false },
	{ SCRYPT_ETOOSLOW, "Decrypting file would take too much CPU time", false },
	{ SCRYPT_EBIGSLOW, "Decrypting file would require too much memory and CPU time", false },
	{ SCRYPT_EPASS, "Passphrase is incorrect", false }, { SCRYPT_EWRFILE, "Error writing file: ", true },
	{ SCRYPT_ERDFILE, "Error reading file: ", true }, { SCRYPT_EPARAM, "Error in explicit parameters", false },
};
static void print_error(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string name = name_string(s), in = name_string(s), out = name_string(s);
	bool hi = s.draw(1), ho = s.draw(1), seq = s.chance(1, 3);
	if (seq) warnp_setprogname("an earlier name");
	warnp_setprogname(name.c_str());
	size_t k = name.rfind('/'); std::string base = k == std::string::npos ? name : name.substr(k + 1);
	auto &m = msgs[s.draw(sizeof msgs / sizeof *msgs - 1)];
	int en = s.pick<int>({ 0, ENOSPC, EIO, ENOMEM, ENOENT, EINVAL, 9999 });
	c.note("code %d, errno %d, name %zu bytes, files %s %s", m.code, en, name.size(), hi ? "in" : "-", ho ? "out" : "-");
	std::string want = base + ": " + m.msg;
	if (m.code == SCRYPT_EWRFILE) want += ho ? out : "standard output";
	if (m.code == SCRYPT_ERDFILE) want += hi ? in : "standard input";
	if (m.sys && en) want += std::string(": ") + strerror(en);
	want += "\n";
	NoisyErr ce(s.pick<int>({ ENOTTY, EBADF, EAGAIN }), false, s.draw(2) ? _IONBF : _IOLBF);
	errno = en;
	scryptenc_print_error(m.code, hi ? in.c_str() : nullptr, ho ? out.c_str() : nullptr);
	std::string got = ce.end();
	CHECK(got == want, "printed \"%s\", expected \"%s\"", got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
	c.nontrivial();
}
static void warn_any(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string name = name_string(s), arg = name_string(s);
	warnp_setprogname(name.c_str());
	size_t k = name.rfind('/'); std::string base = k == std::string::npos ? name : name.substr(k + 1);
	int en = s.pick<int>({ 0, ENOSPC, EINTR, 4242 }), style = s.draw(3), num = (int)s.value64();
	c.note("style %d errno %d argument %zu bytes", style, en, arg.size());
	char nb[40]; snprintf(nb, sizeof nb, "%d", num);
	std::string want = base + (style == 3 ? "" : ": ");
	if (style < 2) want += "x " + arg + " y " + nb;
	if (style == 2) want += std::string("literal 100% of it");
	bool sys = style == 0 || style == 3;
	if (sys) want += std::string(": ") + strerror(en);
	want += "\n";
	NoisyErr ce(s.pick<int>({ ENOTTY, EBADF, EAGAIN }), s.chance(1, 6), s.draw(2) ? _IONBF : _IOLBF);
	errno = en;
	if (style == 0) warn("x %s y %d", arg.c_str(), num);
	else if (style == 1) warnx("x %s y %d", arg.c_str(), num);
	else if (style == 2) warnx("literal 100%% of it");
	else warn(NULL);
	int e2 = errno;
	std::string got = ce.end();
	CHECK(e2 == en, "errno changed from %d to %d", en, e2);
	if (ce.fail) c.tag("stderr fails");
	else CHECK(got == want, "printed \"%s\", expected \"%s\"", got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
	c.nontrivial();
}
// Histories of messages with the system log switched on and off.
static void warn_syslog(pt::Ctx &c)
{
	pt::Src &s = c.s;
	mock.log = true; mock.log_errno = s.pick<int>({ ENOTTY, EBADF, EAGAIN });
	static const int pris[] = { LOG_WARNING, LOG_ERR, LOG_INFO, LOG_DEBUG, LOG_EMERG };
	warnp_setprogname("p");
	warnp_syslog(0); warnp_syslog_priority(LOG_WARNING);
	mock.log_closed = 0;
	bool on = false; int pri = LOG_WARNING;
	std::vector<std::pair<int, std::string>> wlog; std::string werr;
	NoisyErr ce(mock.log_errno, false, s.draw(2) ? _IONBF : _IOLBF);
	for (uint64_t n = 1 + s.draw(7); n; n--) {
		int op = s.draw(6), en = s.pick<int>({ 0, ENOSPC, EINTR, 4242 });
		std::string arg = s.chance(1, 3) ? std::string(s.range(4085, 4100), 'a' + s.draw(3)) : name_string(s);
		errno = en;
		if (op == 0) { on = s.draw(2) != 0; errno = en; warnp_syslog(on ? 1 + s.draw(1) : 0); c.note("log %s;", on ? "on" : "off"); continue; }
		if (op == 1) { pri = pris[s.draw(4)]; warnp_syslog_priority(pri); c.note("priority %d;", pri); continue; }
		bool sys = op & 1, null = op == 6;
		std::string m = null ? "" : "x " + arg;
		if (null) { sys = s.draw(1); errno = en; if (sys) warn(NULL); else warnx(NULL); }
		else { errno = en; if (sys) warn("x %s", arg.c_str()); else warnx("x %s", arg.c_str()); }
		CHECK(errno == en, "errno changed from %d to %d", en, errno);
		std::string e = sys ? strerror(en) : "";
		c.note("%s(%zu bytes) errno %d;", sys ? "warn" : "warnx", m.size(), en);
		if (on) { if (m.size() > WARNP_SYSLOG_MAX_LINE) m.resize(WARNP_SYSLOG_MAX_LINE); wlog.push_back({ pri, m + (sys && !null ? ": " : "") + e + "\n" }); }
		else werr += std::string("p") + (null ? "" : ": " + m) + (sys ? ": " + e : "") + "\n";
	}
	std::string got = ce.end();
	CHECK(got == werr, "printed \"%s\", expected \"%s\"", got.substr(0, 300).c_str(), werr.substr(0, 300).c_str());
	CHECK(mock.logged.size() == wlog.size(), "%zu messages logged, expected %zu", mock.logged.size(), wlog.size());
	for (size_t i = 0; i < wlog.size(); i++) {
		// whether a line ends in a newline makes no difference to the log
		for (auto *t : { &wlog[i].second, &mock.logged[i].second }) while (!t->empty() && t->back() == '\n') t->pop_back();
		CHECK(mock.logged[i].first == wlog[i].first, "logged with priority %d instead of %d", mock.logged[i].first, wlog[i].first);
		CHECK(mock.logged[i].second == wlog[i].second, "logged \"%s\" (%zu bytes), expected \"%s\" (%zu bytes)", mock.logged[i].second.substr(0, 200).c_str(), mock.logged[i].second.size(), wlog[i].second.substr(0, 200).c_str(), wlog[i].second.size());
	}
	if (!wlog.empty()) c.nontrivial();
	warnp_syslog(0); warnp_syslog_priority(LOG_WARNING);
	mock.log = false;
}
// ---------------------------------------------------------------- passphrases without a terminal
static Bytes line_bytes(pt::Src &s, size_t n)
{
	Bytes b(n); pt::Rng r{ s.draw(0xffff) };
	bool any = s.draw(1);
	for (auto &x : b) { do x = (uint8_t)r.next(); while (x == 0 || x == '\n' || x == '\r'); if (!any) x = 'a' + x % 26; }
	return b;
}
static size_t line_len(pt::Src &s) { switch (s.draw(2)) { case 0: return s.draw(40); case 1: return s.range(2040, 2055); default: return s.size(2300); } }
static std::string mfile()	// a private temporary file
{
	static std::string p;
	if (p.empty()) { char t[] = "/tmp/ptos-XXXXXX"; int fd = mkstemp(t); if (fd >= 0) close(fd); p = t; }
	return p;
}
extern "C" void __wrap_free(void *);
static void check_wiped(const std::string &st, const std::vector<Bytes> &pws, int rc)
{
	scan::Finder F;
	for (auto &p : pws) F.add(std::string(p.begin(), p.end()), "the passphrase");
	std::string f = F.find(st);
	PCHECK("C19", f.empty(), "%s left on the dead stack after code %d", f.c_str(), rc);
	for (auto &b : mock.freed) { f = F.find(b); PCHECK("C19", f.empty(), "%s left in a freed block after code %d", f.c_str(), rc); }
	f = F.find_static();
	PCHECK("C19", f.empty(), "%s left in a static variable after code %d", f.c_str(), rc);
}
static void passfile(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int shape = s.draw(6);
	Bytes line = line_bytes(s, line_len(s)), f = line;
	static const char *sn[] = { "no newline", "\\n", "\\r\\n", "second line", "second empty line", "empty file", "missing" };
	if (shape == 1) f.push_back('\n');
	if (shape == 2) { f.push_back('\r'); f.push_back('\n'); }
	if (shape == 3) { f.push_back('\n'); Bytes l2 = line_bytes(s, 1 + s.draw(20)); f.insert(f.end(), l2.begin(), l2.end()); }
	if (shape == 4) { f.push_back('\n'); f.push_back('\n'); }
	if (shape == 5) { f.clear(); line.clear(); }
	bool ok = shape <= 2 ? f.size() < 2048 : shape == 5;
	int fault = s.chance(1, 4) ? (int)s.draw(4) : -1;
	long rerr = -1;
	if (fault < 0 && shape != 6 && s.chance(1, 3)) { rerr = s.draw(2) ? (long)s.draw(f.size()) : (long)f.size(); ok = false; }
	bool entry = s.draw(1);
	c.note("file with %zu-byte line, %s%s; call %d fails, read error at %ld", line.size(), sn[shape], entry ? " (file: method)" : "", fault, rerr);
	std::string path = shape == 6 ? "/nonexistent-dir/x" : mfile();
	if (shape != 6) { FILE *w = fopen(path.c_str(), "wb"); if (!f.empty()) fwrite(f.data(), 1, f.size(), w); fclose(w); }
	mock.track = true; mock.keep_freed = true;
	if (fault >= 0) { mock.fail_at = { fault }; mock.fail_errno = { 0 }; }
	SrcIO si; si.d = &f; si.err_at = rerr;
	if (rerr >= 0) mock.rd_err_at = rerr;	// however the file is read
	if (rerr >= 0) mock.fopen_hook = [&](const char *, const char *) { return open_src(&si, 0, 0); };
	char *pw = (char *)0x1; int rc = -9;
	CapErr ce;
	std::string st = scan::on_stack([&] { deep([&] {
		mock.on = true;
		rc = entry ? passphrase_entry_readpass(&pw, PASSPHRASE_FILE, path.c_str(), "a", "b", (int)0) : readpass_file(&pw, path.c_str());
		mock.on = false;
	}); });
	std::string err = ce.end();
	unlink(mfile().c_str());
	bool failed = !mock.failed_kinds.empty();
	if (failed) PCHECK("C15 C17", rc != 0, "success although %s failed", kind_name[mock.failed_kinds[0]]);
	else if (rerr >= 0 && !si.erred && !mock.rd_erred) {}	// the error was not met
	else PCHECK("C17", (rc == 0) == ok, "%s, expected %s", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection");
	if (rc) PCHECK("C17 C24", !err.empty(), "no message");
	Bytes got;
	if (rc == 0) {
		got.assign(pw, pw + strlen(pw));
		PCHECK("C17", got == line, "passphrase is %zu bytes %s, expected %zu bytes", got.size(), pt::hex(got).c_str(), line.size());
	}
	check_wiped(st, { line }, rc);
	if (rc == 0) { insecure_memzero(pw, strlen(pw)); mock.on = true; __wrap_free(pw); }
	mock.on = false;
	PCHECK("C15", mock_leaks().empty(), "%s", mock_leaks().c_str());
	if (!line.empty() || !ok) c.nontrivial();
	c.tag(failed ? "fault" : rc ? "rejected" : "accepted");
}
static void passpipe(pt::Ctx &c)	// default and stdin methods reading a pipe
{
	pt::Src &s = c.s;
	Bytes in; std::vector<Bytes> lines;
	unsigned n = s.draw(6);
	bool lastnl = s.chance(4, 5); int crlf = s.draw(3) == 0;
	Bytes base = line_bytes(s, s.draw(2046));
	for (unsigned i = 0; i < n; i++) {
		Bytes l = base;
		switch (s.draw(3)) { case 0: case 1: break; case 2: l = line_bytes(s, s.draw(60)); break; default: l.resize(s.draw(l.size())); }
		if (l.size() > 2045) l.resize(2045);
		lines.push_back(l);
		in.insert(in.end(), l.begin(), l.end());
		if (i + 1 < n || lastnl) { if (crlf) in.push_back('\r'); in.push_back('\n'); }
	}
	if (n && !lastnl && lines.back().empty()) { n--; lines.pop_back(); lastnl = true; }
	Bytes tail = s.draw(1) ? s.bytes(s.size(9000)) : Bytes();
	if (n && !lastnl) tail.clear();
	in.insert(in.end(), tail.begin(), tail.end());
	bool once = s.draw(1);
	int meth = s.draw(1) ? 0 : 1;	// stdin-once / tty-stdin with no tty
	bool confirm = meth == 1 && !once;
	std::vector<uint32_t> chunks; for (uint64_t k = s.draw(3); k; k--) chunks.push_back(s.range(1, 5000));
	long rerr = s.chance(1, 6) ? (long)s.draw(in.size()) : -1;
	// expected outcome
	size_t used = 0; bool ok = false; Bytes want; unsigned mism = 0;
	std::vector<std::pair<Bytes, size_t>> L; { size_t off = 0; for (unsigned i = 0; i < n; i++) { off += lines[i].size() + ((i + 1 < n || lastnl) ? 1 + crlf : 0); L.push_back({ lines[i], off }); } }
	// (lines of the tail are only reached when the entries do not agree)
	bool undetermined = false;
	if (!confirm) { if (n) { ok = true; want = L[0].first; used = L[0].second; } else if (!tail.empty()) undetermined = true; }
	else {
		unsigned i = 0;
		for (; i + 1 < n; i += 2) { if (L[i].first == L[i + 1].first && (lastnl || i + 2 < n)) { ok = true; want = L[i].first; used = L[i + 1].second; break; } if (L[i].first == L[i + 1].first) { undetermined = true; break; } mism++; }
		if (!ok && !tail.empty()) undetermined = true;
	}
	if (rerr >= 0 && ((size_t)rerr < used || ((size_t)rerr == used && n && !lastnl && used == in.size()))) ok = false;
	if (undetermined) throw pt::Discard();
	c.note("%s, %u lines (%s), %zu more bytes, %s, read error at %ld", meth ? "dev:tty-stdin" : "dev:stdin-once", n, crlf ? "CRLF" : "LF", tail.size(), once ? "decrypting" : "encrypting", rerr);
	SrcIO si; si.d = &in; si.chunks = chunks; si.err_at = rerr;
	FILE *f = open_src(&si, 0, 4096), *old = stdin;
	mock.track = true; mock.keep_freed = true;
	mock.no_tty = true;
	char *pw = nullptr; int rc = -9;
	CapErr ce;
	stdin = f;
	std::string st = scan::on_stack([&] { deep([&] {
		mock.on = true;
		rc = passphrase_entry_readpass(&pw, meth ? PASSPHRASE_TTY_STDIN : PASSPHRASE_STDIN_ONCE, "", "Prompt", "Confirm", once);
		mock.on = false;
	}); });
	std::string err = ce.end();
	stdin = old;
	PCHECK("C17", (rc == 0) == ok, "%s, expected %s (%s)", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection", err.c_str());
	PCHECK("C17", err.find("Prompt") == std::string::npos && err.find("Confirm") == std::string::npos, "prompt printed without a terminal");
	if (rc) PCHECK("C17 C24", !err.empty(), "no message");
	if (ok) {
		PCHECK("C17", strlen(pw) == want.size() && !memcmp(pw, want.data(), want.size()), "passphrase of %zu bytes, expected %zu bytes", strlen(pw), want.size());
		// what follows is still there for the caller
		if (rerr < 0) {
			Bytes rest; int ch; while ((ch = fgetc(f)) != EOF) rest.push_back((uint8_t)ch);
			PCHECK("C17", rest == Bytes(in.begin() + used, in.end()), "%zu bytes left to read, expected %zu", rest.size(), in.size() - used);
		}
		insecure_memzero(pw, strlen(pw)); mock.on = true; __wrap_free(pw); mock.on = false;
		c.nontrivial();
	}
	fclose(f);
	check_wiped(st, lines, rc);
	PCHECK("C15", mock_leaks().empty(), "%s", mock_leaks().c_str());
	c.tag(ok ? mism ? "after mismatch" : "accepted" : "rejected");
}
static void passenv(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes v; { Bytes b = s.chance(1, 2) ? s.literal(30) : s.bytes(s.size(6000)); for (auto x : b) if (x) v.push_back(x); }
	bool set = s.chance(4, 5);
	int fault = s.chance(1, 6) ? 0 : -1;
	std::string var = s.pick<const char *>({ "PT_PASS", "X", "A:B", "PT PASS", "" });
	std::string val(v.begin(), v.end());
	if (var.empty()) set = false; else if (set) setenv(var.c_str(), val.c_str(), 1); else unsetenv(var.c_str());
	c.note("env:%s %s %zu bytes fault %d", var.c_str(), set ? "set to" : "unset", v.size(), fault);
	mock.track = true; mock.keep_freed = true;
	if (fault >= 0) { mock.fail_at = { fault }; mock.fail_errno = { 0 }; }
	std::string arg = "env:" + var;
	enum passphrase_entry e; const char *pa;
	int rp = passphrase_entry_parse(arg.c_str(), &e, &pa);
	PCHECK("C17", rp == 0 && e == PASSPHRASE_ENV && var == pa, "env:%s not parsed", var.c_str());
	char *pw = nullptr;
	CapErr ce;
	mock.on = true;
	int rc = passphrase_entry_readpass(&pw, e, pa, "p", "c", (int)s.draw(1));
	mock.on = false;
	std::string err = ce.end();
	bool ok = set && mock.failed_kinds.empty();
	if (!var.empty()) unsetenv(var.c_str());
	PCHECK("C17", (rc == 0) == ok, "code %d, expected %s", rc, ok ? "success" : "failure");
	if (ok) { PCHECK("C17", val == pw, "passphrase differs from the variable"); free(pw); mock.live.clear(); }
	else PCHECK("C17 C24", !err.empty(), "no message");
	PCHECK("C15", mock_leaks().empty(), "%s", mock_leaks().c_str());
	c.nontrivial();
}
static void passmethod(pt::Ctx &c)	// which method strings are accepted
{
	pt::Src &s = c.s;
	std::string t = s.pick<const char *>({ "dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "env:X", "file:x", "dev:", "env:", "file:", "env", "" });
	if (s.chance(1, 3) && t.size() && t.back() != 'n' && t.back() != 'e') t += name_string(s);
	if (s.draw(1)) { size_t p = s.draw(t.size()); switch (s.draw(3)) { case 0: t.insert(p, 1, (char)s.range(1, 127)); break; case 1: if (p < t.size()) t.erase(p, 1 + s.draw(3)); break; case 2: if (p < t.size()) t[p] = (char)toupper(t[p]); break; default: t += s.pick<const char *>({ ":", "x", " ", ":y", "/z" }); } }
	c.note("\"%s\"", t.c_str());
	enum passphrase_entry e = PASSPHRASE_UNSET; const char *a = nullptr; int want = -1;
	if (t == "dev:tty-stdin") want = PASSPHRASE_TTY_STDIN; else if (t == "dev:stdin-once") want = PASSPHRASE_STDIN_ONCE; else if (t == "dev:tty-once") want = PASSPHRASE_TTY_ONCE;
	else if (t.compare(0, 4, "env:") == 0) want = PASSPHRASE_ENV; else if (t.compare(0, 5, "file:") == 0) want = PASSPHRASE_FILE;
	CapErr ce;
	int rc = passphrase_entry_parse(t.c_str(), &e, &a);
	std::string err = ce.end();
	CHECK((rc == 0) == (want >= 0), "%s", rc ? "rejected" : "accepted");
	if (want >= 0) { CHECK((int)e == want, "taken as method %d, expected %d", (int)e, want); CHECK(t.substr(t.find(':') + 1) == a, "argument \"%s\"", a); c.nontrivial(); }
	else CHECK(err.find(t) != std::string::npos, "message does not name the option: %s", err.c_str());
}
std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	auto add = [&](const char *n, std::function<void(pt::Ctx &)> f, const char *rule, uint64_t en = 0, bool fe = false) {
		pt::Target t{ n, f, rule }; t.enum_n = en; t.fork_each = fe; v.push_back(t); };
	add("memtouse", memtouse_, "the allowance is above its minimum, or a query failed");
	add("drbg", drbg, "random bytes were returned", 0, true);
	add("drbg_hw", drbg_hw, "every case", 0, true);
	add("humansize", humansize_, "at least 1000");
	add("humansize_parse", humansize_parse_, "the string is a size");
	add("humansize_grid", humansize_grid, "every case (17x11 strings each)", HPN);
	add("parsenum_int", parsenum_int, "the string is a number in range");
	add("parsenum_double", parsenum_double, "the string is a number in range");
	add("cpuperf", cpuperf, "the clock allows an estimate within 20%, or fails");
	add("timediff", timediff, "every case");
	add("print_error", print_error, "every case");
	add("warn_any", warn_any, "every case");
	add("warn_syslog", warn_syslog, "something was logged");
	add("passfile", passfile, "not a plain empty file");
	add("passpipe", passpipe, "a passphrase was accepted");
	add("passenv", passenv, "every case");
	add("passmethod", passmethod, "a valid method");
	return v;
}
