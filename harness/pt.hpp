// Small property-testing engine: integrated shrinking over recorded choice
// sequences, forked execution (crashes, sanitizer reports and hangs are
// failures like any other), enumeration targets, libFuzzer entry point.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
typedef std::vector<uint8_t> Bytes;

namespace pt {
struct Fail { std::string msg; };
struct Discard {};

inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL; return mix(h); }

struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } };

extern std::vector<uint64_t> mined;	// integer constants found in the tree
extern uint64_t g_seed;

class Src {
public:
	enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
	Rng rng{0};
	std::vector<uint64_t> in;	// replay
	size_t pos = 0;
	const uint8_t *data = nullptr; size_t len = 0;	// bytes mode
	std::vector<uint64_t> rec;
	volatile uint64_t *shm = nullptr; volatile uint64_t *shm_n = nullptr; size_t shm_cap = 0;
	uint64_t index = 0;		// for enumeration targets
	// A value in [0, max]; smaller is simpler.
	uint64_t draw(uint64_t max) {
		uint64_t v = 0;
		if (mode == RANDOM) v = max == ~0ULL ? rng.next() : (uint64_t)(((unsigned __int128)rng.next() * (max + 1)) >> 64);
		else if (mode == REPLAY) { v = pos < in.size() ? in[pos] : 0; pos++; if (v > max) v = max; }
		else {
			int nb = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffULL ? 4 : 8;
			for (int i = 0; i < nb && len; i++) { v |= (uint64_t)*data << (8 * i); data++; len--; }
			if (max != ~0ULL) v %= max + 1;
		}
		rec.push_back(v);
		if (shm && rec.size() <= shm_cap) { shm[rec.size() - 1] = v; *shm_n = rec.size(); }
		return v;
	}
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
	// True with probability n/d; false is simpler.
	bool chance(unsigned n, unsigned d) { return draw(d - 1) >= d - n; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
	template <class T> const T &of(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
	// Sizes biased to block boundaries, round numbers and constants in the tree.
	uint64_t size(uint64_t max) {
		static const uint64_t edge[] = { 0, 1, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 95, 96, 119, 120, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65504, 65535, 65536, 65568, 131072, 196608, 262144 };
		uint64_t v = 0;
		switch (draw(7)) {
		case 0: case 1: v = draw(40); break;
		case 2: v = edge[draw(sizeof edge / sizeof *edge - 1)]; break;
		case 3: v = edge[draw(sizeof edge / sizeof *edge - 1)]; { uint64_t d = draw(8); v = d <= 4 ? v + d : (v > d - 4 ? v - (d - 4) : v); } break;
		case 4: v = draw(max < 300 ? max : 300); break;
		case 5: if (!mined.empty()) { v = mined[draw(mined.size() - 1)]; uint64_t d = draw(2); v = d == 0 ? v : d == 1 ? v + 1 : v ? v - 1 : 0; } break;
		case 6: { uint64_t k = draw(20); v = 1ULL << k; uint64_t d = draw(80); v = v + d > 40 ? v + d - 40 : v; } break;
		default: v = draw(max < 5000 || chance(1, 4) ? max : 5000); break;
		}
		return v > max ? (max ? v % (max + 1) : 0) : v;
	}
	// 64-bit values biased to powers of two and constants.
	uint64_t value64() {
		uint64_t v = 0;
		switch (draw(5)) {
		case 0: return draw(1000);
		case 1: { unsigned k = draw(63); v = 1ULL << k; int64_t d = (int64_t)draw(6); return v + (d <= 3 ? d : -(d - 3)); }
		case 2: if (!mined.empty()) { v = mined[draw(mined.size() - 1)]; uint64_t d = draw(2); return d == 0 ? v : d == 1 ? v + 1 : v - 1; } return 0;
		case 3: { uint64_t t = 1; for (unsigned k = draw(19); k; k--) t *= 10; v = t * range(1, 9); int64_t d = (int64_t)draw(4); return v + (d <= 2 ? d : -(d - 2)); }
		case 4: { unsigned k = draw(63); return draw(~0ULL) >> k; }
		default: return ~0ULL - draw(1000);
		}
	}
	// n bytes of content described by one seed and a style.
	Bytes bytes(size_t n) {
		Bytes b(n);
		uint64_t style = draw(9);
		uint64_t sd = draw(0xffff);
		if (style == 0) { memset(b.data(), 0, n); return b; }
		if (style == 1) { memset(b.data(), 0xff, n); return b; }
		if (style == 2) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(sd + i); return b; }
		if (style == 3) { for (size_t i = 0; i < n; i++) b[i] = 0x80 >> (sd & 7); return b; }
		Rng r{ sd * 0x9e3779b97f4a7c15ULL + style };
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { uint64_t x = r.next(); memcpy(&b[i], &x, 8); }
		for (; i < n; i++) b[i] = (uint8_t)r.next();
		if (style == 4) for (auto &c : b) c = 32 + c % 95;
		return b;
	}
	// Explicit small byte string: every byte a choice.
	Bytes literal(size_t maxlen) {
		Bytes b(draw(maxlen));
		for (auto &c : b) c = (uint8_t)draw(255);
		return b;
	}
};

struct Ctx {
	Src &s;
	std::string desc;		// description of the case
	bool nt = false; uint64_t nth = 0;
	std::vector<std::string> tags;
	explicit Ctx(Src &s) : s(s) {}
	void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
		if (!desc.empty()) desc += " ";
		desc += b;
	}
	void nontrivial() { nt = true; }
	void tag(const char *t) { tags.push_back(t); }
};
[[noreturn]] inline void fail(const char *f, ...) {
	char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	throw Fail{ b };
}
extern std::string prop;	// the property being decided (X00: all)
inline bool decides(const char *ids) { return prop == "X00" || strstr(ids, prop.c_str()); }
// a check that only speaks for the properties named, in targets shared by several
#define PCHECK(ids, c, ...) do { if (pt::decides(ids) && !(c)) pt::fail(__VA_ARGS__); } while (0)
#define CHECK(c, ...) do { if (!(c)) pt::fail(__VA_ARGS__); } while (0)
inline std::string hex(const void *p, size_t n, size_t max = 48) {
	std::string r; char b[4];
	for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", ((const uint8_t *)p)[i]); r += b; }
	if (n > max) r += "..";
	return r;
}
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }

struct Target {
	const char *name;
	std::function<void(Ctx &)> fn;
	const char *rule;		// what makes a case non-trivial
	uint64_t enum_n = 0;		// > 0: enumerate index 0..enum_n-1 exactly once
	double case_timeout = 60;
	bool fork_each = false;		// every case in a fresh process
	unsigned hwrot = 0;		// bits of hw_mask to rotate across workers
};
int main_(int argc, char **argv, std::vector<Target> ts);
}
