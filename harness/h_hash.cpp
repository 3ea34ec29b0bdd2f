// C03: SHA-256, HMAC-SHA256, PBKDF2 against OpenSSL-backed references.
#include "mock.hpp"
#include "pt.hpp"
#include "ref.hpp"
#include <memory>
#include <sys/mman.h>
extern "C" {
#define restrict __restrict
#include "sha256.h"
}
#define CANARY 0xC3

// Several live contexts, each fed its message in arbitrary pieces, interleaved.
static void hash_chunks(pt::Ctx &c)
{
	pt::Src &s = c.s;
	unsigned n = s.chance(1, 3) ? s.range(2, 4) : 1;
	struct St { bool h; Bytes key, msg; size_t pos = 0; SHA256_CTX a; HMAC_SHA256_CTX b; bool done = false; unsigned pieces = 0; };
	std::vector<St> st(n);
	for (auto &x : st) {
		x.h = s.chance(1, 2);
		if (x.h) x.key = s.bytes(s.size(s.chance(1, 30) ? 300000 : 400));
		x.msg = s.bytes(s.size(s.chance(1, 30) ? 400000 : 1200));
		if (x.h) HMAC_SHA256_Init(&x.b, x.key.empty() && s.chance(1, 2) ? NULL : x.key.data(), x.key.size());
		else SHA256_Init(&x.a);
		c.note("%s keylen=%zu msglen=%zu", x.h ? "hmac" : "sha256", x.key.size(), x.msg.size());
	}
	unsigned left = n, maxp = 0; size_t guard = 0;
	while (left) {
		St &x = st[s.draw(n - 1)];
		if (x.done || ++guard > 400) {
			bool any = false;
			for (auto &y : st) if (!y.done) { y.pos = y.pos; any = true; }
			if (!any) break;
			if (x.done) { if (guard <= 400) continue; }
		}
		St *y = &x;
		if (y->done) for (auto &z : st) if (!z.done) { y = &z; break; }
		size_t rest = y->msg.size() - y->pos, k = guard > 400 ? rest : s.size(rest);
		size_t off = s.draw(7);
		std::unique_ptr<uint8_t[]> piece(new uint8_t[off + k + 1]);
		memcpy(piece.get() + off, y->msg.data() + y->pos, k);
		if (y->h) HMAC_SHA256_Update(&y->b, piece.get() + off, k); else SHA256_Update(&y->a, piece.get() + off, k);
		memset(piece.get(), 0xdd, off + k + 1);	// no pointer may be retained
		y->pos += k; y->pieces++;
		if (y->pieces > maxp) maxp = y->pieces;
		if (y->pos == y->msg.size() && (k > 0 || s.chance(1, 2) || guard > 400)) {
			uint8_t out[32 + 16], want[32];
			memset(out, CANARY, sizeof out);
			if (y->h) { HMAC_SHA256_Final(out + 8, &y->b); ref::hmac(y->key.data(), y->key.size(), y->msg.data(), y->msg.size(), want); }
			else { SHA256_Final(out + 8, &y->a); ref::sha256(y->msg.data(), y->msg.size(), want); }
			CHECK(!memcmp(out + 8, want, 32), "%s of %zu bytes in %u pieces: got %s want %s", y->h ? "HMAC" : "SHA256", y->msg.size(), y->pieces, pt::hex(out + 8, 32).c_str(), pt::hex(want, 32).c_str());
			for (int i = 0; i < 48; i++) if (i < 8 || i >= 40) CHECK(out[i] == CANARY, "digest written outside 32 bytes");
			memset(out, 0, sizeof out);
			if (y->h) HMAC_SHA256_Buf(y->key.data(), y->key.size(), y->msg.data(), y->msg.size(), out + 8);
			else SHA256_Buf(y->msg.data(), y->msg.size(), out + 8);
			CHECK(!memcmp(out + 8, want, 32), "one-shot %s of %zu bytes is wrong", y->h ? "HMAC" : "SHA256", y->msg.size());
			y->done = true; left--;
		}
	}
	if (maxp > 1) c.nontrivial();
	if (n > 1) c.tag("interleaved contexts");
	c.note("hw=%x", hw_mask & 0x1f);
}
// Every message length 0..319 split at every point, and HMAC key lengths 0..319.
static void hash_lengths(pt::Ctx &c)
{
	size_t n = c.s.index;
	Bytes m(n);
	for (size_t i = 0; i < n; i++) m[i] = (uint8_t)(i * 37 + n);
	uint8_t out[32], want[32];
	ref::sha256(m.data(), n, want);
	for (size_t k = 0; k <= n; k++) {
		SHA256_CTX a; SHA256_Init(&a);
		SHA256_Update(&a, m.data(), k); SHA256_Update(&a, m.data() + k, n - k); SHA256_Final(out, &a);
		CHECK(!memcmp(out, want, 32), "SHA256 of %zu bytes split at %zu is wrong", n, k);
	}
	SHA256_Buf(m.data(), n, out);
	CHECK(!memcmp(out, want, 32), "SHA256_Buf of %zu bytes is wrong", n);
	for (size_t l : { 0, 1, 55, 56, 63, 64, 65, 200 }) {
		Bytes d(l, 0x5a);
		ref::hmac(m.data(), n, d.data(), l, want);
		HMAC_SHA256_Buf(m.data(), n, d.data(), l, out);
		CHECK(!memcmp(out, want, 32), "HMAC with %zu-byte key over %zu bytes is wrong", n, l);
		HMAC_SHA256_CTX h; HMAC_SHA256_Init(&h, m.data(), n); HMAC_SHA256_Update(&h, d.data(), l); HMAC_SHA256_Final(out, &h);
		CHECK(!memcmp(out, want, 32), "incremental HMAC with %zu-byte key over %zu bytes is wrong", n, l);
	}
	c.note("length %zu, all %zu splits", n, n + 1);
	c.nontrivial();
}
static void pbkdf2_random(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes pw = s.bytes(s.size(s.chance(1, 20) ? 100000 : 300)), sa = s.bytes(s.size(s.chance(1, 20) ? 100000 : 300));
	uint64_t it = s.chance(1, 3) ? 1 : s.chance(1, 10) ? 1 + s.size(70000) : 1 + s.size(300);
	size_t n = s.size(s.chance(1, 10) ? 70000 : 400);
	while (it * (n / 32 + 1) > 200000) it = it / 2;
	if (it == 0) it = 1;
	size_t off = s.draw(15);
	Bytes out(n + 64, CANARY), want(n);
	PBKDF2_SHA256(pw.empty() && s.chance(1, 2) ? NULL : pw.data(), pw.size(), sa.data(), sa.size(), it, out.data() + 16 + off, n);
	ref::pbkdf2(pw.data(), pw.size(), sa.data(), sa.size(), it, want.data(), n);
	c.note("pwlen=%zu saltlen=%zu c=%llu dklen=%zu align=%zu", pw.size(), sa.size(), (unsigned long long)it, n, off);
	for (size_t i = 0; i < n; i++) CHECK(out[16 + off + i] == want[i], "PBKDF2 output differs at byte %zu of %zu", i, n);
	for (size_t i = 0; i < out.size(); i++) if (i < 16 + off || i >= 16 + off + n) CHECK(out[i] == CANARY, "PBKDF2 wrote outside its output (%ld)", (long)i - 16 - (long)off);
	if (n > 0 && (it > 1 || n > 32)) c.nontrivial();
	if (it > 1) c.tag("c>1");
}
// Iteration counts around powers of two.
static const uint64_t ITERS[] = { 1, 2, 3, 4, 255, 256, 257, 4096, 65535, 65536, 65537, 1000000, 1 << 20, (1 << 21) + 1 };
static void pbkdf2_iters(pt::Ctx &c)
{
	uint64_t it = ITERS[c.s.index]; uint8_t out[40], want[40];
	PBKDF2_SHA256((const uint8_t *)"pw", 2, (const uint8_t *)"salt", 4, it, out, 40);
	ref::pbkdf2("pw", 2, "salt", 4, it, want, 40);
	c.note("c=%llu", (unsigned long long)it);
	CHECK(!memcmp(out, want, 40), "PBKDF2 with c=%llu is wrong", (unsigned long long)it);
	c.nontrivial();
}
// More output blocks than fit in 16 and 24 bits: spot-check blocks.
static void pbkdf2_long(pt::Ctx &c)
{
	static const uint64_t nb[] = { 70000, (1 << 24) + 9 };
	uint64_t b = nb[c.s.index]; size_t n = b * 32 - 5;
	uint8_t *out = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	PBKDF2_SHA256((const uint8_t *)"pw", 2, (const uint8_t *)"salt", 4, 1, out, n);
	auto chk = [&](uint64_t j) {
		uint8_t w[32]; ref::pbkdf2_block("pw", 2, "salt", 4, 1, (uint32_t)j, w);
		size_t k = j == b ? 27 : 32;
		CHECK(!memcmp(out + 32 * (j - 1), w, k), "PBKDF2 block %llu of %llu is wrong", (unsigned long long)j, (unsigned long long)b);
	};
	for (uint64_t p = 1; p <= b; p *= 2) for (int d = -2; d <= 2; d++) if ((int64_t)p + d >= 1 && p + d <= b) chk(p + d);
	for (uint64_t j = 1; j <= b; j += b / 5000 + 1) chk(j);
	chk(b);
	for (size_t i = n; i < n + 64; i++) CHECK(out[i] == 0, "wrote past the output");
	munmap(out, n + 4096);
	c.note("%llu blocks", (unsigned long long)b);
	c.nontrivial();
}
// Messages whose length does not fit in 32 bits (of bits, or of bytes).
struct Huge { uint64_t a, b, c; bool h; unsigned mask; bool quick; };
static const Huge huges[] = {
	{ (1ULL << 29) - 1, 2, 0, false, 0x1f }, { 1ULL << 29, 0, 0, false, 0x08 }, { 1ULL << 29, 65, 0, true, 0x00 },
	{ (1ULL << 32) - 1, 0, 0, false, 0x1f }, { 1ULL << 32, 0, 0, false, 0x1f }, { 3, (1ULL << 32) + 70, 5, false, 0x1f },
	{ (1ULL << 32) + 61, 7, 9, true, 0x1f }, { (1ULL << 31) + 1, (1ULL << 31) + 1, 0, true, 0x1f }, { 64, 1ULL << 32, 64, false, 0x08 },
	{ 11, (1ULL << 32) + 1, 1, false, 0x00 },
};
static void hash_huge(pt::Ctx &c)
{
	const Huge &h = huges[c.s.index];
	hw_mask = h.mask | ~0x1fu;
	uint64_t tot = h.a + h.b + h.c;
	uint8_t *m = (uint8_t *)mmap(0, tot + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	// mostly untouched zero pages with some content near every boundary
	for (uint64_t k = 0; k < tot; k += 1 << 26) { m[k] = (uint8_t)(k >> 26) + 1; m[tot - 1 - k] = 0x77 + (k >> 26); }
	uint8_t out[32], want[32];
	Bytes key(33, 9);
	if (h.h) {
		HMAC_SHA256_CTX x; HMAC_SHA256_Init(&x, key.data(), key.size());
		HMAC_SHA256_Update(&x, m, h.a); HMAC_SHA256_Update(&x, m + h.a, h.b); HMAC_SHA256_Update(&x, m + h.a + h.b, h.c); HMAC_SHA256_Final(out, &x);
		ref::hmac(key.data(), key.size(), m, tot, want);
	} else {
		SHA256_CTX x; SHA256_Init(&x);
		SHA256_Update(&x, m, h.a); SHA256_Update(&x, m + h.a, h.b); SHA256_Update(&x, m + h.a + h.b, h.c); SHA256_Final(out, &x);
		ref::sha256(m, tot, want);
	}
	munmap(m, tot + 1);
	c.note("%s of %llu + %llu + %llu bytes hw=%x", h.h ? "hmac" : "sha256", (unsigned long long)h.a, (unsigned long long)h.b, (unsigned long long)h.c, h.mask);
	CHECK(!memcmp(out, want, 32), "wrong digest");
	c.nontrivial();
}
// FIPS 180-4 / RFC 4231 / RFC 7914 anchors for the reference itself.
static void ref_vectors(pt::Ctx &c)
{
	uint8_t o[64];
	ref::sha256("abc", 3, o);
	CHECK(pt::hex(o, 32) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "HARNESS: reference SHA-256");
	ref::hmac("Jefe", 4, "what do ya want for nothing?", 28, o);
	CHECK(pt::hex(o, 32) == "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "HARNESS: reference HMAC");
	ref::pbkdf2("passwd", 6, "salt", 4, 1, o, 64);
	CHECK(pt::hex(o, 16) == "55ac046e56e3089fec1691c22544b605", "HARNESS: reference PBKDF2");
	c.nontrivial();
}
std::vector<pt::Target> pt_targets()
{
	return {
		{ "hash_chunks", hash_chunks, "contexts fed in several pieces (non-trivial: more than one piece for some context)", 0, 60, false, 0x1c },
		{ "hash_lengths", hash_lengths, "every length 0..319, every split point; every HMAC key length 0..319", 320, 60, false, 0x1c },
		{ "pbkdf2_random", pbkdf2_random, "PBKDF2 with more than one iteration or output block", 0, 60, false, 0x1c },
		{ "pbkdf2_iters", pbkdf2_iters, "iteration counts around powers of two", sizeof ITERS / sizeof *ITERS, 120 },
		{ "pbkdf2_long", pbkdf2_long, "outputs of more than 2^16 and 2^24 blocks", 2, 300 },
		{ "hash_huge", hash_huge, "messages of more than 2^32 bits and bytes on every code path", sizeof huges / sizeof *huges, 300, true },
		{ "ref_vectors", ref_vectors, "published vectors check the reference", 1, 60 },
	};
}
