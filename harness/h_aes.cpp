// C04: AES and AES-CTR against OpenSSL's EVP implementation (via ref.cpp).
#include "mock.hpp"
#include "pt.hpp"
#include "ref.hpp"
#include <memory>
#include <sys/mman.h>
#include <ctime>
#include <unistd.h>
extern "C" {
#define restrict __restrict
#include "crypto_aes.h"
#include "crypto_aesctr.h"
}
#define CANARY 0x99

static void aes_block(pt::Ctx &c)
{
	pt::Src &s = c.s;
	unsigned nk = s.range(1, 3);
	std::vector<crypto_aes_key *> ks; std::vector<Bytes> raw;
	for (unsigned i = 0; i < nk; i++) {
		size_t kl = s.chance(1, 2) ? 32 : 16; size_t off = s.draw(15);
		Bytes k = s.bytes(kl), kb(off + kl);
		memcpy(kb.data() + off, k.data(), kl);
		crypto_aes_key *e = crypto_aes_key_expand(kb.data() + off, kl);
		CHECK(e, "key expansion failed");
		memset(kb.data(), 0, kb.size());
		ks.push_back(e); raw.push_back(k);
	}
	unsigned nb = s.range(1, 6);
	for (unsigned i = 0; i < nb; i++) {
		unsigned q = s.draw(nk - 1);
		Bytes in = s.bytes(16), buf(80, CANARY); uint8_t want[16];
		size_t o1 = s.draw(15), o2 = s.draw(15); bool same = s.chance(1, 4); size_t overlap = s.chance(1, 8) ? s.draw(15) : 0;
		ref::aes_ecb(raw[q].data(), raw[q].size(), in.data(), want);
		uint8_t *ip = buf.data() + 16 + o1, *op = same ? ip : buf.data() + 48 + o2;
		if (overlap) op = ip + overlap;	// documented: in and out can overlap
		memcpy(ip, in.data(), 16);
		Bytes b0 = buf;
		crypto_aes_encrypt_block(ip, op, ks[q]);
		CHECK(!memcmp(op, want, 16), "AES-%zu block: key %s in %s got %s want %s", raw[q].size() * 8, pt::hex(raw[q]).c_str(), pt::hex(in).c_str(), pt::hex(op, 16).c_str(), pt::hex(want, 16).c_str());
		for (size_t j = 0; j < 80; j++) if (&buf[j] < op || &buf[j] >= op + 16) CHECK(buf[j] == b0[j], "wrote outside the output block");
		c.note("aes%zu%s", raw[q].size() * 8, same ? " inplace" : overlap ? " overlap" : "");
	}
	for (auto k : ks) crypto_aes_key_free(k);
	crypto_aes_key_free(NULL);
	c.nontrivial();
	c.note("hw=%x", hw_mask & 0x1f);
}
// Histories over several keys and streams, compared position by position with
// the reference key stream.
static void aesctr_history(pt::Ctx &c)
{
	pt::Src &s = c.s;
	unsigned nk = s.range(1, 3), ns = s.range(1, 3);
	std::vector<crypto_aes_key *> ks; std::vector<Bytes> raw;
	for (unsigned i = 0; i < nk; i++) {
		raw.push_back(s.bytes(s.chance(2, 3) ? 32 : 16));
		ks.push_back(crypto_aes_key_expand(raw[i].data(), raw[i].size()));
		CHECK(ks[i], "key expansion failed");
	}
	struct St { crypto_aesctr *a = nullptr; unsigned k = 0; uint64_t nonce = 0, pos = 0; };
	std::vector<St> st(ns);
	auto nonce = [&]() { return s.chance(1, 2) ? 0 : s.chance(1, 2) ? s.value64() : s.draw(~0ULL); };
	unsigned ops = s.range(1, 14), streams = 0, reinit = 0; uint64_t carried = 0;
	for (unsigned i = 0; i < ops; i++) {
		St &x = st[s.draw(ns - 1)];
		switch (s.draw(8)) {
		case 0:
			if (x.a) crypto_aesctr_free(x.a);
			x.k = s.draw(nk - 1); x.nonce = nonce(); x.pos = 0;
			if (s.chance(1, 2)) x.a = crypto_aesctr_init(ks[x.k], x.nonce);
			else { x.a = crypto_aesctr_alloc(); CHECK(x.a, "alloc failed"); crypto_aesctr_init2(x.a, ks[x.k], x.nonce); }
			CHECK(x.a, "init failed");
			c.note("init(%u,%llx)", x.k, (unsigned long long)x.nonce);
			break;
		case 1:
			if (!x.a) break;
			if (s.chance(1, 2)) { x.k = s.draw(nk - 1); x.nonce = nonce(); crypto_aesctr_init2(x.a, ks[x.k], x.nonce); }
			else { x.nonce = nonce(); crypto_aesctr_init2(x.a, NULL, x.nonce); }	// keep the key
			c.note("reinit(%u,%llx)@%llu", x.k, (unsigned long long)x.nonce, (unsigned long long)x.pos);
			x.pos = 0; reinit++;
			break;
		case 2: {
			unsigned k = s.draw(nk - 1); uint64_t n = nonce(); size_t l = s.size(s.chance(1, 6) ? 140000 : 600);
			Bytes in = s.bytes(l), out(l + 32, CANARY), want(l);
			crypto_aesctr_buf(ks[k], n, in.data(), out.data() + 16, l);
			ref::aesctr(raw[k].data(), raw[k].size(), n, 0, in.data(), want.data(), l);
			CHECK(!memcmp(want.data(), out.data() + 16, l), "crypto_aesctr_buf of %zu bytes is wrong", l);
			for (int j = 0; j < 16; j++) CHECK(out[j] == CANARY && out[16 + l + j] == CANARY, "crypto_aesctr_buf wrote outside its output");
			c.note("buf(%u,%zu)", k, l);
			break; }
		default: {
			if (!x.a) {
				x.k = s.draw(nk - 1); x.nonce = nonce(); x.pos = 0;
				x.a = crypto_aesctr_init(ks[x.k], x.nonce); CHECK(x.a, "init failed");
			}
			size_t l = s.chance(1, 3) ? s.draw(35) : s.size(s.chance(1, 4) ? 150000 : 5000);
			size_t oi = s.draw(15), oo = s.draw(15); bool inplace = s.chance(1, 2);
			Bytes in = s.bytes(l), want(l);
			std::unique_ptr<uint8_t[]> ib(new uint8_t[oi + l + 1]), ob(new uint8_t[oo + l + 33]);
			memset(ob.get(), CANARY, oo + l + 33);
			uint8_t *ip = ib.get() + oi, *op = ob.get() + oo;
			memcpy(ip, in.data(), l);
			if (inplace) { memcpy(op, in.data(), l); ip = op; }
			crypto_aesctr_stream(x.a, ip, op, l);
			ref::aesctr(raw[x.k].data(), raw[x.k].size(), x.nonce, x.pos, in.data(), want.data(), l);
			for (size_t j = 0; j < l; j++) CHECK(op[j] == want[j], "CTR stream wrong at position %llu (chunk of %zu at %llu%s, nonce %llx)", (unsigned long long)(x.pos + j), l, (unsigned long long)x.pos, inplace ? " in place" : "", (unsigned long long)x.nonce);
			for (size_t j = 0; j < oo + l + 33; j++) if (j < oo || j >= oo + l) CHECK(ob[j] == CANARY, "CTR wrote outside its output");
			if (!inplace) CHECK(!memcmp(ip, in.data(), l), "CTR modified its input");
			c.note("stream(%zu@%llu%s)", l, (unsigned long long)x.pos, inplace ? ",inplace" : "");
			if ((x.pos / 4096) != ((x.pos + l) / 4096)) carried++;
			x.pos += l; streams++;
			break; }
		}
	}
	for (auto &x : st) crypto_aesctr_free(x.a);
	for (auto k : ks) crypto_aes_key_free(k);
	if (streams > 1) c.nontrivial();
	if (carried) c.tag("low counter byte carried");
	if (reinit) c.tag("re-initialised");
	c.note("hw=%x", hw_mask & 0x1f);
}
// Every pair of chunk sizes 0..40 x 0..80 followed by a third chunk.
static void aesctr_splits(pt::Ctx &c)
{
	size_t a = c.s.index; Bytes key(32), in(200), out(200), want(200);
	for (int i = 0; i < 32; i++) key[i] = i * 7; for (int i = 0; i < 200; i++) in[i] = i;
	crypto_aes_key *k = crypto_aes_key_expand(key.data(), 32);
	ref::aesctr(key.data(), 32, 0x0102030405060708ULL, 0, in.data(), want.data(), 200);
	for (size_t b = 0; b <= 80; b++) {
		crypto_aesctr *s = crypto_aesctr_init(k, 0x0102030405060708ULL);
		crypto_aesctr_stream(s, in.data(), out.data(), a);
		crypto_aesctr_stream(s, in.data() + a, out.data() + a, b);
		crypto_aesctr_stream(s, in.data() + a + b, out.data() + a + b, 200 - a - b);
		crypto_aesctr_free(s);
		CHECK(out == want, "chunks %zu, %zu, %zu give a wrong stream", a, b, 200 - a - b);
	}
	crypto_aes_key_free(k);
	c.note("first chunk %zu", a); c.nontrivial();
}
// Long streams crossing every counter carry up to 'end' blocks; chunk style varies.
static void ctr_long(pt::Ctx &c, uint64_t end, int style, unsigned mask, uint64_t skip_check, long limit = 0)
{
	hw_mask = mask | ~0x1fu;
	Bytes key(32, 0x42);
	crypto_aes_key *k = crypto_aes_key_expand(key.data(), 32);
	uint64_t nonce = 0xfedcba9876543210ULL;
	crypto_aesctr *st = crypto_aesctr_init(k, nonce);
	const size_t BIG = 1 << 22;
	Bytes in(BIG + 64, 0), out(BIG + 64), want(BIG + 64);
	uint64_t pos = 0; uint64_t i = 0;
	time_t t0 = time(nullptr);
	// style 0: big chunks; 1: block-misaligned big chunks; 2: single blocks near carries
	while (pos < end) {
		// (without AES-NI the longest streams only run as long as there is time)
		if (limit && i % 64 == 0 && time(nullptr) - t0 > limit) { c.note("stopped early: "); break; }
		size_t l = BIG;
		uint64_t nb = (pos / 4096 + 1) * 4096;
		if (style == 1) l = BIG - 5 + (i % 11);
		if (style == 2) {
			// small pieces around multiples of 2^16 and 2^24 blocks, big ones elsewhere
			uint64_t m = 1ULL << 20, d = pos % m;
			if (d < 64 || m - d <= 64) l = 1 + i % 17; else l = m - d - 64;
			if (l > BIG) l = BIG;
		}
		(void)nb;
		crypto_aesctr_stream(st, in.data(), out.data(), l);
		if (!skip_check || pos % skip_check < 2 * BIG || skip_check - pos % skip_check < 2 * BIG) {
			ref::aesctr(key.data(), 32, nonce, pos, in.data(), want.data(), l);
			CHECK(!memcmp(out.data(), want.data(), l), "CTR stream wrong within %llu..%llu (style %d)", (unsigned long long)pos, (unsigned long long)(pos + l), style);
		}
		pos += l; i++;
	}
	crypto_aesctr_free(st); crypto_aes_key_free(k);
	c.note("stream of %llu bytes, style %d, hw=%x", (unsigned long long)pos, style, mask);
	c.nontrivial();
}
// One single call of more than 4 GiB.
static void ctr_onecall(pt::Ctx &c, unsigned mask, bool stream)
{
	hw_mask = mask | ~0x1fu;
	size_t n = (1ULL << 32) + 4099;
	Bytes key(32, 0x17);
	uint8_t *b = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) throw pt::Discard{};
	crypto_aes_key *k = crypto_aes_key_expand(key.data(), 32);
	crypto_aesctr *st = stream ? crypto_aesctr_init(k, 5) : nullptr;
	if (stream) crypto_aesctr_stream(st, b, b, n);
	else crypto_aesctr_buf(k, 5, b, b, n);
	Bytes z(1 << 20), want(1 << 20);
	for (uint64_t p = 0; p < n; p += 1 << 20) {
		size_t l = n - p < (1 << 20) ? n - p : 1 << 20;
		ref::aesctr(key.data(), 32, 5, p, z.data(), want.data(), l);
		CHECK(!memcmp(b + p, want.data(), l), "4 GiB CTR call wrong near %llu", (unsigned long long)p);
	}
	for (int i = 0; i < 64; i++) CHECK(b[n + i] == 0, "wrote past the end");
	crypto_aesctr_free(st); crypto_aes_key_free(k);
	munmap(b, n + 4096);
	c.note("one %s call of %zu bytes hw=%x", stream ? "stream" : "buffer", n, mask); c.nontrivial();
}
// One single call of more than 64 GiB (2^32 blocks): both buffers are a few pages
// mapped over and over, so that the last bytes of the output remain.
static void ctr_onecall_64g(pt::Ctx &c)
{
	const size_t M = 4 << 20, n = (1ULL << 36) + 4099, len = (n / M + 2) * M;
	hw_mask = ~0u;
	Bytes key(32, 0x19), z(M, 0), want(M);
	crypto_aes_key *k = crypto_aes_key_expand(key.data(), 32);
	crypto_aesctr *st = crypto_aesctr_init(k, 6);
	timespec a, b;
	clock_gettime(CLOCK_MONOTONIC, &a);
	for (int i = 0; i < 32; i++) crypto_aesctr_buf(k, 1, z.data(), want.data(), M);
	clock_gettime(CLOCK_MONOTONIC, &b);
	double s = (b.tv_sec - a.tv_sec + 1e-9 * (b.tv_nsec - a.tv_nsec)) * (n / (32.0 * M));
	if (s > 150) { c.note("too slow here (%.0f s)", s); throw pt::Discard{}; }
	uint8_t *buf[2];
	for (auto &p : buf) {
		int fd = memfd_create("ctr", 0);
		if (fd < 0 || ftruncate(fd, M)) throw pt::Discard{};
		p = (uint8_t *)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) throw pt::Discard{};
		for (size_t o = 0; o < len; o += M) if (mmap(p + o, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw pt::Discard{};
		close(fd);
	}
	crypto_aesctr_stream(st, buf[0], buf[1], 7);	// not at a block boundary
	crypto_aesctr_stream(st, buf[0], buf[1], n);
	size_t r = n % M;
	uint64_t last = 7 + n - M;	// position in the stream of the oldest byte that is still there
	ref::aesctr(key.data(), 32, 6, last, z.data(), want.data(), M);
	for (size_t i = 0; i < M; i++) CHECK(buf[1][(r + i) % M] == want[i], "64 GiB CTR call wrong at %llu", (unsigned long long)(last + i));
	uint8_t t[40];
	crypto_aesctr_stream(st, z.data(), t, 40);
	ref::aesctr(key.data(), 32, 6, 7 + n, z.data(), want.data(), 40);
	CHECK(!memcmp(t, want.data(), 40), "CTR stream wrong after a 64 GiB call");
	crypto_aesctr_free(st); crypto_aes_key_free(k);
	c.note("one call of %zu bytes", n); c.nontrivial();
}
static void ctr_long_t(pt::Ctx &c)
{
	// 2^24 blocks is 256 MiB; 2^28 blocks is 4 GiB
	switch (c.s.index) {
	case 0: ctr_long(c, (1ULL << 28) + (1 << 23), 0, 0x1f, 0); break;
	case 1: ctr_long(c, (1ULL << 28) + (1 << 23), 1, 0x1f, 0); break;
	case 2: ctr_long(c, (1ULL << 28) + (1 << 23), 2, 0x1f, 0); break;
	case 3: ctr_long(c, (1ULL << 28) + (1 << 23), 1, 0x1e, 0); break;
	case 4: ctr_long(c, (1ULL << 28) + (1 << 23), 2, 0x1e, 0); break;
	case 5: ctr_long(c, (1ULL << 32) + (1 << 24), 1, 0x1f, 0); break;
	case 6: ctr_onecall(c, 0x1f, true); break;
	default: ctr_onecall(c, 0x1f, false); break;
	}
}
// More than 2^32 blocks (64 GiB).
static void ctr_64g(pt::Ctx &c) { ctr_long(c, (1ULL << 36) + (1 << 24), c.s.index ? 1 : 2, c.s.index == 2 ? 0x1e : 0x1f, 1ULL << 30); }
static void ref_vectors(pt::Ctx &c)
{
	uint8_t k[32], p[16], o[16];
	for (int i = 0; i < 32; i++) k[i] = i;
	for (int i = 0; i < 16; i++) p[i] = i * 0x11;
	ref::aes_ecb(k, 32, p, o);
	CHECK(pt::hex(o, 16) == "8ea2b7ca516745bfeafc49904b496089", "HARNESS: reference AES-256");
	ref::aes_ecb(k, 16, p, o);
	CHECK(pt::hex(o, 16) == "69c4e0d86a7b0430d8cdb78070b4c55a", "HARNESS: reference AES-128");
	// CTR block = AES(be64 nonce || be64 counter)
	uint8_t in[16] = { 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 2 }, z[16] = { 0 }, w[16];
	ref::aes_ecb(k, 32, in, w);
	ref::aesctr(k, 32, 9, 32, z, o, 16);
	CHECK(!memcmp(w, o, 16), "HARNESS: reference CTR");
	c.nontrivial();
}
std::vector<pt::Target> pt_targets()
{
	return {
		{ "aes_block", aes_block, "random keys and blocks, in place and overlapping", 0, 60, false, 0x01 },
		{ "aesctr_history", aesctr_history, "histories over several streams (non-trivial: at least two chunks)", 0, 60, false, 0x01 },
		{ "aesctr_splits", aesctr_splits, "every pair of first two chunk sizes (0..40) x (0..80)", 41, 60, false, 0x01 },
		{ "ctr_long", ctr_long_t, "streams across 2^8, 2^16, 2^24, 2^28 block carries and single 4 GiB calls", 8, 300, true },
		{ "ctr_64g", ctr_64g, "streams of more than 2^32 blocks", 3, 900, true },
		{ "ctr_64g_ni", [](pt::Ctx &c) { if (c.s.index == 2) ctr_onecall_64g(c); else ctr_long(c, (1ULL << 36) + (1 << 24), c.s.index ? 1 : 2, 0x1f, 1ULL << 30, 200); }, "AES-NI streams and one call of more than 2^32 blocks", 3, 350, true },
		{ "ref_vectors", ref_vectors, "FIPS-197 vectors check the reference", 1, 60 },
	};
}
