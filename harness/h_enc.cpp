// C05, C06, C07, C08: file format, round trips, tampering, arbitrary input.
#include <map>
#include <sys/mman.h>
#include <memory>
#include "encio.hpp"
extern "C" {
#include "crypto_verify_bytes.h"
}
static void small_params(pt::Src &s, int &logN, uint32_t &r, uint32_t &p)
{
	switch (s.draw(4)) {
	case 0: logN = 1; r = 1; p = 1; break;
	case 1: logN = s.range(1, 8); r = s.range(1, 9); p = s.range(1, 4); break;
	case 2: logN = s.range(1, 2); r = s.range(1, 700); p = 1; break;
	case 3: logN = s.range(1, 2); r = 1; p = s.range(1, 700); break;
	default: logN = s.range(1, 11); r = 1; p = 1; break;
	}
}
// Decrypt with every interface and compare with expectations.
static void expect_dec(int iface, const Bytes &ct, const Bytes &pass, const Bytes &data, int logN, uint32_t r, uint32_t p, const IoPlan &pl, int verbose = 0)
{
	OpRes D = do_dec(iface, ct, pass, lims(0, 0.5, 300), verbose, 1, pl);
	CHECK(D.rc == 0, "%s rejected a valid %zu-byte file: code %d", di_name[iface], ct.size(), D.rc);
	CHECK(D.out == data, "%s returned %zu bytes that differ from the %zu-byte plaintext (first difference at %zu)", di_name[iface], D.out.size(), data.size(),
	    (size_t)(std::mismatch(D.out.begin(), D.out.begin() + std::min(D.out.size(), data.size()), data.begin()).first - D.out.begin()));
	CHECK(D.P.logN == logN && D.P.r == r && D.P.p == p, "%s reported logN=%d r=%u p=%u, file has %d %u %u", di_name[iface], D.P.logN, D.P.r, D.P.p, logN, r, p);
}
// --- C05: what we write is exactly FORMAT
static void enc_format(pt::Ctx &c)
{
	pt::Src &s = c.s;
	vrandom(s.draw(0xffff));
	Bytes pass = gen_pass(s), data = gen_data(s);
	int iface = s.draw(E_N - 1);
	int logN; uint32_t r, p; small_params(s, logN, r, p);
	bool picked = s.chance(1, 12);
	int verbose = s.draw(1), force = s.draw(1);
	IoPlan pl = gen_plan(s);
	c.note("%s pass=%zu bytes data=%zu bytes logN=%d r=%u p=%u picked=%d verbose=%d force=%d ibuf=%d/%zu obuf=%d/%zu chunks=%zu", ei_name[iface], pass.size(), data.size(), logN, r, p, picked, verbose, force, pl.ibuf, pl.isz, pl.obuf, pl.osz, pl.chunks.size());
	scryptenc_params P = picked ? lims(1 << 20, 0.125, 0.0001) : expl(logN, r, p);
	for (int pass_no = 0; pass_no < 1 + (int)s.draw(1); pass_no++) {
		OpRes E = do_enc(iface, data, pass, P, verbose, force, pl);
		CHECK(E.rc == 0 && E.close_rc == 0, "%s failed with code %d", ei_name[iface], E.rc);
		CHECK(E.out.size() == data.size() + 128, "%s produced %zu bytes for %zu bytes of data", ei_name[iface], E.out.size(), data.size());
		if (!picked) CHECK(E.P.logN == logN && E.P.r == r && E.P.p == p, "parameters returned to the caller changed");
		CHECK(ref::params_valid(E.P.logN, E.P.r, E.P.p), "invalid parameters returned: %d %u %u", E.P.logN, E.P.r, E.P.p);
		Bytes want = ref::encrypt(pass, E.out.data() + 16, E.P.logN, E.P.r, E.P.p, data);
		for (size_t i = 0; i < want.size(); i++)
			CHECK(want[i] == E.out[i], "%s: byte %zu of %zu is %02x, FORMAT requires %02x", ei_name[iface], i, want.size(), E.out[i], want[i]);
	}
	if (data.size() > 0) c.nontrivial();
	c.tag(picked ? "picked" : "explicit");
}
// --- C05: any conforming file is decrypted, whoever wrote it
static void dec_conform(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes pass = gen_pass(s), data = gen_data(s), salt = s.bytes(32);
	int logN; uint32_t r, p; small_params(s, logN, r, p);
	int iface = s.draw(D_N - 1);
	IoPlan pl = gen_plan(s);
	c.note("%s pass=%zu bytes data=%zu bytes logN=%d r=%u p=%u ibuf=%d/%zu obuf=%d/%zu chunks=%zu", di_name[iface], pass.size(), data.size(), logN, r, p, pl.ibuf, pl.isz, pl.obuf, pl.osz, pl.chunks.size());
	Bytes ct = ref::encrypt(pass, salt.data(), logN, r, p, data);
	expect_dec(iface, ct, pass, data, logN, r, p, pl, s.draw(1));
	if (data.size() > 0) c.nontrivial();
}
// A stand-in for the KDF that depends on every argument, so that the format can
// be checked for parameters which are too expensive to compute.
static void fake_kdf(const uint8_t *pw, size_t pl, const uint8_t *sa, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t bl)
{
	Bytes m(sa, sa + sl); char t[80];
	int n = snprintf(t, sizeof t, "|%llu|%u|%u|%zu", (unsigned long long)N, r, p, bl);
	m.insert(m.end(), t, t + n);
	uint8_t h[64]; ref::hmac(pw, pl, m.data(), m.size(), h); ref::hmac(h, 32, m.data(), m.size(), h + 32);
	memcpy(buf, h, std::min<size_t>(bl, 64));
}
// --- C05: the header fields carry any valid parameters, in both directions
static void format_params(pt::Ctx &c)
{
	pt::Src &s = c.s;
	vrandom(s.draw(0xffff));
	int logN = s.range(1, 63);
	uint32_t r, p;
	auto any = [&](uint64_t max) { uint64_t v; switch (s.draw(4)) { case 0: v = s.draw(40); break; case 1: v = 1ULL << s.draw(29); break; case 2: { v = 1ULL << s.draw(29); v += s.draw(300); break; } case 3: v = (1ULL << s.draw(30)) - 1; break; default: v = s.draw(max); } return (uint32_t)(v < 1 ? 1 : v > max ? max : v); };
	if (s.draw(1)) { r = any(0x3fffffff); p = any(0x3fffffff / r); } else { p = any(0x3fffffff); r = any(0x3fffffff / p); }
	Bytes pass = gen_pass(s), data = s.bytes(s.size(400)), salt = s.bytes(32);
	int ei = s.draw(E_N - 1), di = s.draw(D_N - 1), verbose = s.draw(1);
	IoPlan pl = gen_plan(s);
	c.note("%s/%s logN=%d r=%u p=%u pass=%zu bytes data=%zu bytes (KDF replaced by a stand-in)", ei_name[ei], di_name[di], logN, r, p, pass.size(), data.size());
	mock.kdf_virtual = true; mock.kdf_mode = 2; mock.kdf_fn = fake_kdf;
	uint8_t dk[64];
	OpRes E = do_enc(ei, data, pass, expl(logN, r, p), verbose, 1, pl);
	CHECK(E.rc == 0 && E.close_rc == 0, "%s failed with code %d", ei_name[ei], E.rc);
	CHECK(E.out.size() == data.size() + 128, "%s produced %zu bytes", ei_name[ei], E.out.size());
	CHECK(mock.kdf_calls.size() == 1 && mock.kdf_calls[0].N == 1ULL << logN && mock.kdf_calls[0].r == r && mock.kdf_calls[0].p == p && mock.kdf_calls[0].dklen == 64, "key derived with other parameters");
	fake_kdf(pass.data(), pass.size(), &E.out[16], 32, 1ULL << logN, r, p, dk, 64);
	Bytes want = ref::encrypt_dk(dk, &E.out[16], logN, r, p, data);
	for (size_t i = 0; i < want.size(); i++) CHECK(want[i] == E.out[i], "%s: byte %zu is %02x, FORMAT requires %02x", ei_name[ei], i, E.out[i], want[i]);
	fake_kdf(pass.data(), pass.size(), salt.data(), 32, 1ULL << logN, r, p, dk, 64);
	expect_dec(di, ref::encrypt_dk(dk, salt.data(), logN, r, p, data), pass, data, logN, r, p, pl, verbose);
	c.nontrivial();
}
// Every data length around the internal block sizes.
static const size_t lens_base[] = { 0, 16, 32, 64, 96, 128, 4000, 4096, 8192, 65440, 65504, 65536, 65568, 65632, 131040, 131072, 131104, 196608 };
static const uint64_t NLENS = sizeof lens_base / sizeof *lens_base * 9;
static void enc_lengths(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	long n = (long)lens_base[i / 9] + (long)(i % 9) - 4;
	if (n < 0) n = 300 - n;
	c.note("data=%ld bytes, every interface", n);
	Bytes data(n), pass = { 'p', 'w' };
	for (long k = 0; k < n; k++) data[k] = (uint8_t)(k * 7 + (k >> 8));
	for (int e = 0; e < E_N; e++) {
		OpRes E = do_enc(e, data, pass, expl(1, 1, 1), 0, 1);
		CHECK(E.rc == 0 && E.close_rc == 0, "%s failed with %d", ei_name[e], E.rc);
		CHECK(E.out == ref::encrypt(pass, E.out.data() + 16, 1, 1, 1, data), "%s: output is not FORMAT's for %ld bytes", ei_name[e], n);
		for (int d = 0; d < D_N; d++) {
			expect_dec(d, E.out, pass, data, 1, 1, 1, IoPlan());
			if (d == D_BUF) continue;
			for (uint32_t k : { 1u, 31u, 32u, 33u, 95u, 96u, 97u, 128u, 65535u, 65536u, 65567u, 65568u, 65569u }) {
				IoPlan pl; pl.ibuf = 1; pl.chunks = { k, 0 };
				if (k >= 31 || n < 5000) expect_dec(d, E.out, pass, data, 1, 1, 1, pl);
			}
		}
	}
	if (n) c.nontrivial();
}
// --- C06: histories
struct Item { Bytes ct, pass, data; int logN; uint32_t r, p; };
static void enc_history(pt::Ctx &c)
{
	pt::Src &s = c.s;
	vrandom(s.draw(0xffff));
	std::vector<Item> pool;
	struct Live { scryptdec_file_cookie *C; std::unique_ptr<SrcIO> si; FILE *f; std::unique_ptr<Bytes> in; size_t item; };
	std::vector<Live> live;
	int nops = 1 + s.draw(14), good = 0;
	static const char *opn[] = { "enc", "dec", "prep", "copy", "badpass", "tamper", "readerr", "writeerr", "drop", "nomem" };
	for (int k = 0; k < nops; k++) {
		unsigned op = pool.empty() ? 0 : s.draw(9);
		c.note("%s", opn[op]);
		if (op == 0) {
			Item it;
			it.pass = !pool.empty() && s.chance(1, 3) ? pool[s.draw(pool.size() - 1)].pass : gen_pass(s);
			it.data = gen_data(s);
			int iface = s.draw(E_N - 1);
			int logN; uint32_t r, p; small_params(s, logN, r, p);
			IoPlan pl = gen_plan(s);
			OpRes E = do_enc(iface, it.data, it.pass, expl(logN, r, p), 0, s.draw(1), pl);
			CHECK(E.rc == 0 && E.close_rc == 0, "op %d: %s failed with %d", k, ei_name[iface], E.rc);
			CHECK(E.out.size() == it.data.size() + 128, "op %d: %s produced %zu bytes for %zu", k, ei_name[iface], E.out.size(), it.data.size());
			it.ct = E.out; it.logN = logN; it.r = r; it.p = p;
			for (auto &o : pool) CHECK(memcmp(&o.ct[16], &it.ct[16], 32) != 0, "op %d: salt of an earlier encryption reused", k);
			pool.push_back(it);
			continue;
		}
		size_t i = s.draw(pool.size() - 1);
		Item &it = pool[i];
		int iface = s.draw(D_N - 1);
		IoPlan pl = gen_plan(s);
		switch (op) {
		case 1: expect_dec(iface, it.ct, it.pass, it.data, it.logN, it.r, it.p, pl); good++; break;
		case 2: {
			if (live.size() >= 4) break;
			Live l; l.in.reset(new Bytes(it.ct)); l.si.reset(new SrcIO()); l.si->d = l.in.get(); l.si->chunks = pl.chunks; l.item = i;
			l.f = open_src(l.si.get(), pl.ibuf, pl.isz);
			scryptenc_params P = lims(0, 0.5, 300);
			Bytes pw = it.pass;
			int rc = scryptdec_file_prep(l.f, pw.data(), pw.size(), &P, 0, 1, &l.C);
			CHECK(rc == 0, "op %d: scryptdec_file_prep failed with %d", k, rc);
			CHECK(P.logN == it.logN && P.r == it.r && P.p == it.p, "op %d: prep reports wrong parameters", k);
			live.push_back(std::move(l));
			break; }
		case 3: case 8: {
			if (live.empty()) break;
			size_t j = s.draw(live.size() - 1);
			Live l = std::move(live[j]); live.erase(live.begin() + j);
			if (op == 3) {
				SinkIO so; FILE *fo = open_sink(&so, pl.obuf, pl.osz);
				int rc = scryptdec_file_copy(l.C, fo);
				CHECK(rc == 0 && fclose(fo) == 0, "op %d: scryptdec_file_copy failed with %d", k, rc);
				CHECK(so.out == pool[l.item].data, "op %d: prepared decryption returned the wrong data", k);
				good++;
			}
			scryptdec_file_cookie_free(l.C);
			fclose(l.f);
			break; }
		case 4: {
			Bytes bad = it.pass; bad.push_back('x');
			int want = ref::decrypt(it.ct, bad, 1e9).code;
			OpRes D = do_dec(iface, it.ct, bad, lims(0, 0.5, 300), 0, 1, pl);
			CHECK(D.rc == want, "op %d: wrong passphrase gives %d, want %d", k, D.rc, want);
			break; }
		case 5: {
			Bytes t = it.ct; t[t.size() - 1 - s.draw(31)] ^= 1 << s.draw(7);
			OpRes D = do_dec(iface, t, it.pass, lims(0, 0.5, 300), 0, 1, pl);
			CHECK(D.rc == SCRYPT_EINVAL, "op %d: bad trailing HMAC gives %d", k, D.rc);
			break; }
		case 6: {
			pl.rerr = s.draw(it.ct.size());
			if (iface == D_BUF) iface = D_FILE;
			OpRes D = do_dec(iface, it.ct, it.pass, lims(0, 0.5, 300), 0, 1, pl);
			CHECK(D.rc == SCRYPT_ERDFILE, "op %d: read error at %ld gives %d", k, pl.rerr, D.rc);
			break; }
		case 7: {
			if (it.data.empty()) break;
			pl.werr = s.draw(it.data.size() - 1);
			if (iface == D_BUF) iface = D_FILE;
			OpRes D = do_dec(iface, it.ct, it.pass, lims(0, 0.5, 300), 0, 1, pl);
			CHECK(D.rc == SCRYPT_EWRFILE || (D.rc == 0 && D.close_rc), "op %d: write error at %ld gives %d", k, pl.werr, D.rc);
			break; }
		case 9: {
			mock.fail_at = { mock.ncalls + (long)s.draw(12) };
			OpRes D = do_dec(iface, it.ct, it.pass, lims(0, 0.5, 300), 0, 1, pl);
			bool hit = !mock.failed_kinds.empty();
			mock.fail_at.clear(); mock.failed_kinds.clear();
			CHECK(D.rc == 0 ? D.out == it.data : hit, "op %d: rc=%d", k, D.rc);
			break; }
		}
	}
	// whatever happened before, everything still decrypts
	for (auto &l : live) {
		SinkIO so; FILE *fo = open_sink(&so, 0, 0);
		int rc = scryptdec_file_copy(l.C, fo);
		CHECK(rc == 0 && fclose(fo) == 0 && so.out == pool[l.item].data, "prepared decryption finished at the end: code %d", rc);
		scryptdec_file_cookie_free(l.C); fclose(l.f);
	}
	for (auto &it : pool) expect_dec(D_BUF, it.ct, it.pass, it.data, it.logN, it.r, it.p, IoPlan());
	if (pool.size() > 0 && nops > 2) c.nontrivial();
	char t[32]; snprintf(t, sizeof t, "ops=%d", nops); c.tag(t);
}
// --- C06/C05: data beyond 2^16 counter blocks and several MiB through all interfaces
static void enc_large(pt::Ctx &c)
{
	static const size_t sz[] = { (1 << 20) - 1, (1 << 20) + 33, (4 << 20) + 17, (16 << 20) + 65537, (64 << 20) + 5 };
	size_t n = sz[c.s.index];
	Bytes data(n), pass = { 'b', 'i', 'g' };
	pt::Rng g{ n };
	for (size_t i = 0; i < n; i += 8) { uint64_t x = g.next(); memcpy(&data[i], &x, n - i < 8 ? n - i : 8); }
	c.note("data=%zu bytes, every interface", n);
	for (int e = 0; e < E_N; e++) {
		OpRes E = do_enc(e, data, pass, expl(2, 1, 1), 0, 1);
		CHECK(E.rc == 0 && E.close_rc == 0 && E.out.size() == n + 128, "%s failed with %d", ei_name[e], E.rc);
		CHECK(E.out == ref::encrypt(pass, E.out.data() + 16, 2, 1, 1, data), "%s: output is not FORMAT's", ei_name[e]);
		for (int d = 0; d < D_N; d++) expect_dec(d, E.out, pass, data, 2, 1, 1, IoPlan());
	}
	c.nontrivial();
}
// --- C06/C05: data beyond 2^32 bytes, checked while it streams past
static void pattern(uint64_t off, uint8_t *b, size_t n)
{	// byte i of the data is byte i % 8 of a mix of i / 8
	for (size_t i = 0; i < n;) {
		uint64_t x = (off + i) / 8 * 0x9e3779b97f4a7c15ULL; x ^= x >> 29;
		unsigned k = (off + i) % 8;
		if (!k && n - i >= 8) { memcpy(b + i, &x, 8); i += 8; continue; }
		for (; k < 8 && i < n; k++, i++) b[i] = (uint8_t)(x >> (8 * k));
	}
}
static const uint64_t HUGE_LEN = (1ULL << 32) + 70001;
struct HugeIO {	// a source or a sink of one side of the file
	bool cipher; uint64_t pos = 0, total; Bytes head, dk; ref::Hasher *mac; uint64_t bad = ~0ULL; size_t piece = 0;
	void gen(uint8_t *b, size_t n) {
		if (!cipher) { pattern(pos, b, n); pos += n; return; }
		for (size_t i = 0; i < n;) {
			uint64_t q = pos; size_t l = n - i;
			if (q < 96) { if (l > 96 - q) l = 96 - q; memcpy(b + i, &head[q], l); }
			else if (q < 96 + HUGE_LEN) {
				if (l > 96 + HUGE_LEN - q) l = 96 + HUGE_LEN - q;
				if (l > 65536) l = 65536;
				Bytes t(l); pattern(q - 96, t.data(), l);
				ref::aesctr(dk.data(), 32, 0, q - 96, t.data(), b + i, l);
			} else {
				if (l > 32) l = 32;
				uint8_t o[32]; if (q == 96 + HUGE_LEN) { mac->fin(o); tag.assign(o, o + 32); }
				if (l > total - q) l = total - q;
				memcpy(b + i, &tag[q - 96 - HUGE_LEN], l);
			}
			if (q < 96 + HUGE_LEN) mac->up(b + i, l);
			pos += l; i += l;
		}
	}
	Bytes tag;
	static ssize_t rd(void *c, char *b, size_t n) {
		HugeIO *h = (HugeIO *)c;
		if (n > h->total - h->pos) n = h->total - h->pos;
		if (h->piece && n > h->piece) n = h->piece;
		h->gen((uint8_t *)b, n);
		return n;
	}
	static ssize_t wr(void *c, const char *b, size_t n) {
		HugeIO *h = (HugeIO *)c;
		uint64_t at = h->pos;
		if (n > h->total - h->pos) { if (h->bad == ~0ULL) h->bad = h->total; return n; }
		Bytes w(n); h->gen(w.data(), n);
		if (h->bad == ~0ULL && memcmp(w.data(), b, n)) h->bad = at;
		return n;
	}
};
static void enc_huge(pt::Ctx &c)
{
	Bytes pass = { 'h', 'u', 'g', 'e' }, salt(32), dk(64);
	if (c.s.index == 0) {
		uint64_t n = HUGE_LEN;
		uint8_t *in = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		uint8_t *out = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (in == MAP_FAILED || out == MAP_FAILED) throw pt::Discard{};
		pattern(0, in, n);
		scryptenc_params P = expl(2, 1, 1);
		int rc = scryptenc_buf(in, n, out, pass.data(), pass.size(), &P, 0, 1);
		CHECK(rc == 0, "scryptenc_buf of %llu bytes failed with %d", (unsigned long long)n, rc);
		ref::scrypt(pass.data(), pass.size(), out + 16, 32, 4, 1, 1, dk.data(), 64);
		Bytes h = ref::encrypt_dk(dk.data(), out + 16, 2, 1, 1, Bytes());
		CHECK(!memcmp(h.data(), out, 96), "header is not FORMAT's");
		HugeIO w; w.cipher = true; w.total = n + 128; w.head.assign(h.begin(), h.begin() + 96); w.dk = dk;
		ref::Hasher m(Bytes(dk.begin() + 32, dk.end())); w.mac = &m;
		for (uint64_t q = 0; q < n + 128; q += 1 << 20) HugeIO::wr(&w, (char *)out + q, std::min<uint64_t>(1 << 20, n + 128 - q));
		CHECK(w.bad == ~0ULL, "scryptenc_buf of %llu bytes: output differs from FORMAT's near byte %llu", (unsigned long long)n, (unsigned long long)w.bad);
		for (int i = 0; i < 2048; i++) CHECK(out[n + 128 + i] == 0, "scryptenc_buf wrote beyond its output");
		memset(in, 0xEE, n);
		scryptenc_params Q = lims(0, 0.5, 300); size_t ol = 1;
		rc = scryptdec_buf(out, n + 128, in, &ol, pass.data(), pass.size(), &Q, 0, 1);
		CHECK(rc == 0 && ol == n, "scryptdec_buf of %llu bytes returned %d with length %zu", (unsigned long long)n + 128, rc, ol);
		Bytes t(1 << 20);
		for (uint64_t q = 0; q < n; q += t.size()) {
			size_t l = std::min<uint64_t>(t.size(), n - q); pattern(q, t.data(), l);
			CHECK(!memcmp(t.data(), in + q, l), "scryptdec_buf: wrong plaintext near byte %llu", (unsigned long long)q);
		}
		// a change beyond 4 GiB is noticed
		out[96 + (1ULL << 32) + 65536] ^= 1; Q = lims(0, 0.5, 300);
		rc = scryptdec_buf(out, n + 128, in, &ol, pass.data(), pass.size(), &Q, 0, 1);
		CHECK(rc == SCRYPT_EINVAL, "a change beyond 4 GiB: scryptdec_buf returned %d", rc);
		munmap(in, n + 4096); munmap(out, n + 4096);
		c.note("buffer of %llu bytes", (unsigned long long)n);
	} else {
		// the salt is not known beforehand: the sink takes it from the header it is given
		cookie_io_functions_t wf = { nullptr, [](void *cp, const char *b, size_t n) -> ssize_t {
			HugeIO *h = (HugeIO *)cp;
			if (h->head.size() < 96) {
				size_t k = std::min<size_t>(96 - h->head.size(), n);
				h->head.insert(h->head.end(), b, b + k);
				if (h->head.size() < 96) return n;
				h->dk.resize(64); Bytes hd = h->head;
				ref::scrypt("huge", 4, hd.data() + 16, 32, 4, 1, 1, h->dk.data(), 64);
				Bytes w = ref::encrypt_dk(h->dk.data(), hd.data() + 16, 2, 1, 1, Bytes());
				if (memcmp(w.data(), hd.data(), 96)) h->bad = 0;
				h->mac = new ref::Hasher(Bytes(h->dk.begin() + 32, h->dk.end()));
				uint8_t skip[96]; h->gen(skip, 96);
				return k == n ? (ssize_t)n : (ssize_t)(k + HugeIO::wr(h, b + k, n - k));
			}
			return HugeIO::wr(cp, b, n); }, nullptr, nullptr };
		cookie_io_functions_t rf = { HugeIO::rd, nullptr, nullptr, nullptr };
		bool encside = c.s.index == 1;
		HugeIO src, snk; src.mac = snk.mac = nullptr;
		scryptenc_params P;
		int rc;
		if (encside) {
			src.cipher = false; src.total = HUGE_LEN; src.piece = 0;
			snk.cipher = true; snk.total = HUGE_LEN + 128;
			FILE *fi = fopencookie(&src, "rb", rf), *fo = fopencookie(&snk, "wb", wf);
			setvbuf(fi, 0, _IOFBF, 1 << 20); setvbuf(fo, 0, _IOFBF, 1 << 20);
			P = expl(2, 1, 1);
			rc = scryptenc_file(fi, fo, pass.data(), pass.size(), &P, 0, 1);
			int fc = fclose(fo); fclose(fi);
			CHECK(rc == 0 && fc == 0, "scryptenc_file of %llu bytes failed with %d", (unsigned long long)HUGE_LEN, rc);
		} else {
			for (int i = 0; i < 32; i++) salt[i] = i * 3;
			ref::scrypt(pass.data(), pass.size(), salt.data(), 32, 4, 1, 1, dk.data(), 64);
			Bytes h = ref::encrypt_dk(dk.data(), salt.data(), 2, 1, 1, Bytes());
			src.cipher = true; src.total = HUGE_LEN + 128; src.head.assign(h.begin(), h.begin() + 96); src.dk = dk;
			ref::Hasher m(Bytes(dk.begin() + 32, dk.end())); src.mac = &m;
			snk.cipher = false; snk.total = HUGE_LEN;
			cookie_io_functions_t pf = { nullptr, HugeIO::wr, nullptr, nullptr };
			FILE *fi = fopencookie(&src, "rb", rf), *fo = fopencookie(&snk, "wb", pf);
			setvbuf(fi, 0, _IOFBF, 1 << 20); setvbuf(fo, 0, _IOFBF, 1 << 20);
			P = lims(0, 0.5, 300);
			rc = scryptdec_file(fi, fo, pass.data(), pass.size(), &P, 0, 1);
			int fc = fclose(fo); fclose(fi);
			CHECK(rc == 0 && fc == 0, "scryptdec_file of %llu bytes failed with %d", (unsigned long long)HUGE_LEN + 128, rc);
		}
		CHECK(snk.bad == ~0ULL && snk.pos == snk.total, "%s: output wrong near byte %llu (%llu of %llu bytes written)", encside ? "scryptenc_file" : "scryptdec_file", (unsigned long long)snk.bad, (unsigned long long)snk.pos, (unsigned long long)snk.total);
		c.note("%s of a stream of %llu bytes", encside ? "encryption" : "decryption", (unsigned long long)HUGE_LEN);
	}
	c.nontrivial();
}
// --- C07
static int file_code(const ref::Result &R, size_t n, int iface)
{	// a buffer shorter than 128 bytes is rejected before the passphrase is looked at
	if (iface == D_BUF && R.code == SCRYPT_EPASS && n < 128) return SCRYPT_EINVAL;
	return R.code;
}
static void check_dec_as(const Bytes &ct, const Bytes &pass, int iface, const IoPlan &pl, const char *what, bool must_fail)
{
	ref::Result R = ref::decrypt(ct, pass, 1 << 16);
	if (R.code == -1) return;
	int want = file_code(R, ct.size(), iface);
	if (iface == D_BUF && ct.size() >= 7 && ct.size() < 128 && memcmp(ct.data(), "scrypt\0", 7) == 0) want = SCRYPT_EINVAL;
	OpRes D = do_dec(iface, ct, pass, lims(0, 0.5, 300), 0, 1, pl);
	if (must_fail) CHECK(R.code != 0, "HARNESS: tampering left a valid file (%s)", what);
	CHECK(D.rc == want, "%s: %s returned %d, the format requires %d", what, di_name[iface], D.rc, want);
	if (want == 0) CHECK(D.out == R.plain, "%s: wrong plaintext", what);
	if (D.rc && D.where == 1) CHECK(D.sink.empty(), "%s: output written although the header was refused", what);
	if (D.rc == SCRYPT_EPASS) CHECK(D.sink.empty(), "%s: output written although the passphrase was refused", what);
}
static void reseal_checksum(Bytes &t) { uint8_t h[32]; ref::sha256(t.data(), 48, h); memcpy(&t[48], h, 16); }
static void tamper_random(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes pass = gen_pass(s), data = s.bytes(s.chance(1, 8) ? s.size(140000) : s.size(300)), salt = s.bytes(32);
	int logN = s.range(1, 4); uint32_t r = s.range(1, 4), p = s.range(1, 3);
	Bytes ct = ref::encrypt(pass, salt.data(), logN, r, p, data), t = ct;
	int iface = s.draw(D_N - 1);
	IoPlan pl = gen_plan(s);
	c.note("%s data=%zu bytes logN=%d r=%u p=%u:", di_name[iface], data.size(), logN, r, p);
	if (s.chance(1, 4)) {	// the genuine file and passphrase were accepted just before
		c.note("after decrypting the genuine file;");
		check_dec_as(ct, pass, s.draw(D_N - 1), IoPlan(), "genuine file", false);
	}
	if (s.chance(1, 3)) {	// wrong passphrase
		Bytes bad = pass;
		switch (s.draw(5)) {
		case 0: bad.push_back(s.draw(255)); break;
		case 1: if (!bad.empty()) bad.pop_back(); break;
		case 2: if (!bad.empty()) bad[s.draw(bad.size() - 1)] ^= 1 << s.draw(7); break;
		case 3: bad.clear(); break;
		case 4: bad.insert(bad.end(), pass.begin(), pass.end()); break;
		default: bad = gen_pass(s);
		}
		c.note("passphrase of %zu bytes instead of %zu", bad.size(), pass.size());
		check_dec_as(ct, bad, iface, pl, "wrong passphrase", false);
		if (bad != pass) c.nontrivial();
		c.tag("wrong passphrase");
		return;
	}
	int n = 1 + s.draw(2);
	bool inhdr = false;
	for (int k = 0; k < n; k++) {
		size_t sz = t.size();
		// favour the header fields and the tag
		auto pos = [&](size_t max) { switch (s.draw(3)) { case 0: return (size_t)s.draw(std::min<size_t>(max, 95)); case 1: return (size_t)(max - s.draw(std::min<size_t>(max, 40))); default: return (size_t)s.draw(max); } };
		switch (s.draw(9)) {
		case 0: { if (!sz) break; size_t i = pos(sz - 1); unsigned b = s.draw(7); t[i] ^= 1 << b; c.note("flip bit %u of byte %zu;", b, i); break; }
		case 1: { if (!sz) break; size_t i = pos(sz - 1); t[i] = s.draw(255); c.note("byte %zu = %02x;", i, t[i]); break; }
		case 2: { size_t i = s.chance(1, 2) ? pos(sz) : (sz > 40 ? sz - s.draw(40) : 0); t.resize(std::min(i, sz)); c.note("truncate to %zu;", t.size()); break; }
		case 3: { Bytes x = s.bytes(1 + s.size(300)); t.insert(t.end(), x.begin(), x.end()); c.note("append %zu;", x.size()); break; }
		case 4: { size_t i = pos(sz); Bytes x = s.literal(40); t.insert(t.begin() + std::min(i, t.size()), x.begin(), x.end()); c.note("insert %zu at %zu;", x.size(), i); break; }
		case 5: { if (!sz) break; size_t i = pos(sz - 1), m = 1 + s.draw(40); m = std::min(m, sz - i); t.erase(t.begin() + i, t.begin() + i + m); c.note("delete %zu at %zu;", m, i); break; }
		case 6: { if (sz < 2) break; size_t i = pos(sz - 1), j = pos(sz - 1); std::swap(t[i], t[j]); c.note("swap %zu,%zu;", i, j); break; }
		case 7: { if (sz < 128) break; size_t m = s.pick<size_t>({ 16, 32, 64 }); size_t room = sz - 128; if (room < 2 * m) break; size_t i = 96 + m * s.draw(room / m - 2), j = 96 + m * s.draw(room / m - 1); for (size_t q = 0; q < m; q++) std::swap(t[i + q], t[j + q]); c.note("swap %zu-byte blocks %zu,%zu;", m, i, j); break; }
		case 8: {	// splice of another file with the same passphrase
			Bytes salt2 = salt; salt2[0] ^= s.draw(1);
			Bytes o = ref::encrypt(pass, salt2.data(), logN, r, p, s.bytes(data.size()));
			size_t i = s.pick<size_t>({ 16, 48, 64, 96, 0 }); if (!i) i = pos(sz ? sz - 1 : 0);
			if (i < t.size() && i < o.size()) { t.resize(i); t.insert(t.end(), o.begin() + i, o.end()); }
			c.note("splice at %zu;", i); break; }
		default: { if (sz < 64) break; size_t i = s.range(7, 47); t[i] ^= 1 << s.draw(7); reseal_checksum(t); c.note("header byte %zu changed, checksum recomputed;", i); inhdr = true; }
		}
	}
	(void)inhdr;
	if (t != ct) c.nontrivial();
	check_dec_as(t, pass, iface, pl, "tampered file", false);
	c.tag(t == ct ? "unchanged" : "changed");
}
// Files of several MiB: changes at block granularity and far into the body.
static void tamper_large(pt::Ctx &c)
{
	pt::Src &s = c.s;
	static std::map<size_t, Bytes> cache;
	static const size_t sizes[] = { 65536, 131072, 131072 - 32, 262144, (1 << 20) + 77, (4 << 20) + 65536 - 128, 9 << 20, (33 << 20) + 1 };
	size_t n = sizes[s.draw(sizeof sizes / sizeof *sizes - 1)];
	Bytes pass = { 'l' }, salt(32, 9);
	if (!cache.count(n)) {
		Bytes d(n); pattern(0, d.data(), n);
		cache[n] = ref::encrypt(pass, salt.data(), 1, 1, 1, d);
	}
	const Bytes &ct = cache[n]; Bytes t = ct;
	int iface = s.draw(D_N - 1);
	c.note("%s of %zu bytes of data:", di_name[iface], n);
	auto blk = [&]() { size_t nb = n / 65536; return (nb ? s.draw(nb - 1) : 0) * 65536; };
	switch (s.draw(6)) {
	case 0: { size_t i = s.chance(1, 2) ? 96 + s.draw(n - 1) : 96 + n - 1 - s.draw(std::min<size_t>(n - 1, 70000)); t[i] ^= 1 << s.draw(7); c.note("flip a bit of byte %zu", i); break; }
	case 1: { size_t a = 96 + blk(), b = 96 + blk(); for (size_t q = 0; q < 65536; q++) std::swap(t[a + q], t[b + q]); c.note("swap 64 KiB at %zu and %zu", a, b); break; }
	case 2: { size_t a = 96 + blk(); t.erase(t.begin() + a, t.begin() + a + 65536); c.note("delete 64 KiB at %zu", a); break; }
	case 3: { size_t a = 96 + blk(); Bytes x(t.begin() + a, t.begin() + a + 65536); t.insert(t.begin() + a, x.begin(), x.end()); c.note("duplicate 64 KiB at %zu", a); break; }
	case 4: { size_t a = s.pick<size_t>({ 1, 32, 96, 128, 65504, 65536, 65568, 131072 }); if (a > n) a = n; t.resize(t.size() - a); c.note("drop the last %zu bytes", a); break; }
	case 5: { size_t a = s.pick<size_t>({ 1, 31, 32, 96, 65504, 65536, 65568, 131072 }); t.resize(t.size() + a, (uint8_t)s.draw(255)); c.note("append %zu bytes", a); break; }
	default: { size_t a = s.pick<size_t>({ 32, 65536, 65568 }); Bytes tag(t.end() - 32, t.end()); t.insert(t.end(), tag.begin(), tag.end()); if (a > 32) { t.insert(t.end() - 32, a - 32, 0); } c.note("append %zu bytes ending in the genuine tag", a); break; }
	}
	if (t == ct) return;
	OpRes D = do_dec(iface, t, pass, lims(0, 0.5, 300), 0, 1, gen_plan(s));
	CHECK(D.rc == SCRYPT_EINVAL, "%s returned %d for a changed file", di_name[iface], D.rc);
	c.nontrivial();
}
// Every bit of small files, every truncation, every one-byte deletion/insertion.
static const size_t tb_sizes[] = { 0, 1, 16, 33, 64, 100 };
static void tamper_bits(pt::Ctx &c)
{
	size_t n = tb_sizes[c.s.index / 3]; int iface = c.s.index % 3;
	Bytes data(n, 0x41), pass = { 'q' }, salt(32, 7);
	Bytes ct = ref::encrypt(pass, salt.data(), 1, 1, 1, data);
	c.note("%s: all bit flips, truncations, deletions, insertions, duplications of a file of %zu bytes of data", di_name[iface], n);
	char w[96];
	for (size_t i = 0; i < ct.size(); i++) {
		for (int b = 0; b < 8; b++) {
			Bytes t = ct; t[i] ^= 1 << b;
			snprintf(w, sizeof w, "bit %d of byte %zu flipped", b, i);
			check_dec_as(t, pass, iface, IoPlan(), w, true);
			if (i >= 7 && i < 48) { reseal_checksum(t); snprintf(w, sizeof w, "bit %d of byte %zu flipped and checksum recomputed", b, i); check_dec_as(t, pass, iface, IoPlan(), w, false); }
		}
		Bytes t = ct; t[i] = ~t[i]; check_dec_as(t, pass, iface, IoPlan(), "byte complemented", true);
		t = ct; t.resize(i); snprintf(w, sizeof w, "truncated to %zu", i); check_dec_as(t, pass, iface, IoPlan(), w, true);
		check_dec_as(t, Bytes{ 'w' }, iface, IoPlan(), "truncated, wrong passphrase", true);
		t = ct; t.erase(t.begin() + i); snprintf(w, sizeof w, "byte %zu deleted", i); check_dec_as(t, pass, iface, IoPlan(), w, false);
		t = ct; t.insert(t.begin() + i, 0); snprintf(w, sizeof w, "zero inserted at %zu", i); check_dec_as(t, pass, iface, IoPlan(), w, false);
		t = ct; t.insert(t.begin() + i, ct[i]); check_dec_as(t, pass, iface, IoPlan(), "byte duplicated", false);
		if (i + 1 < ct.size()) { t = ct; std::swap(t[i], t[i + 1]); check_dec_as(t, pass, iface, IoPlan(), "neighbours swapped", false); }
	}
	for (int v = 0; v < 256; v++) { Bytes t = ct; t[6] = v; check_dec_as(t, pass, iface, IoPlan(), "version byte", v != 0); t.resize(7); check_dec_as(t, pass, iface, IoPlan(), "version byte, 7-byte file", true); }
	c.nontrivial();
}
// Fresh files whose two tags are changed one byte at a time.
static void tamper_tags(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes pass = s.bytes(1 + s.draw(9)), data = s.bytes(s.size(70)), salt = s.bytes(32);
	Bytes ct = ref::encrypt(pass, salt.data(), 1, 1, 1, data);
	c.note("changes to each byte of the tags of a file of %zu bytes of data, salt %s", data.size(), pt::hex(salt).substr(0, 16).c_str());
	for (size_t k = 0; k < 80; k++) {
		size_t i = k < 16 ? 48 + k : k < 48 ? 64 + k - 16 : ct.size() - 32 + k - 48;
		Bytes t = ct;
		int how = s.draw(2);
		if (how == 0) t[i] ^= 1 << s.draw(7); else if (how == 1) t[i] = 0; else t[i] = s.draw(255);
		if (t == ct) continue;
		int iface = s.draw(D_N - 1);
		OpRes D = do_dec(iface, t, pass, lims(0, 0.5, 300), 0, 1);
		int want = i < 64 ? SCRYPT_EINVAL : i < 96 ? SCRYPT_EPASS : SCRYPT_EINVAL;
		CHECK(D.rc == want, "byte %zu of %zu changed from %02x to %02x: %s returned %d, the format requires %d", i, ct.size(), ct[i], t[i], di_name[iface], D.rc, want);
		if (i < 96) CHECK(D.sink.empty(), "output written although the header was refused");
	}
	c.nontrivial();
}
static void verify_bytes(pt::Ctx &c)
{
	pt::Src &s = c.s;
	size_t n = s.chance(1, 2) ? s.size(100) : s.size(3000);
	size_t o1 = s.draw(15), o2 = s.draw(15);
	Bytes a(o1 + n), b(o2 + n), x = s.bytes(n);
	std::copy(x.begin(), x.end(), a.begin() + o1); std::copy(x.begin(), x.end(), b.begin() + o2);
	int k = s.draw(3);
	bool eq = true;
	if (n) switch (k) {
	case 0: break;
	case 1: { size_t i = s.draw(n - 1); b[o2 + i] ^= 1 << s.draw(7); break; }
	case 2: { size_t i = s.draw(n - 1), j = s.draw(n - 1); uint8_t m = 1 + s.draw(254); b[o2 + i] ^= m; b[o2 + j] ^= m; break; }	// cancel under xor
	case 3: { size_t i = s.draw(n - 1), j = s.draw(n - 1); b[o2 + i] += 1; b[o2 + j] -= 1; break; }	// cancel under sum
	}
	eq = !memcmp(&a[0] + o1, &b[0] + o2, n);
	c.note("n=%zu offsets=%zu,%zu kind=%d equal=%d", n, o1, o2, k, eq);
	int rc = crypto_verify_bytes(a.data() + o1, b.data() + o2, n);
	CHECK((rc == 0) == eq, "crypto_verify_bytes returned %d for %s buffers", rc, eq ? "equal" : "different");
	if (!eq) c.nontrivial();
}
// --- C08: hostile input
static std::string human(uint64_t v)
{	// documented humansize format
	char b[64];
	if (v < 1000) { snprintf(b, sizeof b, "%d B", (int)v); return b; }
	static const char pre[] = " kMGTPE";
	int e = 0; unsigned __int128 u = 1;
	while ((unsigned __int128)v >= u * 1000) { u *= 1000; e++; }
	uint64_t whole = (uint64_t)(v / u);
	if (whole < 10) snprintf(b, sizeof b, "%d.%d %cB", (int)whole, (int)((v % u) * 10 / u), pre[e]);
	else snprintf(b, sizeof b, "%d %cB", (int)whole, pre[e]);
	return b;
}
static std::string info_text(int logN, uint32_t r, uint32_t p)
{
	unsigned __int128 m = (unsigned __int128)128 * r << logN;
	uint64_t mm = m > ~0ULL ? ~0ULL : (uint64_t)m;
	char b[256];
	snprintf(b, sizeof b, "Parameters used: N = %llu; r = %u; p = %u;\n    Decrypting this file requires at least %s of memory.\n", (unsigned long long)(1ULL << logN), r, p, human(mm).c_str());
	return b;
}
// Build a file-like byte string from choices; fully determined by s.
static Bytes hostile(pt::Src &s, Bytes &pass, std::string *d)
{
	pass = s.literal(4);
	char n[160];
	unsigned kind = s.draw(6);
	if (kind == 0) { Bytes b = s.literal(200); *d = "raw"; return b; }
	uint32_t r, p; int logN;
	auto u32 = [&]() -> uint32_t { switch (s.draw(4)) { case 0: return s.range(1, 9); case 1: return 1u << s.draw(31); case 2: return (1u << s.draw(31)) + s.draw(2) - 1; case 3: return s.draw(0xffffffff); default: return s.draw(1); } };
	if (kind <= 3) { logN = s.range(1, 5); r = s.range(1, 6); p = s.range(1, 3); }
	else { logN = s.chance(1, 2) ? s.draw(255) : s.draw(66); r = u32(); p = u32(); }
	Bytes salt = s.bytes(32), data = s.bytes(s.chance(1, 10) ? s.size(70000) : s.draw(80));
	Bytes t;
	if (ref::params_valid(logN, r, p) && (double)(1ULL << logN) * r * p <= 4096) t = ref::encrypt(pass, salt.data(), logN, r, p, data);
	else { uint8_t dk[64]; memset(dk, 9, 64); t = ref::encrypt_dk(dk, salt.data(), logN, r, p, data); }
	snprintf(n, sizeof n, "logN=%d r=%u p=%u data=%zu", logN, r, p, data.size()); *d = n;
	unsigned muts = s.draw(3);
	for (unsigned k = 0; k < muts; k++) {
		switch (s.draw(4)) {
		case 0: { size_t i = s.draw(t.size() - 1); t[i] ^= 1 << s.draw(7); snprintf(n, sizeof n, "; flip in byte %zu", i); break; }
		case 1: { size_t i = s.draw(t.size()); t.resize(i); snprintf(n, sizeof n, "; truncated to %zu", i); break; }
		case 2: { size_t i = t.size() > 32 ? t.size() - s.draw(64 < t.size() ? 64 : t.size()) : 0; t.resize(i); snprintf(n, sizeof n, "; truncated to %zu", i); break; }
		case 3: { Bytes x = s.literal(60); t.insert(t.end(), x.begin(), x.end()); snprintf(n, sizeof n, "; appended %zu", x.size()); break; }
		default: if (t.size() >= 64) { size_t i = s.range(6, 15); t[i] = s.draw(255); reseal_checksum(t); snprintf(n, sizeof n, "; byte %zu = %02x resealed", i, t[i]); } else n[0] = 0;
		}
		*d += n;
		if (t.empty()) break;
	}
	return t;
}
// dec_bytes: classification of any input by every interface and by info, with
// limits on a virtual machine so that nothing expensive can run.
static void dec_bytes(pt::Ctx &c)
{
	pt::Src &s = c.s;
	std::string d; Bytes pass;
	uint64_t mem = s.pick<uint64_t>({ 1ULL << 24, 1ULL << 20, 3ULL << 30, 1ULL << 50, ~0ULL });
	uint64_t us = s.pick<uint64_t>({ 1, 10, 1000 });
	int force = s.draw(1), verbose = s.draw(1), iface = s.draw(D_N);
	double maxtime = s.pick<double>({ 300, 0, 0.01, 1e6, INFINITY });
	Bytes t = hostile(s, pass, &d);
	IoPlan pl = gen_plan(s);
	c.note("%s %s; %zu bytes; force=%d mem=%llu us=%llu maxtime=%g", iface == D_N ? "info" : di_name[iface], d.c_str(), t.size(), force, (unsigned long long)mem, (unsigned long long)us, maxtime);
	vm(mem, us); mock.track = true;
	ref::Result R = ref::decrypt(t, pass, 1 << 14);
	if (iface == D_N) {
		std::string err; size_t used = 0;
		int rc = do_info(t, err, pl, &used);
		int want;
		if (t.size() < 7 || memcmp(t.data(), "scrypt", 6)) want = SCRYPT_EINVAL;
		else if (t[6]) want = SCRYPT_EVERSION;
		else if (t.size() < 96) want = SCRYPT_EINVAL;
		else want = ref::params_valid(R.logN, R.r, R.p) ? 0 : SCRYPT_EINVAL;
		CHECK(rc == want, "info returned %d, want %d", rc, want);
		std::string text = want == 0 ? info_text(R.logN, R.r, R.p) : "";
		CHECK(err == text, "info printed \"%s\", want \"%s\"", err.c_str(), text.c_str());
		if (t.size() >= 96) c.nontrivial();
		c.tag("info");
		CHECK(mock_leaks().empty(), "info: %s", mock_leaks().c_str());
		return;
	}
	bool shortbuf = iface == D_BUF && t.size() >= 7 && t.size() < 128 && !memcmp(t.data(), "scrypt\0", 7);
	if (!R.params || shortbuf) {	// refused before any computation
		int want = shortbuf ? SCRYPT_EINVAL : R.code;
		OpRes D = do_dec(iface, t, pass, lims(0, 0.5, maxtime), verbose, force, pl);
		CHECK(D.rc == want, "%s returned %d, want %d", di_name[iface], D.rc, want);
		CHECK(mock.kdf_calls.empty(), "the KDF was computed for an invalid file");
		CHECK(D.out.empty() && D.sink.empty(), "output written for an invalid file");
		if (t.size() >= 48) c.nontrivial();
		c.tag("invalid");
	} else {
		double cost = (double)(1ULL << R.logN) * R.r * R.p;
		uint64_t ml = (uint64_t)((double)mem * 0.5); if (mem == ~0ULL) ml = 1ULL << 63; if (ml < 1 << 20) ml = 1 << 20;
		unsigned __int128 need = (unsigned __int128)128 * R.r << R.logN;
		double opps = 64e6 / us, lim = opps * maxtime;
		bool big = need > ml, slow = 4 * cost > lim;
		if (!std::isinf(lim) && lim > 0 && std::fabs(4 * cost / lim - 1) < 1e-9) throw pt::Discard{};
		bool cheap = R.code != -1;
		mock.kdf_mode = cheap ? 0 : 1;
		OpRes D = do_dec(iface, t, pass, lims(0, 0.5, maxtime), verbose, force, pl);
		int want = cheap ? file_code(R, t.size(), iface) : SCRYPT_EKEY;
		if (!force && big && slow) want = SCRYPT_EBIGSLOW;
		else if (!force && big) want = SCRYPT_ETOOBIG;
		else if (!force && slow) want = SCRYPT_ETOOSLOW;
		CHECK(D.rc == want, "%s returned %d, want %d (N=2^%d r=%u p=%u)", di_name[iface], D.rc, want, R.logN, R.r, R.p);
		CHECK((mock.kdf_calls.size() == 0) == (!force && (big || slow)), "KDF calls: %zu", mock.kdf_calls.size());
		for (auto &k : mock.kdf_calls) CHECK(k.N == 1ULL << R.logN && k.r == R.r && k.p == R.p, "KDF computed with N=%llu r=%u p=%u", (unsigned long long)k.N, k.r, k.p);
		CHECK(D.P.logN == R.logN && D.P.r == R.r && D.P.p == R.p, "parameters reported to the caller are not the header's");
		if (want == 0) CHECK(D.out == R.plain, "wrong plaintext");
		c.nontrivial();
		char tg[32]; snprintf(tg, sizeof tg, "code %d", want); c.tag(tg);
	}
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
	CHECK(mock.misuse.empty(), "%s", mock.misuse[0].c_str());
}
// libFuzzer: the bytes are the file, the first two choose the interface. Body
// MACs are not recomputed, so the search is over headers and lengths; resealing
// bit lets it get past the checksum.
static void dec_fuzz(pt::Ctx &c)
{
	pt::Src &s = c.s;
	unsigned sel = s.draw(255), mode = s.draw(255);
	Bytes t;
	if (s.mode == pt::Src::BYTES) { t.assign(s.data, s.data + s.len); }
	else { t.resize(s.draw(400)); for (auto &b : t) b = s.draw(255); }
	if (s.mode == pt::Src::BYTES) { s.rec.push_back(t.size() > 400 ? 400 : t.size()); if (t.size() > 400) t.resize(400); for (auto b : t) s.rec.push_back(b); }
	if (mode & 1 && t.size() >= 7) memcpy(t.data(), "scrypt\0", 7);
	if (mode & 2 && t.size() >= 64) { t[7] &= 0x47; t[8] = t[9] = 0; t[12] = t[13] = 0; }
	if (mode & 4 && t.size() >= 64) reseal_checksum(t);
	Bytes pass(sel >> 4, 'p');
	if (mode & 8 && t.size() >= 128 && ref::params_valid(t[7], (uint32_t)t[10] << 8 | t[11], (uint32_t)t[14] << 8 | t[15]) && t[7] < 6 && t[10] == 0 && t[14] == 0) {
		Bytes data(t.begin() + 96, t.end() - 32);
		t = ref::encrypt(pass, &t[16], t[7], t[11], t[15], data);
		if (mode & 16) t[t.size() - 1 - (sel & 15)] ^= 1;
	}
	int iface = sel % 4;
	vm(1 << 26, 1); mock.track = true;
	ref::Result R = ref::decrypt(t, pass, 1 << 13);
	c.note("iface=%d %zu bytes: %s", iface, t.size(), pt::hex(t, 130).c_str());
	if (t.size() >= 96) c.nontrivial();
	if (iface == 3) {
		std::string err; int rc = do_info(t, err);
		int want = t.size() < 7 || memcmp(t.data(), "scrypt", 6) ? SCRYPT_EINVAL : t[6] ? SCRYPT_EVERSION : t.size() < 96 ? SCRYPT_EINVAL : ref::params_valid(R.logN, R.r, R.p) ? 0 : SCRYPT_EINVAL;
		CHECK(rc == want, "info returned %d, want %d", rc, want);
		CHECK(err == (want ? std::string() : info_text(R.logN, R.r, R.p)), "info printed \"%s\"", err.c_str());
		return;
	}
	mock.kdf_mode = R.code == -1 ? 1 : 0;
	bool shortbuf = iface == D_BUF && t.size() >= 7 && t.size() < 128 && !memcmp(t.data(), "scrypt\0", 7);
	int want = shortbuf ? SCRYPT_EINVAL : R.code == -1 ? SCRYPT_EKEY : file_code(R, t.size(), iface);
	if (R.params && !shortbuf) {
		unsigned __int128 need = (unsigned __int128)128 * R.r << R.logN;
		double cost = 4.0 * (double)(1ULL << R.logN) * R.r * R.p;
		bool big = need > (1 << 25), slow = cost > 64e6 * 300;
		if (big && slow) want = SCRYPT_EBIGSLOW; else if (big) want = SCRYPT_ETOOBIG; else if (slow) want = SCRYPT_ETOOSLOW;
	}
	OpRes D = do_dec(iface, t, pass, lims(0, 0.5, 300), sel >> 3 & 1, 0);
	CHECK(D.rc == want, "%s returned %d, want %d", di_name[iface], D.rc, want);
	if (want == 0) CHECK(D.out == R.plain, "wrong plaintext");
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
}

std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	auto add = [&](const char *n, std::function<void(pt::Ctx &)> f, const char *rule, uint64_t en = 0, double tmo = 60, bool fe = false, unsigned rot = 0) {
		pt::Target t{ n, f, rule }; t.enum_n = en; t.case_timeout = tmo; t.fork_each = fe; t.hwrot = rot; v.push_back(t); };
	add("enc_format", enc_format, "non-empty data", 0, 60, true, 0x1d);
	add("dec_conform", dec_conform, "non-empty data", 0, 60, false, 0x1f);
	add("format_params", format_params, "every case", 0, 60, true, 0x1d);
	add("enc_lengths", enc_lengths, "non-empty data", NLENS, 200);
	add("enc_history", enc_history, "more than two operations", 0, 60, true, 0x1d);
	add("enc_large", enc_large, "every case", 5, 300);
	add("enc_huge", enc_huge, "every case", 3, 400);
	add("tamper_random", tamper_random, "the file or the passphrase differs from the genuine one");
	add("tamper_large", tamper_large, "the file was changed");
	add("tamper_huge", enc_huge, "every case", 1, 400);
	add("tamper_bits", tamper_bits, "every case (each tries all single-site changes of one file through one interface)", 18, 300);
	add("verify_bytes", verify_bytes, "the buffers differ");
	add("tamper_tags", tamper_tags, "every case");
	add("dec_bytes", dec_bytes, "at least a whole header (or 48 bytes)");
	add("dec_fuzz", dec_fuzz, "at least 96 bytes");
	return v;
}
