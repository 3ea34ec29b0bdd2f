// Helpers shared by the harnesses that drive the scryptenc interfaces.
#pragma once
#include "scan.hpp"
#include "mock.hpp"
#include "pt.hpp"
#include "ref.hpp"
#include <cerrno>
#include <algorithm>
#include <cmath>
#include <memory>
#include <cstdio>
extern "C" {
#include "scryptenc.h"
}
// Everything the code prints on stderr while this object lives.
struct CapErr {
	FILE *f, *old; char *buf = nullptr; size_t n = 0; bool done = false;
	CapErr() { f = open_memstream(&buf, &n); old = stderr; stderr = f; }
	std::string end() {
		if (done) return std::string(buf, n);
		done = true; stderr = old; fclose(f);
		return std::string(buf, n);
	}
	~CapErr() { end(); free(buf); }
};
// The same on a stream whose every write changes errno (and may fail).
struct NoisyErr {
	FILE *f, *old; std::string out; int noise; bool fail, done = false;
	static ssize_t wr(void *c, const char *b, size_t n) {
		NoisyErr *s = (NoisyErr *)c;
		errno = s->noise;
		if (s->fail) return 0;
		s->out.append(b, n);
		return n;
	}
	NoisyErr(int noise_, bool fail_, int buf) : noise(noise_), fail(fail_) {
		cookie_io_functions_t io = { nullptr, wr, nullptr, nullptr };
		old = stderr; f = fopencookie(this, "w", io);
		setvbuf(f, nullptr, buf, 0);
		stderr = f;
	}
	std::string end() {
		if (done) return out;
		done = true; stderr = old; fclose(f);
		return out;
	}
	~NoisyErr() { end(); }
};
// A FILE whose data arrives in chosen pieces and may fail.
struct SrcIO {
	const Bytes *d; size_t pos = 0;
	long err_at = -1; int err_no = EIO; bool transient = false, erred = false;
	std::vector<uint32_t> chunks; size_t ci = 0;
	long reads = 0;
	static ssize_t rd(void *c, char *b, size_t n) {
		SrcIO *s = (SrcIO *)c;
		s->reads++;
		size_t left = s->d->size() - s->pos;
		if (s->err_at >= 0 && !(s->transient && s->erred)) {
			if (s->pos >= (size_t)s->err_at) { s->erred = true; errno = s->err_no; return -1; }
			if (left > (size_t)s->err_at - s->pos) left = (size_t)s->err_at - s->pos;
		}
		if (n > left) n = left;
		if (!s->chunks.empty()) { uint32_t k = s->chunks[s->ci++ % s->chunks.size()]; if (k && n > k) n = k; }
		if (n) memcpy(b, s->d->data() + s->pos, n);
		s->pos += n;
		return n;
	}
};
struct SinkIO {
	Bytes out; long fail_at = -1; bool transient = false, failed = false; int err_no = ENOSPC;
	bool close_fail = false;
	static ssize_t wr(void *c, const char *b, size_t n) {
		SinkIO *s = (SinkIO *)c;
		size_t k = n;
		if (s->fail_at >= 0 && !(s->transient && s->failed)) {
			size_t room = (size_t)s->fail_at > s->out.size() ? s->fail_at - s->out.size() : 0;
			if (k > room) { k = room; s->failed = true; }
		}
		s->out.insert(s->out.end(), b, b + k);
		if (k < n) errno = s->err_no;
		return k;
	}
	static int cl(void *c) { SinkIO *s = (SinkIO *)c; if (s->close_fail) { errno = EIO; return -1; } return 0; }
};
inline FILE *open_src(SrcIO *s, int bufmode, size_t bufsz) {
	cookie_io_functions_t f = { SrcIO::rd, nullptr, nullptr, nullptr };
	FILE *fp = fopencookie(s, "rb", f);
	if (bufmode == 1) setvbuf(fp, nullptr, _IONBF, 0);
	else if (bufmode == 2) setvbuf(fp, nullptr, _IOFBF, bufsz);
	return fp;
}
inline FILE *open_sink(SinkIO *s, int bufmode, size_t bufsz) {
	cookie_io_functions_t f = { nullptr, SinkIO::wr, nullptr, SinkIO::cl };
	FILE *fp = fopencookie(s, "wb", f);
	if (bufmode == 1) setvbuf(fp, nullptr, _IONBF, 0);
	else if (bufmode == 2) setvbuf(fp, nullptr, _IOFBF, bufsz);
	return fp;
}
struct IoPlan { int ibuf = 0, obuf = 0; size_t isz = 4096, osz = 4096; std::vector<uint32_t> chunks;
	long rerr = -1, werr = -1; bool rtrans = false, wtrans = false; bool close_fail = false; };
inline IoPlan gen_plan(pt::Src &s) {
	IoPlan p;
	if (s.chance(1, 2)) return p;
	p.ibuf = s.draw(2); p.obuf = s.draw(2);
	p.isz = s.pick<size_t>({ 4096, 1, 7, 64, 512, 65536, 65568, 200000 });
	p.osz = s.pick<size_t>({ 4096, 1, 33, 96, 65536, 200000 });
	for (uint64_t n = s.draw(4); n; n--) p.chunks.push_back((uint32_t)s.size(70000));
	return p;
}
// Result of one operation through any interface.
struct OpRes {
	int rc = -99; Bytes out; scryptenc_params P{}; std::string err;
	bool rd_erred = false, wr_failed = false;	// during the library call
	int close_rc = 0; Bytes sink; size_t consumed = 0;
	int where = 0;		// 1: prep failed, 2: copy
};
enum { E_BUF, E_FILE, E_N };
enum { D_BUF, D_FILE, D_PREP, D_N };
#define CAN 0x5C
inline OpRes do_enc(int iface, const Bytes &data, const Bytes &pass, scryptenc_params P, int verbose, int force, const IoPlan &pl = IoPlan())
{
	OpRes R; R.P = P;
	CapErr ce;
	Bytes in(data), pw(pass);	// exact-size heap copies
	if (iface == E_BUF) {
		uint8_t *full = (uint8_t *)malloc(data.size() + 128 + 64);
		memset(full, CAN, data.size() + 128 + 64);
		uint8_t *exact = (uint8_t *)malloc(data.size() + 128);	// ASAN catches overruns here
		memset(exact, CAN, data.size() + 128);
		bool useexact = (data.size() & 1);
		uint8_t *o = useexact ? exact : full + 32;
		mock.on = true;
		deep([&] { R.rc = scryptenc_buf(in.data(), in.size(), o, pw.data(), pw.size(), &R.P, verbose, force); });
		mock.on = false;
		R.out.assign(o, o + data.size() + 128);
		bool bad = false;
		for (int i = 0; i < 32; i++) bad |= full[i] != CAN || full[32 + data.size() + 128 + i] != CAN;
		if (useexact) for (size_t i = 0; i < data.size() + 192; i++) bad |= full[i] != CAN;
		free(full); free(exact);
		CHECK(!bad, "scryptenc_buf wrote outside the %zu-byte output buffer", data.size() + 128);
	} else {
		SrcIO si; si.d = &in; si.chunks = pl.chunks; si.err_at = pl.rerr; si.transient = pl.rtrans;
		SinkIO so; so.fail_at = pl.werr; so.transient = pl.wtrans; so.close_fail = pl.close_fail;
		FILE *fi = open_src(&si, pl.ibuf, pl.isz), *fo = open_sink(&so, pl.obuf, pl.osz);
		mock.on = true;
		deep([&] { R.rc = scryptenc_file(fi, fo, pw.data(), pw.size(), &R.P, verbose, force); });
		mock.on = false;
		R.rd_erred = si.erred; R.wr_failed = so.failed; R.consumed = si.pos;
		R.close_rc = fclose(fo); fclose(fi);
		R.out = so.out;
	}
	CHECK(in == data, "input buffer modified by encryption");
	CHECK(pw == pass, "passphrase buffer modified by encryption");
	R.err = ce.end();
	return R;
}
inline OpRes do_dec(int iface, const Bytes &ct, const Bytes &pass, scryptenc_params P, int verbose, int force, const IoPlan &pl = IoPlan())
{
	OpRes R; R.P = P;
	CapErr ce;
	Bytes in(ct), pw(pass);
	if (iface == D_BUF) {
		uint8_t *o = (uint8_t *)malloc(ct.size() + 64), *exact = (uint8_t *)malloc(ct.size() + !ct.size());
		memset(o, CAN, ct.size() + 64);
		bool useexact = ct.size() & 1;
		uint8_t *b = useexact ? exact : o + 32;
		size_t outlen = 0x5a5a5a5a;
		mock.on = true;
		deep([&] { R.rc = scryptdec_buf(in.data(), in.size(), b, &outlen, pw.data(), pw.size(), &R.P, verbose, force); });
		mock.on = false;
		bool bad = false;
		for (int i = 0; i < 32; i++) bad |= o[i] != CAN || o[32 + ct.size() + i] != CAN;
		if (R.rc == 0 && outlen <= ct.size()) R.out.assign(b, b + outlen);
		free(o); free(exact);
		CHECK(!bad, "scryptdec_buf wrote outside the %zu-byte output buffer", ct.size());
		CHECK(R.rc != 0 || outlen <= ct.size(), "scryptdec_buf reports %zu bytes of output from %zu bytes of input", outlen, ct.size());
	} else {
		SrcIO si; si.d = &in; si.chunks = pl.chunks; si.err_at = pl.rerr; si.transient = pl.rtrans;
		SinkIO so; so.fail_at = pl.werr; so.transient = pl.wtrans; so.close_fail = pl.close_fail;
		FILE *fi = open_src(&si, pl.ibuf, pl.isz), *fo = open_sink(&so, pl.obuf, pl.osz);
		mock.on = true;
		deep([&] { if (iface == D_FILE)
			R.rc = scryptdec_file(fi, fo, pw.data(), pw.size(), &R.P, verbose, force);
		else {
			struct scryptdec_file_cookie *C = nullptr;
			R.rc = scryptdec_file_prep(fi, pw.data(), pw.size(), &R.P, verbose, force, &C);
			R.where = 1;
			if (R.rc == 0) { R.rc = scryptdec_file_copy(C, fo); R.where = 2; scryptdec_file_cookie_free(C); }
		} });
		mock.on = false;
		R.rd_erred = si.erred; R.wr_failed = so.failed; R.consumed = si.pos;
		R.close_rc = fclose(fo); fclose(fi);
		R.sink = so.out;
		R.out = so.out;
	}
	CHECK(in == ct, "input buffer modified by decryption");
	CHECK(pw == pass, "passphrase buffer modified by decryption");
	R.err = ce.end();
	return R;
}
inline int do_info(const Bytes &in, std::string &err, const IoPlan &pl = IoPlan(), size_t *consumed = nullptr, bool *erred = nullptr)
{
	CapErr ce;
	SrcIO si; si.d = &in; si.chunks = pl.chunks; si.err_at = pl.rerr; si.transient = pl.rtrans;
	FILE *fi = open_src(&si, pl.ibuf, pl.isz);
	mock.on = true;
	int rc = scryptdec_file_printparams(fi);
	mock.on = false;
	fclose(fi);
	err = ce.end();
	if (consumed) *consumed = si.pos;
	if (erred) *erred = si.erred;
	return rc;
}
static const char *const ei_name[] = { "scryptenc_buf", "scryptenc_file" };
static const char *const di_name[] = { "scryptdec_buf", "scryptdec_file", "scryptdec_file_prep+copy" };
inline scryptenc_params expl(int logN, uint32_t r, uint32_t p) { scryptenc_params P = { 0, 0.5, 300.0, logN, r, p }; return P; }
inline scryptenc_params lims(size_t maxmem, double frac, double t) { scryptenc_params P = { maxmem, frac, t, 0, 0, 0 }; return P; }
// Virtual machine: memory M bytes, k microseconds per 64 salsa20/8 cores.
inline void vm(uint64_t mem, uint64_t us_per_64, bool kdf = true)
{
	mock.mem = true; mock.totalram = mem; mock.mem_unit = 1; mock.physpages = -1;
	mock.clk = true; mock.clk_now = 1234567000ULL * 1000; mock.clk_res = 1; mock.clk_calls_left = 2000000;
	mock.clk_ns_per_core_num = us_per_64 * 1000; mock.clk_ns_per_core_den = 64;
	mock.kdf_virtual = kdf; mock.kdf_mode = 1;
}
// Deterministic OS entropy for a fresh process.
inline void vrandom(uint64_t seed)
{
	hw_mask &= ~2u;		// no RDRAND: output is then a function of the seed
	mock.rnd = true;
	auto r = std::make_shared<pt::Rng>(pt::Rng{ seed });
	mock.rnd_read = [r](uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)r->next(); return (long)n; };
}
inline Bytes gen_data(pt::Src &s) { size_t n = s.chance(1, 5) ? s.size(200000) : s.size(1200); return s.bytes(n); }
inline Bytes gen_pass(pt::Src &s) { return s.chance(1, 3) ? s.literal(12) : s.bytes(s.size(s.chance(1, 10) ? 5000 : 140)); }
