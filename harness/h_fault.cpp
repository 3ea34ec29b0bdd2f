// C14, C15, C19: failing I/O, failing system calls and allocations, wiping.
#include <algorithm>
#include <csetjmp>
#include <map>
#include <memory>
#include "encio.hpp"
extern "C" {
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "readpass.h"
#include "sha256.h"
}
// ---------------------------------------------------------------- C14
static Bytes file_for(const Bytes &pass, const Bytes &data, int logN = 1, uint32_t r = 1, uint32_t p = 1)
{
	uint8_t salt[32]; for (int i = 0; i < 32; i++) salt[i] = i * 5 + 1;
	return ref::encrypt(pass, salt, logN, r, p, data);
}
enum { OP_ENC, OP_DEC, OP_PREP };
static const char *const opn[] = { "scryptenc_file", "scryptdec_file", "scryptdec_file_prep+copy" };
// One operation with one I/O fault; the claims about its result.
static void io_case(int op, const Bytes &data, IoPlan pl, bool fault_read)
{
	Bytes pass = { 'p', 'w' };
	Bytes ct = file_for(pass, data);
	const Bytes &in = op == OP_ENC ? data : ct;
	mock.track = true;
	OpRes R = op == OP_ENC ? do_enc(E_FILE, data, pass, expl(1, 1, 1), 0, 1, pl) :
	    do_dec(op == OP_DEC ? D_FILE : D_PREP, ct, pass, lims(0, 0.5, 300), 0, 1, pl);
	PCHECK("C15", mock_leaks().empty(), "%s: after a %s error (code %d): %s", opn[op], fault_read ? "read" : "write", R.rc, mock_leaks().c_str());
	auto good = [&](const Bytes &o) {
		if (op != OP_ENC) return o == data;
		return o.size() == data.size() + 128 && o == ref::encrypt(pass, o.data() + 16, 1, 1, 1, data);
	};
	if (fault_read) {
		CHECK(R.rd_erred || (size_t)pl.rerr > in.size(), "HARNESS: the error at %ld of %zu was never reached (code %d)", pl.rerr, in.size(), R.rc);
		if (R.rd_erred) CHECK(R.rc == SCRYPT_ERDFILE, "%s: reading failed at byte %ld of %zu%s, but code %d was returned", opn[op], pl.rerr, in.size(), pl.rtrans ? " (once)" : "", R.rc);
		if (R.rd_erred && op != OP_ENC && pl.rerr < 96) CHECK(R.out.empty(), "%s: output written although the header could not be read", opn[op]);
		return;
	}
	if (R.wr_failed) CHECK(R.rc == SCRYPT_EWRFILE, "%s: writing failed at byte %ld%s, but code %d was returned", opn[op], pl.werr, pl.wtrans ? " (once)" : "", R.rc);
	if (R.rc == 0 && R.close_rc == 0) CHECK(good(R.out), "%s: success reported but the output is incomplete or wrong (%zu bytes; write error at %ld)", opn[op], R.out.size(), pl.werr);
	else CHECK(R.rc == 0 || R.rc == SCRYPT_EWRFILE, "%s: code %d for a write error at %ld", opn[op], R.rc, pl.werr);
	if (R.rc) CHECK(R.wr_failed, "%s: code %d although every write succeeded", opn[op], R.rc);
}
static const int IO_BUFS = 5;
static void set_buf(IoPlan &pl, int b)
{
	static const int mode[] = { 0, 1, 2, 2, 2 }; static const size_t sz[] = { 0, 0, 32, 200, 300000 };
	pl.ibuf = pl.obuf = mode[b]; pl.isz = pl.osz = sz[b];
}
static const size_t io_sizes[] = { 0, 1, 40, 150 };
static void io_enum(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	int op = i % 3; i /= 3; int kind = i % 4; i /= 4; int buf = i % IO_BUFS; i /= IO_BUFS;
	size_t n = io_sizes[i % 4];
	static const char *kn[] = { "read error", "single read error", "write error", "single write error" };
	c.note("%s data=%zu bytes, %s at every byte position, buffering %d", opn[op], n, kn[kind], buf);
	Bytes data(n, 'd');
	size_t inlen = op == OP_ENC ? n : n + 128, outlen = op == OP_ENC ? n + 128 : n;
	size_t lim = kind < 2 ? inlen : outlen;
	for (size_t k = 0; k <= lim; k++)
		for (uint32_t ch : { 0u, 1u, 50u }) {
			IoPlan pl; set_buf(pl, buf);
			if (ch) pl.chunks = { ch };
			if (kind < 2) { pl.rerr = k; pl.rtrans = kind & 1; } else { pl.werr = k; pl.wtrans = kind & 1; }
			io_case(op, data, pl, kind < 2);
		}
	c.nontrivial();
}
static const uint64_t IO_N = 3 * 4 * IO_BUFS * 4;
static void io_random(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int op = s.draw(2), kind = s.draw(3);
	size_t n = s.chance(1, 2) ? s.size(3000) : s.size(300000);
	IoPlan pl = gen_plan(s);
	if (s.chance(1, 3)) set_buf(pl, s.draw(IO_BUFS - 1));
	size_t inlen = op == OP_ENC ? n : n + 128, outlen = op == OP_ENC ? n + 128 : n;
	size_t lim = kind < 2 ? inlen : outlen;
	size_t at;
	switch (s.draw(3)) {
	case 0: at = s.draw(lim); break;
	case 1: at = lim - s.draw(std::min<size_t>(lim, 40)); break;
	case 2: at = (s.draw(lim) / 4096) * 4096; break;
	default: at = (s.draw(lim) / 65536) * 65536 + s.draw(100); if (at > lim) at = lim; break;
	}
	if (kind < 2) { pl.rerr = at; pl.rtrans = kind & 1; } else { pl.werr = at; pl.wtrans = kind & 1; }
	c.note("%s data=%zu bytes, %s%s error at %zu of %zu; ibuf=%d/%zu obuf=%d/%zu chunks=%zu", opn[op], n, kind & 1 ? "single " : "", kind < 2 ? "read" : "write", at, lim, pl.ibuf, pl.isz, pl.obuf, pl.osz, pl.chunks.size());
	io_case(op, s.bytes(n), pl, kind < 2);
	c.nontrivial();
	c.tag(kind < 2 ? "read" : "write");
}
// ---------------------------------------------------------------- C15
struct Scen { const char *name; int op; int iface; int logN; bool force, verbose; };
static const Scen scen[] = {
	{ "enc buf explicit forced", 0, E_BUF, 2, true, false },
	{ "enc buf explicit", 0, E_BUF, 2, false, true },
	{ "enc buf picked", 0, E_BUF, 0, false, false },
	{ "enc file explicit forced", 0, E_FILE, 2, true, true },
	{ "enc file explicit", 0, E_FILE, 2, false, false },
	{ "enc file picked", 0, E_FILE, 0, false, true },
	{ "dec buf", 1, D_BUF, 2, false, false },
	{ "dec buf forced", 1, D_BUF, 2, true, true },
	{ "dec file", 1, D_FILE, 2, false, true },
	{ "dec file forced", 1, D_FILE, 2, true, false },
	{ "prep and copy", 1, D_PREP, 2, false, false },
	{ "prep and copy forced", 1, D_PREP, 2, true, false },
	{ "info", 2, 0, 2, false, false },
	{ "random bytes", 3, 0, 0, false, false },
};
static const int NSCEN = sizeof scen / sizeof *scen;
struct ScenOut { int rc; bool right; Bytes out; bool sink_empty; int where; };
static ScenOut run_scen(const Scen &S, const Bytes &pass, const Bytes &data, const IoPlan &pl)
{
	ScenOut o = { 0, true, Bytes(), true, 0 };
	if (S.op == 0) {
		OpRes E = do_enc(S.iface, data, pass, S.logN ? expl(S.logN, 1, 1) : lims(1 << 20, 0.125, 0), S.verbose, S.force, pl);
		o.rc = E.rc ? E.rc : E.close_rc ? SCRYPT_EWRFILE : 0;
		if (o.rc == 0) o.right = E.out.size() == data.size() + 128 && E.out == ref::encrypt(pass, E.out.data() + 16, E.P.logN, E.P.r, E.P.p, data);
		o.out = E.out;
		o.sink_empty = E.out.empty();
	} else if (S.op == 1) {
		OpRes D = do_dec(S.iface, file_for(pass, data, S.logN), pass, lims(0, 0.5, 300), S.verbose, S.force, pl);
		o.rc = D.rc; o.right = D.out == data; o.where = D.where; o.sink_empty = D.sink.empty();
	} else if (S.op == 2) {
		std::string e;
		o.rc = do_info(file_for(pass, data, S.logN), e, pl);
		o.right = o.rc || e.find("N = 4; r = 1; p = 1;") != std::string::npos;
	} else {
		uint8_t b[100]; memset(b, 0, sizeof b);
		CapErr ce;
		mock.on = true;
		int rc = crypto_entropy_read(b, 96);
		mock.on = false;
		o.rc = rc ? SCRYPT_ESALT : 0;
		o.right = rc || (b[96] == 0 && memcmp(b, b + 32, 32) && memcmp(b, b + 64, 32));
	}
	return o;
}
static void fault_env()
{
	mock.mem = true; mock.totalram = 1ULL << 30; mock.physpages = 1 << 18;
	mock.clk = true; mock.clk_now = 5000000000ULL; mock.clk_res = 1; mock.clk_step = 2000000; mock.clk_calls_left = 1000000;
	mock.track = true;
}
// Running out of memory is survivable in two places: while formatting sizes for
// a report, and in the self-test of the AES instructions (software AES is then
// used).  The output of an operation that reports success is checked anyway.
static bool allowed(int rc, int kind, int e)
{
	if (rc == 0 && kind == K_MALLOC) return true;
	auto in = [&](std::initializer_list<int> l) { return std::find(l.begin(), l.end(), rc) != l.end(); };
	switch (kind) {
	case K_MALLOC: case K_STRDUP: return in({ SCRYPT_ENOMEM, SCRYPT_EOPENSSL, SCRYPT_EKEY, SCRYPT_ESALT });
	case K_POSIX_MEMALIGN: return in({ SCRYPT_EKEY, SCRYPT_ENOMEM, SCRYPT_EOPENSSL });
	case K_MMAP: case K_MUNMAP: return in({ SCRYPT_EKEY });
	case K_OPEN: return in({ SCRYPT_ESALT });
	case K_READ: return rc == 0 ? e == EINTR || e == EAGAIN : in({ SCRYPT_ESALT });
	case K_CLOSE: return rc == 0 ? e == EINTR : in({ SCRYPT_ESALT });
	case K_CLOCK_GETTIME: case K_CLOCK_GETRES: case K_GETTIMEOFDAY: return rc == 0 ? e == ENOSYS || e == EINVAL : in({ SCRYPT_ECLOCK });
	case K_GETRLIMIT: case K_SYSINFO: return in({ SCRYPT_ELIMIT });
	case K_SYSCONF: return rc == 0 ? e == EINVAL : in({ SCRYPT_ELIMIT });
	default: return false;
	}
}
static const int errs[] = { 0, EINTR, ENOSYS, EINVAL, EAGAIN };
static const int MAXCALLS = 64;
static void check_fault(pt::Ctx &c, const Scen &S, const Bytes &pass, const Bytes &data, const IoPlan &pl)
{
	ScenOut o = run_scen(S, pass, data, pl);
	std::vector<int> failed = mock.failed_kinds;
	std::string leaks = mock_leaks();
	std::string fk; for (int k : failed) { fk += kind_name[k]; fk += " "; }
	if (failed.empty()) CHECK(o.rc == 0, "code %d without any fault", o.rc);
	else {
		bool ok = false;
		for (size_t i = 0; i < failed.size(); i++) ok |= allowed(o.rc, failed[i], mock.fail_errno.empty() ? 0 : mock.fail_errno[0]);
		if (o.rc == 0) {	// every fault must have a documented fallback
			ok = true;
			for (size_t i = 0; i < failed.size(); i++) ok &= allowed(0, failed[i], mock.fail_errno.empty() ? 0 : mock.fail_errno[0]);
		}
		CHECK(ok, "code %d after failure of: %s", o.rc, fk.c_str());
	}
	CHECK(o.rc != 0 || o.right, "success reported with wrong data after failure of: %s", fk.c_str());
	if (o.rc && o.where == 1) CHECK(o.sink_empty, "output written although the preparation failed");
	CHECK(leaks.empty(), "after failure of %s(code %d): %s", fk.c_str(), o.rc, leaks.c_str());
	if (!failed.empty()) { c.nontrivial(); c.tag(kind_name[failed[0]]); }
	// a later attempt without the fault succeeds
	mock.fail_at.clear(); mock.failed_kinds.clear();
	mock.live.clear(); mock.maps.clear(); mock.live_fds = 0;
	o = run_scen(S, pass, data, pl);
	CHECK(o.rc == 0 && o.right, "retry without the fault gives code %d%s", o.rc, o.right ? "" : " and wrong data");
	CHECK(mock_leaks().empty(), "retry: %s", mock_leaks().c_str());
}
static void fault_enum(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	const Scen &S = scen[i % NSCEN]; i /= NSCEN;
	int e = errs[i % 5]; i /= 5;
	int k = i;
	c.note("%s: call %d fails with errno %d", S.name, k, e);
	fault_env(); vrandom(7);
	mock.fail_at = { k }; mock.fail_errno = { e };
	check_fault(c, S, Bytes(20, 'p'), Bytes(33, 'd'), IoPlan());
	if (k == MAXCALLS - 1) CHECK(mock.call_kinds.size() / 2 < (size_t)MAXCALLS + 20, "HARNESS: more calls than enumerated");
}
static void fault_random(pt::Ctx &c)
{
	pt::Src &s = c.s;
	const Scen &S = scen[s.draw(NSCEN - 1)];
	int e = errs[s.draw(4)];
	std::vector<long> f(1 + s.draw(3));
	std::string t;
	bool warm = s.chance(1, 2);
	for (auto &x : f) x = s.draw(45);
	std::sort(f.begin(), f.end());
	for (auto x : f) t += std::to_string(x) + " ";
	Bytes pass = gen_pass(s), data = s.bytes(s.size(s.chance(1, 8) ? 150000 : 300));
	IoPlan pl = gen_plan(s);
	c.note("%s%s: calls %sfail with errno %d; data=%zu", S.name, warm ? " (not the first operation)" : "", t.c_str(), e, data.size());
	fault_env(); vrandom(s.draw(255));
	if (warm) { ScenOut o = run_scen(S, pass, data, pl); CHECK(o.rc == 0 && o.right, "code %d without any fault", o.rc); mock.ncalls = 0; mock.call_kinds.clear(); }
	mock.fail_at = f; mock.fail_errno.assign(f.size(), e);
	check_fault(c, S, pass, data, pl);
}
// Allocation limits instead of single failures (memory is nearly exhausted).
static void fault_limit(pt::Ctx &c)
{
	pt::Src &s = c.s;
	const Scen &S = scen[s.draw(NSCEN - 1)];
	size_t lim = s.size(5000);
	c.note("%s: allocations above %zu bytes fail", S.name, lim);
	fault_env(); vrandom(s.draw(255));
	mock.alloc_limit = lim ? lim : 1;
	Bytes pass = gen_pass(s), data = s.bytes(s.size(300));
	ScenOut o = run_scen(S, pass, data, IoPlan());
	CHECK(o.rc == 0 ? o.right : o.rc == SCRYPT_ENOMEM || o.rc == SCRYPT_EOPENSSL || o.rc == SCRYPT_EKEY || o.rc == SCRYPT_ESALT, "code %d", o.rc);
	CHECK(mock_leaks().empty(), "code %d: %s", o.rc, mock_leaks().c_str());
	if (o.rc) c.nontrivial();
	mock.alloc_limit = 0; mock.live.clear(); mock.maps.clear();
	o = run_scen(S, pass, data, IoPlan());
	CHECK(o.rc == 0 && o.right, "retry with enough memory gives code %d", o.rc);
}
// ---------------------------------------------------------------- C19
static const std::vector<std::string> &hmac_forms(const std::string &key)
{
	static std::map<std::string, std::vector<std::string>> m;
	auto it = m.find(key);
	if (it == m.end()) { if (m.size() > 1000) m.clear(); it = m.emplace(key, ref::hmac_key_forms(key)).first; }
	return it->second;
}
// The secrets of one operation; AES round keys only where heap is set.
static scan::Finder secrets(const std::string &pass, bool heap)
{
	scan::Finder F;
	F.add(pass, "the passphrase");
	for (auto &f : hmac_forms(pass)) F.add(f, "the passphrase as an HMAC key", 24);
	for (auto &dk : mock.dks) {
		for (auto &f : hmac_forms(dk.substr(32, 32))) F.add(f, "the derived HMAC key in HMAC's form", 24);
		F.add(dk.substr(0, 32), "the derived encryption key");
		F.add(dk.substr(32, 32), "the derived HMAC key");
		if (!heap) continue;
		uint8_t w[240];
		ref::aes256_round_keys((const uint8_t *)dk.data(), w);
		for (int r = 0; r < 15; r++) {
			std::string k((char *)w + 16 * r, 16), sw = k;
			for (int i = 0; i < 16; i++) sw[i] = k[i ^ 3];
			F.add(k, "an AES round key"); F.add(sw, "an AES round key (swapped words)");
		}
	}
	return F;
}
static void check_memory(const std::string &st, const std::string &pass, int rc)
{
	std::string f = secrets(pass, false).find(st);
	CHECK(f.empty(), "%s left in a dead stack frame after code %d", f.c_str(), rc);
	scan::Finder F = secrets(pass, true);
	for (auto &b : mock.freed) { f = F.find(b); CHECK(f.empty(), "%s left in a freed heap block of %zu bytes after code %d", f.c_str(), b.size(), rc); }
	f = F.find_static();
	CHECK(f.empty(), "%s left in a static variable after code %d", f.c_str(), rc);
}
static void wipe(pt::Ctx &c)
{
	pt::Src &s = c.s;
	const Scen &S = scen[s.draw(11)];
	Bytes pass = s.bytes(s.range(24, 200));
	for (size_t i = 0; i < pass.size(); i++) pass[i] = (uint8_t)(pt::mix(pass.size() * 1000 + i + s.in.size()) | 1);
	Bytes data = s.bytes(s.size(s.chance(1, 8) ? 150000 : 300));
	IoPlan pl = gen_plan(s);
	int kind = s.draw(5);
	static const char *kn[] = { "no fault", "failing call", "I/O error", "wrong passphrase", "bad trailing HMAC", "truncated" };
	fault_env(); vrandom(s.draw(255));
	mock.keep_freed = true;
	c.note("%s, %s; pass=%zu data=%zu hw=%x", S.name, kn[kind], pass.size(), data.size(), hw_mask & 0x1f);
	if (kind == 1) mock.fail_at = { (long)s.draw(45) };
	if (kind == 2) { if (s.chance(1, 2)) pl.rerr = s.draw(data.size() + 128); else pl.werr = s.draw(data.size() + 128); }
	OpRes R;
	Bytes ct = file_for(pass, data, 2);
	Bytes usepass = pass;
	if (kind == 3) usepass.push_back('x');
	if (kind == 4) ct[ct.size() - 1] ^= 1;
	if (kind == 5) ct.resize(96 + s.draw(ct.size() - 96));
	std::string ps((char *)usepass.data(), usepass.size());
	OpRes *pr = &R;
	// keep the harness's own copies off the scanned stack
	std::string err;
	std::string st = scan::on_stack([&] {
		try {
			if (S.op == 0) *pr = do_enc(S.iface, data, usepass, S.logN ? expl(S.logN, 1, 1) : lims(1 << 20, 0.125, 0), S.verbose, S.force, pl);
			else *pr = do_dec(S.iface, ct, usepass, lims(0, 0.5, 300), S.verbose, S.force, pl);
		} catch (pt::Fail &f) { err = f.msg; }
	});
	if (!err.empty()) pt::fail("%s", err.c_str());
	check_memory(st, ps, R.rc);
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
	if (!mock.dks.empty()) c.nontrivial();
	char t[40]; snprintf(t, sizeof t, "%s/code %d", kn[kind], R.rc); c.tag(t);
}
// A prepared handle: the keys are in it while it lives and gone when it is freed.
static void wipe_cookie(pt::Ctx &c)
{
	pt::Src &s = c.s;
	Bytes pass(40), data = s.bytes(s.size(400));
	for (size_t i = 0; i < pass.size(); i++) pass[i] = (uint8_t)(pt::mix(i * 7 + data.size()) | 1);
	Bytes ct = file_for(pass, data, 1);
	bool copy = s.draw(1);
	c.note("prepare, %s, free; data=%zu", copy ? "copy" : "no copy", data.size());
	fault_env(); mock.keep_freed = true;
	SrcIO si; si.d = &ct; FILE *f = open_src(&si, 0, 0);
	SinkIO so; FILE *fo = open_sink(&so, 0, 0);
	int rc = 0, rc2 = 0;
	std::string ps((char *)pass.data(), pass.size());
	std::string st = scan::on_stack([&] {
		scryptenc_params P = lims(0, 0.5, 300);
		scryptdec_file_cookie *C;
		mock.on = true;
		deep([&] {
			rc = scryptdec_file_prep(f, pass.data(), pass.size(), &P, 0, 1, &C);
			if (rc == 0) { if (copy) rc2 = scryptdec_file_copy(C, fo); scryptdec_file_cookie_free(C); }
			scryptdec_file_cookie_free(NULL);
		});
		mock.on = false;
	});
	fclose(f); fclose(fo);
	CHECK(rc == 0 && rc2 == 0, "codes %d %d", rc, rc2);
	check_memory(st, ps, rc2);
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
	c.nontrivial();
}
// The cryptographic functions on their own: keys and secret messages do not stay in
// what they used, and finished contexts hold nothing.
static void wipe_prims(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int op = s.draw(6);
	static const char *on[] = { "crypto_scrypt", "PBKDF2_SHA256", "HMAC_SHA256_Buf", "HMAC_SHA256 in pieces", "SHA256", "AES block", "AES-CTR" };
	size_t kn = op >= 5 ? s.draw(1) ? 32 : 16 : s.chance(1, 4) ? s.range(60, 68) : s.range(16, 200), mn = s.size(400);
	size_t dn = s.chance(1, 2) ? 64 : s.range(1, 200);
	uint64_t N = 2ULL << s.draw(4); uint32_t r = 1 + s.draw(3), p = 1 + s.draw(2); uint64_t it = 1 + s.draw(3);
	size_t cut = s.draw(mn); bool lib = s.draw(1);
	int stage = s.draw(2);	// how far the calls go before memory is looked at
	std::string key(kn, 0), msg(mn, 0);
	uint64_t sd = s.draw(0xffff);
	for (size_t i = 0; i < kn; i++) key[i] = (char)pt::mix(sd * 977 + i);
	for (size_t i = 0; i < mn; i++) msg[i] = (char)pt::mix(sd * 1009 + i + 77777);
	c.note("%s: key %zu, message %zu, output %zu, N=%llu r=%u p=%u hw=%x", on[op], kn, mn, dn, (unsigned long long)N, r, p, hw_mask & 0x1f);
	if (op == 3 || op == 4) c.note(", stage %d", stage);
	const uint8_t *K = (const uint8_t *)key.data(), *M = (const uint8_t *)msg.data();
	std::string out(dn, 0), dig(32, 0), aes(mn ? mn : 1, 0);
	std::unique_ptr<HMAC_SHA256_CTX> hc(new HMAC_SHA256_CTX);
	std::unique_ptr<SHA256_CTX> sc(new SHA256_CTX);
	fault_env(); mock.keep_freed = true;
	int rc = 0;
	std::string st = scan::on_stack([&] { deep([&] {
		mock.on = true;
		switch (op) {
		case 0: rc = crypto_scrypt(K, kn, M, mn, N, r, p, (uint8_t *)&out[0], dn); break;
		case 1: PBKDF2_SHA256(K, kn, M, mn, it, (uint8_t *)&out[0], dn); break;
		case 2: HMAC_SHA256_Buf(K, kn, M, mn, (uint8_t *)&dig[0]); break;
		case 3: HMAC_SHA256_Init(hc.get(), K, kn);
			if (stage >= 1) HMAC_SHA256_Update(hc.get(), M, cut);
			if (stage >= 2) { HMAC_SHA256_Update(hc.get(), M + cut, mn - cut); HMAC_SHA256_Final((uint8_t *)&dig[0], hc.get()); }
			break;
		case 4: if (lib) SHA256_Buf(K, kn, (uint8_t *)&dig[0]);
			else { size_t k = cut % (kn + 1); SHA256_Init(sc.get()); SHA256_Update(sc.get(), K, k); SHA256_Update(sc.get(), K + k, kn - k); if (stage) SHA256_Final((uint8_t *)&dig[0], sc.get()); }
			break;
		default: {
			struct crypto_aes_key *k = crypto_aes_key_expand(K, kn);
			if (!k) { rc = -1; break; }
			if (op == 5) { uint8_t b[16] = { 1 }; crypto_aes_encrypt_block(b, (uint8_t *)&dig[0], k); }
			else if (lib) crypto_aesctr_buf(k, sd, M, (uint8_t *)&aes[0], mn);
			else { struct crypto_aesctr *a = crypto_aesctr_init(k, sd); if (a) { crypto_aesctr_stream(a, M, (uint8_t *)&aes[0], cut); crypto_aesctr_stream(a, M + cut, (uint8_t *)&aes[cut], mn - cut); } else rc = -1; crypto_aesctr_free(a); }
			crypto_aes_key_free(k);
			crypto_aes_key_free(NULL); crypto_aesctr_free(NULL);
		} }
		mock.on = false;
	}); });
	CHECK(rc == 0, "code %d", rc);
	scan::Finder F, H;
	if (op <= 3) {
		F.add(key, "the passphrase or key");
		for (auto &f : hmac_forms(key)) F.add(f, "the key in HMAC's form", 24);
		if (op <= 1) F.add(out, "the derived key");
	}
	if (op == 4) {
		std::string w = key.substr(0, key.size() / 4 * 4), sw = w;
		for (size_t i = 0; i < w.size(); i++) sw[i] = w[i ^ 3];
		F.add(key, "the message", 24);
		F.add(sw, "the message (swapped words)", 24);
	}
	H = F;
	if (op >= 5) {
		uint8_t rk[240];
		ref::aes_round_keys(K, kn, rk);
		std::string w((char *)rk, kn == 16 ? 176 : 240), sw = w;
		for (size_t i = 0; i < w.size(); i++) sw[i] = w[i ^ 3];
		H.add(w, "AES round keys"); H.add(sw, "AES round keys (swapped words)");
		if (op == 6 && mn >= 16) { std::string ks(mn, 0); for (size_t i = 0; i < mn; i++) ks[i] = aes[i] ^ msg[i]; H.add(ks, "AES-CTR keystream"); }
	}
	std::string f = F.find(st);
	CHECK(f.empty(), "%s left on the dead stack", f.c_str());
	for (auto &b : mock.freed) { f = H.find(b); CHECK(f.empty(), "%s left in a freed block of %zu bytes", f.c_str(), b.size()); }
	f = H.find_static();
	CHECK(f.empty(), "%s left in a static variable", f.c_str());
	if (op == 3 && stage == 2) { f = F.find((char *)hc.get(), sizeof *hc); CHECK(f.empty(), "%s left in a finished context", f.c_str()); }
	if (op == 4 && !lib && stage) { f = F.find((char *)sc.get(), sizeof *sc); CHECK(f.empty(), "%s left in a finished context", f.c_str()); }
	CHECK(mock_leaks().empty(), "%s", mock_leaks().c_str());
	c.nontrivial(); c.tag(on[op]);
}
std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	auto add = [&](const char *n, std::function<void(pt::Ctx &)> f, const char *rule, uint64_t en = 0, bool fe = false, unsigned rot = 0) {
		pt::Target t{ n, f, rule }; t.enum_n = en; t.fork_each = fe; t.hwrot = rot; v.push_back(t); };
	add("io_enum", io_enum, "every case (all byte positions)", IO_N);
	add("io_random", io_random, "every case");
	add("fault_enum", fault_enum, "the chosen call exists and failed", (uint64_t)NSCEN * 5 * MAXCALLS, true);
	add("fault_random", fault_random, "at least one call failed", 0, true, 0x1d);
	add("fault_limit", fault_limit, "the operation ran out of memory", 0, true);
	add("wipe", wipe, "keys were derived", 0, true, 0x1d);
	add("wipe_cookie", wipe_cookie, "every case");
	add("wipe_prims", wipe_prims, "every case", 0, false, 0x1d);
	return v;
}
