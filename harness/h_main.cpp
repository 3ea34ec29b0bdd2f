// The command-line program itself (main.c is linked in, the library calls it
// makes are recorded): C20 option parsing, C13 parameter options, C24 messages
// and exit statuses, C09/C14 output file handling, C19 the passphrase.
#include "encio.hpp"
#include "numref.hpp"
#include "config.h"
#include <csetjmp>
#include <cmath>
#include <unistd.h>
extern "C" {
#include "passphrase_entry.h"
#include "scryptenc.h"
int scrypt_main(int, char **);
extern int libcperciva_optreset;
extern const char *libcperciva_optarg;
}
// ---- what the program asked the library to do
struct Call { char what; scryptenc_params P; int verbose, force; FILE *in, *out; std::string pass; std::string arg; int method, once; };
static struct {
	std::vector<Call> calls;
	std::vector<std::pair<std::string, std::string>> opened;	// path, mode
	std::vector<FILE *> files;
	std::string seq;
	bool active; sigjmp_buf jb; int status; bool inhandler;
	// scripted outcomes
	int passrc, preprc, bodyrc, inforc; int inerr, outerr, bodyerrno, chat; bool emit;
	std::string passphrase;
	FILE *fin, *fout; SrcIO si; SinkIO so, sstd; Bytes none;
} R;
static int cookie_obj;
extern "C" {
void __wrap_exit(int st) { if (!R.active) _exit(99); R.status = st; siglongjmp(R.jb, 1); }
static char *dupstr(const std::string &s);
extern char *__wrap_strdup(const char *);
int __wrap_passphrase_entry_readpass(char **pw, enum passphrase_entry m, const char *arg, const char *p1, const char *p2, int once)
{
	Call c{}; c.what = 'p'; c.method = m; c.arg = arg ? arg : "(null)"; c.once = once;
	{ bool on = mock.on; mock.on = false; R.calls.push_back(c); R.seq += 'p'; mock.on = on; }
	if (R.passrc) { fputs("passphrase problem\n", stderr); errno = R.bodyerrno; return -1; }
	*pw = __wrap_strdup(R.passphrase.c_str());
	return 0;
}
static int lib(char w, FILE *in, FILE *out, const uint8_t *pw, size_t pl, scryptenc_params *P, int v, int f, int rc)
{
	bool on = mock.on; mock.on = false;
	Call c{}; c.what = w; if (P) c.P = *P; c.in = in; c.out = out; c.verbose = v; c.force = f; if (pw) c.pass.assign((const char *)pw, pl);
	R.calls.push_back(c); R.seq += w;
	if (out && R.emit) fwrite("some output", 1, 11, out);
	mock.on = on;
	errno = R.bodyerrno;
	return rc;
}
int __wrap_scryptenc_file(FILE *in, FILE *out, const uint8_t *pw, size_t pl, scryptenc_params *P, int v, int f) { return lib('e', in, out, pw, pl, P, v, f, R.bodyrc); }
int __wrap_scryptdec_file(FILE *in, FILE *out, const uint8_t *pw, size_t pl, scryptenc_params *P, int v, int f) { return lib('d', in, out, pw, pl, P, v, f, R.bodyrc); }
int __wrap_scryptdec_file_prep(FILE *in, const uint8_t *pw, size_t pl, scryptenc_params *P, int v, int f, void **C)
{
	int rc = lib('q', in, nullptr, pw, pl, P, v, f, R.preprc);
	if (rc == 0) { R.chat++; *C = &cookie_obj; }
	return rc;
}
int __wrap_scryptdec_file_copy(void *C, FILE *out) { if (C != &cookie_obj) abort(); return lib('c', nullptr, out, nullptr, 0, nullptr, 0, 0, R.bodyrc); }
void __wrap_scryptdec_file_cookie_free(void *C) { if (C) { if (C != &cookie_obj) abort(); R.chat--; } }
int __wrap_scryptdec_file_printparams(FILE *in) { return lib('i', in, nullptr, nullptr, 0, nullptr, 0, 0, R.inforc); }
}
// ---- model of a command line
struct Model {
	enum { REJECT, SHOWVER, RUN } kind = REJECT;
	char mode = 0;
	scryptenc_params P{}; bool f = false, v = false; int method = PASSPHRASE_TTY_STDIN; std::string marg;
	std::string in, out; bool hasout = false, instdin = false;
};
static bool num_in(const std::string &t, uint64_t lo, uint64_t hi, uint64_t &o)
{
	bool neg; u128 x;
	if (!int_ref(t, neg, x) || (neg && x)) return false;
	if (x < lo || x > hi) return false;
	o = (uint64_t)x; return true;
}
static bool dbl_in(const std::string &t, double lo, double hi, double &o, bool &dis)
{
	char *e; errno = 0; double x = strtod(t.c_str(), &e);
	if (errno == ERANGE) { dis = true; return false; }	// overflow/underflow: not claimed
	if (e == t.c_str() || *e || !(x >= lo && x <= hi)) return false;
	o = x; return true;
}
static Model model(const std::vector<std::string> &a, bool &dis)
{
	Model M;
	if (a.empty()) return M;
	if (a[0] == "--version") { M.kind = Model::SHOWVER; return M; }
	if (a[0] == "enc") { M.mode = 'e'; M.P = { 0, 0.125, 5.0, 0, 0, 0 }; }
	else if (a[0] == "dec") { M.mode = 'd'; M.P = { 0, 0.5, 300.0, 0, 0, 0 }; }
	else if (a[0] == "info") { M.mode = 'i'; M.P = { 0, 0.5, 300.0, 0, 0, 0 }; }
	else return M;
	bool meth = false;
	size_t i = 1;
	// returns false if the option is wrong
	auto opt = [&](const std::string &o, const std::string &val) {
		uint64_t x;
		if (o == "f") M.f = true;
		else if (o == "v") M.v = true;
		else if (o == "P") { if (meth) return false; meth = true; M.method = PASSPHRASE_STDIN_ONCE; M.marg = ""; }
		else if (o == "M") { u128 w; if (!hp_ref(val, w)) return false; M.P.maxmem = (size_t)w; }
		else if (o == "m") { if (!dbl_in(val, 0, 0.5, M.P.maxmemfrac, dis)) return false; }
		else if (o == "t") { if (!dbl_in(val, 0, INFINITY, M.P.maxtime, dis)) return false; }
		else if (o == "p") { if (!num_in(val, 1, 2048, x)) return false; M.P.p = x; }
		else if (o == "r") { if (!num_in(val, 1, 32, x)) return false; M.P.r = x; }
		else if (o == "logN") { if (!num_in(val, 10, 40, x)) return false; M.P.logN = x; }
		else if (o == "passphrase") {
			if (meth) return false;
			meth = true;
			M.marg = "";
			if (val == "dev:tty-stdin") M.method = PASSPHRASE_TTY_STDIN;
			else if (val == "dev:stdin-once") M.method = PASSPHRASE_STDIN_ONCE;
			else if (val == "dev:tty-once") M.method = PASSPHRASE_TTY_ONCE;
			else if (val.compare(0, 4, "env:") == 0) { M.method = PASSPHRASE_ENV; M.marg = val.substr(4); }
			else if (val.compare(0, 5, "file:") == 0) { M.method = PASSPHRASE_FILE; M.marg = val.substr(5); }
			else return false;
		}
		return true;
	};
	while (i < a.size()) {
		const std::string &t = a[i];
		if (t == "--") { i++; break; }
		if (t.size() < 2 || t[0] != '-') break;
		i++;
		if (t[1] == '-') {
			size_t e = t.find('=');
			std::string n = t.substr(2, e == std::string::npos ? e : e - 2), v;
			if (n != "logN" && n != "passphrase") return M;
			if (e != std::string::npos) v = t.substr(e + 1);
			else if (i < a.size()) v = a[i++];
			else return M;
			if (!opt(n, v)) return M;
			continue;
		}
		for (size_t k = 1; k < t.size(); k++) {
			if (strchr("fvP", t[k])) { if (!opt(std::string(1, t[k]), "")) return M; continue; }
			if (!strchr("Mmptr", t[k])) return M;
			std::string v;
			if (k + 1 < t.size()) v = t.substr(k + 1);
			else if (i < a.size()) v = a[i++];
			else return M;
			if (!opt(std::string(1, t[k]), v)) return M;
			break;
		}
	}
	size_t left = a.size() - i;
	if (left < 1 || left > 2) return M;
	int n = (M.P.logN != 0) + (M.P.r != 0) + (M.P.p != 0);
	if (n != 0 && n != 3) return M;
	if (M.P.maxmemfrac == 0) return M;
	M.in = a[i]; M.instdin = M.in == "-";
	if (left == 2) { M.out = a[i + 1]; M.hasout = true; }
	if (M.method == PASSPHRASE_STDIN_ONCE && M.instdin) return M;
	M.kind = Model::RUN;
	return M;
}
// ---- running it
struct Out { int status; std::string err, std_out; bool stdflush_failed; };
static Out run(const std::vector<std::string> &args)
{
	std::vector<std::string> st; st.push_back("/some/dir/scrypt"); st.insert(st.end(), args.begin(), args.end());
	std::vector<std::unique_ptr<char[]>> own; std::vector<char *> av;
	for (auto &x : st) { own.emplace_back(new char[x.size() + 1]); memcpy(own.back().get(), x.c_str(), x.size() + 1); av.push_back(own.back().get()); }
	av.push_back(nullptr);
	Out o{};
	R.status = -1;
	libcperciva_optreset = 1;
	FILE *so = stdout;
	CapErr ce;
	stdout = open_sink(&R.sstd, 0, 0);
	mock.fopen_hook = [](const char *p, const char *m) -> void * {
		R.opened.push_back({ p, m });
		R.seq += m[0];
		int e = m[0] == 'r' ? R.inerr : R.outerr;
		if (e) { errno = e; return nullptr; }
		FILE *f = m[0] == 'r' ? open_src(&R.si, 0, 0) : open_sink(&R.so, 0, 0);
		(m[0] == 'r' ? R.fin : R.fout) = f;
		return f;
	};
	R.active = true;
	if (!sigsetjmp(R.jb, 0)) {
		mock.on = true;
		int rc = scrypt_main((int)st.size(), av.data());
		R.status = rc;
	}
	mock.on = false;
	R.active = false;
	FILE *mine = stdout; stdout = so;
	mock.live_fds += 0;
	o.status = R.status;
	fclose(mine);
	o.std_out.assign(R.sstd.out.begin(), R.sstd.out.end());
	o.err = ce.end();
	return o;
}
static void reset_R()
{
	R.calls.clear(); R.opened.clear(); R.files.clear(); R.seq.clear();
	R.active = false; R.passrc = R.preprc = R.bodyrc = R.inforc = R.inerr = R.outerr = R.bodyerrno = R.chat = 0; R.emit = false;
	R.passphrase = "0123456789 correct horse battery"; R.fin = R.fout = nullptr;
	R.si = SrcIO(); R.si.d = &R.none; R.so = SinkIO(); R.sstd = SinkIO();
}
static std::string show(const std::vector<std::string> &a)
{
	std::string r;
	for (auto &x : a) { r += " '"; for (unsigned char ch : x) if (ch >= 32 && ch < 127) r += ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } r += "'"; }
	return r;
}
// ---- generating command lines
static std::string good_val(pt::Src &s, const std::string &o)
{
	char b[64];
	if (o == "M") return s.pick<const char *>({ "0", "1", "1000000", "64M", "1 GB", "2kB", "18446744073709551615", "18E", "007" });
	if (o == "m") return s.pick<const char *>({ "0.5", "0.125", ".25", "1e-3", "0.4999999", "0x1p-2", " 0.1", "+0.5", "5e-1" });
	if (o == "t") { if (s.draw(1)) { snprintf(b, sizeof b, "%g", (double)s.draw(100000) / 16); return b; } return s.pick<const char *>({ "0", "5", "300", "1e6", "inf", "INFINITY", "0.001", "-0" }); }
	if (o == "logN") { snprintf(b, sizeof b, s.chance(1, 6) ? "0x%llx" : s.chance(1, 6) ? "0%llo" : "%lld", (long long)s.range(10, 40)); return b; }
	if (o == "r") { snprintf(b, sizeof b, s.chance(1, 6) ? "+%lld" : "%lld", (long long)s.range(1, 32)); return b; }
	if (o == "p") { snprintf(b, sizeof b, s.chance(1, 6) ? " %lld" : "%lld", (long long)(s.draw(1) ? s.range(1, 2048) : s.range(1, 8))); return b; }
	if (o == "passphrase") return s.pick<const char *>({ "dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "env:PASS", "file:pw.txt", "env:", "file:", "env:A=B", "file:a:b" });
	return "";
}
static std::string any_val(pt::Src &s, const std::string &o)
{
	if (s.chance(3, 4)) return good_val(s, o);
	switch (s.draw(5)) {
	case 0: return num_string(s, true);
	case 1: return s.pick<const char *>({ "-1", "nan", "0", "41", "9", "33", "2049", "0.500001", "-0.1", "1e400", "", "x", "--", "-f", "18446744073709551616", "19E", "4294967297", "4294967304", "-4294967295", "10.0", "1e1", "16 ", "0.5x", "-inf", "2 kBx" });
	case 2: return good_val(s, s.pick<const char *>({ "M", "m", "t", "logN", "r", "p", "passphrase" }));
	case 3: return good_val(s, o) + s.pick<const char *>({ " ", "x", "0", "=", "-" });
	case 4: return s.pick<const char *>({ "dev:x", "devtty", "env", "file", "ENV:X", "dev:tty-stdin ", ":", "stdin" });
	default: { char b[40]; snprintf(b, sizeof b, "%lld", (long long)s.range(0, 60) - 5); return b; }
	}
}
static std::vector<std::string> gen_cmdline(pt::Src &s)
{
	std::vector<std::string> a;
	if (s.chance(1, 60)) return a;
	a.push_back(s.chance(1, 25) ? s.pick<const char *>({ "--version", "encrypt", "en", "", "-v", "--help", "ENC", "decc", "info " }) : s.pick<const char *>({ "enc", "dec", "info" }));
	std::string bundle;
	auto flush = [&] { if (!bundle.empty()) { a.push_back("-" + bundle); bundle.clear(); } };
	auto one = [&](const std::string &o) {
		if (o.size() > 1) {	// long
			flush();
			std::string v = any_val(s, o);
			if (s.draw(1)) a.push_back("--" + o + "=" + v); else { a.push_back("--" + o); if (!s.chance(1, 40)) a.push_back(v); }
		} else if (strchr("fvP", o[0])) { if (!s.draw(1)) flush(); bundle += o; if (!s.draw(1)) flush(); }
		else {
			if (!s.draw(1)) flush();
			std::string v = any_val(s, o);
			bundle += o;
			if (s.draw(1)) { flush(); if (!s.chance(1, 40)) a.push_back(v); } else { bundle += v; flush(); }
		}
	};
	bool full = s.chance(1, 3);
	if (full) { std::vector<std::string> o = { "logN", "r", "p" }; if (s.draw(1)) std::swap(o[0], o[s.draw(2)]); for (auto &x : o) one(x); }
	for (uint64_t n = s.draw(s.draw(1) ? 3 : 7); n; n--) {
		std::string o = s.pick<const char *>({ "f", "v", "P", "M", "m", "t", "passphrase", "f", "v", "M", "t" });
		if (s.chance(1, 12)) o = s.pick<const char *>({ "logN", "r", "p" });
		one(o);
	}
	flush();
	if (s.chance(1, 25)) a.push_back(s.pick<const char *>({ "-x", "-fx", "--foo", "--log", "--logn=12", "--passphrase-x=1", "-=", "---f", "--f", "-f=", "-", "--t=5", "--force", "-h", "-N", "-V", "--v", "-ff", "-vfP" }));
	if (s.chance(1, 6)) a.push_back("--");
	a.push_back(s.pick<const char *>({ "in.enc", "-", "in", "a b", "%s", "dec" }));
	if (s.chance(1, 15)) a.pop_back();
	if (s.draw(1)) a.push_back(s.pick<const char *>({ "out", "-", "-v", "%n out", "/dev/stdout", "" }));
	if (s.chance(1, 15)) a.push_back(s.pick<const char *>({ "extra", "-f", "--" }));
	// damage
	if (s.chance(1, 6) && a.size() > 1) {
		size_t k = 1 + s.draw(a.size() - 2);
		switch (s.draw(4)) {
		case 0: a.erase(a.begin() + k); break;
		case 1: a.insert(a.begin() + k, a[k]); break;
		case 2: std::swap(a[k], a[1 + s.draw(a.size() - 2)]); break;
		case 3: { size_t p = s.draw(a[k].size()); a[k].insert(p, 1, (char)s.pick<int>({ '-', '=', ' ', '0', 'f', 'v', 'P', 't', 255, 'M' })); break; }
		default: if (!a[k].empty()) a[k].erase(s.draw(a[k].size() - 1), 1); break;
		}
	}
	return a;
}
static bool is_wr(const std::string &m) { return m.find_first_of("wa+") != std::string::npos; }
static void check_run(pt::Ctx &c, const std::vector<std::string> &a, const Model &M, const Out &o)
{
	if (M.kind == Model::REJECT) {
		CHECK(o.status == 1, "exit status %d for a command line that must be rejected", o.status);
		CHECK(R.calls.empty() && R.opened.empty(), "a rejected command line did something: %s", R.seq.c_str());
		CHECK(!o.err.empty(), "rejected without a message");
		CHECK(o.std_out.empty(), "a rejected command line wrote to standard output");
		return;
	}
	if (M.kind == Model::SHOWVER) {
		CHECK(o.status == 0 && o.std_out == std::string("scrypt ") + PACKAGE_VERSION + "\n" && o.err.empty(), "status %d, output \"%s\"", o.status, o.std_out.c_str());
		CHECK(R.calls.empty() && R.opened.empty(), "--version did something: %s", R.seq.c_str());
		return;
	}
	CHECK(o.status == 0, "exit status %d: %s", o.status, o.err.substr(0, 300).c_str());
	CHECK(o.err.empty(), "message although everything worked: %s", o.err.substr(0, 300).c_str());
	std::string want = M.instdin ? "" : "r";
	if (M.mode == 'i') want += "i";
	else if (M.mode == 'e') want += M.hasout ? "pwe" : "pe";
	else want += M.hasout ? "pqwc" : "pqc";
	std::string sq = R.seq, ws = want;
	if (M.mode == 'd') { size_t k = sq.find('d'); if (k != std::string::npos) sq.replace(k, 1, "qc"); }	// one-step decryption
	std::sort(sq.begin(), sq.end()); std::sort(ws.begin(), ws.end());
	CHECK(sq == ws, "actions %s, expected %s", R.seq.c_str(), want.c_str());
	for (auto &op : R.opened) {
		if (is_wr(op.second)) CHECK(op.first == M.out, "output file \"%s\" opened, expected \"%s\"", op.first.c_str(), M.out.c_str());
		else CHECK(op.first == M.in, "input file \"%s\" opened, expected \"%s\"", op.first.c_str(), M.in.c_str());
	}
	for (auto &k : R.calls) {
		if (k.what == 'p') {
			CHECK(k.method == M.method, "passphrase method %d, expected %d", k.method, M.method);
			if (M.method == PASSPHRASE_ENV || M.method == PASSPHRASE_FILE) CHECK(k.arg == M.marg, "passphrase argument \"%s\", expected \"%s\"", k.arg.c_str(), M.marg.c_str());
			CHECK(!!k.once == (M.mode == 'd'), "passphrase entry %s", k.once ? "not confirmed" : "confirmed when decrypting");
			continue;
		}
		if (k.what != 'c') CHECK(M.instdin ? k.in != R.fin && R.fin == nullptr : k.in == R.fin, "wrong input file");
		if (k.what == 'e' || k.what == 'c' || k.what == 'd') CHECK(M.hasout ? k.out == R.fout : k.out != nullptr && R.fout == nullptr, "wrong output file");
		if (k.what == 'e' || k.what == 'q' || k.what == 'd') {
			CHECK(k.pass == R.passphrase, "wrong passphrase given to the library");
			CHECK(!!k.verbose == M.v, "verbose %d", k.verbose);
			CHECK(!!k.force == M.f, "force %d", k.force);
			CHECK(k.P.maxmem == M.P.maxmem, "maxmem %zu, expected %zu", k.P.maxmem, M.P.maxmem);
			CHECK(k.P.maxmemfrac == M.P.maxmemfrac, "maxmemfrac %.17g, expected %.17g", k.P.maxmemfrac, M.P.maxmemfrac);
			CHECK(k.P.maxtime == M.P.maxtime, "maxtime %.17g, expected %.17g", k.P.maxtime, M.P.maxtime);
			if (k.what == 'e') CHECK(k.P.logN == M.P.logN && k.P.r == M.P.r && k.P.p == M.P.p, "parameters %d %u %u, expected %d %u %u", k.P.logN, k.P.r, k.P.p, M.P.logN, M.P.r, M.P.p);
			else CHECK(!k.P.logN && !k.P.r && !k.P.p, "explicit parameters %d %u %u given to decryption, which requires none", k.P.logN, k.P.r, k.P.p);
		}
	}
	CHECK(R.chat == 0, "decryption handle not freed");
}
static void cmdline(pt::Ctx &c)
{
	pt::Src &s = c.s;
	reset_R();
	std::vector<std::string> a = gen_cmdline(s);
	for (auto &x : a) { size_t z = x.find('\0'); if (z != std::string::npos) x.resize(z); }
	c.note("scrypt%s", show(a).c_str());
	bool dis = false;
	Model M = model(a, dis);
	if (dis) throw pt::Discard();
	R.emit = true;
	Out o = run(a);
	check_run(c, a, M, o);
	if (M.kind == Model::RUN && a.size() > 2) c.nontrivial();
	c.tag(M.kind == Model::REJECT ? "rejected" : M.kind == Model::SHOWVER ? "version" : M.mode == 'e' ? "enc" : M.mode == 'd' ? "dec" : "info");
	if (M.kind == Model::RUN && M.P.logN) c.tag("explicit parameters");
}
// Every combination of the three parameter options with values on both sides of each bound.
static const char *const LV[] = { "", "9", "10", "40", "41", "0", "-10", "0x20" };
static const char *const RV[] = { "", "0", "1", "32", "33", "-1", "4294967297" };
static const char *const PV[] = { "", "0", "1", "2048", "2049", "-1", "4294967297" };
static const uint64_t BOX_N = 8 * 7 * 7 * 9;
static void param_box(pt::Ctx &c)
{
	uint64_t i = c.s.index;
	reset_R();
	std::string l = LV[i % 8]; i /= 8; std::string r = RV[i % 7]; i /= 7; std::string p = PV[i % 7]; i /= 7;
	const char *md[] = { "enc", "dec", "info" };
	std::vector<std::string> a = { md[i % 3] }; i /= 3;
	if (i) a.push_back(i == 1 ? "-f" : "-v");
	if (!p.empty()) { a.push_back("-p"); a.push_back(p); }
	if (!l.empty()) a.push_back("--logN=" + l);
	if (!r.empty()) a.push_back("-r" + r);
	a.push_back("in"); a.push_back("out");
	c.note("scrypt%s", show(a).c_str());
	bool dis = false;
	Model M = model(a, dis);
	Out o = run(a);
	check_run(c, a, M, o);
	c.nontrivial();
}
// ---- failures: messages, exit status, what was touched, what is left
static const struct { int code; const char *msg; bool sys; } msgs[] = {
	{ SCRYPT_ELIMIT, "Error determining amount of available memory", true },
	{ SCRYPT_ECLOCK, "Error reading clocks", true }, { SCRYPT_EKEY, "Error computing derived key", true },
	{ SCRYPT_ESALT, "Error reading salt", true }, { SCRYPT_EOPENSSL, "OpenSSL error", true },
	{ SCRYPT_ENOMEM, "Error allocating memory", true }, { SCRYPT_EINVAL, "Input is not valid scrypt-encrypted block", false },
	{ SCRYPT_EVERSION, "Unrecognized scrypt format version", false }, { SCRYPT_ETOOBIG, "Decrypting file would require too much memory", false },
	{ SCRYPT_ETOOSLOW, "Decrypting file would take too much CPU time", false },
	{ SCRYPT_EBIGSLOW, "Decrypting file would require too much memory and CPU time", false },
	{ SCRYPT_EPASS, "Passphrase is incorrect", false }, { SCRYPT_EWRFILE, "Error writing file: ", false },
	{ SCRYPT_ERDFILE, "Error reading file: ", false }, { SCRYPT_EPARAM, "Error in explicit parameters", false },
};
static void failures(pt::Ctx &c)
{
	pt::Src &s = c.s;
	reset_R();
	char mode = s.pick<char>({ 'e', 'd', 'i' });
	bool isin = s.draw(1), hasout = s.draw(1), v = s.draw(1);
	static const char *const nm[] = { "file", "%s%n%d", "a b\tc", "-x", "\xc3\xa9", "/tmp/dir/f", "in:put" };
	std::string in = nm[s.draw(6)], out = nm[s.draw(6)];
	if (s.chance(1, 10)) in = std::string(3000, 'i');
	std::vector<std::string> a = { mode == 'e' ? "enc" : mode == 'd' ? "dec" : "info" };
	if (v) a.push_back("-v");
	a.push_back("--");
	a.push_back(isin ? "-" : in);
	if (hasout) a.push_back(out);
	enum { NONE, INOPEN, PASS, PREP, OUTOPEN, BODY, FLUSH, INFO } w;
	static const char *const wn[] = { "nothing fails", "opening the input fails", "reading the passphrase fails", "preparation fails", "opening the output fails", "the body fails", "writing buffered output fails", "info fails" };
	int en = s.pick<int>({ 0, ENOENT, EACCES, ENOSPC, EIO, EINTR, ENOMEM });
	const auto *mp = &msgs[s.draw(sizeof msgs / sizeof *msgs - 1)];
	R.bodyerrno = en;
	bool both = false;
	if (mode == 'i') w = s.pick<decltype(w)>({ NONE, INOPEN, INFO });
	else w = s.pick<decltype(w)>({ NONE, INOPEN, PASS, PREP, OUTOPEN, BODY, FLUSH });
	if (w == INOPEN && isin) w = NONE;
	if (w == OUTOPEN && !hasout) w = FLUSH;
	if (w == PREP && mode == 'e') w = BODY;
	// reading an input's parameters writes nothing
	if ((w == PREP || w == INFO) && mp->code == SCRYPT_EWRFILE) mp = &msgs[6];
	auto &m = *mp;
	R.emit = true;
	switch (w) {
	case INOPEN: R.inerr = en = en ? en : ENOENT; break;
	case PASS: R.passrc = -1; break;
	case PREP: R.preprc = m.code; break;
	case OUTOPEN: R.outerr = en = en ? en : EACCES; break;
	case BODY: R.bodyrc = m.code; both = s.chance(1, 3); break;
	case FLUSH: break;
	case INFO: R.inforc = m.code; break;
	default: R.bodyerrno = s.draw(1) ? EINTR : 0; break;
	}
	bool closefail = hasout && s.draw(1);
	if (w == FLUSH || both) { SinkIO &k = hasout ? R.so : R.sstd; if (closefail) { k.close_fail = true; en = EIO; } else k.fail_at = s.draw(10); k.err_no = en = en ? en : ENOSPC; }
	std::string P; { Bytes b = s.bytes(s.range(20, 300)); for (auto x : b) P += (char)(x ? x : 'z'); for (size_t i = 0; i < P.size(); i++) if (s.in.size() == 0 || 1) P[i] = (char)(pt::mix(i * 31 + P.size()) | 1); }
	if (s.chance(1, 10)) P = "";
	R.passphrase = P;
	mock.track = true; mock.keep_freed = true;
	c.note("scrypt%s: %s (code %d, errno %d)%s%s", show(a).substr(0, 300).c_str(), wn[w], w == BODY || w == PREP || w == INFO ? m.code : 0, en, both ? ", and so does writing buffered output" : "", closefail ? " (at close)" : "");
	Out o = run(a);
	bool fails = w != NONE;
	PCHECK(w == FLUSH || m.code == SCRYPT_EWRFILE || m.code == SCRYPT_ERDFILE ? "C14 C24" : w == PASS ? "C17 C24" : "C24", o.status == (fails ? 1 : 0), "exit status %d: %s", o.status, o.err.substr(0, 300).c_str());
	auto has = [&](const std::string &t) { return o.err.find(t) != std::string::npos; };
	std::string inn = isin ? "standard input" : in, outn = hasout ? out : "standard output";
	if (!fails) PCHECK("C24", o.err.empty(), "message although everything worked: %s", o.err.c_str());
	else {
		PCHECK("C24", !o.err.empty(), "failure without a message");
		std::string want;
		if (w == INOPEN || w == OUTOPEN) { want = std::string("Cannot open ") + (w == INOPEN ? "input" : "output") + " file: " + (w == INOPEN ? in : out); PCHECK("C24", has(want), "message \"%s\" instead of \"%s\"", o.err.substr(0, 300).c_str(), want.substr(0, 300).c_str()); PCHECK("C24", has(strerror(en)), "the message \"%s\" does not say why", o.err.substr(0, 300).c_str()); }
		else if (w == PASS) ;
		else {
			want = w == FLUSH ? "Error writing file: " + outn : m.code == SCRYPT_EWRFILE ? m.msg + outn : m.code == SCRYPT_ERDFILE ? m.msg + inn : m.msg;
			PCHECK("C24", has(want), "message \"%s\" instead of \"%s\"", o.err.substr(0, 300).c_str(), want.substr(0, 300).c_str());
			if (w != FLUSH) for (auto &x : msgs) if (x.code != m.code && x.code != SCRYPT_EWRFILE && std::string(m.msg).find(x.msg) == std::string::npos) PCHECK("C24", !has(x.msg), "also reports \"%s\"", x.msg);
			if (w == FLUSH) PCHECK("C24", has(strerror(en)), "the message \"%s\" does not say why", o.err.substr(0, 300).c_str());
		}
		// every line is prefixed with the program's name
		if (in.find('\n') == std::string::npos) for (size_t p = 0; p < o.err.size();) {
			std::string l = o.err.substr(p, o.err.find('\n', p) - p);
			PCHECK("C24", l.compare(0, 8, "scrypt: ") == 0 || l == "passphrase problem", "line \"%s\" does not name the program", l.substr(0, 200).c_str());
			PCHECK("C24", l.size() > 8, "empty message");
			p = o.err.find('\n', p); if (p == std::string::npos) break; p++;
		}
	}
	// nothing is opened for writing before it is known to be needed
	bool wr = false; for (auto &op : R.opened) wr |= is_wr(op.second);
	if (w == INOPEN || w == PASS || w == PREP || mode == 'i') {
		PCHECK("C09", !wr, "the output file was opened although %s", wn[w]);
		PCHECK("C09", o.std_out.empty(), "standard output was written although %s", wn[w]);
	}
	if (mode == 'd' && wr) PCHECK("C09", R.seq.find('q') < R.seq.find('w'), "output opened before the header was checked");
	if (w == NONE && mode != 'i') PCHECK("C14", (hasout ? std::string(R.so.out.begin(), R.so.out.end()) : o.std_out) == "some output", "output lost");
	if (hasout && mode != 'i') PCHECK("C09 C14", o.std_out.empty(), "standard output was written");
	// files and handles are closed, the passphrase is wiped
	PCHECK("C15", R.chat == 0, "decryption handle not freed");
	PCHECK("C15", mock.live_fds == 0, "%ld files left open", mock.live_fds);
	mock.misuse.clear(); 
	bool gone = true; for (auto &kv : mock.live) if (kv.second == P.size() + 1 && !memcmp(kv.first, P.c_str(), P.size())) gone = false;
	PCHECK("C19", gone, "the passphrase is still in memory");
	if (P.size() >= 20) for (auto &b : mock.freed) for (size_t k = 0; k + 16 <= P.size(); k += 7) PCHECK("C19", b.find(P.substr(k, 16)) == std::string::npos, "bytes %zu.. of the passphrase are left in a freed block", k);
	if (fails) c.nontrivial();
	c.tag(wn[w]);
}
std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	auto add = [&](const char *n, std::function<void(pt::Ctx &)> f, const char *rule, uint64_t en = 0, bool fe = false) {
		pt::Target t{ n, f, rule }; t.enum_n = en; t.fork_each = fe; v.push_back(t); };
	add("cmdline", cmdline, "an accepted command line with options or an output file");
	add("param_box", param_box, "every case", BOX_N);
	add("failures", failures, "something fails");
	return v;
}
