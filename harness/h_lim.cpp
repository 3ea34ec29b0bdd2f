// C10, C11, C13, C22: resource limits, parameter choice, explicit parameters and
// what is reported, on a virtual machine whose memory and speed are generated.
#include <algorithm>
#include <memory>
#include "encio.hpp"
typedef unsigned __int128 u128;

static std::string human(uint64_t v)
{
	char b[64];
	if (v < 1000) { snprintf(b, sizeof b, "%d B", (int)v); return b; }
	static const char pre[] = " kMGTPE";
	int e = 0; u128 u = 1;
	while ((u128)v >= u * 1000) { u *= 1000; e++; }
	uint64_t whole = (uint64_t)(v / u);
	if (whole < 10) snprintf(b, sizeof b, "%d.%d %cB", (int)whole, (int)((v % u) * 10 / u), pre[e]);
	else snprintf(b, sizeof b, "%d %cB", (int)whole, pre[e]);
	return b;
}
// A machine: physical memory, resource limits and speed, together with the
// limits handed to the library. memlim and opslimit are the oracle's values.
struct VM { uint64_t total; double frac; size_t maxmem; double maxtime; uint64_t memlim; double opps, opslimit; bool exact; };
static VM gen_vm(pt::Src &s, u128 want_mem, double want_cores)
{
	VM v;
	// memory
	v.frac = s.pick<double>({ 0.5, 0.125, 0.25, 1.0, 0.0625 });
	v.maxmem = 0;
	uint64_t near = want_mem > (u128)1 << 52 ? 1ULL << 52 : (uint64_t)want_mem;
	int64_t d = (int64_t)s.pick<int>({ 0, -1, 1, -1024, 1024, 127, -128 });
	uint64_t target = near > 2000 ? near + d : near;
	if (s.chance(1, 3)) target = s.value64() >> 12;
	switch (s.draw(3)) {
	case 0: v.total = (uint64_t)((double)target / v.frac); break;				// limited by physical memory
	case 1: v.total = 1ULL << 52; v.maxmem = target ? target : 1; break;			// by -M
	case 2: v.total = 1ULL << 52; mock.rlim_as = (uint64_t)((double)target / v.frac); break;
	default: v.total = 1ULL << 52; mock.rlim_rss = (uint64_t)((double)target / v.frac); break;
	}
	if (v.total == 0) v.total = 1;
	uint64_t m = std::min(v.total, std::min(mock.rlim_as, mock.rlim_rss));
	v.memlim = (uint64_t)((long double)m * v.frac);
	if (v.maxmem && v.memlim > v.maxmem) v.memlim = v.maxmem;
	if (v.memlim < 1048576) v.memlim = 1048576;
	// speed
	uint64_t us;
	v.exact = s.chance(1, 2);
	if (v.exact) { uint64_t sec = s.pick<uint64_t>({ 1, 2, 4, 1024 }); us = sec * 125000; v.opps = 512.0 / sec; }
	else { us = s.range(1, 1 + (1 << s.draw(12))); v.opps = 64e6 / us; }
	switch (s.draw(5)) {
	case 0: v.maxtime = want_cores / v.opps; break;
	case 1: v.maxtime = want_cores / v.opps * (1 - 1e-9); break;
	case 2: v.maxtime = want_cores / v.opps * (1 + 1e-9); break;
	case 3: v.maxtime = want_cores / v.opps * s.pick<double>({ 0.5, 0.9, 0.999, 1.001, 1.1, 1.999, 2, 2.001, 3, 7.99, 8, 15.99, 16 }); break;
	case 4: v.maxtime = s.pick<double>({ 300, 5, 0, 1e-6, 1e30, INFINITY }); break;
	default: v.maxtime = (double)s.value64() / 1000.0;
	}
	v.opslimit = v.opps * v.maxtime;
	vm(v.total, us);
	return v;
}
static scryptenc_params vparams(const VM &v) { return lims(v.maxmem, v.frac, v.maxtime); }
static void gen_valid(pt::Src &s, int &logN, uint32_t &r, uint32_t &p)
{
	logN = s.range(1, s.chance(1, 2) ? 30 : 63);
	switch (s.draw(4)) {
	case 0: r = 8; p = s.range(1, 4); break;
	case 1: r = s.range(1, 32); p = s.range(1, 2048); break;
	case 2: { unsigned k = s.draw(29); r = 1u << k; p = s.range(1, std::max<uint32_t>(1, (0x3fffffffu >> k))); break; }
	case 3: { r = s.range(1, 100000); uint32_t m = 0x3fffffffu / r; p = s.chance(1, 3) ? m : s.range(1, m); break; }
	default: { p = s.range(1, 100000); uint32_t m = 0x3fffffffu / p; r = s.chance(1, 3) ? m : s.range(1, m); }
	}
	if (!r) r = 1;
	if (!p) p = 1;
}
static Bytes fake_file(int logN, uint32_t r, uint32_t p, size_t n)
{
	uint8_t dk[64], salt[32]; memset(dk, 3, 64); memset(salt, 5, 32);
	return ref::encrypt_dk(dk, salt, logN & 0xff, r, p, Bytes(n, 1));
}
// 1: fits, 0: does not, -1: too close to call
static int cpu_fits(double opslimit, double cores, bool exact)
{
	if (std::isinf(opslimit)) return 1;
	if (exact && opslimit == cores) return 1;
	if (opslimit > cores * (1 + 1e-11)) return 1;
	if (opslimit < cores * (1 - 1e-11)) return 0;
	return -1;
}
// Does the text describe these values?
static void check_report(const std::string &e, int logN, uint32_t r, uint32_t p, bool limits, uint64_t memlim, double opps, double maxtime)
{
	char b[160];
	snprintf(b, sizeof b, "N = %llu; r = %u; p = %u;", (unsigned long long)(1ULL << logN), r, p);
	CHECK(e.find(b) != std::string::npos, "report \"%s\" does not contain \"%s\"", e.c_str(), b);
	u128 need = (u128)128 * r << logN;
	uint64_t nm = need > ~0ULL ? ~0ULL : (uint64_t)need;
	std::string hm = "at least " + human(nm) + " of memory";
	CHECK(e.find(hm) != std::string::npos, "report \"%s\" does not contain \"%s\"", e.c_str(), hm.c_str());
	if (!limits) { CHECK(e.find("available") == std::string::npos, "limits reported: %s", e.c_str()); return; }
	hm = "(" + human(memlim) + " available)";
	CHECK(e.find(hm) != std::string::npos, "report \"%s\" does not contain \"%s\"", e.c_str(), hm.c_str());
	size_t k = e.find("approximately ");
	CHECK(k != std::string::npos, "no time estimate in \"%s\"", e.c_str());
	double got = strtod(e.c_str() + k + 14, nullptr), want = 4.0 * ldexp(1, logN) * r * p / opps;
	CHECK(std::fabs(got - want) <= 0.0501 + want * 1e-9, "estimated time %.10g, 4*N*r*p/speed is %.10g", got, want);
	k = e.find("limit: ");
	CHECK(k != std::string::npos, "no time limit in \"%s\"", e.c_str());
	got = strtod(e.c_str() + k + 7, nullptr);
	CHECK(got == maxtime || std::fabs(got - maxtime) <= 0.0501 + maxtime * 1e-9, "time limit %.10g reported, it is %.10g", got, maxtime);
}
// --- C10
static void limits(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int logN; uint32_t r, p; gen_valid(s, logN, r, p);
	bool valid = true;
	if (s.chance(1, 6)) {	// invalid parameters
		valid = false;
		switch (s.draw(5)) {
		case 0: logN = 0; break;
		case 1: logN = s.range(64, 255); break;
		case 2: r = 0; break;
		case 3: p = 0; break;
		case 4: r = s.value64() | 1; p = (uint32_t)((0x40000000ULL + r - 1) / r); if (s.chance(1, 2)) std::swap(r, p); break;
		default: r = s.range(1, 0xffffffff); p = s.range(1, 0xffffffff); if ((uint64_t)r * p < 0x40000000) p = 0x40000000; break;
		}
		if (ref::params_valid(logN, r, p)) valid = true;
	}
	u128 need = logN < 64 ? (u128)128 * r << logN : 0;
	double cores = 4.0 * ldexp(1, logN) * r * p;
	VM v = gen_vm(s, need, cores);
	int force = s.draw(1), verbose = s.draw(1), iface = s.draw(D_N - 1);
	size_t n = s.draw(40);
	bool fits_mem = need <= v.memlim;
	int fc = cpu_fits(v.opslimit, cores, v.exact);
	c.note("%s logN=%d r=%u p=%u force=%d; machine: %llu bytes * %g, -M %zu -> %llu allowed, need %.0Lf; %.17g cores/s * %.17g s, need %.17g%s", di_name[iface], logN, r, p, force, (unsigned long long)v.total, v.frac, v.maxmem, (unsigned long long)v.memlim, (long double)need, v.opps, v.maxtime, cores, v.exact ? " (exact)" : "");
	OpRes D = do_dec(iface, fake_file(logN, r, p, n), Bytes{ 'p' }, vparams(v), verbose, force);
	if (!valid) {
		CHECK(D.rc == SCRYPT_EINVAL, "invalid parameters gave code %d", D.rc);
		CHECK(mock.kdf_calls.empty(), "invalid parameters reached the KDF");
		c.tag("invalid");
		return;
	}
	std::vector<int> ok;
	for (int slow : { 0, 1 }) {
		if (!force && fc >= 0 && slow != !fc) continue;
		bool big = !fits_mem;
		int w = force || (!big && !slow) ? SCRYPT_EKEY : big && slow ? SCRYPT_EBIGSLOW : big ? SCRYPT_ETOOBIG : SCRYPT_ETOOSLOW;
		ok.push_back(w);
	}
	CHECK(std::count(ok.begin(), ok.end(), D.rc), "code %d, the limits require %d", D.rc, ok[0]);
	CHECK(mock.kdf_calls.size() == (D.rc == SCRYPT_EKEY ? 1u : 0u), "%zu KDF computations with code %d", mock.kdf_calls.size(), D.rc);
	for (auto &k : mock.kdf_calls) CHECK(k.N == 1ULL << logN && k.r == r && k.p == p && k.dklen == 64 && k.slen == 32 && k.plen == 1, "KDF computed with N=%llu r=%u p=%u", (unsigned long long)k.N, k.r, k.p);
	if (force) CHECK(mock.clk_mono_calls == 0 && mock.kdf_cores == 0, "limits measured although forced");
	if (verbose) check_report(D.err, logN, r, p, !force, v.memlim, v.opps, v.maxtime);
	char t[32]; snprintf(t, sizeof t, "code %d%s", D.rc, force ? " forced" : ""); c.tag(t);
	if (!force) c.nontrivial();
}
// --- C11
static void pickparams_(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int tl = s.range(1, 45);
	uint32_t tp = s.chance(1, 2) ? 1 : s.chance(1, 4) ? s.range(1, 134217727) : s.range(1, 5000);
	u128 wm = (u128)1024 << tl;
	double wc = 32.0 * ldexp(1, tl) * tp;
	VM v = gen_vm(s, wm, wc);
	int iface = s.draw(E_N - 1), verbose = s.draw(1), force = s.draw(1);
	c.note("%s verbose=%d force=%d; memory %llu; %.17g cores/s * %.17g s = %.17g%s", ei_name[iface], verbose, force, (unsigned long long)v.memlim, v.opps, v.maxtime, v.opslimit, v.exact ? " (exact)" : "");
	OpRes E = do_enc(iface, Bytes(3, 'd'), Bytes{ 'p' }, vparams(v), verbose, force);
	CHECK(E.rc == SCRYPT_EKEY, "code %d", E.rc);
	CHECK(E.out.empty() || iface == E_BUF, "output written although no key was derived");
	double ops = std::max(v.opslimit, 32768.0);
	int logN = 0;
	for (int k = 1; k < 64; k++) if ((u128)1024 << k <= v.memlim && 32.0 * ldexp(1, k) <= ops) logN = k;
	double pm = std::floor(ops / (32.0 * ldexp(1, logN)));
	uint32_t p = pm > 134217727 ? 134217727 : (uint32_t)pm;
	bool same = E.P.r == 8 && E.P.logN == logN && E.P.p == p;
	if (!same) {	// ties: the estimate is a floating-point number
		bool amb = false;
		if (!std::isinf(ops) && !(v.exact && v.maxtime * v.opps == v.opslimit)) {
			double q = ops / 32.0;
			for (int k = 1; k < 64; k++) if (std::fabs(q / ldexp(1, k) - 1) < 1e-11) amb = true;
			double x = ops / (32.0 * ldexp(1, E.P.logN > 0 && E.P.logN < 64 ? E.P.logN : 1));
			if (std::fabs(x - std::round(x)) < 1e-9 * std::max(1.0, x) && std::fabs((double)E.P.p - x) <= 1 + x * 1e-9) amb = true;
			if (amb) throw pt::Discard{};
		}
	}
	CHECK(same, "picked logN=%d r=%u p=%u, strongest within the limits is %d 8 %u", E.P.logN, E.P.r, E.P.p, logN, p);
	CHECK(mock.kdf_calls.size() == 1 && mock.kdf_calls[0].N == 1ULL << logN && mock.kdf_calls[0].r == 8 && mock.kdf_calls[0].p == p, "the KDF was not computed with the picked parameters");
	if (verbose) check_report(E.err, logN, 8, p, true, v.memlim, v.opps, v.maxtime);
	// the same limits allow decryption
	if (v.opslimit >= 32768 * (1 + 1e-11) || (v.exact && v.opslimit == 32768)) {
		mock.kdf_calls.clear();
		OpRes D = do_dec(s.draw(D_N - 1), fake_file(logN, 8, p, 3), Bytes{ 'p' }, vparams(v), 0, 0);
		CHECK(D.rc == SCRYPT_EKEY && mock.kdf_calls.size() == 1, "decryption under the same limits refused with code %d", D.rc);
	}
	c.nontrivial();
	char t[32]; snprintf(t, sizeof t, "logN=%d", logN); c.tag(t);
}
// Really encrypt with picked parameters and decrypt under the same limits.
static void pick_real(pt::Ctx &c)
{
	pt::Src &s = c.s;
	uint64_t us = s.range(1, 3000);
	double cores = 32768.0 * s.range(1, 6);
	double t = cores / (64e6 / us);
	size_t maxmem = (1 << 20) + s.draw(1 << 21);
	vm(1ULL << 36, us, true); mock.kdf_mode = 0;
	Bytes data = gen_data(s), pass = gen_pass(s);
	int ei = s.draw(E_N - 1), di = s.draw(D_N - 1);
	c.note("%s then %s, data=%zu, -M %zu, %.4g cores", ei_name[ei], di_name[di], data.size(), maxmem, cores);
	OpRes E = do_enc(ei, data, pass, lims(maxmem, 0.5, t * 1.0000001), 0, s.draw(1));
	CHECK(E.rc == 0 && E.close_rc == 0, "encryption failed with %d", E.rc);
	OpRes D = do_dec(di, E.out, pass, lims(maxmem, 0.5, t * 1.0000001), 0, 0);
	CHECK(D.rc == 0, "decryption under the same limits failed with %d (logN=%d p=%u)", D.rc, E.P.logN, E.P.p);
	CHECK(D.out == data && D.P.logN == E.P.logN && D.P.r == E.P.r && D.P.p == E.P.p, "wrong data or parameters");
	if (!data.empty()) c.nontrivial();
}
// --- C13
static void explicit_(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int logN; uint32_t r, p; gen_valid(s, logN, r, p);
	if (s.chance(1, 4)) switch (s.draw(4)) {
	case 0: logN = (int)s.range(64, 300); break;
	case 1: logN = -(int)s.range(1, 300); break;
	case 2: logN = s.pick<int>({ 0x7fffffff, -0x7fffffff - 1, 256, 257, 320, 65536 + 5 }); break;
	case 3: r = s.value64() | 1; p = s.value64() | 1; break;
	default: r = s.range(1, 0x40000000); p = (uint32_t)((0x40000000ULL + r - 1) / r); break;
	}
	bool valid = ref::params_valid(logN, r, p);
	u128 need = valid ? (u128)128 * r << logN : 1 << 20;
	double cores = valid ? 4.0 * ldexp(1, logN) * r * p : 4096;
	VM v = gen_vm(s, need, cores);
	int iface = s.draw(E_N - 1), verbose = s.draw(1), force = s.draw(1);
	bool real = valid && ldexp(1, logN) * r * p <= 2048;
	mock.kdf_mode = real ? 0 : 1;
	Bytes data(s.draw(100), 'd'), pass = { 'p', 'q' };
	scryptenc_params P = vparams(v); P.logN = logN; P.r = r; P.p = p;
	c.note("%s logN=%d r=%u p=%u verbose=%d force=%d; memory %llu of %.0Lf; cores %.17g of %.17g", ei_name[iface], logN, r, p, verbose, force, (unsigned long long)v.memlim, (long double)need, v.opslimit, cores);
	OpRes E = do_enc(iface, data, pass, P, verbose, force);
	if (!valid) {
		CHECK(E.rc == SCRYPT_EPARAM, "invalid parameters gave code %d", E.rc);
		CHECK(mock.kdf_calls.empty(), "invalid parameters reached the KDF");
		if (iface == E_FILE) CHECK(E.out.empty(), "output written for invalid parameters");
		else for (auto b : E.out) CHECK(b == CAN, "output buffer written for invalid parameters");
		c.tag("invalid"); c.nontrivial();
		return;
	}
	CHECK(E.rc == (real ? 0 : SCRYPT_EKEY), "valid explicit parameters gave code %d", E.rc);
	CHECK(E.P.logN == logN && E.P.r == r && E.P.p == p, "parameters changed to %d %u %u", E.P.logN, E.P.r, E.P.p);
	CHECK(E.P.maxmem == v.maxmem && E.P.maxmemfrac == v.frac && E.P.maxtime == v.maxtime, "limits were changed");
	CHECK(mock.kdf_calls.size() == 1 && mock.kdf_calls[0].N == 1ULL << logN && mock.kdf_calls[0].r == r && mock.kdf_calls[0].p == p, "the KDF was not computed exactly once with the explicit parameters");
	if (real) {
		Bytes want = ref::encrypt(pass, E.out.data() + 16, logN, r, p, data);
		CHECK(E.out == want, "output is not FORMAT's with the explicit parameters");
	}
	bool wm = E.err.find("might exceed memory limit") != std::string::npos, wt = E.err.find("might exceed time limit") != std::string::npos;
	int fc = cpu_fits(v.opslimit, cores, v.exact);
	CHECK(wm == (!force && need > v.memlim), "memory warning: %d", wm);
	if (force || fc >= 0) CHECK(wt == (!force && !fc), "time warning: %d", wt);
	if (verbose) check_report(E.err, logN, r, p, !force, v.memlim, v.opps, v.maxtime);
	else if (!wm && !wt) CHECK(E.err.empty(), "unexpected message: %s", E.err.c_str());
	c.nontrivial();
	c.tag(force ? "forced" : wm && wt ? "both warnings" : wm ? "memory warning" : wt ? "time warning" : "no warning");
}
// --- C22: info on any header
static void info_any(pt::Ctx &c)
{
	pt::Src &s = c.s;
	int logN; uint32_t r, p; gen_valid(s, logN, r, p);
	Bytes t = fake_file(logN, r, p, s.draw(40));
	if (s.chance(1, 3)) { size_t i = 7 + s.draw(8); t[i] = s.draw(255); }
	size_t cut = s.chance(1, 3) ? s.draw(t.size()) : s.chance(1, 2) ? 96 : t.size();
	t.resize(cut);
	IoPlan pl = gen_plan(s);
	long junk = 0;
	if (s.chance(1, 3)) { t.resize(std::max<size_t>(cut, 96), 0xee); for (junk = s.draw(5000); junk; junk -= junk > 0) t.push_back(0xab); }
	// an error just after the header must not matter: only 96 bytes are needed
	bool err = s.chance(1, 3);
	if (err) { pl.rerr = s.chance(1, 2) ? 96 : s.draw(t.size()); }
	c.note("info %zu bytes, logN=%d r=%u p=%u error at %ld", t.size(), t.size() > 7 ? t[7] : 0, t.size() > 11 ? t[8] << 24 | t[9] << 16 | t[10] << 8 | t[11] : 0, t.size() > 15 ? t[12] << 24 | t[13] << 16 | t[14] << 8 | t[15] : 0, pl.rerr);
	std::string e; bool erred;
	int rc = do_info(t, e, pl, nullptr, &erred);
	size_t have = pl.rerr >= 0 ? std::min<size_t>(t.size(), pl.rerr) : t.size();
	bool io = pl.rerr >= 0 && (size_t)pl.rerr <= t.size();	// running into the end or the error
	int want;
	int L = 0; uint32_t R = 0, Q = 0;
	if (have < 7) want = io ? SCRYPT_ERDFILE : SCRYPT_EINVAL;
	else if (memcmp(t.data(), "scrypt", 6)) want = SCRYPT_EINVAL;
	else if (t[6]) want = SCRYPT_EVERSION;
	else if (have < 96) want = io ? SCRYPT_ERDFILE : SCRYPT_EINVAL;
	else {
		L = t[7]; R = (uint32_t)t[8] << 24 | t[9] << 16 | t[10] << 8 | t[11]; Q = (uint32_t)t[12] << 24 | t[13] << 16 | t[14] << 8 | t[15];
		want = ref::params_valid(L, R, Q) ? 0 : SCRYPT_EINVAL;
	}
	CHECK(rc == want, "info returned %d, want %d", rc, want);
	if (want == 0) check_report(e, L, R, Q, false, 0, 0, 0);
	else CHECK(e.empty(), "rejected file, but info printed: %s", e.c_str());
	if (have >= 96) c.nontrivial();
	char tg[24]; snprintf(tg, sizeof tg, "code %d", want); c.tag(tg);
}
std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	auto add = [&](const char *n, std::function<void(pt::Ctx &)> f, const char *rule) { pt::Target t{ n, f, rule }; v.push_back(t); };
	add("limits", limits, "valid parameters and limits in force");
	add("pickparams", pickparams_, "every case");
	add("pick_real", pick_real, "non-empty data");
	add("explicit", explicit_, "every case");
	add("info_any", info_any, "a whole header is readable");
	return v;
}
