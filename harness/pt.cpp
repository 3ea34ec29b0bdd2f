#include "pt.hpp"
#include "mock.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pt {
std::vector<uint64_t> mined;
uint64_t g_seed = 1;
static const size_t CAP = 1 << 16;

struct Shm {
	volatile uint64_t state;	// 0 running, 1 failed (msg), 2 finished, 3 discard
	volatile uint64_t caseno, evals, nontriv, discards;
	volatile double started;
	volatile uint64_t nchoices;
	volatile uint64_t index;
	volatile uint64_t c_nt, c_nrec; char c_tags[512];	// fork_each: child to worker
	char msg[8192], desc[4096];
	volatile uint64_t choices[CAP];
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Shm *new_shm() { return (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static std::string errdir;	// scratch directory for worker stderr

static void set_str(char *dst, size_t cap, const std::string &s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

// Run one case in this process. Returns 0 ok, 1 fail, 3 discard.
static int run_case(const Target &t, Src &s, Shm *sh, Ctx &c)
{
	mock.reset();
	try { t.fn(c); }
	catch (Fail &f) { mock.on = false; set_str(sh->msg, sizeof sh->msg, f.msg); set_str(sh->desc, sizeof sh->desc, c.desc); return 1; }
	catch (Discard &) { mock.on = false; return 3; }
	catch (std::exception &e) { mock.on = false; set_str(sh->msg, sizeof sh->msg, std::string("harness exception: ") + e.what()); return 1; }
	mock.on = false;
	return 0;
}
static uint64_t case_seed(const Target &t, uint64_t seed, int w, uint64_t n)
{
	return mix(mix(seed) ^ mix(hash_bytes(t.name, strlen(t.name))) ^ mix(w * 1000003ULL + 17) ^ mix(n * 77777ULL + 5));
}
static std::string slurp(const std::string &p, size_t max = 6000)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream ss; ss << f.rdbuf();
	std::string s = ss.str();
	if (s.size() > max) {
		size_t k = s.find("ERROR:");
		if (k == std::string::npos) k = s.find("runtime error");
		if (k == std::string::npos) k = s.size() - max;
		s = s.substr(k > 200 ? k - 200 : 0, max);
	}
	return s;
}
static void child_setup(const std::string &errfile)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
}
static std::string wait_msg(int st, const std::string &errfile)
{
	char b[128];
	if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process killed by signal %d", WTERMSIG(st));
	else snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(st));
	return std::string(b) + "\n" + slurp(errfile);
}
static unsigned worker_mask(const Target &t, int w)
{
	// rotate through subsets of the hardware features listed in t.hwrot
	if (!t.hwrot) return ~0u;
	static const unsigned pats[] = { 0x1f, 0x00, 0x18, 0x1a, 0x1c, 0x1b, 0x08, 0x1f };
	return pats[w % 8] | ~t.hwrot;
}
struct Outcome { bool failed = false; std::string msg, desc; std::vector<uint64_t> choices; };
static int g_tmp = 0;
// Run a single replayed case in a forked child.
static Outcome replay_case(const Target &t, const std::vector<uint64_t> &ch, uint64_t index, unsigned mask, double tmo)
{
	Shm *sh = new_shm();
	std::string ef = errdir + "/r" + std::to_string(getpid()) + "." + std::to_string(g_tmp++ % 64);
	pid_t p = fork();
	if (p == 0) {
		child_setup(ef);
		hw_mask = mask;
		Src s; s.mode = Src::REPLAY; s.in = ch; s.index = index;
		s.shm = sh->choices; s.shm_n = &sh->nchoices; s.shm_cap = CAP;
		Ctx c(s);
		int rc = run_case(t, s, sh, c);
		if (rc == 0) set_str(sh->desc, sizeof sh->desc, c.desc);
		sh->state = rc == 1 ? 1 : 2;
		_exit(rc == 1 ? 3 : 0);
	}
	Outcome o;
	double end = now() + tmo;
	int st; bool hung = false;
	while (waitpid(p, &st, WNOHANG) == 0) {
		if (now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
		usleep(300);
	}
	if (hung) { o.failed = true; o.msg = "hang: case did not finish within " + std::to_string(tmo) + " s"; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 2) o.failed = false;
	else if (sh->state == 1) { o.failed = true; o.msg = sh->msg; }
	else { o.failed = true; o.msg = wait_msg(st, ef); }
	o.desc = sh->desc;
	o.choices.assign(sh->choices, sh->choices + std::min((uint64_t)sh->nchoices, (uint64_t)CAP));
	munmap(sh, sizeof(Shm));
	unlink(ef.c_str());
	return o;
}
static Outcome shrink(const Target &t, Outcome best, uint64_t index, unsigned mask, double budget)
{
	double end = now() + budget;
	auto attempt = [&](const std::vector<uint64_t> &c) {
		if (now() > end) return false;
		Outcome o = replay_case(t, c, index, mask, t.case_timeout);
		if (!o.failed) return false;
		if (o.choices.empty() || o.choices.size() > c.size()) o.choices = c;
		// drop unread tail
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t k : { 32, 16, 8, 4, 2, 1 })
			for (size_t i = best.choices.size(); i-- > 0 && now() < end;) {
				if (i + k > best.choices.size()) continue;
				std::vector<uint64_t> c = best.choices;
				c.erase(c.begin() + i, c.begin() + i + k);
				if (attempt(c)) progress = true;
			}
		for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
			if (best.choices[i] == 0) continue;
			std::vector<uint64_t> c = best.choices;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = best.choices[i];	// lo passes, hi fails
			while (hi - lo > 1 && now() < end && i < best.choices.size()) {
				uint64_t m = lo + (hi - lo) / 2;
				c = best.choices; c[i] = m;
				if (attempt(c)) { hi = m; progress = true; } else lo = m;
			}
		}
	}
	return best;
}
static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
struct Found { Outcome o; int nw = 8; int w; uint64_t caseno, index; unsigned mask; bool history; bool flaky; };

std::string prop = getenv("PT_PROP") ? getenv("PT_PROP") : "X00";
static std::string write_replay(const std::string &dir, const std::string &prop, const Target &t, const Found &f, uint64_t seed)
{
	mkdir(dir.c_str(), 0755);
	std::string p = dir + "/" + prop + "-" + t.name + "-" + std::to_string(hash_bytes(f.o.msg.data(), f.o.msg.size()) % 1000000) + ".replay";
	FILE *o = fopen(p.c_str(), "w");
	if (!o) return p;
	fprintf(o, "# property %s, target %s\n# %s\n", prop.c_str(), t.name, "re-run: the command in the last line of this header");
	std::string m = f.o.msg; std::replace(m.begin(), m.end(), '\n', '|');
	std::string d = f.o.desc; std::replace(d.begin(), d.end(), '\n', '|');
	fprintf(o, "# case: %s\n# failure: %s\n", d.c_str(), m.c_str());
	fprintf(o, "target %s\nmask %u\nindex %llu\n", t.name, f.mask, (unsigned long long)f.index);
	if (f.history) fprintf(o, "history %llu %d %llu %d\n", (unsigned long long)seed, f.w, (unsigned long long)f.caseno, f.nw);
	else { fprintf(o, "choices"); for (auto v : f.o.choices) fprintf(o, " %llu", (unsigned long long)v); fprintf(o, "\n"); }
	fclose(o);
	return p;
}
// Worker body: runs cases first, first+step, ... until the deadline.
static void worker(const Target &t, Shm *sh, int w, int nw, uint64_t seed, double deadline, uint64_t maxcases, const std::string &outf)
{
	std::unordered_set<uint64_t> seen;
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, uint64_t>> tags;
	uint64_t next_sample = 1, ntc = 0;
	hw_mask = worker_mask(t, w);
	for (uint64_t n = sh->caseno;; n++) {
		if (t.enum_n) { if (w + n * nw >= t.enum_n) break; if (now() > deadline) { break; } }
		else if (n >= maxcases || now() > deadline) break;
		Src s;
		s.mode = Src::RANDOM; s.rng.s = case_seed(t, seed, w, n);
		s.index = t.enum_n ? w + n * nw : n;
		s.shm = sh->choices; s.shm_n = &sh->nchoices; s.shm_cap = CAP;
		sh->nchoices = 0; sh->caseno = n; sh->index = s.index; sh->started = now();
		Ctx c(s);
		int rc;
		if (t.fork_each) {
			sh->c_nt = 0; sh->desc[0] = 0;
			pid_t p = fork();
			if (p == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				rc = run_case(t, s, sh, c);
				if (rc != 1) set_str(sh->desc, sizeof sh->desc, c.desc);
				std::string tg;
				for (auto &x : c.tags) tg += x + "\n";
				set_str(sh->c_tags, sizeof sh->c_tags, tg);
				sh->c_nt = c.nt; sh->c_nrec = s.rec.size();
				_exit(rc);
			}
			int st;
			while (waitpid(p, &st, 0) < 0 && errno == EINTR);
			if (WIFSIGNALED(st)) {
				char b[64]; snprintf(b, sizeof b, "process killed by signal %d\n", WTERMSIG(st));
				if (write(2, b, strlen(b))) {}
				_exit(4);
			}
			rc = WEXITSTATUS(st);
			if (rc != 0 && rc != 1 && rc != 3) _exit(4);
			c.nt = sh->c_nt; c.desc = sh->desc;
			for (size_t i = 0; i < sh->c_nrec && i < CAP; i++) s.rec.push_back((uint64_t)sh->choices[i]);
			std::stringstream ss(sh->c_tags); std::string tg;
			while (std::getline(ss, tg)) c.tags.push_back(tg);
		} else
			rc = run_case(t, s, sh, c);
		if (rc == 1) { sh->state = 1; _exit(3); }
		if (rc == 3) { sh->discards = sh->discards + 1; continue; }
		sh->evals = sh->evals + 1;
		if (c.nt) {
			uint64_t h = hash_bytes(s.rec.data(), s.rec.size() * 8, s.index * (t.enum_n ? 1 : 0) + 1);
			if (seen.size() < 150000 && seen.insert(h).second) {
				ntc++;
				if (ntc >= next_sample && samples.size() < 6) { samples.push_back(c.desc); next_sample *= 7; }
			}
		}
		for (auto &g : c.tags) {
			bool ok = false;
			for (auto &p : tags) if (p.first == g) { p.second++; ok = true; }
			if (!ok) tags.push_back({ g, 1 });
		}
	}
	sh->caseno = sh->caseno + 1;
	FILE *o = fopen(outf.c_str(), "w");
	for (auto h : seen) fprintf(o, "N %llu\n", (unsigned long long)h);
	for (auto &s : samples) { std::string q = s; std::replace(q.begin(), q.end(), '\n', '|'); fprintf(o, "S %s\n", q.c_str()); }
	for (auto &g : tags) fprintf(o, "T %llu %s\n", (unsigned long long)g.second, g.first.c_str());
	fclose(o);
	sh->state = 2;
	_exit(0);
}
// Re-run cases 0..upto of worker w in one fresh process: does it fail again?
static Outcome rerun_history(const Target &t, uint64_t seed, int w, int nw, uint64_t upto, unsigned mask, double tmo)
{
	Shm *sh = new_shm();
	std::string ef = errdir + "/h" + std::to_string(getpid());
	pid_t p = fork();
	if (p == 0) {
		child_setup(ef);
		hw_mask = mask;
		for (uint64_t n = 0; n <= upto; n++) {
			Src s; s.mode = Src::RANDOM; s.rng.s = case_seed(t, seed, w, n);
			s.index = t.enum_n ? w + n * nw : n;
			Ctx c(s);
			if (run_case(t, s, sh, c) == 1) { sh->state = 1; _exit(3); }
		}
		sh->state = 2; _exit(0);
	}
	int st; double end = now() + tmo; bool hung = false;
	while (waitpid(p, &st, WNOHANG) == 0) { if (now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; } usleep(2000); }
	Outcome o;
	o.failed = !hung && !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
	o.msg = sh->state == 1 ? std::string(sh->msg) : wait_msg(st, ef);
	o.desc = sh->desc;
	munmap(sh, sizeof(Shm));
	return o;
}

int main_(int argc, char **argv, std::vector<Target> ts)
{
	std::string tname, out, repdir = ".", rep, minedf, frombytes;
	double secs = 10; int jobs = 8; uint64_t maxcases = ~0ULL >> 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() { return std::string(argv[++i]); };
		if (a == "--run") tname = nxt(); else if (a == "--seed") g_seed = strtoull(nxt().c_str(), 0, 0);
		else if (a == "--secs") secs = atof(nxt().c_str()); else if (a == "--jobs") jobs = atoi(nxt().c_str());
		else if (a == "--out") out = nxt(); else if (a == "--repdir") repdir = nxt(); else if (a == "--prop") prop = nxt();
		else if (a == "--replay") rep = nxt(); else if (a == "--mined") minedf = nxt(); else if (a == "--maxcases") maxcases = strtoull(nxt().c_str(), 0, 0);
		else if (a == "--from-bytes") frombytes = nxt();
		else if (a == "--list") { for (auto &t : ts) printf("%s %llu\n", t.name, (unsigned long long)t.enum_n); return 0; }
	}
	if (!minedf.empty()) { std::ifstream f(minedf); uint64_t v; while (f >> v) mined.push_back(v); }
	char tmpl[] = "/tmp/ptXXXXXX";
	errdir = mkdtemp(tmpl);
	auto cleanup = [&]() { std::string c = "rm -rf " + errdir; if (errdir.rfind("/tmp/pt", 0) == 0) if (system(c.c_str())) {} };
	auto find = [&](const std::string &n) -> Target * { for (auto &t : ts) if (n == t.name) return &t; return nullptr; };

	if (!rep.empty()) {
		std::ifstream f(rep); std::string line, tn; unsigned mask = ~0u; uint64_t index = 0; std::vector<uint64_t> ch;
		bool hist = false; uint64_t hs = 0, hn = 0; int hw = 0, hnw = 8;
		while (std::getline(f, line)) {
			std::stringstream ss(line); std::string k; ss >> k;
			if (k == "target") ss >> tn; else if (k == "mask") ss >> mask; else if (k == "index") ss >> index;
			else if (k == "choices") { uint64_t v; while (ss >> v) ch.push_back(v); }
			else if (k == "history") { ss >> hs >> hw >> hn >> hnw; hist = true; }
		}
		Target *t = find(tn);
		if (!t) { fprintf(stderr, "no target %s\n", tn.c_str()); return 2; }
		Outcome o = hist ? rerun_history(*t, hs, hw, hnw, hn, mask, 600) : replay_case(*t, ch, index, mask, t->case_timeout * 2);
		printf("case: %s\n%s%s\n", o.desc.c_str(), o.failed ? "FAILED: " : "passed", o.failed ? o.msg.c_str() : "");
		cleanup();
		return o.failed ? 1 : 0;
	}
	Target *tp = find(tname);
	if (!tp) { fprintf(stderr, "unknown target %s\n", tname.c_str()); return 2; }
	Target &t = *tp;
	double t0 = now(), deadline = t0 + secs;
	std::vector<Found> found;
	std::vector<std::string> flaky;
	uint64_t evals = 0, discards = 0;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, uint64_t>> tags;
	bool complete = t.enum_n > 0;

	if (!frombytes.empty()) {
		// Convert a libFuzzer artifact to a choice sequence, then shrink it.
		std::ifstream f(frombytes, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string b = ss.str();
		Shm *sh = new_shm();
		pid_t p = fork();
		if (p == 0) {
			child_setup(errdir + "/b");
			Src s; s.mode = Src::BYTES; s.data = (const uint8_t *)b.data(); s.len = b.size();
			s.shm = sh->choices; s.shm_n = &sh->nchoices; s.shm_cap = CAP;
			Ctx c(s);
			_exit(run_case(t, s, sh, c) == 1 ? 3 : 0);
		}
		int st; waitpid(p, &st, 0);
		std::vector<uint64_t> ch(sh->choices, sh->choices + std::min((uint64_t)sh->nchoices, (uint64_t)CAP));
		Outcome o = replay_case(t, ch, 0, ~0u, t.case_timeout);
		if (o.failed) { o.choices = ch; Found f; f.o = o; f.w = 0; f.caseno = 0; f.index = 0; f.mask = ~0u; f.history = f.flaky = false; found.push_back(f); }
		else flaky.push_back("libFuzzer artifact did not reproduce outside libFuzzer");
	} else {
		struct W { pid_t pid; Shm *sh; std::string ef, of; bool done; };
		std::vector<W> ws(jobs);
		auto start = [&](int w) {
			W &x = ws[w];
			x.sh->state = 0; x.sh->started = now();
			x.pid = fork();
			if (x.pid == 0) { child_setup(x.ef); worker(t, x.sh, w, jobs, g_seed, deadline, maxcases, x.of); }
		};
		for (int w = 0; w < jobs; w++) {
			ws[w] = { 0, new_shm(), errdir + "/e" + std::to_string(w), errdir + "/o" + std::to_string(w), false };
			start(w);
		}
		int left = jobs;
		while (left && found.empty()) {
			for (int w = 0; w < jobs; w++) {
				W &x = ws[w];
				if (x.done) continue;
				int st; bool hung = false;
				pid_t r = waitpid(x.pid, &st, WNOHANG);
				if (r == 0) {
					if (now() - x.sh->started > t.case_timeout) { kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0); hung = true; }
					else continue;
				}
				if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && x.sh->state == 2) { x.done = true; left--; continue; }
				Found f; f.nw = jobs; f.w = w; f.caseno = x.sh->caseno; f.index = x.sh->index; f.mask = worker_mask(t, w); f.history = false; f.flaky = false;
				f.o.failed = true;
				f.o.msg = hung ? "hang: case did not finish" : x.sh->state == 1 ? std::string(x.sh->msg) : wait_msg(st, x.ef);
				f.o.desc = x.sh->desc;
				f.o.choices.assign(x.sh->choices, x.sh->choices + std::min((uint64_t)x.sh->nchoices, (uint64_t)CAP));
				// Confirm in a fresh process.
				Outcome a = replay_case(t, f.o.choices, f.index, f.mask, t.case_timeout * 2);
				if (a.failed) { found.push_back(f); break; }
				Outcome h = hung ? Outcome() : rerun_history(t, g_seed, w, jobs, f.caseno, f.mask, 120);
				if (h.failed) { f.history = true; f.o = h; found.push_back(f); break; }
				flaky.push_back(f.o.msg.substr(0, 500));
				// carry on after the irreproducible case
				x.sh->caseno = f.caseno + 1;
				if (flaky.size() > 20) { x.done = true; left--; } else start(w);
			}
			usleep(2000);
		}
		for (int w = 0; w < jobs; w++) {
			W &x = ws[w];
			if (!x.done) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); complete = false; }
			evals += x.sh->evals; discards += x.sh->discards;
			std::ifstream f(x.of); std::string line;
			while (std::getline(f, line)) {
				if (line[0] == 'N') distinct.insert(strtoull(line.c_str() + 2, 0, 10));
				else if (line[0] == 'S' && samples.size() < 12) samples.push_back(line.substr(2));
				else if (line[0] == 'T') {
					char *e; uint64_t n = strtoull(line.c_str() + 2, &e, 10); std::string g = e + 1; bool ok = false;
					for (auto &p : tags) if (p.first == g) { p.second += n; ok = true; }
					if (!ok) tags.push_back({ g, n });
				}
			}
		}
		if (t.enum_n && evals + discards < t.enum_n) complete = false;
	}
	std::string rp, rmsg, rdesc;
	for (auto &f : found) {
		if (!f.history) {
			f.o = shrink(t, f.o, f.index, f.mask, secs > 60 ? 60 : 25);
			int bad = 0;
			for (int i = 0; i < 3; i++) if (replay_case(t, f.o.choices, f.index, f.mask, t.case_timeout * 2).failed) bad++;
			if (bad < 3) { flaky.push_back("not reproducible 3/3: " + f.o.msg.substr(0, 500)); continue; }
		} else {
			int bad = 0;
			for (int i = 0; i < 2; i++) if (rerun_history(t, g_seed, f.w, jobs, f.caseno, f.mask, 120).failed) bad++;
			if (bad < 2) { flaky.push_back("history not reproducible: " + f.o.msg.substr(0, 500)); continue; }
		}
		rp = write_replay(repdir, prop, t, f, g_seed); rmsg = f.o.msg; rdesc = f.o.desc;
	}
	std::string j = "{\"target\": " + jstr(t.name) + ", \"rule\": " + jstr(t.rule) + ", \"evaluations\": " + std::to_string(evals) +
	    ", \"discarded\": " + std::to_string(discards) + ", \"distinct_nontrivial\": " + std::to_string(distinct.size()) +
	    ", \"enum_total\": " + std::to_string(t.enum_n) + ", \"exhaustive\": " + (complete ? "true" : "false") +
	    ", \"wall_s\": " + std::to_string(now() - t0) + ", \"samples\": [";
	for (size_t i = 0; i < samples.size(); i++) j += (i ? ", " : "") + jstr(samples[i]);
	j += "], \"tags\": {";
	for (size_t i = 0; i < tags.size(); i++) j += (i ? ", " : "") + jstr(tags[i].first) + ": " + std::to_string(tags[i].second);
	j += "}, \"flaky\": [";
	for (size_t i = 0; i < flaky.size(); i++) j += (i ? ", " : "") + jstr(flaky[i]);
	j += "], \"violation\": ";
	if (rp.empty()) j += "null"; else j += "{\"replay\": " + jstr(rp) + ", \"message\": " + jstr(rmsg) + ", \"case\": " + jstr(rdesc) + "}";
	j += "}\n";
	if (!out.empty()) { FILE *o = fopen(out.c_str(), "w"); fputs(j.c_str(), o); fclose(o); } else fputs(j.c_str(), stdout);
	cleanup();
	return rp.empty() ? 0 : 1;
}

#ifdef PT_FUZZ
}	// namespace
std::vector<pt::Target> pt_targets();
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	static std::vector<pt::Target> ts = pt_targets();
	static pt::Target *t = nullptr;
	if (!t) {
		const char *n = getenv("PT_TARGET");
		for (auto &x : ts) if (n && !strcmp(n, x.name)) t = &x;
		if (!t) abort();
		if (getenv("PT_MINED")) { std::ifstream f(getenv("PT_MINED")); uint64_t v; while (f >> v) pt::mined.push_back(v); }
	}
	mock.reset();
	pt::Src s; s.mode = pt::Src::BYTES; s.data = data; s.len = size;
	pt::Ctx c(s);
	try { t->fn(c); }
	catch (pt::Fail &f) { mock.on = false; fprintf(stderr, "PT-FAIL: %s\n", f.msg.c_str()); abort(); }
	catch (pt::Discard &) { mock.on = false; return -1; }
	mock.on = false;
	return 0;
}
namespace pt {
#endif
}
std::vector<pt::Target> pt_targets();
#ifndef PT_FUZZ
int main(int argc, char **argv) { return pt::main_(argc, argv, pt_targets()); }
#endif
