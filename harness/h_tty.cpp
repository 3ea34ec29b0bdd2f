// C18 (echo and signals), C17 (what is entered on a terminal): readpass and the
// entry methods over a simulated terminal, with signals raised at chosen points.
#include "encio.hpp"
#include <csignal>
#include <termios.h>
#include <unistd.h>
extern "C" {
#include "insecure_memzero.h"
#include "passphrase_entry.h"
void __wrap_free(void *);
}
static const int SIGS[] = { SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU };
static const char *SIGN[] = { "ALRM", "HUP", "INT", "PIPE", "QUIT", "TERM", "TSTP", "TTIN", "TTOU" };
enum Ev { LINE, PART, END, ERR, SIGERR, QUIET };	// QUIET: a signal that does not interrupt the read
struct Event { Ev e; std::string t; int sig; };
static struct Tty {
	termios orig, cur;
	std::vector<Event> ev; size_t at; bool eof;
	bool tty;			// whether it is one at all
	bool sees_echo; int set_calls, reads; int get_fail, set_fail;
	int sig_at_set, sig_at_get, sig_at_open, sig_at_close;	// signal raised during the k-th such call (-1: none)
	int sigat;
	std::vector<std::pair<int, bool>> delivered;	// signal, terminal was as before
	std::vector<int> raised;
	std::string prompts_before_off;
	bool closed;
	bool decoy_read;		// something else than the terminal in use was read
} T;
static bool same(const termios &a, const termios &b)
{
	return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, NCCS);
}
static void on_sig(int s) { T.delivered.push_back({ s, same(T.cur, T.orig) }); }
static void on_sig2(int s, siginfo_t *, void *) { T.delivered.push_back({ s, same(T.cur, T.orig) }); }
static void fire(int sig) { T.raised.push_back(sig); raise(sig); }
static ssize_t tty_rd(void *, char *b, size_t n)
{
	T.reads++;
	while (T.at < T.ev.size()) {
		Event &e = T.ev[T.at];
		if (T.tty && (T.cur.c_lflag & ECHO)) T.sees_echo = true;
		switch (e.e) {
		case QUIET: T.at++; fire(e.sig); continue;
		case SIGERR: T.at++; fire(e.sig); errno = EINTR; return -1;
		case ERR: T.at++; errno = EIO; return -1;
		case END: T.at++; return 0;
		default: break;
		}
		size_t k = e.t.size() < n ? e.t.size() : n;
		memcpy(b, e.t.data(), k);
		e.t.erase(0, k);
		if (e.t.empty()) T.at++;
		return k;
	}
	if (T.tty && (T.cur.c_lflag & ECHO)) T.sees_echo = true;
	return 0;
}
static int tty_cl(void *) { T.closed = true; return 0; }
static FILE *open_tty()
{
	cookie_io_functions_t f = { tty_rd, nullptr, nullptr, tty_cl };
	return fopencookie(&T, "r", f);
}
static ssize_t decoy_rd(void *, char *b, size_t n)
{
	T.decoy_read = true;
	const char *l = "not the passphrase\nnot the passphrase\n";
	if (n > strlen(l)) n = strlen(l);
	memcpy(b, l, n);
	return n;
}
static FILE *open_decoy()
{
	cookie_io_functions_t f = { decoy_rd, nullptr, nullptr, nullptr };
	return fopencookie(&T, "r", f);
}
static std::string some_line(pt::Src &s, const std::string &base, bool crlf)
{
	std::string l = base;
	switch (s.draw(4)) {
	case 0: case 1: break;
	case 2: l = std::string(s.draw(8), 'a' + s.draw(3)); break;
	case 3: if (!l.empty()) { size_t k = s.draw(l.size() - 1); l[k] = l[k] == 'q' ? 'Q' : 'q'; } break;
	default: l.resize(s.draw(l.size())); break;
	}
	return l + (crlf ? "\r\n" : "\n");
}
static void passtty(pt::Ctx &c)
{
	pt::Src &s = c.s;
	T = Tty();
	memset(&T.orig, 0, sizeof T.orig);
	T.orig.c_lflag = ICANON | ISIG | ECHOE | ECHOK | (s.chance(1, 8) ? 0 : ECHO) | (s.chance(1, 8) ? ECHONL : 0) | (s.chance(1, 6) ? TOSTOP : 0) | (s.chance(1, 6) ? IEXTEN : 0);
	T.orig.c_iflag = ICRNL | (s.draw(1) ? IXON : 0) | (s.draw(1) ? IUTF8 : 0);
	T.orig.c_oflag = OPOST | ONLCR; T.orig.c_cflag = CS8 | CREAD | B38400;
	for (int i = 0; i < NCCS; i++) T.orig.c_cc[i] = (cc_t)(i * 7 + 1);
	T.cur = T.orig;
	int meth = s.draw(3);	// 0: tty-stdin over /dev/tty, 1: tty-stdin with stdin a terminal and no /dev/tty, 2: tty-once, 3: stdin-once
	bool once = s.draw(1);
	bool confirm = meth <= 1 && !once;
	T.tty = meth == 0 || meth == 2 || s.chance(5, 6);
	bool notty = meth == 2 && s.chance(1, 6);
	T.get_fail = T.set_fail = -1;
	if (s.chance(1, 12)) T.get_fail = 0;
	else if (s.chance(1, 12)) T.set_fail = 0;
	T.sig_at_set = T.sig_at_get = T.sig_at_open = T.sig_at_close = -1;
	int nsig = 0;
	if (s.chance(1, 8)) T.sig_at_get = 0;
	if (s.chance(1, 6)) T.sig_at_set = s.draw(1);
	T.sigat = SIGS[s.draw(8)];
	bool nomem = s.chance(1, 10);	// the first allocation fails
	// the entry history
	std::string base; for (uint64_t n = s.chance(1, 6) ? s.range(2030, 2045) : s.draw(30); n; n--) base += (char)('a' + (n * 7) % 26);
	bool crlf = s.chance(1, 8);
	bool sigs = s.chance(2, 3);
	for (uint64_t n = s.draw(s.draw(1) ? 3 : 12); n; n--) {
		Event e{}; 
		uint64_t k = s.draw(11);
		e.sig = SIGS[s.draw(8)];
		if (k <= 6) { e.e = LINE; e.t = some_line(s, base, crlf); }
		else if (k == 7) { e.e = PART; e.t = some_line(s, "pa", false); e.t.pop_back(); if (e.t.empty()) continue; }
		else if (k == 8) e.e = END;
		else if (k == 9) e.e = ERR;
		else if (!sigs) continue;
		else e.e = k == 10 ? SIGERR : QUIET;
		T.ev.push_back(e);
	}
	// what the caller of the program has set for these signals
	struct sigaction before[9]; int disp[9];
	for (int i = 0; i < 9; i++) {
		disp[i] = s.chance(1, 5) ? s.draw(1) : 2;	// 0: ignored, 1: SA_SIGINFO handler, 2: handler
		memset(&before[i], 0, sizeof before[i]);
		sigemptyset(&before[i].sa_mask);
		if (s.chance(1, 5)) sigaddset(&before[i].sa_mask, SIGUSR1);
		if (disp[i] == 0) before[i].sa_handler = SIG_IGN;
		else if (disp[i] == 1) { before[i].sa_sigaction = on_sig2; before[i].sa_flags = SA_SIGINFO | (s.draw(1) ? SA_RESTART : 0); }
		else { before[i].sa_handler = on_sig; before[i].sa_flags = s.chance(1, 4) ? SA_NODEFER : 0; }
	}
	// ---- the expected outcome
	std::vector<Event> ev = T.ev; size_t at = 0; bool eof = false;
	auto next = [&](std::string &out) -> bool {
		out.clear();
		if (eof) return false;
		for (;;) {
			if (at >= ev.size()) { eof = true; return !out.empty(); }
			Event &e = ev[at++];
			switch (e.e) {
			case QUIET: continue;
			case SIGERR: case ERR: return false;
			case END: eof = true; return !out.empty();
			case PART: out += e.t; continue;
			default: out += e.t; return true;
			}
		}
	};
	bool ok = false; std::string a, b; int np = 0, nc = 0, mism = 0; bool undet = false;
	bool failset = T.tty && (T.get_fail == 0 || T.set_fail == 0);
	if (!notty && !failset) for (;;) {
		np++;
		if (!next(a)) break;
		if (a.size() > 2046) undet = true;
		if (!confirm) { ok = true; break; }
		nc++;
		if (!next(b)) break;
		if (b.size() > 2046) undet = true;
		if (a == b) { ok = true; break; }
		std::string a1 = a, b1 = b; a1.resize(strcspn(a1.c_str(), "\r\n")); b1.resize(strcspn(b1.c_str(), "\r\n"));
		if (a1 == b1) undet = true;	// differ in the line ending only: not claimed
		mism++;
	}
	if (undet) throw pt::Discard();
	a.resize(strcspn(a.c_str(), "\r\n"));
	std::string evs; for (auto &e : T.ev) { char x[64]; snprintf(x, sizeof x, " %s%s", (const char *[]){ "line", "part", "EOF", "error", "SIG", "sig" }[e.e], e.e >= SIGERR ? SIGN[std::find(SIGS, SIGS + 9, e.sig) - SIGS] : ""); evs += x; if (e.e < END) { snprintf(x, sizeof x, "[%zu]", e.t.size()); evs += x; } }
	c.note("%s %s%s:%s; tcgetattr %s%s, tcsetattr %s, signal at its call %d", (const char *[]){ "tty-stdin", "tty-stdin(stdin)", "tty-once", "stdin-once" }[meth], once ? "once" : "confirmed", T.tty ? "" : " (not a terminal)", evs.c_str(), T.get_fail == 0 ? "fails" : "works", T.sig_at_get == 0 ? " with a signal" : "", T.set_fail == 0 ? "fails" : "works", T.sig_at_set);
	if (nomem) c.note(", no memory");
	// ---- run
	mock.track = true;
	if (nomem) mock.fail_alloc = 0;
	mock.fopen_hook = [&](const char *p, const char *) -> void * {
		if (meth == 3 && !strcmp(p, "/dev/tty")) return open_decoy();
		if (strcmp(p, "/dev/tty") || meth == 1 || meth == 3 || notty) { errno = ENXIO; return nullptr; }
		return open_tty();
	};
	mock.isatty_hook = [&](int) { if (!T.tty) errno = ENOTTY; return T.tty ? 1 : 0; };
	int gets = 0;
	mock.tcget_hook = [&](int, void *t) {
		if (T.sig_at_get == gets) fire(T.sigat);
		if (gets++ == T.get_fail) { errno = EIO; return -1; }
		memcpy(t, &T.cur, sizeof T.cur); return 0;
	};
	bool opened_early = false;
	mock.tcset_hook = [&](int, int, const void *t) {
		bool before_ = T.sigat & 1;
		if (T.sig_at_set == T.set_calls && before_) fire(T.sigat);
		if (T.set_calls++ == T.set_fail) { errno = EIO; return -1; }
		memcpy(&T.cur, t, sizeof T.cur);
		if (T.sig_at_set == T.set_calls - 1 && !before_) fire(T.sigat);
		return 0;
	};
	struct sigaction save[9], after[9];
	sigset_t ms, ms0; sigemptyset(&ms); pthread_sigmask(SIG_SETMASK, nullptr, &ms0);
	for (int i = 0; i < 9; i++) { sigaction(SIGS[i], &before[i], &save[i]); }
	FILE *old = stdin, *in = nullptr;
	if (meth == 1 || meth == 3) in = open_tty();
	else in = open_decoy();
	char *pw = nullptr; int rc = -9;
	CapErr ce;
	stdin = in;
	mock.keep_freed = true;
	std::string st = scan::on_stack([&] { deep([&] {
	mock.on = true;
	rc = passphrase_entry_readpass(&pw, meth <= 1 ? PASSPHRASE_TTY_STDIN : meth == 2 ? PASSPHRASE_TTY_ONCE : PASSPHRASE_STDIN_ONCE, "", "Prompt", "Confirm", once);
	mock.on = false;
	}); });
	stdin = old;
	std::string err = ce.end();
	for (int i = 0; i < 9; i++) sigaction(SIGS[i], &save[i], &after[i]);
	sigset_t ms1; pthread_sigmask(SIG_SETMASK, &ms0, &ms1);
	fclose(in);
	std::string got; if (rc == 0) { got = pw; insecure_memzero(pw, got.size()); mock.on = true; __wrap_free(pw); mock.on = false; }
	// ---- verdict
	PCHECK("C18", !T.sees_echo, "the terminal echoed during entry");
	PCHECK("C18", same(T.cur, T.orig), "terminal settings not restored (lflag %x instead of %x)", T.cur.c_lflag, T.orig.c_lflag);
	if (!T.tty) PCHECK("C18", T.set_calls == 0, "settings changed on something that is not a terminal");
	for (int i = 0; i < 9; i++) {
		bool eq = disp[i] == 1 ? after[i].sa_sigaction == before[i].sa_sigaction : after[i].sa_handler == before[i].sa_handler;
		PCHECK("C18", eq, "the disposition of SIG%s was not restored", SIGN[i]);
		PCHECK("C18", (after[i].sa_flags & (SA_SIGINFO | SA_RESTART | SA_NODEFER | SA_RESETHAND)) == before[i].sa_flags, "the flags of SIG%s were not restored", SIGN[i]);
		PCHECK("C18", sigismember(&after[i].sa_mask, SIGUSR1) == sigismember(&before[i].sa_mask, SIGUSR1), "the mask of SIG%s was not restored", SIGN[i]);
		PCHECK("C18", sigismember(&ms1, SIGS[i]) == sigismember(&ms0, SIGS[i]), "SIG%s blocked afterwards", SIGN[i]);
		int r = std::count(T.raised.begin(), T.raised.end(), SIGS[i]), d = 0;
		for (auto &x : T.delivered) if (x.first == SIGS[i]) d++;
		if (disp[i]) PCHECK("C18", r == 0 ? d == 0 : d >= 1 && d <= r, "SIG%s arrived %d times during entry and took effect %d times", SIGN[i], r, d);
	}
	for (auto &x : T.delivered) PCHECK("C18", x.second, "signal %d took effect while the terminal settings were changed", x.first);
	PCHECK("C17", !T.decoy_read, "the passphrase was read from somewhere else than %s", meth == 1 || meth == 3 ? "standard input" : "the terminal");
	if (!mock.failed_kinds.empty()) { PCHECK("C15 C17", rc != 0, "success although memory ran out"); ok = false; c.tag("no memory"); }
	if (failset) PCHECK("C18 C15", rc != 0, "success although the terminal could not be controlled");
	PCHECK("C17", (rc == 0) == ok, "%s, expected %s (%s)", rc ? "rejected" : "accepted", ok ? "acceptance" : "rejection", err.substr(0, 200).c_str());
	if (ok && rc == 0) PCHECK("C17", got == a, "passphrase of %zu bytes, expected %zu bytes", got.size(), a.size());
	if (rc) PCHECK("C17 C24", !err.empty(), "no message");
	auto count = [&](const std::string &t) { int n = 0; for (size_t p = 0; (p = err.find(t, p)) != std::string::npos; p += t.size()) n++; return n; };
	bool early = !mock.failed_kinds.empty();	// memory may run out before anything is asked
	auto right = [&](int n, int want) { return n == want || (early && n < want); };
	PCHECK("C17", right(count("Prompt"), T.tty ? np : 0), "%d prompts, expected %d", count("Prompt"), T.tty ? np : 0);
	PCHECK("C17", right(count("Confirm"), T.tty ? nc : 0), "%d confirmation prompts, expected %d", count("Confirm"), T.tty ? nc : 0);
	scan::Finder F;
	bool secret = false;
	for (auto &e : ev) if (e.e == LINE || e.e == PART) { F.add(e.t, "a passphrase"); secret |= e.t.size() >= 16; }
	if (secret) {
		// A signal makes the kernel save the registers on the stack.
		std::string w = T.raised.empty() ? F.find(st) : "";
		PCHECK("C19", w.empty(), "%s left on the dead stack after code %d", w.c_str(), rc);
		for (auto &b : mock.freed) { w = F.find(b); PCHECK("C19", w.empty(), "%s left in a freed block after code %d", w.c_str(), rc); }
		w = F.find_static();
		PCHECK("C19", w.empty(), "%s left in a static variable after code %d", w.c_str(), rc);
	}
	PCHECK("C15", mock_leaks().empty(), "%s", mock_leaks().c_str());
	if (T.tty && !notty && (!T.raised.empty() || mism || np > 0)) c.nontrivial();
	c.tag(ok ? "accepted" : "rejected");
	if (!T.raised.empty()) c.tag("signals");
	if (mism) c.tag("mismatch");
}
std::vector<pt::Target> pt_targets()
{
	std::vector<pt::Target> v;
	v.push_back(pt::Target{ "passtty", passtty, "entry from a terminal" });
	return v;
}
