// Looking for secrets in memory the code under test has given up: dead stack
// frames, freed blocks and static variables.
#pragma once
#include <cstring>
#include <functional>
#include <link.h>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>

// Runs f well below the harness's own frames, so that what the library leaves on
// the stack is not overwritten before it is looked at.
template <class F> __attribute__((noinline)) void deep(F f)
{
	volatile char *moat = (volatile char *)__builtin_alloca(96 * 1024);
	moat[0] = 0;
	f();
	moat[1] = 0;
}
// A stack of its own for f; its contents stay for the caller to look at.
#ifndef __has_feature
#define __has_feature(x) 0
#endif
namespace scan {
inline ucontext_t uc_main, uc_fn;
inline std::function<void()> uc_body;
inline void uc_entry() { try { uc_body(); } catch (...) {} swapcontext(&uc_fn, &uc_main); }
static const size_t STK = 1 << 20;
inline char *stack()
{
	static char *st = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	return st;
}
// The part of the dead stack that has been used.
inline std::string used_stack()
{
	const uint64_t *q = (const uint64_t *)stack();
	size_t i = 0;
	while (i < STK / 8 && !q[i]) i++;
	return std::string(stack() + 8 * i, STK - 8 * i);
}
inline std::string on_stack(std::function<void()> f)
{
	static size_t was = STK;	// bytes used by the previous call
	memset(stack() + STK - was, 0, was);
	uc_body = std::move(f);
	getcontext(&uc_fn);
	uc_fn.uc_stack.ss_sp = stack(); uc_fn.uc_stack.ss_size = STK; uc_fn.uc_link = nullptr;
	makecontext(&uc_fn, uc_entry, 0);
	swapcontext(&uc_main, &uc_fn);
	uc_body = nullptr;
	std::string r = used_stack();
	was = r.size();
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
	r.clear();	// instrumented code leaves traces of its own
#endif
	return r;
}
// Writable data of the program itself (where static variables live).
inline std::vector<std::pair<const char *, size_t>> statics()
{
	std::vector<std::pair<const char *, size_t>> v;
	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *p) {
		for (int k = 0; k < i->dlpi_phnum; k++) {
			const ElfW(Phdr) &h = i->dlpi_phdr[k];
			if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
				size_t a = i->dlpi_addr + h.p_vaddr;
				((decltype(v) *)p)->push_back({ (const char *)a, h.p_memsz });
			}
		}
		return 1;	// the first one is the program
	}, &v);
	return v;
}
struct Finder {
	struct Pat { std::string w; const char *what; size_t off; };
	std::unordered_map<uint64_t, std::vector<Pat>> m;
	std::vector<uint8_t> bloom = std::vector<uint8_t>(1 << 16);
	static size_t h(uint64_t k) { return (k * 0x9e3779b97f4a7c15ULL) >> 48; }
	// Any W consecutive bytes of s count; too regular ones are no secret.
	void add(const std::string &s, const char *what, size_t W = 16)
	{
		for (size_t o = 0; o + W <= s.size(); o += s.size() > 400 ? 5 : 1) {
			unsigned d = 0; uint8_t seen[32] = { 0 };
			for (size_t i = 0; i < W; i++) { uint8_t x = s[o + i]; if (!(seen[x >> 3] & 1 << (x & 7))) { d++; seen[x >> 3] |= 1 << (x & 7); } }
			if (d < 6) continue;
			uint64_t k; memcpy(&k, s.data() + o, 8);
			bloom[h(k)] = 1;
			m[k].push_back({ s.substr(o, W), what, o });
		}
	}
	// What was found, or "".
	std::string find(const char *p, size_t n) const
	{
		if (n < 16 || m.empty()) return "";
		for (size_t i = 0; i + 16 <= n; i++) {
			uint64_t k; memcpy(&k, p + i, 8);
			if (!bloom[h(k)]) continue;
			auto it = m.find(k);
			if (it == m.end()) continue;
			for (auto &x : it->second) if (i + x.w.size() <= n && !memcmp(p + i, x.w.data(), x.w.size())) {
				char b[160]; snprintf(b, sizeof b, "%s (from byte %zu)", x.what, x.off);
				return b;
			}
		}
		return "";
	}
	std::string find(const std::string &s) const { return find(s.data(), s.size()); }
	// (The sanitizers' own data is too large to go through.)
	std::string find_static() const
	{
		for (auto &r : statics()) if (r.second < (1 << 20)) { std::string f = find(r.first, r.second); if (!f.empty()) return f; }
		return "";
	}
};
}
