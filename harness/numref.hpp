// Independent readings of the numbers and sizes users write.
#pragma once
#include "pt.hpp"
#include <ctype.h>
typedef unsigned __int128 u128;
inline bool hp_ref(const std::string &t, u128 &v)
{
	size_t i = 0; v = 0; bool big = false;
	while (i < t.size() && t[i] >= '0' && t[i] <= '9') { if (!big) v = v * 10 + (t[i] - '0'); if (v > ~0ULL) big = true; i++; }
	if (i == 0) return false;
	if (i < t.size() && t[i] == ' ') i++;
	if (i < t.size()) { const char *q = strchr("kMGTPE", t[i]); if (q && *q) { for (const char *x = "kMGTPE"; x <= q; x++) v *= 1000; i++; } }
	if (i < t.size() && t[i] == 'B') i++;
	return i == t.size() && !big && v <= ~0ULL;
}
inline std::string dec(u128 v) { std::string r; do { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return r; }
// Independent reading of "optional whitespace, then a number (C notation), nothing else".
inline bool int_ref(const std::string &t, bool &neg, u128 &v)
{
	size_t i = 0; neg = false; v = 0;
	while (i < t.size() && isspace((unsigned char)t[i])) i++;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
	int base = 10;
	if (i + 2 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X') && isxdigit((unsigned char)t[i + 2])) { base = 16; i += 2; }
	else if (i < t.size() && t[i] == '0') base = 8;
	size_t st = i;
	for (; i < t.size(); i++) {
		int d = isdigit((unsigned char)t[i]) ? t[i] - '0' : isxdigit((unsigned char)t[i]) ? tolower(t[i]) - 'a' + 10 : 99;
		if (d >= base) break;
		if (v < ((u128)1 << 100)) v = v * base + d;
	}
	return i > st && i == t.size();
}
inline std::string num_string(pt::Src &s, bool fl)
{
	std::string t;
	u128 v = s.draw(2) == 0 ? (u128)s.draw(5000) : (u128)s.value64() + (s.chance(1, 6) ? (u128)s.value64() << 8 : 0);
	char b[80];
	switch (s.draw(fl ? 6 : 3)) {
	case 0: case 1: t = dec(v); break;
	case 2: snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); t = b; break;
	case 3: snprintf(b, sizeof b, "0%llo", (unsigned long long)v); t = b; break;
	case 4: snprintf(b, sizeof b, "%.*g", (int)s.range(1, 17), (double)s.draw(1000000) / (double)(1 + s.draw(2000))); t = b; break;
	case 5: snprintf(b, sizeof b, "%llue%d", (unsigned long long)s.draw(99), (int)s.draw(40) - 20); t = b; break;
	default: t = s.pick<const char *>({ "nan", "inf", "infinity", "-inf", "NAN", "nan(12)", "1e999", "0x1p-1", "0.5", ".5", "5.", "1e-2", "-0", "0.50000000000000001", "0.5000000000000002" }); break;
	}
	if (s.chance(1, 4)) t = s.pick<const char *>({ "-", "+", " ", "\t-", "- ", "--", "0", " \n" }) + t;
	if (s.chance(1, 4)) t += s.pick<const char *>({ " ", "x", "0", "e", ".", "k", ",", "\n", "u", "L" });
	if (s.chance(1, 8)) { size_t p = s.draw(t.size()); t.insert(p, 1, (char)s.range(1, 255)); }
	if (s.chance(1, 20)) t = "";
	return t;
}
