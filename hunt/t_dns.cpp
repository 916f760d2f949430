// C12 decoding of DNS answers
#include "support.hpp"
#include <Resolver.hpp>
using namespace DKIM;
static S n16(unsigned v) { return S(1, (char)(v >> 8)) + S(1, (char)v); }
/// a generated answer carries "1 expected-text"; a mangled one carries "0"
static Input dns_case(Rng& r, uint64_t i) {
	auto name = [&](const S& pre) -> S { // pre: bytes so far, for compression pointers
		(void)pre; switch (r.below(4)) { case 0: return S("\xc0\x0c", 2); case 1: return S("\0", 1); case 2: return S("\3sel\7example\0", 13); default: return S("\1a\xc0\x0c", 4); }
	};
	int qc = r.chance(85) ? 1 : r.below(3), cc = r.below(5); S exp;
	S a = S("\x12\x34\x81\x80", 4) + n16(qc) + n16(cc) + n16(r.below(2)) + n16(0);
	for (int q = 0; q < qc; q++) a += (q == 0 || r.chance(50) ? S("\3sel\12_domainkey\3exa\0", 20) : S("\xc0\x0c", 2)) + n16(16) + n16(1);
	if (qc == 0) { }
	for (int k = 0; k < cc; k++) {
		S nmx = qc ? name(a) : S("\1z\0", 3); bool txt = r.chance(70); S rd;
		if (txt) { int n = r.below(5); for (int q = 0; q < n; q++) { S c; size_t L = r.chance(15) ? 255 : r.chance(15) ? 0 : r.below(40); for (size_t z = 0; z < L; z++) c += (char)(r.chance(90) ? 33 + r.below(90) : r.below(256)); rd += S(1, (char)L) + c; exp += c; } }
		else rd = rbytes(r, r.below(30));
		a += nmx + n16(txt ? 16 : r.pick(std::vector<int>{5, 1, 99, 46, 272, 17, 15})) + n16(1) + n16(0) + n16(r.below(3000)) + n16(rd.size()) + rd;
	}
	if (r.chance(50)) a += rbytes(r, r.below(30));
	if (r.chance(55)) { size_t body = a.size(); (void)body; return {a, "1", exp, "0"}; }
	switch (r.below(4)) {
		case 0: a = a.substr(0, r.below(a.size() + 1)); break;
		case 1: { int n = 1 + r.below(4); for (int k = 0; k < n; k++) a[r.below(a.size())] = (char)r.pick(std::vector<int>{0, 255, 192, 1, 16, 12, 63, 128, (int)r.below(256)}); break; }
		case 2: a = a.substr(0, r.below(a.size() + 1)) + rbytes(r, r.below(20)); break;
		case 3: a = rbytes(r, r.below(60)); break;
	}
	return {a, "0", "", i % 7 == 0 ? num(1 + r.below(5)) : S("0")};
}
static Reg d1("C12", "dns-answer", dns_case, [](const Input& in) -> S {
	if (in.size() < 4) return "";
	g_dns = true; S out[3]; bool ret[3]; Res rs[3]; int herr = atoi(in[3].c_str());
	if (herr > 5 || herr < 0) return "";
	unsigned char fills[3] = {0, 0xff, 1};
	for (int k = 0; k < 3; k++) {
		g_fill = fills[k]; g_answer = in[0]; g_answer_len = herr ? -1 : (int)in[0].size(); g_herr = herr;
		rs[k] = guard([&] { Util::Resolver x; ret[k] = x.GetTXT("q.example", out[k]); });
	}
	g_dns = false; g_fill = 0;
	for (int k = 0; k < 3; k++) if (!rs[k].ok()) return rs[k].str();
	if (herr) { bool perm = herr == 1 || herr == 3 || herr == 4; if (ret[0] != perm || !out[0].empty()) return "error " + num(herr) + " gives " + num(ret[0]) + " \"" + esc(out[0]) + "\""; return ""; }
	for (int k = 1; k < 3; k++) if (ret[k] != ret[0] || out[k] != out[0]) return "the result depends on bytes outside the answer: " + num(ret[0]) + " \"" + esc(out[0]) + "\" and " + num(ret[k]) + " \"" + esc(out[k]) + "\"";
	if (in[1] == "1") {
		// the answer still is what was generated (shrinking changes it): re-decode it plainly
		const S& a = in[0]; size_t p = 12; if (a.size() < 12) return "";
		auto u16 = [&](size_t q) { return ((unsigned char)a[q] << 8) | (unsigned char)a[q + 1]; };
		auto skip = [&]() -> bool { for (;;) { if (p >= a.size()) return false; unsigned c = (unsigned char)a[p]; if (c == 0) { p++; return true; } if ((c & 0xc0) == 0xc0) { p += 2; return p <= a.size(); } if (c & 0xc0) return false; p += c + 1; } };
		int qc = u16(4), cc = u16(6); S exp;
		for (int i = 0; i < qc; i++) { if (!skip()) return ""; p += 4; if (p > a.size()) return ""; }
		for (int i = 0; i < cc; i++) { if (!skip() || p + 10 > a.size()) return ""; int t = u16(p); size_t n = u16(p + 8); p += 10; if (p + n > a.size()) return ""; if (t == 16) { size_t q = p; while (q < p + n) { size_t L = (unsigned char)a[q]; if (q + 1 + L > p + n) return ""; exp += a.substr(q + 1, L); q += L + 1; } } p += n; }
		if (!ret[0]) return "false for a well-formed answer";
		if (out[0] != exp) return "text is \"" + esc(out[0]) + "\", expected \"" + esc(exp) + "\"";
	}
	return "";
});
static Reg d2("C12", "dns-errors", [](Rng&, uint64_t i) -> Input { return {S(), "0", "", num(1 + i % 5)}; }, [](const Input& in) -> S {
	if (in.size() < 4) return ""; int herr = atoi(in[3].c_str()); if (herr < 1 || herr > 5) return ""; g_dns = true; g_answer_len = -1; g_herr = herr; S out; bool ret = false;
	Res r = guard([&] { Util::Resolver x; ret = x.GetTXT("q", out); }); g_dns = false; if (!r.ok()) return r.str();
	bool perm = herr == 1 || herr == 3 || herr == 4; if (herr == 5) return ""; return ret == perm && out.empty() ? "" : "error " + num(herr) + " gives " + num(ret) + " \"" + esc(out) + "\"";
});
