// C01 body canonicalization, C02 header canonicalization
#include "hunt.hpp"
#include "oracle.hpp"
#include <Canonicalization.hpp>
using namespace DKIM;

static S runbody(const S& text, bool relaxed, long long off, bool limit, size_t n) {
	std::stringstream ss(text); S got; bool ret = false;
	if (off % 3 == 1) { S junk; while (std::getline(ss, junk)); }     // as left by a message parser at end of input
	Res r = guard([&] { ret = Conversion::CanonicalizationBody(ss, relaxed ? DKIM_C_RELAXED : DKIM_C_SIMPLE, off, limit, n, [&](const char* p, size_t k) { got.append(p, k); }); });
	if (!r.ok()) return r.str();
	S exp = oracle::body(off == -1 ? S() : text.substr(off), relaxed);
	bool ok = !limit || exp.size() >= n;
	if (limit && exp.size() > n) exp.resize(n);
	if (got != exp) {
		size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
		size_t b = i > 20 ? i - 20 : 0;
		return "canonical body differs at byte " + num(i) + " of " + num(exp.size()) + " (got " + num(got.size()) + "): got ...\"" + esc(got.substr(b, 60)) + "\", expected ...\"" + esc(exp.substr(b, 60)) + "\"";
	}
	if (ret != ok) return S("reported ") + (ret ? "success" : "failure") + ", expected " + (ok ? "success" : "failure");
	return "";
}
static Reg c1("C01", "body", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = {"\n", "\r\n", " ", "a", "\t", "\r"};
	S b; uint64_t m;
	if (i < upto(6, 6) * 4) { b = nth(A, i / 4); m = i % 4; } else { b = rnd(r, {"\n", "\r\n", "\r\n", " ", "  ", "\t", "a", "bc", "\r", ".", S(1, '\0'), "\xff", " \r\n", "\r\n\r\n"}, 30); m = r.below(4); }
	S pre = r.chance(70) ? "" : rnd(r, {"x", "\n", "\r\n", "h: v\r\n"}, 5);
	long long off = r.chance(3) ? -1 : (long long)pre.size();
	size_t full = oracle::body(off < 0 ? S() : b, m & 1).size();
	size_t lim = r.chance(60) ? (full + 2 - r.below(5)) : r.below(full + 3); if ((long long)lim < 0) lim = 0;
	if (r.chance(3)) lim = (size_t)0x7fffffffffffffffull;
	return {pre + b, S(1, (char)('0' + m)), num(off), num(lim)};
}, [](const Input& in) -> S {
	if (in.size() < 4 || in[1].empty()) return "";
	long long off = atoll(in[2].c_str()), lim = atoll(in[3].c_str()); if (off < -1 || off > (long long)in[0].size() || lim < 0) return "";
	return runbody(in[0], in[1][0] & 1, off, (in[1][0] - '0') & 2, lim);
}, 2);
static Reg c1b("C01", "body-large", [](Rng& r, uint64_t) -> Input {
	// placed around the read buffer boundaries
	static const std::vector<S> F = {"a", "ab c", "line\r\n", "\r\n", " ", "x \t y"};
	S b; size_t target = 8096 * (1 + r.below(3)) + r.below(40) - 20; S f = r.pick(F);
	if (r.chance(30)) f = rnd(r, {"a", " ", "\r\n", "\n", "\t", "b"}, 40) + "z";
	size_t keep = r.below(12);
	while (b.size() + f.size() + keep <= target) b += f;
	while (b.size() + keep < target) b += "q";
	b += rnd(r, {"\r\n", " ", "\t", "a", "\r", "\n", "bc", " \r\n"}, 14);
	if (r.chance(50)) { size_t n = r.below(9000); b += S(n, r.pick(chars("a \n\t"))[0]); b += rnd(r, {"\r\n", " ", "a", "\n"}, 8); }
	int m = r.below(4); size_t full = oracle::body(b, m & 1).size();
	size_t lim = r.chance(40) ? full + 2 - r.below(5) : r.chance(50) ? 8096 * (1 + r.below(2)) + r.below(9) - 4 : r.below(full + 3);
	return {b, S(1, (char)('0' + m)), "0", num(lim)};
}, [](const Input& in) -> S {
	if (in.size() < 4 || in[1].empty()) return "";
	long long lim = atoll(in[3].c_str()); if (lim < 0) return "";
	return runbody(in[0], in[1][0] & 1, 0, (in[1][0] - '0') & 2, lim);
}, 1);
static Reg c2("C02", "header", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = {":", " ", "A", "\r\n ", "\t", "z"};
	if (i < upto(6, 6)) return {nth(A, i), "1"};
	if (i < upto(6, 6) + 512) { uint64_t k = i - upto(6, 6); return {(k & 256) ? "N" + S(1, (char)k) + "M: V" + S(1, (char)k) + "W" : "S: " + S(1, (char)k), "1"}; }
	S s = rnd(r, {":", " ", "\t", "A", "b", "Subject", "Xy", "\r\n ", "\r\n\t", " \r\n ", "\r", "\n", "\xc0", "\xdf", S(1, '\0'), "@", "[", "  "}, 16);
	if (r.chance(70)) s = rnd(r, {"From", "X-Y", "to", "A", "z"}, 3) + r.pick(std::vector<S>{":", " :", ": ", "\t:", ":\r\n ", "\r\n :"}) + s;
	return {s, r.chance(90) ? "1" : "0"};
}, [](const Input& in) -> S {
	if (in.size() < 2 || in[1].empty()) return "";
	bool relaxed = in[1] == "1", bad, dom; S exp = oracle::header(in[0], relaxed, bad, dom);
	S got; Res r = guard([&] { Conversion::CanonicalizationHeader c(relaxed ? DKIM_C_RELAXED : DKIM_C_SIMPLE); got = c.FilterHeader(in[0]); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad && r.ok()) return "expected a permanent error, got \"" + esc(got) + "\"";
	if (bad || !dom) return "";
	if (!r.ok()) return r.str();
	if (got != exp) return "canonical field \"" + esc(got) + "\", expected \"" + esc(exp) + "\"";
	Res r2 = guard([&] { Conversion::CanonicalizationHeader c(relaxed ? DKIM_C_SIMPLE : DKIM_C_RELAXED); c.SetType(relaxed ? DKIM_C_RELAXED : DKIM_C_SIMPLE); got = c.FilterHeader(in[0]); });
	if (!r2.ok() || got != exp) return "after SetType: \"" + esc(got) + "\", expected \"" + esc(exp) + "\"";
	return "";
}, 2);
