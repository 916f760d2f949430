// C15 quoted-printable, C16 base64, C17 encoded words, C18 address lists
#include "support.hpp"
#include <QuotedPrintable.hpp>
#include <Base64.hpp>
#include <EncodedWord.hpp>
#include <Tokenizer.hpp>
using namespace DKIM; using Conversion::QuotedPrintable;
static S bytes_case(Rng& r, uint64_t i, size_t max) {
	if (i == 0) return ""; if (i <= 256) return S(1, (char)(i - 1));
	if (i <= 256 + 65536) { uint64_t k = i - 257; S s; s += (char)(k >> 8); s += (char)k; return s; }
	return rbytes(r, r.below(max));
}
static Reg q1("C15", "qp-roundtrip", [](Rng& r, uint64_t i) -> Input { return {bytes_case(r, i, 40)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	S e, d; Res r = guard([&] { e = QuotedPrintable::Encode(in[0]); }); if (!r.ok()) return r.str();
	for (size_t p = 0; p < e.size(); p++) { unsigned char c = e[p]; if (c <= 0x20 || c >= 0x7f || c == ';') return "encoding contains byte " + num(c); if (c == '=' && !(p + 2 < e.size() && oracle::hexv(e[p + 1]) >= 0 && oracle::hexv(e[p + 2]) >= 0)) return "unescaped = in \"" + esc(e) + "\""; }
	r = guard([&] { d = QuotedPrintable::Decode(e); }); if (!r.ok()) return "decoding \"" + esc(e) + "\": " + r.str();
	if (d != in[0]) return "decodes to \"" + esc(d) + "\"";
	return "";
});
static Reg q2("C15", "qp-decode", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = {"=", "A", "0", "_", " ", "\r\n ", "f"};
	if (i < upto(7, 5) * 2) return {nth(A, i / 2), i & 1 ? "1" : "0"};
	if (i < upto(7, 5) * 2 + 1024) { uint64_t k = i - upto(7, 5) * 2; S c(1, (char)k); return {k < 256 ? c : k < 512 ? "=" + c + "1" : k < 768 ? "=A" + c : "x" + c + "y", k & 1 ? "1" : "0"}; }
	return {rnd(r, {"=", "=3D", "=0A", "=FF", "=7E", "A", "F", "0", "9", "G", "a", "_", " ", "\t", "\r\n ", "\r\n", "\r", "\n", ";", "~", "!", "\x7f", "\x80", S(1, '\0')}, 12), r.chance(50) ? "1" : "0"};
}, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	bool w = in[1] == "1", bad; S exp = oracle::qpdec(in[0], w, bad), got;
	Res r = guard([&] { got = QuotedPrintable::Decode(in[0], w); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad != !r.ok()) return S("expected ") + (bad ? "rejection" : "\"" + esc(exp) + "\"") + ", call " + r.str();
	return bad || got == exp ? "" : "decoded \"" + esc(got) + "\", expected \"" + esc(exp) + "\"";
});
static Reg b1("C16", "base64", [](Rng& r, uint64_t i) -> Input {
	if (i < 900) return {rbytes(r, i)};
	if (i < 1200) return {S(i - 900, (char)(r.chance(50) ? 0 : 255))};
	if (r.chance(60)) return {rbytes(r, r.below(64))};
	static const std::vector<S> edge = {"189", "192", "255", "256", "384", "767", "768", "769", "1023", "1024", "1025", "1536", "2048", "3072", "4096", "8192", "12288"};
	size_t n = atoi(r.pick(edge).c_str()) + r.below(7); n = n > 3 ? n - 3 : n; return {r.chance(20) ? S(n, '\0') : rbytes(r, n)};
}, [](const Input& in) -> S {
	if (in.empty()) return "";
	S e, d, x = oracle::b64enc(in[0]); Res r = guard([&] { e = Conversion::Base64_Encode(in[0]); }); if (!r.ok()) return r.str();
	if (e != x) { size_t i = 0; while (i < e.size() && i < x.size() && e[i] == x[i]) i++; return "encoding (" + num(e.size()) + " bytes, expected " + num(x.size()) + ") differs at byte " + num(i) + ": \"" + esc(e.substr(i, 20)) + "\""; }
	r = guard([&] { d = Conversion::Base64_Decode(x); }); if (!r.ok()) return r.str();
	if (d != in[0]) return "decodes to " + num(d.size()) + " bytes, expected " + num(in[0].size());
	return "";
});
static S ew_case(Rng& r, uint64_t i) {
	static const std::vector<S> A = {"=", "?", "q", " ", "x", "\r\n", "b"};
	if (i < upto(7, 5)) return nth(A, i);
	if (r.chance(50)) return rnd(r, {"=?utf-8?q?a_b?=", "=?u?Q?=41?=", "=?u?b?QUJD?=", "=?u?B?QQ==?=", "=?u?x?zz?=", "=?u?q?=4?=", "=?u?q?\x80?=", " ", "\t", "\r\n ", "\r\n", "a", "=", "?", "=?", "?=", "\n", "\xff"}, 7);
	return rnd(r, {"=?", "?", "?=", "=", "q", "Q", "b", "B", "utf-8", "QUJD", "=41", "_", "a", " ", "\t", "\r\n ", "\r\n", "\r", "\n", S(1, '\0'), "\xff", ";", "qq"}, 14);
}
static Reg e1("C17", "encodedword", [](Rng& r, uint64_t i) -> Input { return {ew_case(r, i)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	bool bad, unk; S exp = oracle::encword(in[0], bad, unk), got;
	Res r = guard([&] { got = Conversion::EncodedWord::Decode(in[0]); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad != !r.ok()) return S("expected ") + (bad ? "rejection" : "\"" + esc(exp) + "\"") + ", call " + r.str();
	return bad || unk || got == exp ? "" : "decoded \"" + esc(got) + "\", expected \"" + esc(exp) + "\"";
});
static Reg e2("C17", "encodedword-any", [](Rng& r, uint64_t i) -> Input {
	S data = rbytes(r, r.below(30)); bool q = r.chance(50);
	S enc; if (q) { for (unsigned char c : data) { if (c == ' ' && r.chance(50)) enc += '_'; else if (oracle::alnum(c)) enc += c; else { enc += '='; enc += "0123456789ABCDEF"[c >> 4]; enc += "0123456789ABCDEF"[c & 15]; } } } else enc = oracle::b64enc(data);
	return {data, S("=?utf-8?") + (q ? r.pick(chars("qQ")) : r.pick(chars("bB"))) + "?" + enc + "?=", r.pick(std::vector<S>{"", " ", "\r\n ", "\t", "Hi "}), r.pick(std::vector<S>{"", " x", "\r\n y", "\tz", "\nw"})};
}, [](const Input& in) -> S {
	if (in.size() < 4) return "";
	S t = in[2] + in[1] + in[3], got; bool bad, unk; S exp = oracle::encword(t, bad, unk);
	Res r = guard([&] { got = Conversion::EncodedWord::Decode(t); });
	if (!r.ok()) return bad ? "" : r.str();
	return unk || got == exp ? "" : "decoded \"" + esc(got) + "\", expected \"" + esc(exp) + "\"";
});
static Reg a1("C18", "addresses", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = {"a@b", "<", ">", ",", "\"", "(", ")", "\\", " "};
	if (i < upto(9, 5)) return {nth(A, i)};
	if (r.chance(50)) { S s; size_t n = r.below(5); for (size_t k = 0; k < n; k++) { s += r.pick(std::vector<S>{"a@b.c", "Joe <j@x>", "\"J, D\" <j@d>", "\"q@r, s@t\"", "plain", "(c)d@e", "\"\\\"x\\\"\" <y@z>", "\"<m@n>\"", "Who? <w@h>", "g:h@i", "<>", "u(co\\)m)@v", "\"\\\"a@b\\\", c@d\""}); s += r.pick(std::vector<S>{",", ", ", ";", " ", ",\r\n ", ""}); } return {s}; }
	return {rnd(r, {"a", "@", "<", ">", ",", ";", "\"", "(", ")", "\\", " ", "\t", "\r\n ", "\r\n", "\r", S(1, '\0'), "\xff", "\xe4", "x@y", "\\\"", "\\\\", "\\)"}, 16)};
}, [](const Input& in) -> S {
	if (in.empty()) return "";
	std::list<S> exp, got; bool bad = false; try { exp = oracle::addresses(in[0]); } catch (oracle::Bad&) { bad = true; }
	Res r = guard([&] { got = Tokenizer::ParseAddressList(in[0]); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad != !r.ok()) return S("expected ") + (bad ? "rejection" : escl(exp)) + ", call " + r.str();
	return bad || got == exp ? "" : "addresses " + escl(got) + ", expected " + escl(exp);
}, 2);
