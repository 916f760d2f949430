// C22 folding whitespace and colon lists; C19 domains
#include "hunt.hpp"
#include "oracle.hpp"
#include <Tokenizer.hpp>
#include <Util.hpp>
#include <SignatoryOptions.hpp>
using namespace DKIM;

static const std::vector<S> WSA = {" ", "\t", "\r", "\n", "x", ":"};
static Reg r1("C22", "fws", [](Rng& r, uint64_t i) -> Input {
	S d; int type = 0; size_t pos = 0;
	uint64_t full = upto(6, 6);
	if (i < full * 4) { d = nth(WSA, i / 4); type = i % 4; }
	else { type = r.below(4); d = rnd(r, {" ", "\t", "\r\n", "\r\n ", "\r", "\n", "x", ":", S(1, '\0'), "\xff", "\x80", " \r\n\t"}, 12); pos = r.below(d.size() + 1); }
	return {d, S(1, (char)('0' + type)), num(pos)};
}, [](const Input& in) -> S {
	if (in.size() < 3 || in[1].empty()) return "";
	const S& d = in[0]; int type = in[1][0] - '0'; if (type < 0 || type > 3) return ""; size_t pos = strtoul(in[2].c_str(), 0, 10); if (pos > d.size()) return "";
	std::stringstream ss(d); for (size_t i = 0; i < pos; i++) ss.get();
	S got; Res r = guard([&] { got = Tokenizer::ReadWhiteSpace(ss, (Tokenizer::WhiteSpaceType)type); });
	bool bad; size_t end = oracle::rws(d, pos, type, bad);
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad != !r.ok()) return "a CR without LF must be rejected and nothing else; call " + r.str();
	if (!r.ok()) return "";
	if (got != d.substr(pos, end - pos)) return "returned \"" + esc(got) + "\", expected \"" + esc(d.substr(pos, end - pos)) + "\"";
	ss.clear(); size_t at = (size_t)ss.tellg();
	if (at != end) return "stream left at " + num(at) + ", expected " + num(end);
	return "";
}, 2);
static Reg r2("C22", "valuelist", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = {":", " ", "a", "\r\n", "\t", "b"};
	if (i < upto(6, 6)) return {nth(A, i)};
	return {rnd(r, {":", " ", "\t", "\r\n ", "\r\n", "\r", "\n", "a", "From", "x y", S(1, '\0'), "\xff", "::", " : "}, 14)};
}, [](const Input& in) -> S {
	if (in.empty()) return "";
	std::list<S> got, exp; bool bad;
	Res r = guard([&] { got = Tokenizer::ValueList(in[0]); });
	exp = oracle::valuelist(in[0], bad);
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (bad != !r.ok()) return S("expected ") + (bad ? "rejection" : "acceptance") + ", call " + r.str();
	if (!bad && got != exp) return "items " + escl(got) + ", expected " + escl(exp);
	return "";
}, 2);

static S dom_case(Rng& r, uint64_t i) {
	static const std::vector<S> A = chars("aZ0-._");
	if (i < upto(6, 6)) return nth(A, i);
	if (i < upto(6, 6) + 256 * 4) { uint64_t k = i - upto(6, 6); S c(1, (char)(k / 4)); switch (k % 4) { case 0: return c; case 1: return "a" + c + "b.c"; case 2: return c + "b.c"; default: return "x.a" + c; } }
	return rnd(r, {"a", "b", "Z", "9", "-", ".", "_", " ", "example", "com", S(1, '\0'), "\xe4", "--", "..", "\n"}, 12);
}
static Reg r3("C19", "validatedomain", [](Rng& r, uint64_t i) -> Input { return {dom_case(r, i)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	bool got = false; Res r = guard([&] { got = Util::ValidateDomain(in[0]); });
	if (!r.ok()) return r.str();
	bool exp = oracle::domain(in[0]);
	return got == exp ? "" : S("accepted: ") + (got ? "yes" : "no") + ", expected " + (exp ? "yes" : "no");
});
static Reg r4("C19", "setters", [](Rng& r, uint64_t i) -> Input {
	return {dom_case(r, i / 3), S(1, (char)('0' + i % 3)), r.chance(50) ? "good.example" : dom_case(r, r.below(2000))};
}, [](const Input& in) -> S {
	if (in.size() < 3 || in[1].empty()) return "";
	bool exp = oracle::domain(in[0]);
	if (in[1][0] == '0' || in[1][0] == '1') {
		bool dom = in[1][0] == '0';
		SignatoryOptions o; o.SetDomain("first.example").SetSelector("firstsel");
		Res r = guard([&] { if (dom) o.SetDomain(in[0]); else o.SetSelector(in[0]); });
		if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
		if (r.ok() != exp) return S("setter ") + r.str() + ", valid: " + (exp ? "yes" : "no");
		S d = o.GetDomain(), s = o.GetSelector();
		S ed = dom && exp ? in[0] : "first.example", es = !dom && exp ? in[0] : "firstsel";
		if (d != ed || s != es) return "after the call domain \"" + esc(d) + "\" selector \"" + esc(s) + "\", expected \"" + esc(ed) + "\" \"" + esc(es) + "\"";
		return "";
	}
	SignatoryOptions o; o.SetDomain("first.example").SetSelector("firstsel");
	AdditionalSignaturesOptions& a = o.AddAdditionalSignature(); a.SetDomain("other.example").SetSelector("othersel");
	Res r = guard([&] { a.SetDomain(in[0]); });
	bool exp2 = oracle::domain(in[2]);
	Res q = guard([&] { a.SetSelector(in[2]); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (q.k == Res::OTHER || q.k == Res::TEMP) return q.str();
	if (r.ok() != exp) return S("additional signature, domain: ") + r.str();
	if (q.ok() != exp2) return S("additional signature, selector: ") + q.str();
	if (a.GetDomain() != (exp ? in[0] : S("other.example"))) return "additional signature's domain is \"" + esc(a.GetDomain()) + "\"";
	if (a.GetSelector() != (exp2 ? in[2] : S("othersel"))) return "additional signature's selector is \"" + esc(a.GetSelector()) + "\"";
	if (o.GetDomain() != "first.example" || o.GetSelector() != "firstsel") return "the main signature changed";
	return "";
});
