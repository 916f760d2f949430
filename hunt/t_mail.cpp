// C03 message splitting, C23 signature fields of a message
#include "support.hpp"
#include <MailParser.hpp>
#include <Validatory.hpp>
using namespace DKIM;
static S msg_case(Rng& r, uint64_t i) {
	static const std::vector<S> A = {"\n", "\r", " ", "a", ":", "\t"};
	if (i < upto(6, 6)) return nth(A, i);
	return rnd(r, {"\r\n", "\r\n", "\n", "\r", " ", "\t", "a", ":", "From: x", "Subject:\r\n y", "X-A : b", "no colon", S(1, '\0'), "\xff", "\r\r\n", "\r\n\r\n", "DKIM-Signature: v=1", " \t"}, 24);
}
static S compare(const Message& m, const oracle::Msg& o) {
	if (m.GetHeaders().size() != o.f.size()) return num(m.GetHeaders().size()) + " fields, expected " + num(o.f.size());
	size_t k = 0;
	for (auto& h : m.GetHeaders()) {
		auto& f = o.f[k];
		if (h->GetHeader() != f.text) return "field " + num(k) + " is \"" + esc(h->GetHeader()) + "\", expected \"" + esc(f.text) + "\"";
		if (h->GetName() != f.name) return "name of field " + num(k) + " is \"" + esc(h->GetName()) + "\", expected \"" + esc(f.name) + "\"";
		if (h->GetValueOffset() != f.voff) return "value offset of field " + num(k) + " is " + num(h->GetValueOffset()) + ", expected " + num(f.voff);
		k++;
	}
	if (!m.IsDone()) return "not done";
	if ((long long)m.GetBodyOffset() != o.body) return "body offset " + num(m.GetBodyOffset()) + ", expected " + num(o.body);
	return "";
}
static Reg m1("C03", "message", [](Rng& r, uint64_t i) -> Input { return {msg_case(r, i)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	std::stringstream ss(in[0]); Message m; 
	Res r = guard([&] { while (!m.IsDone() && m.ParseLine(ss)) { } });
	if (!r.ok()) return r.str();
	oracle::Msg o = oracle::message(in[0]);
	S e = compare(m, o); if (!e.empty()) return e;
	// a second message parsed with the same object after Reset
	std::stringstream s2(in[0]); m.Reset(); if (m.IsDone() || m.GetHeaders().size()) return "not empty after Reset";
	Res r2 = guard([&] { while (m.ParseLine(s2) && !m.IsDone()) { } });
	if (!r2.ok()) return r2.str();
	e = compare(m, o); return e.empty() ? "" : "after Reset: " + e;
}, 3);
static Reg m2("C03", "header-lines", [](Rng& r, uint64_t i) -> Input {
	Input in; size_t n = 1 + r.below(4); for (size_t k = 0; k < n; k++) in.push_back(rnd(r, {"a", ":", " ", "\t", "b:", "x", S(1, '\0')}, 6)); return in;
}, [](const Input& in) -> S {
	if (in.empty() || in[0].empty()) return "";
	Header h; S text; bool has = false;
	for (size_t i = 0; i < in.size(); i++) { text += (i ? "\r\n" : "") + in[i]; bool ret = false; Res r = guard([&] { ret = h.ParseLine(in[i]); }); if (!r.ok()) return r.str(); has = text.find(':') != S::npos; if (ret != has) return "ParseLine returned the wrong value at line " + num(i); }
	size_t c = text.find(':');
	if (h.GetHeader() != text) return "field text \"" + esc(h.GetHeader()) + "\", expected \"" + esc(text) + "\"";
	if (h.GetValueOffset() != (c == S::npos ? 0 : c + 1)) return "value offset " + num(h.GetValueOffset());
	if (h.GetName() != (c == S::npos ? S() : oracle::trim(text.substr(0, c)))) return "name \"" + esc(h.GetName()) + "\"";
	return "";
});
static Reg m3("C23", "signatures", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> L = {"DKIM-Signature", "dkim-signature", "DkIm-SigNature", "ARC-Message-Signature", "arc-message-signature", "ARC-MESSAGE-SIGNATURE", "From", "DKIM-Signature2", "X-DKIM-Signature", "DKIM-Signatur", "ARC-Seal", "ARC-Authentication-Results", " DKIM-Signature", "DKIM_Signature", "Received"};
	S m; size_t n = r.below(7);
	for (size_t k = 0; k < n; k++) { size_t st = m.size(); m += r.chance(15) ? near(r, r.pick(L)) : r.pick(L); m += r.pick(std::vector<S>{":", ": ", " :", "\t: ", "\r\n :", ""}); m += "v=" + num(k); if (r.chance(20)) m += "\r\n folded"; m += r.pick(std::vector<S>{"\r\n", "\n"}); while (r.chance(15)) { S again = m.substr(st); st = m.size(); m += again; } }
	if (r.chance(80)) m += "\r\nDKIM-Signature: body\r\n"; else if (r.chance(50) && !m.empty()) m.erase(m.size() - 1);
	return {m, S(1, (char)('0' + r.below(3)))};
}, [](const Input& in) -> S {
	if (in.size() < 2 || in[1].empty()) return "";
	int ty = in[1][0] - '0'; if (ty < 0 || ty > 2) return "";
	std::stringstream ss(in[0]); std::list<S> got, exp; S e;
	Res r = guard([&] { Validatory v(ss, ty == 0 ? Validatory::DKIM : ty == 1 ? Validatory::ARC : Validatory::NONE); for (auto& s : v.GetSignatures()) got.push_back(s->GetHeader()); });
	if (!r.ok()) return r.str();
	for (auto& f : oracle::message(in[0]).f) { S n = oracle::lower(f.name); if ((ty == 0 && n == "dkim-signature") || (ty == 1 && n == "arc-message-signature")) exp.push_back(f.text); }
	return got == exp ? "" : "listed " + escl(got) + ", expected " + escl(exp);
});
