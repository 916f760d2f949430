// C20 every operation on arbitrary bytes: returns or raises the library's errors; sanitizers watch the rest
#include "sigo.hpp"
#include <Validatory.hpp>
#include <Canonicalization.hpp>
#include <Tokenizer.hpp>
#include <QuotedPrintable.hpp>
#include <Base64.hpp>
#include <EncodedWord.hpp>
#include <Util.hpp>
using namespace DKIM;
static S anytext(Rng& r) {
	static const std::vector<S> A = {"\r", "\n", "\r\n", "\r\n ", " ", "\t", ":", ";", "=", "a", "B", "?", "=?", "?=", "\"", "\\", "(", ")", "<", ">", ",", "@", "\x80", "\xff", S(1, 0), "=41", "=4", "b=", "h=", "Q", "_", "From", "DKIM-Signature:", ".", "-", "1", "%s"};
	switch (r.below(6)) { case 0: return rbytes(r, r.below(60)); case 1: { bool x = r.chance(50); return S(r.below(3), ' ') + S(x ? 8000 + r.below(400) : 200 + r.below(200), x ? 'x' : ' ') + rnd(r, A, 6); } default: return rnd(r, A, 24); }
}
static Reg a1("C20", "text", [](Rng& r, uint64_t) -> Input { return {anytext(r)}; }, [](const Input& in) -> S {
	if (in.empty()) return ""; const S& t = in[0]; S e;
	auto chk = [&](const char* n, std::function<void()> f) { Res r = guard(f); if (r.k == Res::OTHER || r.k == Res::TEMP) e = S(n) + ": " + r.str(); return r.ok(); };
	chk("taglist", [&] { TagList l; l.Parse(t); }); if (e.size()) return e;
	chk("key", [&] { PublicKey l; l.Parse(t); }); if (e.size()) return e;
	chk("value list", [&] { DKIM::Tokenizer::ValueList(t); }); if (e.size()) return e;
	chk("address list", [&] { DKIM::Tokenizer::ParseAddressList(t); }); if (e.size()) return e;
	chk("quoted-printable", [&] { Conversion::QuotedPrintable::Decode(t); Conversion::QuotedPrintable::Decode(t, true); }); if (e.size()) return e;
	chk("quoted-printable word", [&] { Conversion::QuotedPrintable::Decode(t, true); }); if (e.size()) return e;
	if (!chk("quoted-printable encoding", [&] { Conversion::QuotedPrintable::Encode(t); })) return "quoted-printable encoding raised an error";
	if (!chk("base64", [&] { Conversion::Base64_Encode(t); Conversion::Base64_Decode(t); })) return "base64: " + e;
	chk("encoded word", [&] { Conversion::EncodedWord::Decode(t); }); if (e.size()) return e;
	for (int m = 0; m < 2; m++) { chk("header canonicalization", [&] { Conversion::CanonicalizationHeader c(m ? DKIM_C_RELAXED : DKIM_C_SIMPLE); c.FilterHeader(t); }); if (e.size()) return e;
		for (int l = 0; l < 3; l++) { if (!chk("body canonicalization", [&] { std::stringstream s(t); S o; Conversion::CanonicalizationBody(s, m ? DKIM_C_RELAXED : DKIM_C_SIMPLE, t.size() < 5 ? -1 : (ssize_t)(t.size() % 5), l > 0, l > 1 ? (size_t)7 : 0, [&](const char* p, size_t n) { o.append(p, n); }); })) return "body canonicalization raised " + e; } }
	chk("domain", [&] { Util::ValidateDomain(t); }); if (e.size()) return e;
	if (!chk("header line", [&] { Header h; h.ParseLine(t); h.ParseLine(t); })) return "header line: " + e;
	return "";
}, 2);
static Reg a2("C20", "message", [](Rng& r, uint64_t) -> Input {
	auto m1 = [&] { S s = sig_case(r, r.pick(std::vector<int>{0, 6, 7})); return r.pick(std::vector<S>{"DKIM-Signature", "dkim-signature ", "ARC-Message-Signature", "\tDKIM-Signature", "DKIM-Signature\r\n "}) + ":" + s; };
	auto m2 = [&]() -> S { // valid mandatory tags with odd values
		auto P = [&](std::vector<S> v) { return r.pick(v); }; S d = "d=a.b;s=s;h=" + P({"from", "from:dkim-signature", "from:x:x:x", "from::"}) + ";bh=" + P({"", oracle::b64enc(sha(true, "\r\n")), oracle::b64enc(sha(true, "")), "QQ=="}) + ";a=" + P({"rsa-sha256", "rsa-sha1", "ed25519-sha256"}) + ";v=1;i=" + P({"@a.b", "1", "7"});
		S b = P({"b=", "b =", "\r\n\tb= ", " b=\r\n "}) + P({"Q", "QUJD", "QQ==", "!!!!", oracle::b64enc(rbytes(r, r.below(140))), "A\r\n B"}) + P({"", " ", "\r\n ", "\r\n\t\r\n "}); if (r.chance(30)) d += ";c=" + P({"relaxed", "relaxed/relaxed", "simple/relaxed"}); if (r.chance(20)) d += ";l=" + P({"0", "1", "9223372036854775807"});
		return r.pick(std::vector<S>{"DKIM-Signature", "ARC-Message-Signature", "DKIM-Signature "}) + ":" + (r.chance(50) ? b + ";" + d : d + ";" + b + P({"", ";"})); };
	S m; int n = r.below(4); for (int i = 0; i < n; i++) m += (r.chance(30) ? m1() : r.chance(70) ? m2() : anytext(r)) + r.pick(std::vector<S>{"\r\n", "\n", "\r\n", ""});
	m += r.pick(std::vector<S>{"From: x\r\n\r\n", "From:\n x\n\n", "From", "\r\n", "", "x:\r\r\n\r\n", "DKIM-Signature\r\n\r\n"}) + (r.chance(50) ? anytext(r) : S());
	if (r.chance(30)) m = mutate(r, m, {"\r", "\n", " ", ":", ";", "=", "\x80", S(1, 0)}, 3);
	S k = r.chance(60) ? r.pick(std::vector<S>{"p=" + K_R1PUB, "k=ed25519;p=" + oracle::b64enc(ed_pk(1)), "p=" + K_R2PUB + ";h=sha1", "k=ed25519;t=s;p=" + oracle::b64enc(ed_pk(2))}) : rec_case(r);
	return {m, k};
}, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	for (int ty = 0; ty < 2; ty++) {
		std::stringstream ss(in[0]); std::unique_ptr<Validatory> v; Res r = guard([&] { v.reset(new Validatory(ss, ty ? Validatory::ARC : Validatory::DKIM)); }); if (!r.ok()) return "opening the message: " + r.str();
		v->CustomDNSResolver = [&](const S&, S& res, void*) -> bool { res = in[1]; return true; };
		Message::HeaderList l(v->GetSignatures().begin(), v->GetSignatures().end());
		for (auto it = l.begin(); it != l.end(); ++it) {
			Signature s; PublicKey p; const char* what = "fetching the signature";
			Res g = guard([&] { v->GetSignature(it, s); }); if (g.k == Res::OTHER || g.k == Res::TEMP) return what + (": " + g.str());
			Signature s2; Res q = guard([&] { s2.Parse(*it); }); if (q.k == Res::OTHER || q.k == Res::TEMP) return "parsing: " + q.str(); if (!q.ok()) continue;
			q = guard([&] { v->GetPublicKey(s2, p); }); if (q.k == Res::OTHER || q.k == Res::TEMP) return "key: " + q.str(); if (!q.ok()) continue;
			q = guard([&] { v->CheckSignature(*it, s2, p); }); if (q.k == Res::OTHER || q.k == Res::TEMP) return "checking: " + q.str();
		}
	}
	return "";
}, 2);
