// C04 tag lists, C05-C07 signature fields, C08 key records
#include "support.hpp"
#include <TagList.hpp>
#include <Signature.hpp>
#include <PublicKey.hpp>
#include <MailParser.hpp>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <errno.h>
using namespace DKIM;
static S tl_case(Rng& r, uint64_t i) {
	static const std::vector<S> A = {"a", "=", ";", " ", "_", "\r\n", "b"};
	if (i < upto(7, 6)) return nth(A, i);
	if (i < upto(7, 6) + 1024) { uint64_t k = i - upto(7, 6); S c(1, (char)k); return k < 256 ? "a=" + c : k < 512 ? "a" + c + "=1" : k < 768 ? c + "a=1" : "a=x" + c + "y;b=2"; }
	return rnd(r, {"a", "b", "c", "A", "bh", "=", "=", ";", " ", "\t", "\r\n ", "\r\n", "\n", "v", "1", "_", "x=y", "\x7f", "\x80", S(1, '\0'), "; ", "a=1", ";b=2 3", "a = "}, 18);
}
static Reg t1("C04", "taglist", [](Rng& r, uint64_t i) -> Input { return {tl_case(r, i)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	std::map<S, oracle::Tag> exp; bool ok = oracle::taglist(in[0], exp);
	TagList t; Res r = guard([&] { t.Parse(in[0]); });
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (ok != r.ok()) return S("expected ") + (ok ? "acceptance" : "rejection") + ", call " + r.str();
	if (!ok) return "";
	size_t n = 0; for (auto i = t.cbegin(); i != t.cend(); ++i) { n++; if (!exp.count(i->first)) return "unexpected tag \"" + esc(i->first) + "\""; }
	if (n != exp.size()) return num(n) + " tags, expected " + num(exp.size());
	for (auto& e : exp) {
		TagListEntry v; if (!t.GetTag(e.first, v)) return "tag \"" + esc(e.first) + "\" is missing";
		if (v.GetValue() != e.second.v) return "value of \"" + esc(e.first) + "\" is \"" + esc(v.GetValue()) + "\", expected \"" + esc(e.second.v) + "\"";
		if (!e.second.v.empty() && (long long)v.GetValueOffset() != e.second.off) return "offset of \"" + esc(e.first) + "\" is " + num(v.GetValueOffset()) + ", expected " + num(e.second.off);
	}
	TagListEntry z; z.SetValue("keep"); if (!exp.count("zz") && (t.GetTag("zz", z) || z.GetValue() != "keep")) return "an absent tag was found";
	t.Reset(); if (t.cbegin() != t.cend()) return "not empty after Reset";
	return "";
}, 2);

#include "sigo.hpp"
static S sig_run(const Input& in) {
	if (in.size() < 2) return "";
	S f = in[0] + ":" + in[1]; if (in[0].find(':') != S::npos) return "";
	auto h = mkheader(f); if (h->GetHeader() != f || h->GetValueOffset() != in[0].size() + 1) return "";
	g_time = 1000; errno = in.size() > 2 && in[2] == "E" ? ERANGE : 0;
	SigO o = sigo(in[0], in[1], 1000);
	errno = in.size() > 2 && in[2] == "E" ? ERANGE : 0;
	Signature s; Res r = guard([&] { s.Parse(h); }); g_time = -1;
	if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
	if (o.unk && o.isarc && o.ok) { if (!r.ok()) return ""; }
	if (o.ok != r.ok()) return S("expected ") + (o.ok ? "acceptance" : "rejection") + ", call " + r.str();
	if (!o.ok) return "";
	if (s.GetDomain() != o.d) return "d is \"" + esc(s.GetDomain()) + "\"";
	if (s.GetSelector() != o.s) return "s is \"" + esc(s.GetSelector()) + "\"";
	if ((int)s.GetDigestAlgorithm() != o.dig || (int)s.GetSignatureAlgorithm() != o.sa) return "algorithm differs";
	if (!o.unk && (s.GetSignatureData() != o.b || s.GetBodyHash() != o.bh)) return "b or bh differs";
	if ((int)s.GetCanonModeHeader() != o.ch || (int)s.GetCanonModeBody() != o.cb) return "canonicalization is " + num(s.GetCanonModeHeader()) + "/" + num(s.GetCanonModeBody());
	if (s.GetSignedHeaders() != o.h) return "h is " + escl(s.GetSignedHeaders());
	if (s.IsARC() != o.isarc) return "ARC flag";
	if (s.GetBodySizeLimit() != o.hasl || (o.hasl && s.GetBodySize() != o.l)) return "length limit is " + num2(s.GetBodySize());
	if (o.isarc) { if (s.GetARCInstance() != o.arc) return "ARC instance is " + num2(s.GetARCInstance()); if (!s.GetMailDomain().empty() || !s.GetMailLocalPart().empty()) return "an ARC signature has an identity"; }
	else { if (s.GetMailDomain() != o.md) return "identity domain is \"" + esc(s.GetMailDomain()) + "\", expected \"" + esc(o.md) + "\""; if (s.GetMailLocalPart() != o.lp) return "identity local part is \"" + esc(s.GetMailLocalPart()) + "\""; }
	if (s.GetQueryType() != Signature::DKIM_Q_DNSTXT) return "query type";
	return "";
}
static Reg s5("C05", "signature", [](Rng& r, uint64_t) -> Input { return {nm(r), sig_case(r, 0)}; }, sig_run);
static Reg s6("C06", "identity", [](Rng& r, uint64_t) -> Input { return {nm(r), sig_case(r, 6)}; }, sig_run);
static Reg s7("C07", "numeric", [](Rng& r, uint64_t) -> Input { return {nm(r), sig_case(r, 7), r.chance(30) ? "E" : ""}; }, sig_run);
static Reg s7b("C07", "numeric-enum", [](Rng& r, uint64_t i) -> Input {
	static const std::vector<S> A = chars("0159+- x"); uint64_t k = i / 3; S v = k < upto(8, 4) ? nth(A, k) : rnd(r, chars("0123456789"), 80);
	if (r.chance(10)) v = S("9223372036854775") + rnd(r, chars("0123456789"), 4); if (r.chance(5)) v = S(r.below(60), '0') + v;
	S base = "v=1;a=rsa-sha256;d=e.x;s=s;h=from;bh=QUJD;b=QUJD;";
	if (i % 3 == 0) return {"DKIM-Signature", base + "l=" + v, r.chance(30) ? "E" : ""};
	if (i % 3 == 1) return {"DKIM-Signature", base + "x=" + v};
	return {"ARC-Message-Signature", base + "i=" + v};
}, sig_run);

static S key_check(PublicKey& k, const KeyO& o) {
	std::list<int> h; for (auto x : k.GetDigestAlgorithms()) h.push_back(x);
	if (h != o.h) return "usable digests differ (" + num(h.size()) + " listed, expected " + num(o.h.size()) + ")";
	if ((int)k.GetSignatureAlgorithm() != o.sa) return "key type differs";
	if (k.GetFlags() != o.fl) return "flags are " + escl(k.GetFlags());
	bool y = false; for (auto& f : o.fl) if (f == "y") y = true; if (k.SoftFail() != y) return "SoftFail";
	if ((k.GetServiceType().size() > 0) != o.email) return "service type list";
	if (o.unk) return "";
	if (o.sa == 1 && k.GetED25519PublicKey() != o.ed) return "ed25519 key differs";
	if (o.sa == 0 && !k.GetRSAPublicKey()) return "no RSA key";
	if (o.sa == 0 && o.rsa < 3) { const BIGNUM *n1, *n2; RSA_get0_key(k.GetRSAPublicKey(), &n1, 0, 0); RSA_get0_key((const RSA*)rsa_priv(o.rsa), &n2, 0, 0); if (BN_cmp(n1, n2)) return "another RSA key"; }
	return "";
}
static Reg k1("C08", "key", [](Rng& r, uint64_t) -> Input { return {rec_case(r), rec_case(r)}; }, [](const Input& in) -> S {
	if (in.empty()) return "";
	PublicKey k; 
	for (size_t n = 0; n < in.size(); n++) {
		KeyO o = keyo(in[n]); k.Reset();
		Res r = guard([&] { k.Parse(in[n]); });
		if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
		if (o.unk && o.ok && !r.ok()) continue;
		if (o.ok != r.ok()) return "record " + num(n) + ": expected " + (o.ok ? "acceptance" : "rejection") + ", call " + r.str();
		if (o.ok) { S e = key_check(k, o); if (!e.empty()) return "record " + num(n) + ": " + e; }
	}
	return "";
});
// C21 objects reused after Reset behave as new ones; a leftover errno does not matter
static S sigstate(const Signature& s) {
	S r = s.GetDomain() + "|" + s.GetSelector() + "|" + s.GetSignatureData() + "|" + s.GetBodyHash() + "|" + s.GetMailDomain() + "|" + s.GetMailLocalPart() + "|" + num(s.GetDigestAlgorithm()) + num(s.GetSignatureAlgorithm()) + num(s.GetCanonModeHeader()) + num(s.GetCanonModeBody()) + "|" + num2(s.GetBodySize()) + num(s.GetBodySizeLimit()) + num(s.GetQueryType()) + num(s.IsARC()) + "|" + num2(s.GetARCInstance()) + "|";
	for (auto& x : s.GetSignedHeaders()) r += x + ":";
	for (auto i = s.GetTagList().cbegin(); i != s.GetTagList().cend(); ++i) r += ";" + i->first + "=" + i->second.GetValue() + "@" + (i->second.GetValue().empty() ? S() : num(i->second.GetValueOffset()));
	return r;
}
static S keystate(const PublicKey& k) {
	S r = num(k.GetSignatureAlgorithm()) + "|" + k.GetED25519PublicKey() + "|" + (k.GetRSAPublicKey() ? "rsa" : "none") + "|"; for (auto x : k.GetDigestAlgorithms()) r += num(x); r += "|"; for (auto x : k.GetServiceType()) r += num(x); r += "|"; for (auto& x : k.GetFlags()) r += x + ":"; return r;
}
static Reg z1("C21", "signature-history", [](Rng& r, uint64_t) -> Input { return {nm(r), sig_case(r, r.pick(std::vector<int>{0, 6, 7})), nm(r), sig_case(r, r.pick(std::vector<int>{0, 6, 7})), r.chance(40) ? "E" : ""}; }, [](const Input& in) -> S {
	if (in.size() < 5 || in[0].find(':') != S::npos || in[2].find(':') != S::npos || in[0].empty() || in[2].empty()) return "";
	auto h1 = mkheader(in[0] + ":" + in[1]), h2 = mkheader(in[2] + ":" + in[3]); g_time = 1000;
	Signature a, b; S empty = sigstate(b);
	guard([&] { a.Parse(h1); }); a.Reset(); if (sigstate(a) != empty) { g_time = -1; return "after Reset: " + esc(sigstate(a)) + ", new object: " + esc(empty); }
	errno = in[4] == "E" ? ERANGE : 0; Res ra = guard([&] { a.Parse(h2); }); errno = 0; Res rb = guard([&] { b.Parse(h2); }); g_time = -1;
	if (ra.k != rb.k) return "reused object: " + ra.str() + ", new object: " + rb.str();
	if (ra.ok() && sigstate(a) != sigstate(b)) return "reused object: " + esc(sigstate(a)) + ", new object: " + esc(sigstate(b));
	return "";
});
static Reg z2("C21", "key-history", [](Rng& r, uint64_t) -> Input { return {rec_case(r), rec_case(r)}; }, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	PublicKey a, b; S empty = keystate(b); guard([&] { a.Parse(in[0]); }); a.Reset(); if (keystate(a) != empty) return "after Reset: " + esc(keystate(a));
	Res ra = guard([&] { a.Parse(in[1]); }), rb = guard([&] { b.Parse(in[1]); });
	if (ra.k != rb.k) return "reused object: " + ra.str() + ", new object: " + rb.str();
	return ra.ok() && keystate(a) != keystate(b) ? "reused object: " + esc(keystate(a)) + ", new object: " + esc(keystate(b)) : "";
});
static Reg z3("C21", "taglist-history", [](Rng& r, uint64_t i) -> Input { return {tl_case(r, i), tl_case(r, r.next() % 60000)}; }, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	TagList a, b; guard([&] { a.Parse(in[0]); }); a.Reset(); if (a.cbegin() != a.cend()) return "tags remain after Reset";
	Res ra = guard([&] { a.Parse(in[1]); }), rb = guard([&] { b.Parse(in[1]); });
	if (ra.k != rb.k) return "reused object: " + ra.str() + ", new object: " + rb.str();
	S x, y; for (auto i = a.cbegin(); i != a.cend(); ++i) x += i->first + "=" + i->second.GetValue() + ";"; for (auto i = b.cbegin(); i != b.cend(); ++i) y += i->first + "=" + i->second.GetValue() + ";";
	return ra.ok() && x != y ? "reused: " + esc(x) + ", new: " + esc(y) : "";
});
static Reg z4("C21", "message-history", [](Rng& r, uint64_t) -> Input { auto m = [&] { return rnd(r, {"\r\n", "\n", "a: b", " c", "\t", "x", ":", "\r\n\r\n"}, 10); }; return {m(), m(), num(r.below(6))}; }, [](const Input& in) -> S {
	if (in.size() < 3) return "";
	Message a, b; std::stringstream s1(in[0]), s2(in[1]), s3(in[1]); int n = atoi(in[2].c_str());
	for (int i = 0; i < n && !a.IsDone(); i++) a.ParseLine(s1);       // possibly stopped half-way
	a.Reset(); if (a.IsDone() || a.GetHeaders().size() || a.GetBodyOffset() != b.GetBodyOffset()) return "not as new after Reset";
	while (!a.IsDone() && a.ParseLine(s2)) { } while (!b.IsDone() && b.ParseLine(s3)) { }
	S x, y; for (auto& h : a.GetHeaders()) x += h->GetHeader() + "|"; for (auto& h : b.GetHeaders()) y += h->GetHeader() + "|"; x += num(a.GetBodyOffset()); y += num(b.GetBodyOffset());
	return x != y ? "reused: " + esc(x) + ", new: " + esc(y) : "";
});
