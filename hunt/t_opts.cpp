// C24 option objects: a sequence of operations against a plain model
#include "support.hpp"
#include <SignatoryOptions.hpp>
#include <openssl/rsa.h>
#include <openssl/evp.h>
using namespace DKIM;
struct MS { S d, s, ed; bool sa = false; int rsa = 0; };   // rsa: 0 none, 1/2 which key
struct MO { std::vector<MS> sig{MS()}; bool sha1 = false, ch = false, cb = false, limit = false, ts = false, xs = false, xa = true; std::list<S> h, ov; unsigned long l = 0, arc = 0; long long t = -1, x = -1; S id; };
static std::list<S> lst(const S& s) { std::list<S> r; size_t p = 0; while (p < s.size()) { size_t e = s.find(',', p); if (e == S::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
static S rsaid(RSA* k) { if (!k) return "none"; const BIGNUM *n; RSA_get0_key(k, &n, 0, 0); for (int w = 1; w <= 2; w++) { const BIGNUM* m; RSA_get0_key((RSA*)rsa_priv(w), &m, 0, 0); if (!BN_cmp(n, m)) return num(w); } return "other"; }
static S cmp(const SignatoryOptions& o, const MO& m) {
	if (o.GetDomain() != m.sig[0].d) return "domain"; if (o.GetSelector() != m.sig[0].s) return "selector"; if (o.GetED25519PrivateKey() != m.sig[0].ed) return "ed25519 key"; if (rsaid(o.GetRSAPrivateKey()) != (m.sig[0].rsa ? num(m.sig[0].rsa) : S("none"))) return "RSA key";
	if ((o.GetSignatureAlgorithm() == DKIM_SA_ED25519) != m.sig[0].sa) return "signature algorithm"; if ((o.GetDigestAlgorithm() == DKIM_A_SHA1) != m.sha1) return "digest algorithm";
	if (o.GetHeaders() != m.h) return "headers are " + escl(o.GetHeaders()) + ", expected " + escl(m.h); if (o.GetOversignHeaders() != m.ov) return "oversign headers";
	if (o.GetBodyLength() != m.l || o.GetBodySignLength() != m.limit) return "body length"; if ((o.GetCanonModeHeader() == DKIM_C_RELAXED) != m.ch) return "header canonicalization"; if ((o.GetCanonModeBody() == DKIM_C_RELAXED) != m.cb) return "body canonicalization";
	if (o.GetARCInstance() != m.arc) return "ARC instance"; if (o.GetTimestampSign() != m.ts || o.GetTimestamp() != m.t) return "timestamp"; if (o.GetExpirationSign() != m.xs || o.GetExpiration() != m.x || o.GetExpirationAbsolute() != m.xa) return "expiration"; if (o.GetIdentity() != m.id) return "identity";
	size_t k = 0; if (o.GetAdditionalSignatures().size() != m.sig.size()) return "number of signatures";
	for (auto& a : o.GetAdditionalSignatures()) { const MS& q = m.sig[k]; S w = "signature entry " + num(k++) + ": "; if (a.GetDomain() != q.d) return w + "domain"; if (a.GetSelector() != q.s) return w + "selector"; if (a.GetED25519PrivateKey() != q.ed) return w + "ed25519 key"; if (rsaid(a.GetRSAPrivateKey()) != (q.rsa ? num(q.rsa) : S("none"))) return w + "RSA key"; if ((a.GetSignatureAlgorithm() == DKIM_SA_ED25519) != q.sa) return w + "algorithm"; }
	return "";
}
static S keytext(const S& c) { // private key texts
	S x; if (c == "p1") return K_R1PEM; if (c == "t1") return K_R1TPEM; if (c == "d1") return K_R1DER; if (c == "d2") return K_R2DER; if (c == "ec") return K_ECPEM; if (c == "s1") return ed_seed(1); if (c == "S2") return oracle::b64enc(ed_seed(2)); if (c == "k1") return ed_sk(1); if (c == "K2") return oracle::b64enc(ed_sk(2)); if (c == "bad") return "-----BEGIN x"; if (c == "b64") return "QUJD"; if (c == "z31") return S(31, 'x'); return c;
}
/// what a key text means: 1 set, 0 error
static bool keymodel(MS& m, const S& c) {
	if (m.sa) { if (c == "s1") m.ed = ed_sk(1); else if (c == "S2" || c == "K2") m.ed = ed_sk(2); else if (c == "k1") m.ed = ed_sk(1); else return false; return true; }
	if (c == "p1" || c == "t1" || c == "d1") m.rsa = 1; else if (c == "d2") m.rsa = 2; else return false; return true;
}
static Reg o1("C24", "options", [](Rng& r, uint64_t) -> Input {
	Input in; size_t n = r.below(14);
	for (size_t i = 0; i < n; i++) {
		S op(1, "dsaghHDvlnceitxywDSAKkRrqH"[r.below(26)]); S v; auto P = [&](std::vector<S> z) { return r.pick(z); };
		switch (op[0]) {
			case 'd': case 's': case 'D': case 'S': v = P({"a.b", "example.com", "", "-", "A1", "x..y", "sel"}); break;
			case 'h': case 'H': case 'v': case 'R': v = P({"", "from", "From,to", "a,a,b", "to,subject,from", "x"}); break;
			case 'l': case 'n': v = P({"0", "1", "77", "18446744073709551615"}); break;
			case 't': case 'x': case 'y': v = P({"0", "-1", "5", "1700000000"}); break;
			case 'i': v = P({"", "a@b", "\x01 ;"}); break;
			case 'K': case 'k': v = P({"p1", "t1", "d1", "d2", "ec", "s1", "S2", "k1", "K2", "bad", "b64", "z31", "", "s1", "K2"}); break;
			case 'r': case 'q': v = P({"1", "2"}); break;
			default: v = P({"0", "1"});
		}
		in.push_back(op + (char)('0' + r.below(4)) + v);
	}
	return in;
}, [](const Input& in) -> S {
	static const char* Dflt[] = {"from", "sender", "reply-to", "subject", "date", "message-id", "to", "cc", "mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "resent-date", "resent-from", "resent-sender", "resent-to", "resent-cc", "resent-message-id", "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-unsubscribe-post", "list-subscribe", "list-post", "list-owner", "list-archive", "cfbl-address", "cfbl-feedback-id"};
	SignatoryOptions o; MO m; for (auto d : Dflt) m.h.push_back(d); std::vector<AdditionalSignaturesOptions*> add;
	S e = cmp(o, m); if (!e.empty()) return "a new option object: " + e;
	int step = 0;
	for (auto& x : in) {
		if (x.size() < 2) continue; char op = x[0]; S v = x.substr(2); step++; bool fail = false; Res r; unsigned w = add.empty() ? 0 : (unsigned char)x[1] % add.size(); unsigned mi = w + 1;
		bool on = v == "1";
		switch (op) {
			case 'd': case 's': case 'D': case 'S': { bool big = op == 'D' || op == 'S'; if (big && add.empty()) continue; fail = !oracle::domain(v); MS& q = m.sig[big ? mi : 0]; if (!fail) (op == 'd' || op == 'D' ? q.d : q.s) = v;
				r = guard([&] { if (op == 'd') o.SetDomain(v); if (op == 's') o.SetSelector(v); if (op == 'D') add[w]->SetDomain(v); if (op == 'S') add[w]->SetSelector(v); }); break; }
			case 'a': o.SetSignatureAlgorithm(on ? DKIM_SA_ED25519 : DKIM_SA_RSA); m.sig[0].sa = on; break;
			case 'A': if (add.empty()) continue; add[w]->SetSignatureAlgorithm(on ? DKIM_SA_ED25519 : DKIM_SA_RSA); m.sig[mi].sa = on; break;
			case 'g': o.SetDigestAlgorithm(on ? DKIM_A_SHA1 : DKIM_A_SHA256); m.sha1 = on; break;
			case 'h': o.SetHeaders(lst(v)); m.h = lst(v); break;
			case 'H': o.AddHeaders(lst(v)); for (auto& q : lst(v)) m.h.push_back(q); break;
			case 'R': { o.DelHeaders(lst(v)); std::list<S> k; for (auto& q : m.h) { bool del = false; for (auto& z : lst(v)) if (z == q) del = true; if (!del) k.push_back(q); } m.h = k; break; }
			case 'v': o.SetOversignHeaders(lst(v)); m.ov = lst(v); break;
			case 'l': o.SetSignBodyLength(strtoul(v.c_str(), 0, 10)); m.l = strtoul(v.c_str(), 0, 10); m.limit = true; break;
			case 'n': o.SetARCInstance(strtoul(v.c_str(), 0, 10)); m.arc = strtoul(v.c_str(), 0, 10); break;
			case 'c': o.SetCanonModeHeader(on ? DKIM_C_RELAXED : DKIM_C_SIMPLE); m.ch = on; break;
			case 'e': o.SetCanonModeBody(on ? DKIM_C_RELAXED : DKIM_C_SIMPLE); m.cb = on; break;
			case 'i': o.SetIdentity(v); m.id = v; break;
			case 't': o.SetTimestamp(atoll(v.c_str())); m.t = atoll(v.c_str()); m.ts = true; break;
			case 'x': o.SetExpiration(atoll(v.c_str())); m.x = atoll(v.c_str()); m.xs = true; m.xa = true; break;
			case 'y': o.SetExpiration(atoll(v.c_str()), false); m.x = atoll(v.c_str()); m.xs = true; m.xa = false; break;
			case 'w': if (add.size() < 3) { add.push_back(&o.AddAdditionalSignature()); m.sig.push_back(MS()); } break;
			case 'k': case 'K': { if (op == 'K' && add.empty()) continue; MS& q = m.sig[op == 'K' ? mi : 0]; if (!q.sa && q.rsa) continue; // a second RSA key would only test ownership of the first
				S t = keytext(v); fail = !keymodel(q, v); r = guard([&] { if (op == 'k') o.SetPrivateKey(t); else add[w]->SetPrivateKey(t); }); break; }
			case 'r': case 'q': { if (op == 'q' && add.empty()) continue; MS& q = m.sig[op == 'q' ? mi : 0]; if (q.rsa) continue; q.rsa = v == "2" ? 2 : 1; RSA* k = (RSA*)rsa_priv(q.rsa); if (op == 'r') o.SetRSAPrivateKey(k, false); else add[w]->SetRSAPrivateKey(k, false); break; }
			default: continue;
		}
		if (r.k == Res::OTHER || r.k == Res::TEMP) return "operation " + num(step) + " " + esc(x) + ": " + r.str();
		if (fail != !r.ok()) return "operation " + num(step) + " " + esc(x) + ": expected " + (fail ? "an error" : "success") + ", call " + r.str();
		e = cmp(o, m); if (!e.empty()) return "after operation " + num(step) + " \"" + esc(x) + "\": " + e;
	}
	return "";
});
