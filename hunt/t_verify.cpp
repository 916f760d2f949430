// C09 signature check, C10 body hash, C11 key lookup
#include "sigo.hpp"
#include <Validatory.hpp>
using namespace DKIM;
static std::list<std::shared_ptr<Header>> fields(const S& raw, long long& body) {
	Message m; std::stringstream s(raw); while (!m.IsDone() && m.ParseLine(s)) { } body = (long long)m.GetBodyOffset(); return m.GetHeaders();
}
/// what the signature check of field number k must say: 1 accepted, 0 permanent error of class fail, -1 other permanent error, -2 outside the property's domain
static int verdict(const S& raw, size_t k, const SigO& o, const KeyO& key) {
	oracle::Msg m = oracle::message(raw); if (k >= m.f.size()) return -2;
	if (!key.h.empty()) { bool in = false; for (int x : key.h) if (x == o.dig) in = true; if (!in) return -1; }
	if (key.sa != o.sa) return -1;
	if (!o.isarc) { for (auto& f : key.fl) if (f == "s" && o.d != o.md) return -1; }
	S data; std::vector<bool> used(m.f.size(), false); bool bad, dom;
	for (S n : o.h) {
		n = oracle::lower(n);
		for (size_t i = m.f.size(); i-- > 0;) if (!used[i] && oracle::lower(m.f[i].name) == n) {
			used[i] = true; S c = oracle::header(m.f[i].text, o.ch == 1, bad, dom); if (bad) return -1; if (!dom) return -2;
			data += c + "\r\n"; break;
		}
	}
	const oracle::Field& sf = m.f[k]; std::map<S, oracle::Tag> t; if (!oracle::taglist(sf.text.substr(sf.voff), t) || !t.count("b")) return -2;
	size_t b = sf.voff + t["b"].off, e = b + t["b"].v.size();
	auto w = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
	while (b > 0 && w(sf.text[b - 1])) b--;
	while (e < sf.text.size() && w(sf.text[e])) e++;
	S own = sf.text.substr(0, b) + sf.text.substr(e);
	S c = oracle::header(own, o.ch == 1, bad, dom); if (bad) return -1; if (!dom) return -2;
	data += c;
	if (o.sa == 0) { if (key.rsa < 1 || key.rsa > 2) return -2; return rsa_ok(key.rsa, o.dig == 1, data, o.b) ? 1 : 0; }
	for (int w = 1; w <= 3; w++) if (ed_pk(w) == key.ed) return ed_ok(w, sha(true, data), o.b) ? 1 : 0;
	return 0;
}
/// a signed message: header fields, a signature by an independent signer, variations
static S sigmsg(Rng& r, bool crypto) {
	auto P = [&](std::vector<S> v) { return r.pick(v); };
	std::vector<S> f; size_t n = 1 + r.below(5);
	for (size_t i = 0; i < n; i++) f.push_back(P({"From", "from", "FROM", "To", "Subject", "X-a", "X-A ", "Received"}) + ":" + P({" a@b", "", " x  y ", "\tq\r\n  r", " =?q?", " z\r\n\t\r\n w", " \x80 U:V"}));
	S body = P({"", "\r\n", "hello\r\n", "a  b \r\n\r\n", "no newline", "x\n y\t\t z\n\n\n", "line\r\n" + S(r.below(3000), 'q') + "\r\n"});
	bool ed = r.chance(50), s256 = ed || r.chance(60), arc = r.chance(20); int key = 1 + r.below(2);
	S ch = P({"simple", "relaxed"}), cb = P({"simple", "relaxed"}); S canon = oracle::body(body, cb == "relaxed");
	S bhs = canon; S l; if (r.chance(40)) { size_t N = r.chance(80) ? r.below(canon.size() + 1) : canon.size() + r.below(3); bhs = canon.substr(0, std::min(N, canon.size())); l = num(N); }
	S bh = sha(s256, bhs);
	if (!crypto && r.chance(40)) switch (r.below(6)) { case 0: bh.erase(bh.size() - 1); break; case 1: bh += S(1, (char)r.below(256)); break; case 2: bh[r.below(bh.size())] ^= 1 << r.below(8); break; case 3: bh = sha(!s256, bhs); break; case 4: bh = bh.substr(0, r.below(20)); break; case 5: bh = sha(s256, canon + "\r\n"); break; }
	std::vector<S> hs; size_t hn = 1 + r.below(6); for (size_t i = 0; i < hn; i++) hs.push_back(P({"from", "From", "to", "subject", "x-a", "X-A", "received", "absent", "dkim-signature"})); hs.insert(hs.begin() + r.below(hs.size() + 1), P({"from", "From"}));
	S h; for (size_t i = 0; i < hs.size(); i++) h += (i ? P({":", " : ", ":\r\n\t"}) : S()) + hs[i];
	S name = arc ? P({"ARC-Message-Signature", "arc-message-signature"}) : P({"DKIM-Signature", "dkim-signature", "Dkim-signature "});
	std::vector<S> t; if (!arc) t.push_back("v=1"); else t.push_back("i=" + num(1 + r.below(50)));
	t.push_back(ed ? "a=ed25519-sha256" : s256 ? "a=rsa-sha256" : "a=rsa-sha1"); t.push_back("c=" + ch + "/" + cb); t.push_back("d=example.com"); t.push_back("s=sel"); t.push_back("h=" + h); t.push_back("bh=" + oracle::b64enc(bh));
	if (!l.empty()) t.push_back("l=" + l);
	if (!arc && r.chance(40)) t.push_back(P({"i=@example.com", "i=joe@example.com", "i=joe@sub.example.com"}));
	if (r.chance(10)) t.push_back(P({"bb=1", "z=b=x", "x=9999999999", "bhb=2"}));
	size_t bi = r.below(t.size() + 1); t.insert(t.begin() + bi, "b=");
	S lead = P({"", "", " ", "\r\n\t", "  ", "\r\n "}), trail = P({"", "", " ", "\r\n\t", "\t"}), tail = r.chance(50) ? ";" : "";
	S pre = name + ":", post;
	for (size_t i = 0; i < t.size(); i++) { S sep = i ? P({";", "; ", ";\r\n\t", " ; "}) : P({"", " ", "\r\n "}); if (i == bi && sep.size() > 2 && r.chance(50)) sep = "; "; if (i < bi) pre += sep + t[i]; else if (i == bi) { pre += sep + P({"b=", "b =", "b="}); } else post += sep + t[i]; }
	post += tail;
	if (bi + 1 < t.size() || !tail.empty()) { } // the white space before ';' belongs to the value's surroundings
	size_t wp = 0; while (wp < post.size() && (post[wp] == ' ' || post[wp] == '\t' || post[wp] == '\r' || post[wp] == '\n')) wp++;
	post.erase(0, wp);
	// data
	size_t at = r.chance(60) ? 0 : r.below(f.size() + 1);
	S own = pre + post; std::vector<S> all = f; all.insert(all.begin() + at, own); S data; std::vector<bool> used(all.size(), false); bool bad, dom;
	bool incself = false;
	for (S& x : hs) for (size_t i = all.size(); i-- > 0;) { S fn = oracle::lower(oracle::trim(all[i].substr(0, all[i].find(':')))); if (!used[i] && fn == oracle::lower(x)) { used[i] = true; if (i == at) incself = true; data += oracle::header(all[i], ch == "relaxed", bad, dom) + "\r\n"; break; } }
	(void)incself;
	S mut = own; data += oracle::header(mut, ch == "relaxed", bad, dom);
	if (crypto && r.chance(25)) { size_t q = r.below(data.size() + 1); switch (r.below(4)) { case 0: data.insert(q, 1, 'x'); break; case 1: if (q < data.size()) data.erase(q, 1); break; case 2: data += "\r\n"; break; case 3: if (q < data.size()) data[q] ^= 32; break; } }
	S sig = ed ? ed_sign(key, sha(true, data)) : rsa_sign(key, s256, data);
	if (crypto && r.chance(12)) switch (r.below(4)) { case 0: sig.erase(sig.size() - 1); break; case 1: sig += S(1, (char)r.below(256)); break; case 2: sig[r.below(sig.size())] ^= 1; break; case 3: sig = sig.substr(0, 1 + r.below(10)); break; }
	S b64 = oracle::b64enc(sig); for (int k = r.below(4); k-- > 0;) b64.insert(1 + r.below(b64.size() - 1), P({" ", "\r\n\t", "\r\n  "}));
	all[at] = pre + lead + b64 + trail + post;
	S m; for (S& x : all) m += x + "\r\n";
	m += "\r\n" + body; return m;
}
static S krec(Rng& r) {
	auto P = [&](std::vector<S> v) { return r.pick(v); };
	bool ed = r.chance(50); int w = 1 + r.below(2);
	S s = P({"v=DKIM1; ", "", ""}) + (ed ? "k=ed25519; p=" + oracle::b64enc(ed_pk(w)) : P({"k=rsa; p=", "p="}) + (w == 1 ? K_R1PUB : K_R2PUB));
	if (r.chance(30)) s += P({"; h=sha1", "; h=sha256", "; h=sha1:sha256", "; h=sha256:sha1", "; h=sha512:sha1"});
	if (r.chance(30)) s += P({"; t=s", "; t=y", "; t=y:s", "; t=x:S"});
	return s;
}
static Reg v9("C09", "check-signature", [](Rng& r, uint64_t) -> Input { return {sigmsg(r, true), krec(r), krec(r), krec(r), krec(r)}; }, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	long long body; auto fs = fields(in[0], body); oracle::Msg m = oracle::message(in[0]); if (fs.size() != m.f.size()) return "";
	std::stringstream ss(in[0]); std::unique_ptr<Validatory> v; Res rc = guard([&] { v.reset(new Validatory(ss, Validatory::DKIM)); }); if (!rc.ok()) return rc.str();
	size_t k = 0;
	for (auto& f : fs) { size_t kk = k++;
		S ln = oracle::lower(f->GetName()); if (ln != "dkim-signature" && ln != "arc-message-signature") continue;
		SigO o = sigo(f->GetName(), f->GetHeader().substr(f->GetValueOffset()), 0); if (!o.ok || o.unk) continue;
		Signature s; g_time = 0; Res r = guard([&] { s.Parse(f); }); g_time = -1; if (!r.ok()) continue;
		for (size_t q = 1; q < in.size(); q++) {
			KeyO ko = keyo(in[q]); if (!ko.ok || ko.unk) continue;
			PublicKey p; if (!guard([&] { p.Parse(in[q]); }).ok()) continue;
			int e = verdict(in[0], kk, o, ko); if (e == -2) continue;
			Res c = guard([&] { v->CheckSignature(f, s, p); });
			if (c.k == Res::OTHER || c.k == Res::TEMP) return c.str();
			if (e == 1 && !c.ok()) return "key " + num(q) + ": a valid signature is refused: " + c.str();
			if (e != 1 && c.ok()) return "key " + num(q) + ": accepted, but " + (e == 0 ? "the cryptographic check must refuse it" : "the key does not permit it or a field is malformed");
			if (e == 0 && c.ar != "fail") return "key " + num(q) + ": class is \"" + c.ar + "\", expected fail";
			if (e == -1 && c.ar == "fail") return "key " + num(q) + ": class is fail without a cryptographic refusal";
		}
	}
	return "";
});
static Reg v10("C10", "body-hash", [](Rng& r, uint64_t) -> Input {
	// several signatures on one message body
	S m = sigmsg(r, false); S body = m.substr(m.find("\r\n\r\n") == S::npos ? m.size() : m.find("\r\n\r\n") + 4);
	S order; for (int i = 0; i < 6; i++) order += (char)('0' + r.below(4));
	S pre; int n = r.below(3); for (int i = 0; i < n; i++) { S x = sigmsg(r, false); (void)x;
		bool rel = r.chance(50), s256 = r.chance(50); S c = oracle::body(body, rel), l; if (r.chance(50)) { size_t N = r.below(c.size() + 1); c = c.substr(0, N); l = "; l=" + num(N); }
		if (r.chance(25)) c += "x";
		pre += S("DKIM-Signature: v=1; a=") + (s256 ? "rsa-sha256" : "rsa-sha1") + "; c=simple/" + (rel ? "relaxed" : "simple") + "; d=e.x; s=s; h=from; b=QUJD; bh=" + oracle::b64enc(sha(s256, c)) + l + "\r\n"; }
	S all = pre + m; if (r.chance(5)) { size_t p = all.find("\r\n\r\n"); if (p != S::npos) all.erase(p + r.below(3)); }
	return {all, order};
}, [](const Input& in) -> S {
	if (in.size() < 2) return "";
	oracle::Msg m = oracle::message(in[0]); S raw = m.body < 0 ? S() : in[0].substr(m.body);
	std::stringstream ss(in[0]); std::unique_ptr<Validatory> v; Res rc = guard([&] { v.reset(new Validatory(ss, Validatory::DKIM)); }); if (!rc.ok()) return rc.str();
	long long bo; auto fs = fields(in[0], bo); if (fs.size() != m.f.size()) return "";
	std::vector<std::shared_ptr<Header>> sg; for (auto& f : fs) { S ln = oracle::lower(f->GetName()); if (ln == "dkim-signature" || ln == "arc-message-signature") sg.push_back(f); }
	if (sg.empty()) return "";
	for (size_t q = 0; q < in[1].size() + sg.size(); q++) {
		auto f = q < sg.size() ? sg[q] : sg[(unsigned char)in[1][q - sg.size()] % sg.size()];
		SigO o = sigo(f->GetName(), f->GetHeader().substr(f->GetValueOffset()), 0); if (o.unk) continue;
		S c = oracle::body(raw, o.cb == 1); if (o.hasl && o.l < c.size()) c.resize(o.l);
		Message::HeaderList one(1, f); Signature s; g_time = 0;
		Message::HeaderList::const_iterator it = one.begin();
		Res r = guard([&] { v->GetSignature(it, s); }); g_time = -1;
		if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
		bool good = o.ok && o.bh == sha(o.dig == 1, c);
		if (good != r.ok()) return "fetch " + num(q) + ": expected " + (good ? "acceptance" : "rejection") + ", call " + r.str();
		if (o.ok && !good && r.ar != "fail") return "fetch " + num(q) + ": class is \"" + r.ar + "\", expected fail";
	}
	return "";
});
static Reg v11("C11", "key-lookup", [](Rng& r, uint64_t) -> Input {
	S rec = r.chance(25) ? S() : r.chance(70) ? krec(r) : rec_case(r); if (rec.size() > 700) rec.clear();
	return {r.pick(std::vector<S>{"sel", "a.b", "S", "x-1.y", "%s", "s s"}), r.pick(std::vector<S>{"example.com", "EXAMPLE.org", "a", "%d.x"}), rec, S(1, "TFtfNnEe"[r.below(8)])};
}, [](const Input& in) -> S {
	if (in.size() < 4 || in[3].empty()) return "";
	auto h = mkheader("DKIM-Signature: v=1; a=rsa-sha256; h=from; b=QUJD; bh=QUJD; d=" + in[1] + "; s=" + in[0]); Signature s; if (!guard([&] { s.Parse(h); }).ok()) return "";
	SigO o = sigo("DKIM-Signature", h->GetHeader().substr(h->GetValueOffset()), 0); if (!o.ok) return "";
	S name = o.s + "._domainkey." + o.d; char mode = in[3][0]; S asked; int calls = 0; void* got = nullptr; int tag = 0;
	std::stringstream ss("From: x\r\n\r\n"); Validatory v(ss); bool custom = strchr("TFtf", mode); if (!custom && !strchr("NnEe", mode)) return ""; bool fail = strchr("Ffe", mode) != nullptr;
	if (custom) { v.CustomDNSData = &tag; v.CustomDNSResolver = [&](const S& q, S& res, void* d) -> bool { calls++; asked = q; got = d; if (!fail || mode == 'f') res = in[2]; return !fail; }; }
	g_dns = true; g_query = "\x01none"; 
	S text = in[2];
	if (!custom) {
		if (mode == 'e') { g_answer_len = -1; g_herr = 2; } // TRY_AGAIN
		else if (mode == 'E') { g_answer_len = -1; g_herr = 1; text = ""; } // HOST_NOT_FOUND
		else { S a("\0\1\x84\0\0\1\0\1\0\0\0\0", 12); a += S("\1x\0\0\20\0\1", 7); S rd; for (size_t p = 0; p < text.size(); p += 255) { S c = text.substr(p, 255); rd += (char)c.size(); rd += c; }
			a += S("\1x\0\0\20\0\1\0\0\0\1", 11); a += (char)(rd.size() >> 8); a += (char)rd.size(); a += rd; g_answer = a; g_answer_len = a.size(); }
	}
	PublicKey p; Res r = guard([&] { v.GetPublicKey(s, p); }); g_dns = false;
	if (r.k == Res::OTHER) return r.str();
	if (custom) { if (calls != 1) return "the caller's resolver was called " + num(calls) + " times"; if (g_query != "\x01none") return "the default resolver was used"; if (asked != name) return "asked for \"" + esc(asked) + "\", expected \"" + esc(name) + "\""; if (got != &tag) return "the resolver got other user data"; }
	else if (name.find('\0') == S::npos && g_query != name) return "asked for \"" + esc(g_query) + "\", expected \"" + esc(name) + "\"";
	if (fail) return r.k == Res::TEMP ? "" : "a failed query: " + r.str();
	if (text.empty()) return r.k == Res::PERM ? "" : "no text: " + r.str();
	PublicKey q; Res e = guard([&] { q.Parse(text); });
	if (e.k != r.k) return "parsing the text gives " + e.str() + ", key retrieval " + r.str();
	if (!r.ok()) return "";
	if (p.GetSignatureAlgorithm() != q.GetSignatureAlgorithm() || p.GetED25519PublicKey() != q.GetED25519PublicKey() || p.GetFlags() != q.GetFlags() || p.GetDigestAlgorithms() != q.GetDigestAlgorithms()) return "another key";
	if (q.GetRSAPublicKey()) { const BIGNUM *a, *b; if (!p.GetRSAPublicKey()) return "no RSA key"; RSA_get0_key(p.GetRSAPublicKey(), &a, 0, 0); RSA_get0_key(q.GetRSAPublicKey(), &b, 0, 0); if (BN_cmp(a, b)) return "another RSA key"; }
	return "";
});
