// C13 what a created signature states and signs, C14 it verifies, C21 signing again, C20 options that must be refused
#include "sigo.hpp"
#include <Signatory.hpp>
#include <SignatoryOptions.hpp>
#include <Validatory.hpp>
using namespace DKIM;
/// one letter per choice: each call of a case is a string of options "k=v\n"
typedef std::map<S, S> Opt;
static Opt opt(const S& s) { Opt o; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == S::npos) e = s.size(); S l = s.substr(p, e - p); p = e + 1; if (l.size() >= 2 && l[1] == '=') o[l.substr(0, 1)] = l.substr(2); } return o; }
static std::list<S> names(const S& s) { std::list<S> r; size_t p = 0; while (p < s.size()) { size_t e = s.find(',', p); if (e == S::npos) e = s.size(); if (e > p) r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
static S genmsg(Rng& r) {
	auto P = [&](std::vector<S> v) { return r.pick(v); };
	S m; size_t n = r.below(9); int from = r.below(n + 1); S nl = r.chance(80) ? "\r\n" : "\n";
	for (size_t i = 0; i <= n; i++) {
		S name = (int)i == from ? P({"From", "FROM", "from"}) : P({"To", "Subject", "X-a", "x-A", "From", "Received", "Date", "received", "List-Unsubscribe-Post", "DKIM-Signature", "A-very-long-header-name-" + S(r.below(70), 'q')});
		m += name + (r.chance(10) ? " " : "") + ":" + P({" v", "", " a  b\t", nl + " folded", " x " + nl + "\t y" + nl + "  z ", " \x80\xff\x01 Q:R", " v=1; b=x"}) + nl;
	}
	if (r.chance(95)) m += nl;
	else return m;
	m += P({"", "\r\n", "hello\r\n", "a  b \r\n\r\n", "no newline", "x\n y\t\t z\n\n\n", "bare\rcr \r\r\n", S(r.below(20000), 'q') + "\r\n" + S(r.below(9000), ' ') + "z\r\n", "\r\n\r\n", " \r\n\t\r\n"});
	return m;
}
static S genopt(Rng& r, const S& msg, bool any) {
	auto P = [&](std::vector<S> v) { return r.pick(v); };
	S o; bool ed = r.chance(40), s1 = r.chance(25);
	if (ed) o += "a=e\n"; o += "k=" + num(1 + r.below(2)) + "\n"; if (s1) o += "g=1\n";
	S ch = P({"s", "r"}), cb = P({"s", "r"}); o += "c=" + ch + cb + "\n";
	o += "d=" + P({"example.com", "Example.COM", "a-b.c1"}) + "\ns=" + P({"sel", "S.x"}) + "\n";
	if (r.chance(60)) { S h = P({"from", "From", "FROM"}); int n = r.below(6); for (int i = 0; i < n; i++) h += "," + P({"to", "Subject", "x-A", "received", "absent", "from", "dkim-signature", "DATE"}); o += "h=" + h + "\n"; if (r.chance(50)) o += "v=" + P({"from", "From,from", h, "from," + S("FROM")}) + "\n"; }
	else if (r.chance(40)) o += "h=\n";
	else if (r.chance(30)) o += "v=from,From\n";
	if (any && r.chance(10)) o += "v=extra-name\n";
	if (r.chance(35)) { S c = oracle::body(oracle::message(msg).body < 0 ? S() : msg.substr(oracle::message(msg).body), cb == "r"); o += "l=" + num(r.chance(85) ? r.below(c.size() + 1) : c.size() + r.below(3)) + "\n"; }
	if (r.chance(20)) o += "n=" + num(1 + r.below(50)) + "\n";
	if (r.chance(35)) o += "i=" + P({"@example.com", "joe@example.com", "jo=e;x y@sub.example.com", "joe@EXAMPLE.com", "\x80@a-b.c1", "@Example.COM", "x@a-b.c1", "@"}) + "\n";
	if (r.chance(30)) o += "t=" + P({"0", "1700000000", "-1"}) + "\n";
	if (r.chance(30)) o += "x=" + P({"99999999999", "1000000000000"}) + "\n"; else if (r.chance(20)) o += "y=" + P({"3600", "0", "1"}) + "\n";
	if (r.chance(30)) { S w; int n = 1 + r.below(3); for (int i = 0; i < n; i++) w += P({"e", "r"}) + P({"1", "2"}) + P({"e", "a", "s"}) + ","; o += "w=" + w + "\n"; }
	if (any && r.chance(8)) o += "z=1\n"; // no key
	return o;
}
struct Sg { bool ed; int key; S d, s; };
static void apply(const Opt& o, SignatoryOptions& so, std::vector<Sg>& sg) {
	auto has = [&](const S& k) { return o.count(k) > 0; }; auto get = [&](const S& k) { return o.at(k); };
	Sg m; m.ed = has("a"); m.key = has("k") && get("k") == "2" ? 2 : 1; m.d = has("d") ? get("d") : "x"; m.s = has("s") ? get("s") : "s"; sg.push_back(m);
	so.SetSignatureAlgorithm(m.ed ? DKIM_SA_ED25519 : DKIM_SA_RSA);
	if (!has("z")) { if (m.ed) so.SetPrivateKey(ed_sk(m.key)); else so.SetRSAPrivateKey((RSA*)rsa_priv(m.key), false); }
	so.SetDomain(m.d).SetSelector(m.s); if (has("g")) so.SetDigestAlgorithm(DKIM_A_SHA1);
	if (has("c")) { if (get("c").size() > 0 && get("c")[0] == 'r') so.SetCanonModeHeader(DKIM_C_RELAXED); if (get("c").size() > 1 && get("c")[1] == 'r') so.SetCanonModeBody(DKIM_C_RELAXED); }
	if (has("h")) so.SetHeaders(names(get("h"))); if (has("v")) so.SetOversignHeaders(names(get("v")));
	if (has("l")) so.SetSignBodyLength(strtoul(get("l").c_str(), 0, 10)); if (has("n")) so.SetARCInstance(strtoul(get("n").c_str(), 0, 10));
	if (has("i")) so.SetIdentity(get("i")); if (has("t")) so.SetTimestamp(atoll(get("t").c_str()));
	if (has("x")) so.SetExpiration(atoll(get("x").c_str())); if (has("y")) so.SetExpiration(atoll(get("y").c_str()), false);
	if (has("w")) for (S w : names(get("w"))) { if (w.size() < 3) continue; Sg q; q.ed = w[0] == 'e'; q.key = w[1] == '2' ? 2 : 1; q.d = w[2] == 'e' ? "example.com" : w[2] == 's' ? "sub.example.com" : "add.org"; q.s = S("add") + w[1]; sg.push_back(q);
		auto& a = so.AddAdditionalSignature(); a.SetSignatureAlgorithm(q.ed ? DKIM_SA_ED25519 : DKIM_SA_RSA).SetDomain(q.d).SetSelector(q.s); if (q.ed) a.SetPrivateKey(ed_sk(q.key)); else a.SetRSAPrivateKey((RSA*)rsa_priv(q.key), false); }
}
struct Expect { bool err, unknown; std::list<S> h; S data; S bh; };
static Expect expect(const S& msg, const Opt& o) {
	Expect e; e.err = e.unknown = false; oracle::Msg m = oracle::message(msg); bool relh = o.count("c") && o.at("c").size() > 0 && o.at("c")[0] == 'r', relb = o.count("c") && o.at("c").size() > 1 && o.at("c")[1] == 'r';
	S body = m.body < 0 ? S() : msg.substr(m.body), c = oracle::body(body, relb);
	if (o.count("l")) { unsigned long L = strtoul(o.at("l").c_str(), 0, 10); if (L > c.size()) { e.err = true; return e; } c.resize(L); }
	bool s256 = !o.count("g"); e.bh = sha(s256, c);
	std::set<S> sel; static const char* D[] = {"from", "sender", "reply-to", "subject", "date", "message-id", "to", "cc", "mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "resent-date", "resent-from", "resent-sender", "resent-to", "resent-cc", "resent-message-id", "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-unsubscribe-post", "list-subscribe", "list-post", "list-owner", "list-archive", "cfbl-address", "cfbl-feedback-id"};
	if (o.count("h")) for (S n : names(o.at("h"))) sel.insert(oracle::lower(n)); else for (auto d : D) sel.insert(d);
	for (size_t i = m.f.size(); i-- > 0;) { S n = oracle::lower(m.f[i].name); if (n.empty() || (!sel.empty() && !sel.count(n))) continue; bool bad, dom; S q = oracle::header(m.f[i].text, relh, bad, dom); if (bad) { e.err = true; return e; } if (!dom) e.unknown = true; e.data += q + "\r\n"; e.h.push_back(n); }
	if (o.count("v")) for (S n : names(o.at("v"))) e.h.push_back(oracle::lower(n));
	return e;
}
static std::vector<S> split(const S& out) { // signature fields: a line starting a field does not start with a tab
	std::vector<S> v; size_t p = 0; while (p <= out.size()) { size_t e = p; for (;;) { e = out.find("\r\n", e); if (e == S::npos) { e = out.size(); break; } if (e + 2 < out.size() && out[e + 2] == '\t') { e += 2; continue; } break; } v.push_back(out.substr(p, e - p)); p = e + 2; } return v;
}
static S created(const S& msg, const Opt& o, const std::vector<Sg>& sg, const S& out, const Expect& e, long long now) {
	std::vector<S> fs = split(out); if (fs.size() != sg.size()) return num(fs.size()) + " signature fields, expected " + num(sg.size());
	bool relh = o.count("c") && o.at("c").size() > 0 && o.at("c")[0] == 'r', relb = o.count("c") && o.at("c").size() > 1 && o.at("c")[1] == 'r'; unsigned long arc = o.count("n") ? strtoul(o.at("n").c_str(), 0, 10) : 0; bool s256 = !o.count("g");
	for (size_t k = 0; k < fs.size(); k++) {
		const Sg& g = sg[sg.size() - 1 - k]; S f = fs[k]; size_t c = f.find(':'); S w = "field " + num(k) + " (" + esc(f) + "): ";
		if (f.substr(0, c) != (arc ? "ARC-Message-Signature" : "DKIM-Signature")) return w + "field name";
		size_t st = 0; for (size_t z = 0; z <= f.size(); z++) if (z == f.size() || f.compare(z, 2, "\r\n") == 0) { if (z - st > 998) return w + "line too long"; st = z + 2; }
		for (size_t z = f.find("\r\n"); z != S::npos; z = f.find("\r\n", z + 2)) { size_t q = f.find("\r\n", z + 2); S line = f.substr(z + 2, q == S::npos ? S::npos : q - z - 2); if (line.find_first_not_of(" \t") == S::npos) return w + "a line of only white space"; }
		std::map<S, oracle::Tag> t; if (!oracle::taglist(f.substr(c + 1), t)) return w + "not a tag list";
		std::map<S, S> x; x["a"] = g.ed ? (s256 ? "ed25519-sha256" : "ed25519-sha1") : s256 ? "rsa-sha256" : "rsa-sha1"; if (!arc) x["v"] = "1"; else x["i"] = num2(arc);
		x["c"] = S(relh ? "relaxed" : "simple") + "/" + (relb ? "relaxed" : "simple"); x["d"] = g.d; x["s"] = g.s; x["bh"] = oracle::b64enc(e.bh);
		if (o.count("l")) x["l"] = num2(strtoul(o.at("l").c_str(), 0, 10));
		if (!arc && o.count("i") && !o.at("i").empty()) x["i"] = oracle::qpenc(o.at("i"));
		long long ts = -1; if (o.count("t")) { ts = atoll(o.at("t").c_str()); if (ts == -1) ts = now; x["t"] = num2(ts); }
		if (o.count("x")) x["x"] = num2(atoll(o.at("x").c_str())); if (o.count("y")) x["x"] = num2(atoll(o.at("y").c_str()) + (ts == -1 ? now : ts));
		for (auto& p : x) if (!t.count(p.first) || t[p.first].v != p.second) return w + "tag " + p.first + " is not \"" + esc(p.second) + "\"";
		for (auto& p : t) if (!x.count(p.first) && p.first != "h" && p.first != "b") return w + "unexpected tag " + p.first;
		if (!t.count("h") || !t.count("b")) return w + "h or b is missing";
		bool bad; std::list<S> h = oracle::valuelist(t["h"].v, bad); if (bad || h != e.h) return w + "h= lists " + escl(h) + ", expected " + escl(e.h);
		S sig; if (!oracle::b64dec(oracle::nospace(t["b"].v), sig)) return w + "b is not base64";
		bool bd, dm; S unsig = f.substr(0, c + 1 + t["b"].off); if (unsig.size() < 2 || unsig.substr(unsig.size() - 2) != "b=") return w + "does not end in b=";
		S data = e.data + oracle::header(unsig, relh, bd, dm);
		bool ok = g.ed ? ed_ok(g.key, sha(s256, data), sig) : rsa_ok(g.key, s256, data, sig);
		if (!e.unknown && !ok) return w + "the signature is not one of the data described";
		(void)msg;
	}
	return "";
}
static S verify(const S& msg, const Opt& o, const std::vector<Sg>& sg, const S& out) {
	// every field, in front of the message, is accepted
	bool arc = o.count("n") && strtoul(o.at("n").c_str(), 0, 10);
	std::vector<S> fs = split(out);
	for (int all = 0; all < 2; all++) for (size_t k = 0; k < fs.size(); k++) {
		if (all && k) break;
		S whole = (all ? out : fs[k]) + "\r\n" + msg; std::stringstream ss(whole); std::unique_ptr<Validatory> v; Res r = guard([&] { v.reset(new Validatory(ss, arc ? Validatory::ARC : Validatory::DKIM)); }); if (!r.ok()) return r.str();
		size_t n = 0; Message::HeaderList l(v->GetSignatures().begin(), v->GetSignatures().end());
		for (auto it = l.begin(); it != l.end() && n < (all ? fs.size() : 1); ++it, ++n) {
			size_t kk = all ? n : k; const Sg& g = sg[sg.size() - 1 - kk];
			if (all && n == 0 && fs.size() > 1) { } // only the field itself counts below it when it signs its own name
			Signature s; PublicKey p; S rec = g.ed ? "k=ed25519; p=" + oracle::b64enc(ed_pk(g.key)) : "p=" + (g.key == 2 ? K_R2PUB : K_R1PUB);
			r = guard([&] { v->GetSignature(it, s); p.Parse(rec); v->CheckSignature(it, s, p); });
			if (!r.ok()) return S("signature ") + num(kk) + (all ? " (all fields in front)" : "") + " does not verify: " + r.str() + " field " + esc(fs[kk]);
		}
		if (n == 0) return "no signature found in the signed message";
	}
	return "";
}
static bool verifiable(const S& msg, const Opt& o, const std::vector<Sg>& sg, const Expect& e) {
	if (e.unknown || o.count("z")) return false;
	oracle::Msg m = oracle::message(msg); for (auto& f : m.f) { if (f.name.empty()) return false; for (unsigned char c : f.name) if (c <= 32 || c >= 127 || c == ';' || c == ':') return false; }
	if (o.count("g")) for (auto& g : sg) if (g.ed) return false;
	std::set<S> hs; bool from = false; for (auto& f : m.f) { S n = oracle::lower(f.name); if (n == "from") from = true; hs.insert(n); }
	if (!from) return false; bool hf = false; for (auto& x : e.h) { if (x == "from") hf = true; } if (!hf) return false;
	// every oversigned name is a signed name
	std::set<S> sel; if (o.count("h")) for (S n : names(o.at("h"))) sel.insert(oracle::lower(n));
	std::list<S> nh = e.h; size_t ov = o.count("v") ? names(o.at("v")).size() : 0; std::set<S> really; { size_t i = 0; for (auto& x : nh) if (i++ < nh.size() - ov) really.insert(x); }
	if (ov) for (S n : names(o.at("v"))) { S ln = oracle::lower(n); bool in = really.count(ln) > 0; if (!in) { if (!sel.count(ln)) return false; } if (ln == "dkim-signature" || ln == "arc-message-signature") return false; for (unsigned char c : ln) if (!(oracle::alnum(c) || c == '-')) return false; }
	if (o.count("y") && atoll(o.at("y").c_str()) < 0) return false;
	if (o.count("i") && !o.at("i").empty() && !o.count("n")) { S i = o.at("i"); size_t at = i.find('@'); if (at == S::npos) return false; S dm = oracle::lower(i.substr(at + 1)); for (auto& g : sg) { S d = oracle::lower(g.d), suf = "." + d; if (dm != d && !(dm.size() > suf.size() && dm.substr(dm.size() - suf.size()) == suf)) return false; } }
	long long ts = -1; if (o.count("t")) { ts = atoll(o.at("t").c_str()); if (ts == -1) ts = 1700000123; }
	if (o.count("y") && atoll(o.at("y").c_str()) + (ts == -1 ? 1700000123 : ts) < 1700000123) return false;
	if (o.count("x") && !o.count("y") && atoll(o.at("x").c_str()) < 1700000123) return false;
	if (o.count("n")) { unsigned long n = strtoul(o.at("n").c_str(), 0, 10); if (n > 50) return false; }
	return true;
}
static S sign_run(const Input& in, int what) {
	if (in.size() < 2) return "";
	std::stringstream ss(in[0]); Signatory sgn(ss); S first; g_time = 1700000123;
	struct Restore { ~Restore() { g_time = -1; } } rst;
	for (size_t q = 1; q < in.size(); q++) {
		Opt o = opt(in[q]); SignatoryOptions so; std::vector<Sg> sg; Res a = guard([&] { apply(o, so, sg); }); if (!a.ok()) continue;
		S out; Res r = guard([&] { out = sgn.CreateSignature(so); });
		if (r.k == Res::OTHER || r.k == Res::TEMP) return r.str();
		Expect e = expect(in[0], o);
		if (what == 20) { if (o.count("z") && r.ok() && !e.err) return "signed without a key"; continue; }
		bool err = e.err || o.count("z"); if (e.unknown && !r.ok()) continue;
		if (err != !r.ok()) return "call " + num(q) + ": expected " + (err ? "an error" : "a signature") + ", call " + r.str();
		if (err) continue;
		S m = what == 14 ? S() : created(in[0], o, sg, out, e, 1700000123); if (!m.empty()) return "call " + num(q) + ": " + m;
		if (what == 14 && verifiable(in[0], o, sg, e)) { m = verify(in[0], o, sg, out); if (!m.empty()) return "call " + num(q) + ": " + m; }
		if (what == 21) { S again; Res r2 = guard([&] { again = sgn.CreateSignature(so); }); if (!r2.ok()) return "signing again: " + r2.str(); if (again != out) return "signing again gives \"" + esc(again) + "\" instead of \"" + esc(out) + "\""; std::stringstream s3(in[0]); Signatory fresh(s3); S f3; Res r3 = guard([&] { f3 = fresh.CreateSignature(so); }); if (!r3.ok() || f3 != out) return "a new signer gives another signature"; }
	}
	return "";
}
static Input sign_gen(Rng& r, bool any) { S m = genmsg(r); Input in{m, genopt(r, m, any)}; while (r.chance(35) && in.size() < 4) in.push_back(genopt(r, m, any)); return in; }
static Reg g13("C13", "created", [](Rng& r, uint64_t) -> Input { return sign_gen(r, true); }, [](const Input& in) { return sign_run(in, 13); });
static Reg g14("C14", "sign-verify", [](Rng& r, uint64_t) -> Input { return sign_gen(r, false); }, [](const Input& in) { return sign_run(in, 14); });
static Reg g21("C21", "sign-again", [](Rng& r, uint64_t) -> Input { return sign_gen(r, false); }, [](const Input& in) { return sign_run(in, 21); });
static Reg g20("C20", "sign-any", [](Rng& r, uint64_t) -> Input { Input in = sign_gen(r, true); if (r.chance(40)) in[0] = mutate(r, in[0], {"\r", "\n", ":", "\x80", S(1, 0), " ", "\r\n"}, 4); if (r.chance(40)) in[1] += "z=1\n"; return in; }, [](const Input& in) { return sign_run(in, 20); });
