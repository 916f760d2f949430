// Signature and key record oracles and generators shared by several tests.
#pragma once
#include "support.hpp"
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/evp.h>
// ---- signature fields
struct SigO { bool ok; S d, s, b, bh, lp, md; int dig, sa, ch, cb; std::list<S> h; unsigned long l; bool hasl; unsigned long arc; bool isarc; bool unk; };
static bool digits(const S& s) { for (char c : s) if (c < '0' || c > '9') return false; return !s.empty(); }
static SigO sigo(const S& name, const S& val, long long now) {
	SigO o; o.ok = false; o.unk = false; std::map<S, oracle::Tag> t; o.isarc = oracle::lower(name) == "arc-message-signature";
	if (!oracle::taglist(val, t)) return o;
	for (auto n : {"d", "a", "b", "bh", "h", "s"}) if (!t.count(n)) return o;
	if (!o.isarc && (!t.count("v") || t["v"].v != "1")) return o;
	S a = t["a"].v; if (a == "rsa-sha1") o.dig = 0, o.sa = 0; else if (a == "rsa-sha256") o.dig = 1, o.sa = 0; else if (a == "ed25519-sha256") o.dig = 1, o.sa = 1; else return o;
	if (t["b"].v.empty()) return o;
	o.d = oracle::lower(t["d"].v); o.s = t["s"].v;
	if (!oracle::b64dec(oracle::nospace(t["b"].v), o.b)) o.unk = true;
	if (!oracle::b64dec(oracle::nospace(t["bh"].v), o.bh)) o.unk = true;
	o.ch = o.cb = 0;
	if (t.count("c")) { S c = t["c"].v, h, b = "simple"; size_t p = c.find('/'); h = c.substr(0, p); if (p != S::npos) b = c.substr(p + 1); if ((h != "simple" && h != "relaxed") || (b != "simple" && b != "relaxed")) return o; o.ch = h == "relaxed"; o.cb = b == "relaxed"; }
	bool bad; o.h = oracle::valuelist(t["h"].v, bad); if (bad) return o;
	bool from = false; for (auto& x : o.h) if (oracle::lower(x) == "from") from = true; if (!from) return o;
	o.arc = 0;
	if (o.isarc) { if (!t.count("i")) return o; S v = t["i"].v; if (!digits(v)) { o.unk = true; unsigned long x = strtoul(v.c_str(), 0, 10); if (x < 1 || x > 50) return o; o.arc = x; } else { size_t z = v.find_first_not_of('0'); v = z == S::npos ? "0" : v.substr(z); if (v.size() > 2 || atoi(v.c_str()) < 1 || atoi(v.c_str()) > 50) return o; o.arc = atoi(v.c_str()); } }
	else if (!t.count("i")) o.md = o.d;
	else { bool q; S m = oracle::qpdec(t["i"].v, false, q); if (q) return o; size_t at = m.find('@'); if (at == S::npos) return o; o.lp = m.substr(0, at); o.md = oracle::lower(m.substr(at + 1));
		S suf = "." + o.d; if (o.md != o.d && !(o.md.size() >= suf.size() && o.md.substr(o.md.size() - suf.size()) == suf)) return o; }
	o.l = 0; o.hasl = false;
	if (t.count("l")) { S l = t["l"].v; if (!digits(l) || l.size() > 76) return o; size_t z = l.find_first_not_of('0'); l = z == S::npos ? "0" : l.substr(z); S mx = "9223372036854775807"; if (l.size() > mx.size() || (l.size() == mx.size() && l > mx)) return o; o.l = strtoul(l.c_str(), 0, 10); o.hasl = true; }
	if (t.count("q") && t["q"].v != "dns/txt") return o;
	if (t.count("x")) { S x = t["x"].v; if (digits(x)) { size_t z = x.find_first_not_of('0'); x = z == S::npos ? "0" : x.substr(z); if (x.size() < 19 && atoll(x.c_str()) < now) return o; } else { if (strtol(x.c_str(), 0, 10) < now) return o; } }
	o.ok = true; return o;
}
static S sig_case(Rng& r, int focus) {
	auto P = [&](std::vector<S> v) { return r.pick(v); };
	std::vector<std::pair<S, S>> t;
	auto rare = [&](std::vector<S> good, std::vector<S> bad, int pct) { return r.chance(pct) ? r.pick(bad) : r.pick(good); };
	int base = focus ? 3 : 12;
	t.push_back({"v", rare({"1"}, {"", "2", "1.0", "01", "1 ", "DKIM1"}, base)});
	t.push_back({"a", rare({"rsa-sha256", "rsa-sha1", "ed25519-sha256"}, {"", "rsa-sha512", "RSA-SHA256", "ed25519-sha1", "rsa", "rsa-sha2566", "rsa-sha25"}, base)});
	S d = rare({"example.com", "Example.COM", "a.b", "x"}, {"", "ex ample", "\r\n e", ".com"}, base);
	t.push_back({"d", d});
	t.push_back({"s", rare({"sel", "S.e.l"}, {"", "a b"}, 10)});
	t.push_back({"h", rare({"From", "from:to", "To : FROM", "Subject:frOm:", "from:from"}, {"", "to", "fromx", "xfrom", "from::to", ":from", "to:subject", "f rom"}, base)});
	t.push_back({"bh", rare({"QUJD", "QU JD", "Q\r\n UJD", oracle::b64enc(sha(true, "x"))}, {"", "!", "QUJ"}, base)});
	t.push_back({"b", rare({"QUJD", "QU JD", "QQ==", oracle::b64enc(rbytes(r, 64)), "QU\r\n\tJD"}, {"", "*", "QQ"}, base)});
	if (r.chance(50)) t.push_back({"c", rare({"simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed"}, {"", "/", "relaxed/", "/relaxed", "Relaxed/simple", "simple/simple/simple", "relaxed /relaxed", "nofws"}, base)});
	if (r.chance(focus == 6 ? 90 : 40)) { S dd = oracle::lower(d); t.push_back({"i", rare({"@" + dd, "joe@" + dd, "joe@sub." + dd, "=4A@" + d, "a=40b@c." + dd, "@SUB." + d, "joe@" + dd + "." + dd, "j=3Bk@" + dd}, {"", "joe", "joe@", "joe@x" + dd, "joe@other", "joe@" + dd + ".x", "joe@" + (dd.size() ? dd.substr(1) : "x"), "=4@" + dd, "j@.x" + dd, "a@" + dd + "@other.org", "a@other.org@" + dd, "joe@sub=2E" + dd, "joe@." + dd, "joe@-" + dd, "joe=00@" + dd, "x@\r\n " + dd, "1", "3", "50", "0", "51"}, focus == 6 ? 45 : 25)}); }
	if (r.chance(focus == 7 ? 80 : 25)) t.push_back({"l", rare({"0", "1", "100", "9223372036854775807", "00012", S(76, '0'), S(74, '0') + "12"}, {"", "-1", "+1", "0x10", "1a", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", S(77, '0'), S(76, '9'), "1 2", "99999999999999999999999", "12.", "27670116110564327424", "36893488147419103233"}, focus == 7 ? 50 : 15)});
	if (r.chance(20)) t.push_back({"q", rare({"dns/txt"}, {"", "dns", "DNS/TXT", "dns/txt:x", "http"}, 30)});
	if (r.chance(20)) t.push_back({"t", P({"", "1", "x"})});
	if (r.chance(focus == 7 ? 60 : 20)) { S x = P({"0", "999", "1000", "1001", "", "abc", "-5", "4000000000", "99999999999999999999", "01001", "00999"}); t.push_back({"x", x}); }
	if (r.chance(10)) t.push_back({P({"z", "B", "BH", "bb", "A", "D", "V"}), P({"", "x", "relaxed", "QUJD"})});
	if (r.chance(focus ? 15 : 25) && !t.empty()) { auto& e = r.pick(t); auto& w = const_cast<S&>(e.second); size_t q = w.find_first_of(":/"); if (q != S::npos && r.chance(60)) { S a = w.substr(0, q + 1), b = w.substr(q + 1); w = r.chance(50) ? near(r, a.substr(0, q)) + w.substr(q) : a + near(r, b); } else w = near(r, w); }
	if (r.chance(focus ? 6 : 20) && !t.empty()) t.erase(t.begin() + r.below(t.size()));
	if (r.chance(4)) t.push_back(t[r.below(t.size())]);
	for (size_t k = t.size(); k > 1; k--) std::swap(t[k - 1], t[r.below(k)]);
	S s; int fold = r.below(3);
	for (auto& x : t) { s += (fold == 0 ? "" : fold == 1 ? " " : P({" ", "\r\n\t", "", "  "})) + x.first + (fold == 2 && r.chance(20) ? " = " : "=") + x.second + (fold == 2 && r.chance(20) ? " ;" : ";"); }
	if (r.chance(50)) s.erase(s.size() - 1);
	if (r.chance(3)) s = mutate(r, s, {";", "=", " ", "a", "\x80"}, 2);
	return s;
}
static S nm(Rng& r) { return r.pick(std::vector<S>{"DKIM-Signature", "DKIM-Signature", "dkim-signature", "ARC-Message-Signature", "arc-MESSAGE-signature", "X"}); }
// ---- key records
struct KeyO { bool ok, unk; std::list<int> h; int sa; S ed; bool email; std::list<S> fl; int rsa; };
static KeyO keyo(const S& rec) {
	KeyO o; o.ok = false; o.unk = false; o.sa = 0; o.rsa = 0; o.email = false; std::map<S, oracle::Tag> t; bool bad;
	if (!oracle::taglist(rec, t)) return o;
	if (t.count("v") && t["v"].v != "DKIM1") return o;
	if (t.count("h")) { auto l = oracle::valuelist(t["h"].v, bad); if (bad) return o; for (auto& x : l) { if (x == "sha1") o.h.push_back(0); if (x == "sha256") o.h.push_back(1); } if (o.h.empty()) return o; }
	if (t.count("k")) { if (t["k"].v == "ed25519") o.sa = 1; else if (t["k"].v != "rsa") return o; }
	if (!t.count("p") || t["p"].v.empty()) return o;
	S p = oracle::nospace(t["p"].v), raw; bool canon = oracle::b64dec(p, raw);
	if (!canon) o.unk = true;
	else if (o.sa == 1) { if (raw.size() != 32) return o; o.ed = raw; }
	else { if (p == K_R1PUB) o.rsa = 1; else if (p == K_R2PUB) o.rsa = 2; else {
		const unsigned char* q = (const unsigned char*)raw.data(); EVP_PKEY* k = d2i_PUBKEY(0, &q, raw.size()); bool isrsa = k && (EVP_PKEY_base_id(k) == EVP_PKEY_RSA || EVP_PKEY_base_id(k) == EVP_PKEY_RSA2); if (k) EVP_PKEY_free(k); if (!isrsa) return o; o.rsa = 3; } }
	if (t.count("s")) { auto l = oracle::valuelist(t["s"].v, bad); if (bad) return o; bool all = false, em = false; for (auto& x : l) { if (x == "*") { all = true; break; } if (x == "email") em = true; } if (!all && !em) return o; o.email = !all; }
	if (t.count("t")) { o.fl = oracle::valuelist(t["t"].v, bad); if (bad) return o; }
	o.ok = true; return o;
}
static S rec_case(Rng& r) {
	auto rare = [&](std::vector<S> good, std::vector<S> bad, int pct) { return r.chance(pct) ? r.pick(bad) : r.pick(good); };
	std::vector<std::pair<S, S>> t; bool ed = r.chance(40);
	if (r.chance(60)) t.push_back({"v", rare({"DKIM1"}, {"", "dkim1", "DKIM2", "DKIM1.0", "1"}, 12)});
	if (r.chance(40)) t.push_back({"h", rare({"sha256", "sha1", "sha1:sha256", "sha256 : sha1", "sha512:sha256", "sha256:sha256"}, {"", "sha512", "SHA256", "sha256::sha1", ":", "sha", "sha256,sha1"}, 20)});
	if (ed || r.chance(40)) t.push_back({"k", ed ? "ed25519" : rare({"rsa"}, {"", "RSA", "dsa", "ed25519", "rsa2"}, 15)});
	S pk; 
	if (ed) { size_t n = r.chance(70) ? 32 : r.chance(50) ? 31 + 2 * r.below(2) : r.below(70); pk = oracle::b64enc(rbytes(r, n)); if (r.chance(5)) pk = K_EDSPKI; }
	else pk = rare({K_R1PUB, K_R2PUB}, {K_ECPUB, K_PSSPUB, K_EDSPKI, "", "QUJD", K_R1PUB.substr(0, 100), K_R1DER}, 15);
	if (r.chance(30)) for (int k = 0; k < 3; k++) pk.insert(r.below(pk.size() + 1), r.pick(std::vector<S>{" ", "\r\n\t", "\t"}));
	if (r.chance(4) && !pk.empty()) pk.erase(r.below(pk.size()), 1);
	if (!r.chance(4)) t.push_back({"p", r.chance(4) ? S() : pk});
	if (r.chance(30)) t.push_back({"s", rare({"email", "*", "email:*", "tlsrpt:email", "*:x", "email:other"}, {"", "tlsrpt", "Email", "**", ":"}, 20)});
	if (r.chance(30)) t.push_back({"t", rare({"y", "s", "y:s", "s : y", "x:y"}, {"", ":", "y::s"}, 15)});
	if (r.chance(10)) t.push_back({r.pick(std::vector<S>{"n", "g", "H", "P"}), r.pick(std::vector<S>{"", "x", "sha1"})});
	if (r.chance(25) && !t.empty()) { auto& e = t[r.below(t.size())]; if (e.first != "p" || r.chance(10)) { size_t q = e.second.find(':'); if (q != S::npos && r.chance(60)) { S a = e.second.substr(0, q), b = e.second.substr(q + 1); e.second = r.chance(50) ? near(r, a) + ":" + b : a + ":" + near(r, b); } else e.second = near(r, e.second); } }
	if (r.chance(3)) t.push_back(t.empty() ? std::make_pair(S("p"), S("x")) : t[r.below(t.size())]);
	for (size_t k = t.size(); k > 1; k--) if (r.chance(30)) std::swap(t[k - 1], t[r.below(k)]);
	S s; for (auto& x : t) s += x.first + "=" + x.second + (r.chance(60) ? "; " : ";");
	if (r.chance(50) && !s.empty()) s.erase(s.size() - 1);
	return s;
}
