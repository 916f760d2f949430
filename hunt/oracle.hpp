// Executable readings of the properties, written from their text, as plainly as possible.
#pragma once
#include <string>
#include <list>
#include <vector>
#include <map>
#include <set>
#include <cstdint>
namespace oracle {
typedef std::string S;
inline bool wsp(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool is(const S& d, size_t p, char c) { return p < d.size() && d[p] == c; }
inline size_t wspend(const S& d, size_t p) { while (p < d.size() && wsp(d[p])) p++; return p; }
/// end of the folding white space at p (p itself when there is none); bad: CR without LF
inline size_t fws(const S& d, size_t p, bool& bad) {
	bad = false;
	size_t q = wspend(d, p);
	if (!is(d, q, '\r')) return q;
	if (!is(d, q + 1, '\n')) { bad = true; return p; }
	size_t e = wspend(d, q + 2);
	return e > q + 2 ? e : p;
}
inline size_t rws(const S& d, size_t p, int type, bool& bad) {
	bad = false;
	if (type == 2) return fws(d, p, bad);
	if (type == 1) return p < d.size() && wsp(d[p]) ? p + 1 : p;
	if (type == 3) return p < d.size() && (wsp(d[p]) || d[p] == '\r' || d[p] == '\n') ? p + 1 : p;
	if (!is(d, p, '\r')) return p;
	if (!is(d, p + 1, '\n')) { bad = true; return p; }
	return p + 2;
}
/// all folding white space at p
inline size_t skipfws(const S& d, size_t p, bool& bad) { for (;;) { size_t q = fws(d, p, bad); if (bad || q == p) return p; p = q; } }
inline std::list<S> valuelist(const S& d, bool& bad) {
	std::list<S> out; size_t p = 0; bad = false;
	for (;;) {
		p = skipfws(d, p, bad); if (bad) return out;
		if (p >= d.size()) return out;
		size_t start = p, last = p;
		while (p < d.size()) {
			size_t q = fws(d, p, bad); if (bad) return out;
			if (q > p) { p = q; continue; }
			if (d[p] == ':') break;
			last = ++p;
		}
		if (last == start) { bad = true; return out; }
		out.push_back(d.substr(start, last - start));
		if (p >= d.size()) return out;
		p++;
	}
}
inline bool alnum(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
inline bool domain(const S& d) {
	std::vector<S> labels(1);
	for (char c : d) { if (c == '.') labels.push_back(S()); else labels.back() += c; }
	for (auto& l : labels) {
		if (l.empty() || l[0] == '-' || l[l.size() - 1] == '-') return false;
		for (unsigned char c : l) if (!alnum(c) && c != '-') return false;
	}
	return true;
}

inline S lower(S s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool isspace_(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline S nospace(const S& s) { S r; for (unsigned char c : s) if (!isspace_(c)) r += c; return r; }
// ---- C01
inline S body(const S& raw, bool relaxed) {
	std::vector<S> lines(1);
	for (char c : raw) { if (c == '\r') continue; if (c == '\n') lines.push_back(S()); else lines.back() += c; }
	if (lines.back().empty()) lines.pop_back();          // nothing after the last LF
	if (relaxed) for (S& l : lines) {
		S r; bool pend = false;
		for (char c : l) { if (wsp(c)) { pend = true; continue; } if (pend) r += ' '; pend = false; r += c; }
		l = r;
	}
	while (!lines.empty() && lines.back().empty()) lines.pop_back();
	if (lines.empty()) return relaxed ? "" : "\r\n";
	S out; for (S& l : lines) out += l + "\r\n";
	return out;
}
// ---- C02; bad: rejected. dom: the field is inside the property's domain
inline S header(const S& f, bool relaxed, bool& bad, bool& dom) {
	bad = false; dom = true;
	if (!relaxed) return f;
	size_t colon = f.find(':');
	for (size_t i = 0; i < f.size(); i++) if (f[i] == '\r' && !is(f, i + 1, '\n')) bad = true;
	if (colon == S::npos) bad = true;
	if (bad) return "";
	for (size_t i = 0; i < f.size(); i++) if (f[i] == '\r' && !(i + 2 < f.size() && wsp(f[i + 2]))) dom = false;
	S name = lower(f.substr(0, colon)) , val = f.substr(colon + 1);
	bool blank = true; for (unsigned char c : name) if (!wsp(c) && c != '\r' && c != '\n') blank = false;
	if (blank) dom = false;
	auto unfold = [](const S& s) { S r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r' && is(s, i + 1, '\n')) { i++; continue; } r += s[i]; } return r; };
	auto squeeze = [](const S& s) { S r; for (size_t i = 0; i < s.size(); i++) { if (wsp(s[i])) { if (r.empty() || r[r.size() - 1] != ' ') r += ' '; } else r += s[i]; } return r; };
	name = squeeze(unfold(name)); val = squeeze(unfold(val));
	// a folding may join name and value whitespace across nothing but the colon itself
	while (!name.empty() && name[name.size() - 1] == ' ') name.erase(name.size() - 1);
	while (!val.empty() && val[val.size() - 1] == ' ') val.erase(val.size() - 1);
	while (!val.empty() && val[0] == ' ') val.erase(0, 1);
	return name + ":" + val;
}
// ---- C03
struct Field { S text, name; size_t voff; };
struct Msg { std::vector<Field> f; long long body; };
inline S trim(S s) { while (!s.empty() && wsp(s[0])) s.erase(0, 1); while (!s.empty() && wsp(s[s.size() - 1])) s.erase(s.size() - 1); return s; }
inline Msg message(const S& d) {
	Msg m; m.body = -1; std::vector<std::vector<S>> fs; size_t p = 0;
	while (p < d.size()) {
		size_t e = d.find('\n', p); bool lf = e != S::npos; if (!lf) e = d.size();
		S line = d.substr(p, e - p); if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1);
		p = e + 1;
		if (line.empty()) { if (lf) m.body = (long long)p; break; }
		if ((line[0] == ' ' || line[0] == '\t') && !fs.empty()) fs.back().push_back(line); else fs.push_back(std::vector<S>(1, line));
	}
	for (auto& ls : fs) {
		Field f; for (size_t i = 0; i < ls.size(); i++) f.text += (i ? "\r\n" : "") + ls[i];
		size_t c = f.text.find(':');
		f.voff = c == S::npos ? 0 : c + 1; if (c != S::npos) f.name = trim(f.text.substr(0, c));
		m.f.push_back(f);
	}
	return m;
}
// ---- C04
struct Tag { S v; long long off; };
inline bool taglist(const S& d, std::map<S, Tag>& out) {
	out.clear(); size_t p = 0;
	auto ws = [&] { while (p < d.size() && (d[p] == ' ' || d[p] == '\t' || d[p] == '\r' || d[p] == '\n')) p++; };
	for (;;) {
		ws(); if (p >= d.size()) return true;
		S n; while (p < d.size() && (alnum(d[p]) || d[p] == '_')) n += d[p++];
		if (n.empty() || out.count(n)) return false;
		ws(); if (!is(d, p, '=')) return false;
		p++; ws();
		size_t b = p, last = p;
		while (p < d.size() && d[p] != ';') { unsigned char c = d[p]; if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { p++; continue; } if (c < 0x21 || c > 0x7e) return false; last = ++p; }
		out[n] = Tag{d.substr(b, last - b), (long long)b};
		if (p >= d.size()) return true;
		p++;
	}
}
// ---- C15
inline S qpenc(const S& s) { S r; for (unsigned char c : s) { if (c > 0x20 && c < 0x7f && c != ';' && c != '=') r += c; else { r += '='; r += "0123456789ABCDEF"[c >> 4]; r += "0123456789ABCDEF"[c & 15]; } } return r; }
inline int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline S qpdec(const S& d, bool word, bool& bad) {
	S r; size_t p = 0; bad = false;
	while (p < d.size()) {
		unsigned char c = d[p];
		if (word && c == '_') { r += ' '; p++; continue; }
		if (c == '=') { if (p + 2 < d.size() + 0 && hexv(d[p + 1]) >= 0 && hexv(d[p + 2]) >= 0) { r += (char)(hexv(d[p + 1]) * 16 + hexv(d[p + 2])); p += 3; continue; } bad = true; return ""; }
		if (c > 0x20 && c < 0x7f && c != ';') { r += c; p++; continue; }
		size_t q = fws(d, p, bad); if (bad || q == p) { bad = true; return ""; }
		p = q;
	}
	return r;
}
// ---- C16
inline S b64enc(const S& s) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r; size_t i = 0;
	for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; r += A[v >> 18]; r += A[v >> 12 & 63]; r += A[v >> 6 & 63]; r += A[v & 63]; }
	if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; r += A[v >> 18]; r += A[v >> 12 & 63]; r += "=="; }
	if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; r += A[v >> 18]; r += A[v >> 12 & 63]; r += A[v >> 6 & 63]; r += "="; }
	return r;
}
/// strict decoder: ok only for canonical padded base64
inline bool b64dec(const S& s, S& out) {
	out.clear(); if (s.size() % 4) return false;
	auto v = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; };
	for (size_t i = 0; i < s.size(); i += 4) {
		int pad = 0; if (i + 4 == s.size()) { if (s[i + 3] == '=') pad++; if (pad && s[i + 2] == '=') pad++; }
		unsigned x = 0; for (int k = 0; k < 4; k++) { int y = k >= 4 - pad ? 0 : v(s[i + k]); if (y < 0) return false; x = x << 6 | y; }
		out += (char)(x >> 16); if (pad < 2) out += (char)(x >> 8); if (pad < 1) out += (char)x;
	}
	return b64enc(out) == s;
}
// ---- C17; unk: holds base64 data outside the canonical alphabet (decoded bytes not defined by the property)
inline S encword(const S& d, bool& bad, bool& unk) {
	S out, ws; size_t p = 0; bad = unk = false;
	p = skipfws(d, 0, bad); if (bad) return "";
	for (;;) {
		for (;;) { if (p < d.size() && wsp(d[p])) ws += d[p++]; else if (is(d, p, '\r')) { if (!is(d, p + 1, '\n')) { bad = true; return ""; } p += 2; } else break; }
		if (p >= d.size()) return out;
		if (d[p] != '=') { out += ws; ws.clear(); out += d[p++]; continue; }
		size_t q = p + 1; bool ok = true; S part[3];
		for (int k = 0; k < 3 && ok; k++) {
			if (!is(d, q, '?')) { ok = false; break; }
			q++; size_t e = d.find('?', q); if (e == S::npos) { q = d.size(); ok = false; break; }
			part[k] = d.substr(q, e - q); q = e;
		}
		if (ok) { q++; if (is(d, q, '=')) q++; else ok = false; }
		if (ok && q < d.size() && d[q] != ' ' && d[q] != '\t' && d[q] != '\r' && d[q] != '\n') ok = false;
		S dec;
		if (ok) {
			if (part[1] == "q" || part[1] == "Q") { bool b; dec = qpdec(part[2], true, b); ok = !b; }
			else if (part[1] == "b" || part[1] == "B") { if (!b64dec(part[2], dec)) unk = true; }
			else ok = false;
		}
		out += ok ? dec : ws + d.substr(p, q - p);
		ws.clear(); p = q;
	}
}
// ---- C18
struct Bad {};
struct Tok { char k; S t; };      // k: Q quoted, A atom, C comment, O open, X close, S separator, E end
inline std::vector<Tok> addrtokens(const S& d) {
	std::vector<Tok> v; size_t p = 0; S atom; bool have = false;
	auto flush = [&] { if (!atom.empty()) v.push_back(Tok{'A', atom}); atom.clear(); };
	(void)have;
	for (;;) {
		bool bad; size_t q = fws(d, p, bad); if (p < d.size() && bad) throw Bad();
		if (p < d.size() && q > p) { p = q; flush(); continue; }
		if (p >= d.size()) { flush(); v.push_back(Tok{'E', ""}); return v; }
		char c = d[p];
		if (c == '"') {
			flush(); p++; S t;
			for (;;) { if (p >= d.size()) throw Bad(); if (d[p] == '\\') { if (p + 1 >= d.size()) throw Bad(); t += d[p + 1]; p += 2; } else if (d[p] == '"') { p++; break; } else t += d[p++]; }
			v.push_back(Tok{'Q', t});
		} else if (c == '(') {
			flush(); p++; int depth = 1; S t;
			while (depth) {
				if (p >= d.size()) throw Bad();
				if (d[p] == '\\') { if (p + 1 >= d.size()) throw Bad(); t += d[p + 1]; p += 2; continue; }
				if (d[p] == '(') depth++; if (d[p] == ')') depth--;
				if (depth) t += d[p];
				p++;
			}
			v.push_back(Tok{'C', t});
		} else if (c == '<' || c == '>' || c == ',' || c == ';') { flush(); p++; v.push_back(Tok{c == '<' ? 'O' : c == '>' ? 'X' : 'S', ""}); }
		else { atom += c; p++; }
	}
}
inline std::list<S> addresses(const S& d) {
	std::list<S> out; std::vector<Tok> v = addrtokens(d); std::vector<S> cur; bool open = false; char last = 'S';
	for (auto& t : v) {
		if (t.t.find('\0') != S::npos) throw Bad();
		if (t.k == 'Q' || t.k == 'A') cur.push_back(t.t);
		else if (t.k == 'O') { cur.clear(); open = true; }
		else if (t.k != 'C') {
			if (t.k == 'X') open = false;
			if (open) throw Bad();
			if (!cur.empty()) {
				if (t.k == 'S' && last != 'X' && cur.back().find('@') == S::npos) ;
				else if (last == 'Q' && cur.size() == 1) { std::list<S> r = addresses(cur[0]); out.splice(out.end(), r); }
				else { S a; for (auto& x : cur) a += x; out.push_back(a); }
				cur.clear();
			}
		}
		last = t.k;
	}
	return out;
}
}
