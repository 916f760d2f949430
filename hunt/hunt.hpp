// Counterexample hunter and replayer: runs the real code of /repo against executable readings of the properties.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <Exception.hpp>

typedef std::string S;
typedef std::vector<S> Input;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull; }
	uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
	bool chance(int pct) { return (int)below(100) < pct; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Test {
	S prop, name;
	std::function<Input(Rng&, uint64_t)> gen;      // i-th case
	std::function<S(const Input&)> run;            // "" when the property holds, else what is wrong
	int weight;
};
std::vector<Test>& tests();
struct Reg { Reg(const char* p, const char* n, std::function<Input(Rng&, uint64_t)> g, std::function<S(const Input&)> r, int w = 1) { tests().push_back(Test{p, n, g, r, w}); } };

// ---- results of library calls, with every exception classified
struct Res {
	enum K { OK, PERM, TEMP, OTHER } k = OK;
	S ar;                          // authentication result class
	S what;
	bool ok() const { return k == OK; }
	S str() const { return k == OK ? "returned" : k == PERM ? "PermanentError(" + what + ")" : k == TEMP ? "TemporaryError(" + what + ")" : "OTHER EXCEPTION " + what; }
};
template<class F> Res guard(F f) {
	Res r;
	try { f(); }
	catch (DKIM::PermanentError& e) { r.k = Res::PERM; r.what = e.what(); r.ar = e.getAuthenticationResult(); }
	catch (DKIM::TemporaryError& e) { r.k = Res::TEMP; r.what = e.what(); r.ar = e.getAuthenticationResult(); }
	catch (const std::exception& e) { r.k = Res::OTHER; r.what = e.what(); }
	catch (...) { r.k = Res::OTHER; r.what = "unknown"; }
	return r;
}
S esc(const S& s);
S num(long long x);
inline S escl(const std::list<S>& l) { S r = "["; for (auto& x : l) r += "\"" + esc(x) + "\" "; return r + "]"; }

// ---- generators
/// the i-th string over the alphabet in order of length
S nth(const std::vector<S>& alpha, uint64_t i);
S rnd(Rng& r, const std::vector<S>& alpha, size_t maxlen);
S rbytes(Rng& r, size_t n);
inline std::vector<S> chars(const S& s) { std::vector<S> v; for (char c : s) v.push_back(S(1, c)); return v; }
/// number of strings over an alphabet of size a with length at most n
inline uint64_t upto(uint64_t a, int n) { uint64_t t = 0, p = 1; for (int i = 0; i <= n; i++) { t += p; p *= a; } return t; }
S mutate(Rng& r, S s, const std::vector<S>& alpha, int n);

/// a string close to a known word: another case, a prefix, an extension, white space, a neighbouring character
inline S near(Rng& r, S s) {
	static const std::vector<S> X = {"x", "1", "-", "/", ":", " ", "0", "a", "*", "_", ".", "s", "=", S(1, 0), "\x80", "\r\n "};
	size_t p = r.below(s.size() + 1);
	switch (r.below(9)) {
	case 0: if (p < s.size() && isalpha((unsigned char)s[p])) s[p] ^= 32; return s;
	case 1: for (char& c : s) c = toupper((unsigned char)c); return s;
	case 2: return s + r.pick(X);
	case 3: return r.pick(X) + s;
	case 4: if (p < s.size()) s.erase(p, 1); return s;
	case 5: return s.substr(0, p);
	case 6: return s.substr(p);
	case 7: if (p < s.size()) s[p] += r.chance(50) ? 1 : -1; return s;
	default: return s.insert(p, r.pick(X));
	}
}
