// Bounded stand-in and replayer for C25: the same operations, each thread on objects of its own, against the results each gives alone.
// Built with the thread sanitizer: an unsynchronised access to memory shared between the operations ends the process.
#include "../hunt.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <dlfcn.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/bio.h>
#include <sys/wait.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include <openssl/sha.h>
#include <sodium.h>
#include <Tokenizer.hpp>
#include <Util.hpp>
#include <SignatoryOptions.hpp>
#include <Signatory.hpp>
#include <Validatory.hpp>
#include <Signature.hpp>
#include <PublicKey.hpp>
#include <MailParser.hpp>
#include <TagList.hpp>
#include <Base64.hpp>
#include <QuotedPrintable.hpp>
#include <EncodedWord.hpp>
#include <Canonicalization.hpp>
#include <Resolver.hpp>
using namespace DKIM;
S esc(const S& s) { S r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r; }
S num(long long x) { char b[32]; snprintf(b, 32, "%lld", x); return b; }
S rnd(Rng& r, const std::vector<S>& a, size_t m) { S s; size_t n = r.below(m + 1); for (size_t i = 0; i < n; i++) s += r.pick(a); return s; }
S rbytes(Rng& r, size_t n) { S s; for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }

// the answer of the name server depends on the question only; what is not reentrant shows as a race on `legacy`
static int legacy;
static int answer(const char* q, unsigned char* a, int n) {
	S t = S("v=DKIM1; k=ed25519; p=") + Conversion::Base64_Encode(S(q).substr(0, 32));
	S name("\1a\0", 3), rr = name + S("\0\x10\0\1\0\0\0\0", 8) + S(1, 0) + S(1, (char)(t.size() + 1)) + S(1, (char)t.size()) + t;
	S m = S("\0\1\x81\x80\0\1\0\1\0\0\0\0", 12) + name + S("\0\x10\0\1", 4) + rr;
	memcpy(a, m.data(), std::min<size_t>(n, m.size())); return m.size();
}
#undef res_nquery
#undef res_query
#undef res_search
#undef res_init
extern "C" {
int __res_nquery(res_state, const char* d, int, int, unsigned char* a, int n) { return answer(d, a, n); }
int res_nquery(res_state, const char* d, int, int, unsigned char* a, int n) { return answer(d, a, n); }
int res_query(const char* d, int, int, unsigned char* a, int n) { ++legacy; return answer(d, a, n); }
int res_search(const char* d, int, int, unsigned char* a, int n) { ++legacy; return answer(d, a, n); }
char* strtok(char* s, const char* d) noexcept { static char* p; ++legacy; return strtok_r(s, d, &p); }
struct tm* localtime(const time_t* t) noexcept { static struct tm r; ++legacy; return localtime_r(t, &r); }
struct tm* gmtime(const time_t* t) noexcept { static struct tm r; ++legacy; return gmtime_r(t, &r); }
char* ctime(const time_t* t) noexcept { static char b[64]; ++legacy; return ctime_r(t, b); }
int rand() noexcept { ++legacy; return 4; }
void srand(unsigned) noexcept { ++legacy; }
time_t time(time_t* t) noexcept { if (t) *t = 1700000000; return 1700000000; }
}
// what the uninstrumented libraries read and write of their arguments
extern "C" { void __tsan_write8(void*); void __tsan_read8(void*); void __tsan_write_range(void*, size_t); void __tsan_read_range(void*, size_t); }
#define NEXT(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" {
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e) { static auto f = NEXT(EVP_DigestInit_ex); __tsan_write8(c); return f(c, m, e); }
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { static auto f = NEXT(EVP_DigestUpdate); __tsan_write8(c); if (n) __tsan_read_range((void*)d, n); return f(c, d, n); }
int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* d, unsigned* n) { static auto f = NEXT(EVP_DigestFinal_ex); unsigned l = 0; __tsan_write8(c); int r = f(c, d, &l); __tsan_write_range(d, l); if (n) *n = l; return r; }
int BIO_read(BIO* b, void* d, int n) { static auto f = NEXT(BIO_read); __tsan_write8(b); int r = f(b, d, n); if (r > 0) __tsan_write_range(d, r); return r; }
int BIO_write(BIO* b, const void* d, int n) { static auto f = NEXT(BIO_write); __tsan_write8(b); if (n > 0) __tsan_read_range((void*)d, n); return f(b, d, n); }
int RSA_sign(int t, const unsigned char* m, unsigned l, unsigned char* s, unsigned* n, RSA* k) { static auto f = NEXT(RSA_sign); int r = f(t, m, l, s, n, k); if (r == 1) { __tsan_write8(s); __tsan_read_range((void*)m, l); } return r; }
int crypto_sign_detached(unsigned char* s, unsigned long long* n, const unsigned char* m, unsigned long long l, const unsigned char* k) { static auto f = NEXT(crypto_sign_detached); __tsan_read_range((void*)m, l); __tsan_read_range((void*)k, 64); int r = f(s, n, m, l, k); __tsan_write_range(s, 64); return r; }
int crypto_sign_verify_detached(const unsigned char* s, const unsigned char* m, unsigned long long l, const unsigned char* k) { static auto f = NEXT(crypto_sign_verify_detached); __tsan_read_range((void*)m, l); __tsan_read_range((void*)s, 64); __tsan_read_range((void*)k, 32); return f(s, m, l, k); }
int crypto_sign_seed_keypair(unsigned char* p, unsigned char* s, const unsigned char* d) { static auto f = NEXT(crypto_sign_seed_keypair); int r = f(p, s, d); __tsan_write_range(p, 32); __tsan_write_range(s, 64); return r; }
}
typedef std::function<void(S&)> Op;
static S fin(Op f) { S r; Res x = guard([&] { f(r); }); return r + "|" + x.str(); }
static S list(const std::list<S>& l) { S r; for (auto& x : l) r += x + ","; return r; }
static S key_of(const S& seed) { unsigned char pk[32], sk[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); return "v=DKIM1; k=ed25519; p=" + Conversion::Base64_Encode(S((char*)pk, 32)); }
static bool dns(const S&, S& r, void* d) { r = *(S*)d; return true; }
static S sigtext(Signature& s) { return num(s.GetDigestAlgorithm()) + s.GetDomain() + "/" + s.GetSelector() + "/" + s.GetMailLocalPart() + "@" + s.GetMailDomain() + list(s.GetSignedHeaders()) + num(s.GetBodySize()) + num(s.GetCanonModeBody()) + num(s.GetCanonModeHeader()) + s.GetBodyHash() + s.GetSignatureData(); }
static std::shared_ptr<Header> field(const S& f) { std::shared_ptr<Header> h(new Header); size_t p = 0; while (true) { size_t e = f.find("\r\n", p); h->ParseLine(f.substr(p, e == S::npos ? S::npos : e - p)); if (e == S::npos) break; p = e + 2; } return h; }
// one operation on objects of its own; the result is a function of its number and seed
static const int NOPS = 16;
static S op(int k, uint64_t seed) {
	Rng r(seed * 31 + k);
	static const std::vector<S> T = {"a", "B", " ", "=", ";", ":", "\r\n ", "_", "?", "=41", "=?u?q?x?=", "<", ">", ",", "\"", "(", ")", "@", "b.c", "1"};
	S in = rnd(r, T, 24), u = num(seed);
	switch (k) {
	case 0: return fin([&](S& o) { o = Conversion::QuotedPrintable::Encode(in + rbytes(r, 20)); });
	case 1: return fin([&](S& o) { o = Conversion::QuotedPrintable::Decode("a=3D" + in, r.chance(50)); });
	case 2: return fin([&](S& o) { S b = rbytes(r, r.below(400)); o = Conversion::Base64_Encode(b); o += Conversion::Base64_Decode(o); });
	case 3: return fin([&](S& o) { o = list(Tokenizer::ValueList("a:" + in)); });
	case 4: return fin([&](S& o) { o = list(Tokenizer::ParseAddressList(u + "@b.c, \"x@" + u + "\", <" + in + ">")); });
	case 5: return fin([&](S& o) { o = Conversion::EncodedWord::Decode(u + "=?u?q?" + u + "?= =?u?b?YWJj?=" + in); });
	case 6: return fin([&](S& o) { TagList t; t.Parse("a=" + u + "; b = x" + u + (r.chance(30) ? "; c=" + in : "")); TagListEntry e; for (auto n : {"a", "b", "c"}) if (t.GetTag(n, e)) o += e.GetValue() + num(e.GetValueOffset()) + ";"; });
	case 7: return fin([&](S& o) { Signature s; s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=d" + u + ".org; i=u" + u + "=40@d" + u + ".org; s=s" + u + "; h=from:x" + u + "; l=" + u + "; bh=YQ==; b=" + Conversion::Base64_Encode(u) + (r.chance(20) ? "; z=" + in : ""))); o = sigtext(s); s.Reset(); });
	case 8: return fin([&](S& o) { PublicKey p; S seed(32, (char)r.below(256)); p.Parse(key_of(seed) + "; t=s:" + u + "; h=sha1:sha256; s=email" + (r.chance(20) ? "; z=" + in : "")); o = p.GetED25519PublicKey() + list(p.GetFlags()) + num(p.GetDigestAlgorithms().size()); p.Reset(); });
	case 9: return fin([&](S& o) { Conversion::CanonicalizationHeader c(r.chance(50) ? DKIM_C_RELAXED : DKIM_C_SIMPLE); o = c.FilterHeader("X" + u + " : " + in); });
	case 10: return fin([&](S& o) { std::stringstream s(u + " \t" + in + "\r\n\r\nx" + u); o = num(Conversion::CanonicalizationBody(s, r.chance(50) ? DKIM_C_RELAXED : DKIM_C_SIMPLE, 0, r.chance(50), 5, [&](const char* p, size_t n) { o.append(p, n); })) + o; });
	case 11: return fin([&](S& o) { o = num(Util::ValidateDomain("a" + u + ".b-" + u)) + num(Util::ValidateDomain(in)) + Util::StringFormat("%s %lu", u.c_str(), (unsigned long)seed) + Util::Algorithm2String(DKIM_SA_RSA, DKIM_A_SHA256); });
	case 12: return fin([&](S& o) { std::stringstream f("A" + u + ": 1\r\n b" + u + "\r\nFrom: x\r\n\r\n" + u); Message m; while (m.ParseLine(f) && !m.IsDone()) {} for (auto& h : m.GetHeaders()) o += h->GetName() + "=" + h->GetHeader() + ";"; o += num(m.GetBodyOffset()); });
	case 13: case 14: return fin([&](S& o) {
		S seed(32, (char)r.below(256)), m = "From: u" + u + "@b.c\r\nSubject: " + u + "\r\nX: " + u + "\r\n\r\nbody " + u + "\r\n";
		SignatoryOptions so; so.SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(seed).SetDomain("d" + u + ".org").SetSelector("s" + u).SetIdentity("u" + u + "@d" + u + ".org").SetCanonModeHeader(r.chance(50) ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(r.chance(50) ? DKIM_C_RELAXED : DKIM_C_SIMPLE);
		if (r.chance(50)) so.SetTimestamp(seed[0]).SetExpiration(1800000000);
		std::stringstream f(m); Signatory s(f); o = s.CreateSignature(so);
		std::stringstream g(o + "\r\n" + m); Validatory v(g); S key = key_of(seed); v.CustomDNSResolver = dns; v.CustomDNSData = &key;
		for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { Signature sg; v.GetSignature(i, sg); PublicKey p; v.GetPublicKey(sg, p); v.CheckSignature(i, sg, p); o += sigtext(sg); } });
	default: return fin([&](S& o) { S t; o = num(Util::Resolver().GetTXT("q" + u + ".example.org.0123456789012345678901234567890", t)); o += t; });
	}
}
static S run(uint64_t seed) {
	const int T = 4, N = 40; std::vector<std::pair<int, uint64_t>> w[T]; std::vector<S> want[T]; S bad[T];
	Rng r(seed);
	for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) { w[t].push_back({i < NOPS ? (i + (t & 1) * 0) % NOPS : (int)r.below(NOPS), r.below(100000) * T + t}); want[t].push_back(op(w[t].back().first, w[t].back().second)); }
	std::atomic<int> ready(0); std::vector<std::thread> th;
	for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {} for (int i = 0; i < N && bad[t].empty(); i++) { S g = op(w[t][i].first, w[t][i].second); if (g != want[t][i]) bad[t] = "operation " + num(w[t][i].first) + " of case " + num(w[t][i].second) + " gives \"" + esc(g) + "\" beside other threads, \"" + esc(want[t][i]) + "\" alone"; } });
	for (auto& x : th) x.join();
	for (auto& b : bad) if (!b.empty()) return b;
	return "";
}
int main(int argc, char** argv) {
	S out = "replay.txt", replay; uint64_t seed = 1; double secs = 5;
	for (int i = 1; i + 1 < argc; i += 2) { S a = argv[i], v = argv[i + 1]; if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--seconds") secs = atof(v.c_str()); else if (a == "--out") out = v; else if (a == "--replay") replay = v; }
	if (!replay.empty()) {
		FILE* f = fopen(replay.c_str(), "r"); char l[4096]; unsigned long long s = 0; if (!f) return 2;
		while (fgets(l, sizeof l, f)) sscanf(l, "round %llu", &s);
		S m = run(s); if (m.empty()) { printf("the property holds on this round\n"); return 0; } printf("VIOLATED: %s\n", m.c_str()); return 1;
	}
	(void)!sodium_init();
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); uint64_t n = 0; double el = 0; S why; uint64_t s = 0;
	do {
		s = seed * 1000003 + n; n++; fflush(stdout);
		int pp[2]; if (pipe(pp)) return 2;
		pid_t p = fork();
		if (p == 0) { close(pp[0]); freopen((out + ".err").c_str(), "w", stderr); S m = run(s); (void)!write(pp[1], m.data(), std::min<size_t>(m.size(), 4000)); _exit(m.empty() ? 0 : 3); }
		close(pp[1]); char buf[4096]; ssize_t k; S m; while ((k = read(pp[0], buf, sizeof buf)) > 0) m.append(buf, k); close(pp[0]);
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) why = m;
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 66) why = "data race between operations on distinct objects";
		else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) why = "the process was ended by signal " + num(WTERMSIG(st));
		else if (!WIFEXITED(st) || WEXITSTATUS(st)) return 2;      // no answer
		clock_gettime(CLOCK_MONOTONIC, &b); el = b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9;
	} while (why.empty() && el < secs);
	printf("STATS evaluations=%llu distinct=%llu rounds=%llu\n", (unsigned long long)n * 160, (unsigned long long)n * 160, (unsigned long long)n);
	if (!why.empty()) {
		FILE* f = fopen(out.c_str(), "w"); fprintf(f, "property C25\nround %llu\n# observed: %s\n", (unsigned long long)s, why.c_str());
		FILE* e = fopen((out + ".err").c_str(), "r"); if (e) { char l[1024]; int c = 0; while (c++ < 60 && fgets(l, sizeof l, e)) fprintf(f, "# stderr: %s", l); fclose(e); }
		fclose(f); printf("FAIL test=threads %s\n", why.c_str());
	}
	unlink((out + ".err").c_str());
	return why.empty() ? 0 : 1;
}
