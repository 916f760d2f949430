H = r'''#include <iostream>
#include <sstream>
#include <string>
#include <list>
#include <cstring>
#include <cerrno>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <sodium.h>
#include <src/Tokenizer.hpp>
#include <src/Util.hpp>
#include <src/Exception.hpp>
#include <src/SignatoryOptions.hpp>
#include <src/Signatory.hpp>
#include <src/Validatory.hpp>
#include <src/Signature.hpp>
#include <src/PublicKey.hpp>
#include <src/MailParser.hpp>
#include <src/TagList.hpp>
#include <src/Base64.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/EncodedWord.hpp>
#include <src/Canonicalization.hpp>
using namespace DKIM; typedef std::string S;
static S pem, rec, seed(32, 'k'), edrec;
static void keys() {
 EVP_PKEY* k = EVP_RSA_gen(1024); BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, 0, 0, 0, 0, 0); char* p; long n = BIO_get_mem_data(b, &p); pem = S(p, n);
 unsigned char* o = 0; int l = i2d_PUBKEY(k, &o); rec = "v=DKIM1; p=" + Conversion::Base64_Encode(S((char*)o, l));
 unsigned char pk[32], sk[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); edrec = "v=DKIM1; k=ed25519; p=" + Conversion::Base64_Encode(S((char*)pk, 32)); }
static S key_text;
static bool dns(const S& q, S& r, void*) { r = key_text; return true; }
// number of signatures that verify; -1 on any failure
static int verify(const S& msg, const S& key, Validatory::ValidatorType t = Validatory::DKIM) {
 key_text = key; std::stringstream f(msg); Validatory v(f, t); v.CustomDNSResolver = dns; int n = 0;
 for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { try { Signature s; v.GetSignature(i, s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(i, s, p); ++n; } catch (std::exception& e) { std::cerr << e.what() << "\n"; return -1; } }
 return n; }
static S sign(const S& msg, SignatoryOptions& o) { std::stringstream f(msg); Signatory s(f); return s.CreateSignature(o); }
static std::shared_ptr<Header> field(const S& f) { std::shared_ptr<Header> h(new Header); h->ParseLine(f); return h; }
static S body(const S& in, CanonMode m, bool lim = false, size_t n = 0, bool* ok = 0) { std::stringstream s(in); S out; bool r = Conversion::CanonicalizationBody(s, m, 0, lim, n, [&](const char* p, size_t l) { out.append(p, l); }); if (ok) *ok = r; return out; }
static S b64sha(const S& d) { unsigned char h[32]; SHA256((const unsigned char*)d.data(), d.size(), h); return Conversion::Base64_Encode(S((char*)h, 32)); }
'''


TSAN_SH = """#!/bin/bash
# compiles the library sources and demo.cpp with the thread sanitizer; exit 0: property held
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
ls src/*.cpp "$here/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=c++14 -O1 -g1 -w -fsanitize=thread -DHAS_RES_NINIT -I. -Isrc -c {} -o '"$t"'/$(basename {}).o'
g++ -fsanitize=thread "$t"/*.o -lssl -lcrypto -lsodium -lresolv -lpthread -o "$t/demo"
cd "$t"
timeout 120 ./demo
"""
TH = H.replace('#include <iostream>', '#include <iostream>\n#include <thread>\n#include <atomic>\n#include <functional>\n#include <vector>') + r"""
// runs f(i) for i = 0, 1, 2 in three threads that start together; true if every one returns true
static bool threads(std::function<bool(int)> f) { std::atomic<int> r(0), ok(0); std::vector<std::thread> t; for (int i = 0; i < 3; ++i) t.emplace_back([&, i] { r.fetch_add(1, std::memory_order_relaxed); while (r.load(std::memory_order_relaxed) < 3) {} ok.fetch_add(f(i), std::memory_order_relaxed); }); for (auto& x : t) x.join(); return ok == 3; }
"""
SEEDS = [
dict(ID='c25-static-digest', PROP='C25', SH=TSAN_SH, EDITS=[('src/Validatory.cpp', '	unsigned char md_value[EVP_MAX_MD_SIZE];', '	static unsigned char md_value[EVP_MAX_MD_SIZE];')],
  NEEDS='two threads that check body hashes at the same time', BREAKS='the digest buffer is shared by all threads',
  DEMO=TH + r"""#include <dlfcn.h>
extern "C" int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* d, unsigned* n) { static auto f = (int (*)(EVP_MD_CTX*, unsigned char*, unsigned*))dlsym(RTLD_NEXT, "EVP_DigestFinal_ex"); unsigned char b[64]; unsigned l; int r = f(c, b, &l); for (unsigned i = 0; i < l; ++i) d[i] = b[i]; *n = l; return r; }
int main() { return threads([](int i) { S b = "hi " + std::to_string(i) + "\r\n"; for (int k = 0; k < 50; ++k) { std::stringstream f("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=s; h=from; bh=" + b64sha(b) + "; b=YQ==\r\nFrom: a\r\n\r\n" + b); Validatory v(f); Signature s; try { v.GetSignature(v.GetSignatures().begin(), s); } catch (PermanentError&) { return false; } } return true; }) ? 0 : 1; }"""),
dict(ID='c25-static-result', PROP='C25', SH=TSAN_SH, EDITS=[('src/QuotedPrintable.cpp', '	std::string result;\n	result.reserve(len);', '	static std::string result;\n	result.clear();\n	result.reserve(len);')],
  NEEDS='two threads that encode at the same time', BREAKS='the result is built in a string shared by all threads',
  DEMO=TH + r"""int main() { return threads([](int i) { for (int k = 0; k < 200; ++k) if (Conversion::QuotedPrintable::Encode(S(20, 'a' + i)) != S(20, 'a' + i)) return false; return true; }) ? 0 : 1; }"""),
dict(ID='c25-cached-query', PROP='C25', SH=TSAN_SH, EDITS=[('src/Validatory.cpp', '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', '		static std::string query;\n		query = sig.GetSelector() + "._domainkey." + sig.GetDomain();')],
  NEEDS='two threads that look up keys at the same time', BREAKS='the query name is built in a string shared by all threads, so a key of another domain may be fetched',
  DEMO=TH + r"""static bool echo(const S& q, S& r, void* d) { *(S*)d = q; r = "v=DKIM1; k=ed25519; p=" + Conversion::Base64_Encode(S(32, 'a')); return true; }
int main() { return threads([](int i) { S dom = "d" + std::to_string(i) + ".org"; for (int k = 0; k < 50; ++k) { std::stringstream f("From: a\r\n\r\nx"); Validatory v(f); Signature s; s.Parse(field("DKIM-Signature: v=1; a=ed25519-sha256; d=" + dom + "; s=s; h=from; bh=YQ==; b=YQ==")); S asked; v.CustomDNSResolver = echo; v.CustomDNSData = &asked; PublicKey p; v.GetPublicKey(s, p); if (asked != "s._domainkey." + dom) return false; } return true; }) ? 0 : 1; }"""),
dict(ID='c25-format-buffer', PROP='C25', SH=TSAN_SH, EDITS=[('src/Util.cpp', '	char* mem = nullptr;\n	if (vasprintf(&mem, fmt, args) == -1)\n		throw std::bad_alloc();\n	std::string result = mem;\n	free(mem);\n', '	static std::string mem;\n	va_list again;\n	va_copy(again, args);\n	mem.resize(vsnprintf(nullptr, 0, fmt, again) + 1);\n	va_end(again);\n	vsnprintf(&mem[0], mem.size(), fmt, args);\n	std::string result = mem.c_str();\n')],
  NEEDS='two threads that sign or raise errors at the same time', BREAKS='formatted text is built in a buffer shared by all threads',
  DEMO=TH + r"""int main() { return threads([](int i) { for (int k = 0; k < 200; ++k) if (Util::StringFormat("%s", S(20, 'a' + i).c_str()) != S(20, 'a' + i)) return false; return true; }) ? 0 : 1; }"""),
dict(ID='c25-global-names', PROP='C25', SH=TSAN_SH, EDITS=[('src/Signatory.cpp', '	std::list<std::string> signedHeaders;\n', '	signedHeaders.clear();\n'), ('src/Signatory.cpp', '#include <set>\n', '#include <set>\n\nstatic std::list<std::string> signedHeaders;\n')],
  NEEDS='two threads that sign at the same time', BREAKS='the list of signed names is shared by all threads',
  DEMO=TH + r"""int main() { return threads([](int i) { for (int k = 0; k < 20; ++k) { S m = "From: a@b.c\r\nX" + std::to_string(i) + ": 1\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(seed).SetDomain("b.c").SetSelector("s").SetHeaders({"from", "x" + std::to_string(i)}); if (sign(m, o).find("h=x" + std::to_string(i) + ":from;") == S::npos) return false; } return true; }) ? 0 : 1; }"""),
]
