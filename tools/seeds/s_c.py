H = r'''#include <iostream>
#include <sstream>
#include <string>
#include <list>
#include <cstring>
#include <cerrno>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <sodium.h>
#include <src/Tokenizer.hpp>
#include <src/Util.hpp>
#include <src/Exception.hpp>
#include <src/SignatoryOptions.hpp>
#include <src/Signatory.hpp>
#include <src/Validatory.hpp>
#include <src/Signature.hpp>
#include <src/PublicKey.hpp>
#include <src/MailParser.hpp>
#include <src/TagList.hpp>
#include <src/Base64.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/EncodedWord.hpp>
#include <src/Canonicalization.hpp>
using namespace DKIM; typedef std::string S;
static S pem, rec, seed(32, 'k'), edrec;
static void keys() {
 EVP_PKEY* k = EVP_RSA_gen(1024); BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, 0, 0, 0, 0, 0); char* p; long n = BIO_get_mem_data(b, &p); pem = S(p, n);
 unsigned char* o = 0; int l = i2d_PUBKEY(k, &o); rec = "v=DKIM1; p=" + Conversion::Base64_Encode(S((char*)o, l));
 unsigned char pk[32], sk[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); edrec = "v=DKIM1; k=ed25519; p=" + Conversion::Base64_Encode(S((char*)pk, 32)); }
static S key_text;
static bool dns(const S& q, S& r, void*) { r = key_text; return true; }
// number of signatures that verify; -1 on any failure
static int verify(const S& msg, const S& key, Validatory::ValidatorType t = Validatory::DKIM) {
 key_text = key; std::stringstream f(msg); Validatory v(f, t); v.CustomDNSResolver = dns; int n = 0;
 for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { try { Signature s; v.GetSignature(i, s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(i, s, p); ++n; } catch (std::exception& e) { std::cerr << e.what() << "\n"; return -1; } }
 return n; }
static S sign(const S& msg, SignatoryOptions& o) { std::stringstream f(msg); Signatory s(f); return s.CreateSignature(o); }
static std::shared_ptr<Header> field(const S& f) { std::shared_ptr<Header> h(new Header); h->ParseLine(f); return h; }
static S body(const S& in, CanonMode m, bool lim = false, size_t n = 0, bool* ok = 0) { std::stringstream s(in); S out; bool r = Conversion::CanonicalizationBody(s, m, 0, lim, n, [&](const char* p, size_t l) { out.append(p, l); }); if (ok) *ok = r; return out; }
static S b64sha(const S& d) { unsigned char h[32]; SHA256((const unsigned char*)d.data(), d.size(), h); return Conversion::Base64_Encode(S((char*)h, 32)); }
'''

DNS = r"""
extern "C" { static S g_answer; static int g_len = 0, g_herr = 0;
int res_nquery(res_state st, const char*, int, int, unsigned char* a, int n) { if (g_len < 0) { st->res_h_errno = g_herr; return -1; } memcpy(a, g_answer.data(), std::min<size_t>(n, g_answer.size())); return g_len; } }
static S be(int n) { return S(1, (char)(n >> 8)) + S(1, (char)n); }
static S name("\1a\0", 3);
static S txt(const S& rd) { return name + be(16) + be(1) + S(4, '\0') + be(rd.size()) + rd; }
static S str(const S& s) { return S(1, (char)s.size()) + s; }
static void answer(int count, const S& rrs) { g_answer = be(1) + be(0x8180) + be(1) + be(count) + be(0) + be(0) + name + be(16) + be(1) + rrs; g_len = g_answer.size(); }
"""
HD = H.replace('#include <iostream>', '#include <iostream>\n#include <algorithm>\n#include <netinet/in.h>\n#include <arpa/nameser.h>\n#include <resolv.h>\n#include <netdb.h>\n#include <src/Resolver.hpp>') + DNS
SEEDS = [
dict(ID='c12-signed-length', PROP='C12', EDITS=[('src/Resolver.cpp', 'size_t txt_len = *ptr;', 'size_t txt_len = *(const signed char*)ptr;')],
  NEEDS='a TXT character-string of 128 bytes or more', BREAKS='character-strings of 128..255 bytes are dropped from the record text',
  DEMO=HD + r"""int main() { S a(200, 'a'), b(60, 'b'), r; answer(1, txt(str(a) + str(b))); return Util::Resolver().GetTXT("a", r) && r == a + b ? 0 : 1; }"""),
dict(ID='c12-first-record', PROP='C12', EDITS=[('src/Resolver.cpp', '				case T_TXT:\n					{\n', '				case T_TXT:\n					if (result.empty())\n					{\n')],
  NEEDS='an answer with two TXT records', BREAKS='the second record is read from the middle of the first one not skipped',
  DEMO=HD + r"""int main() { S r; answer(2, txt(str("x") + str("y")) + txt(str("z"))); return Util::Resolver().GetTXT("a", r) && r == "xyz" ? 0 : 1; }"""),
dict(ID='c12-norecovery', PROP='C12', EDITS=[('src/Resolver.cpp', '		if (err == NO_RECOVERY)\n			return true;\n', '		if (err == TRY_AGAIN)\n			return true;\n')],
  NEEDS='a resolver failure of the temporary kind', BREAKS='a temporary failure is reported as an empty answer and a permanent one as temporary',
  DEMO=HD + r"""int main() { S r; g_len = -1; g_herr = TRY_AGAIN; if (Util::Resolver().GetTXT("a", r)) return 1; g_herr = NO_RECOVERY; return Util::Resolver().GetTXT("a", r) && r.empty() ? 0 : 1; }"""),
dict(ID='c20-txt-overrun', PROP='C20', EDITS=[('src/Resolver.cpp', 'if (txt_len >= rec_len_left)', 'if (txt_len > rec_len_left)')],
  NEEDS='a TXT character-string whose length byte is one more than what remains of the record', BREAKS='reads past the record and then past the answer buffer',
  DEMO=HD + r"""int main() { S r; answer(1, name + be(16) + be(1) + S(4, '\0') + be(4) + S("\4abc")); return Util::Resolver().GetTXT("a", r) && r.empty() ? 0 : 1; }"""),
dict(ID='c20-identity-underflow', PROP='C20', EDITS=[('src/Signature.cpp', 'm_mailDomain.size() > m_domain.size() && ("."', '("."')],
  NEEDS='an i= domain not longer than d= and different from it', BREAKS='std::out_of_range leaves Signature::Parse',
  DEMO=H + r"""int main() { Signature s; try { s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; i=@b; s=x; h=from; bh=YQ==; b=YQ==")); } catch (PermanentError&) { return 0; } catch (...) { return 1; } return 1; }"""),
dict(ID='c20-empty-name', PROP='C20', EDITS=[('src/MailParser.cpp', "		m_name.erase(0, m_name.find_first_not_of(\" \\t\"));", "		m_name.erase(m_name.begin(), m_name.begin() + m_name.find_first_not_of(\" \\t\"));")],
  NEEDS='a header field whose name is all whitespace or empty', BREAKS='erase with an iterator before the beginning of the string',
  DEMO=H + r"""int main() { std::stringstream f(S(20, ' ') + ": x\r\n\r\n"); Message m; while (m.ParseLine(f) && !m.IsDone()) {} return m.GetHeaders().size() == 1 && m.GetHeaders().front()->GetName() == "" ? 0 : 1; }"""),
dict(ID='c14-raw-identity', PROP='C14', EDITS=[('src/Signatory.cpp', 'DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str()', 'options.GetIdentity().c_str()')],
  NEEDS='an identity with a character that quoted-printable escapes', BREAKS='a message signed with such an identity does not verify',
  DEMO=H + r"""int main() { keys(); S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s").SetIdentity("a=b;c@b.c"); return verify(sign(m, o) + "\r\n" + m, rec) == 1 ? 0 : 1; }"""),
dict(ID='c14-fold-colon', PROP='C14', EDITS=[('src/Signatory.cpp', 'dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";', 'dkimHeader += headerlist + (headerlist.size() < 80 && insertColon?":":"") + "\\r\\n";')],
  NEEDS='a header list line that is exactly 80 columns before the fold', BREAKS='the colon at the fold is lost, so two names run together in h=',
  DEMO=H + r"""int main() { keys(); S n(72, 'n'); S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s").SetHeaders({"from", n, "subject"}).SetOversignHeaders({n, "subject"}); S s = sign(m, o); Signature g; g.Parse(field(s.substr(0, s.size())));
 return g.GetSignedHeaders().size() == 3 && verify(s + "\r\n" + m, rec) == 1 ? 0 : 1; }"""),
dict(ID='c07-expire-now', PROP='C07', EDITS=[('src/Signature.cpp', 'nullptr, 10) < time(nullptr))', 'nullptr, 10) <= time(nullptr))')],
  NEEDS='a clock that equals the expiration time', BREAKS='a signature is rejected in the second of its expiration time',
  DEMO='#include <ctime>\nextern "C" time_t time(time_t* t) noexcept { if (t) *t = 1700000000; return 1700000000; }\n' + H + r"""int main() { Signature s; s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=YQ==; b=YQ==; x=1700000000")); Signature t; try { t.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=YQ==; b=YQ==; x=1699999999")); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c13-additional-domain', PROP='C13', EDITS=[('src/Signatory.cpp', '"\\td=" + signature.GetDomain()', '"\\td=" + options.GetDomain()')],
  NEEDS='an additional signature for another domain', BREAKS='every signature names the domain of the first one',
  DEMO=H + r"""int main() { keys(); S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s"); o.AddAdditionalSignature().SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(seed).SetDomain("other.org").SetSelector("t"); S s = sign(m, o); return s.find("d=other.org; s=t;") < s.find("d=b.c; s=s;") && s.find("d=b.c; s=s;") != S::npos ? 0 : 1; }"""),
dict(ID='c13-expire-absolute', PROP='C13', EDITS=[('src/Signatory.cpp', '(timestamp == -1 ? time(nullptr) : timestamp)', 'time(nullptr)')],
  NEEDS='a relative expiration together with an explicit timestamp', BREAKS='x= is relative to the clock instead of t=',
  DEMO=H + r"""int main() { keys(); S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s").SetTimestamp(5000).SetExpiration(100, false); return sign(m, o).find(" t=5000; x=5100;") != S::npos ? 0 : 1; }"""),
dict(ID='c21-stale-flags', PROP='C21', EDITS=[('src/PublicKey.cpp', '	m_flags.clear();\n', '')],
  NEEDS='one PublicKey object reset and reused for a record without t=', BREAKS='flags of an earlier record stay in force',
  DEMO=H + r"""int main() { keys(); PublicKey p; p.Parse(edrec + "; t=s"); p.Reset(); p.Parse(edrec); return p.GetFlags().empty() ? 0 : 1; }"""),
dict(ID='c21-stale-bodysize', PROP='C21', EDITS=[('src/Signature.cpp', '	m_bodySizeLimit = false;\n', '')],
  NEEDS='one Signature object reset and reused for a field without l=', BREAKS='the length limit of an earlier signature stays, with length 0',
  DEMO=H + r"""int main() { Signature s; s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=YQ==; b=YQ==; l=5")); s.Reset(); s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=YQ==; b=YQ==")); return !s.GetBodySizeLimit() ? 0 : 1; }"""),
dict(ID='c21-stream-clear', PROP='C21', EDITS=[('src/Canonicalization.cpp', '		stream.clear();\n		stream.seekg', '		stream.seekg')],
  NEEDS='a second signature checked on the same stream', BREAKS='the body of the second check is empty',
  DEMO=H + r"""int main() { S h = "DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=" + b64sha("hi\r\n") + "; b=YQ==\r\n"; std::stringstream f(h + h + "From: a\r\n\r\nhi\r\n"); Validatory v(f); int n = 0; for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { Signature s; try { v.GetSignature(i, s); ++n; } catch (std::exception&) {} } return n == 2 ? 0 : 1; }"""),
dict(ID='c06-last-at', PROP='C06', EDITS=[('src/Signature.cpp', "size_t mailsep = mail.find('@');", "size_t mailsep = mail.rfind('@');")],
  NEEDS='an identity with two @ signs', BREAKS='i=a@evil.org@example.com is accepted with the domain after the last @',
  DEMO=H + r"""int main() { Signature s; try { s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; i=a@evil.org@example.com; s=x; h=from; bh=YQ==; b=YQ==")); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c09-front', PROP='C09', EDITS=[('src/Validatory.cpp', 'tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\\r\\n";\n		head->second.pop_back();', 'tmp = canonicalhead.FilterHeader(head->second.front()->GetHeader()) + "\\r\\n";\n		head->second.pop_front();')],
  NEEDS='two fields of one signed name, with different text', BREAKS='the first instead of the last field of a name is checked',
  DEMO=H + r"""int main() { keys(); S m = "From: a@b.c\r\nX: 1\r\nX: 2\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s").SetHeaders({"from", "x"}); return verify(sign(m, o) + "\r\n" + m, rec) == 1 ? 0 : 1; }"""),
dict(ID='c09-name-case', PROP='C09', EDITS=[('src/Validatory.cpp', '		std::string tmp;\n		transform(name.begin(), name.end(), name.begin(), tolower);\n', '		std::string tmp;\n		transform(name.begin(), name.begin() + 1, name.begin(), tolower);\n')],
  NEEDS='an h= name with an upper-case letter after the first', BREAKS='h=From:Message-ID does not find the field message-id, which is then not covered by the check',
  DEMO=H + r"""int main() { keys(); S m = "From: a@b.c\r\nMessage-ID: 1\r\n\r\nhi\r\n"; S h = "DKIM-Signature: v=1; a=ed25519-sha256; d=b.c; s=s; h=From:Message-ID; bh=" + b64sha("hi\r\n") + "; b="; S t = "From: a@b.c\r\nMessage-ID: 1\r\n" + h; unsigned char d[32]; SHA256((const unsigned char*)t.data(), t.size(), d);
 unsigned char pk[32], sk[64], sg[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); crypto_sign_detached(sg, 0, d, 32, sk); return verify(h + Conversion::Base64_Encode(S((char*)sg, 64)) + "\r\n" + m, edrec) == 1 ? 0 : 1; }"""),
dict(ID='c05-from-prefix', PROP='C05', EDITS=[('src/Signature.cpp', 'strcasecmp(i->c_str(), "from") == 0', 'strncasecmp(i->c_str(), "from", 4) == 0')],
  NEEDS='an h= list with a name that begins with from and no from', BREAKS='a signature that does not cover From is accepted',
  DEMO=H + r"""int main() { Signature s; try { s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from-x:to; bh=YQ==; b=YQ==")); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c03-name-tab', PROP='C03', EDITS=[('src/MailParser.cpp', 'm_name.erase(m_name.find_last_not_of(" \\t") + 1);', "m_name.erase(m_name.find_last_not_of(' ') + 1);")],
  NEEDS='a tab between a field name and its colon', BREAKS='the tab stays in the name, so the field is not recognised',
  DEMO=H + r"""int main() { std::stringstream f("From\t: x\r\n\r\n"); Message m; while (m.ParseLine(f) && !m.IsDone()) {} return m.GetHeaders().front()->GetName() == "From" ? 0 : 1; }"""),
dict(ID='c03-late-offset', PROP='C03', EDITS=[('src/MailParser.cpp', "	if (m_valueOffset == 0)\n", "	if (m_valueOffset == 0 || m_name.empty())\n")],
  NEEDS='a field with an empty name and a continuation line', BREAKS='', DEMO=''),
dict(ID='c11-empty-temp', PROP='C11', EDITS=[('src/Validatory.cpp', '			if (publicKey.empty())\n				throw DKIM::PermanentError(', '			if (publicKey.empty())\n				throw DKIM::TemporaryError(')],
  NEEDS='a resolver that answers with no text', BREAKS='a missing key is reported as a temporary error',
  DEMO=H + r"""static bool none(const S&, S&, void*) { return true; } int main() { std::stringstream f("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=x; h=from; bh=" + b64sha("hi\r\n") + "; b=YQ==\r\nFrom: a\r\n\r\nhi\r\n"); Validatory v(f); v.CustomDNSResolver = none; Signature s; v.GetSignature(v.GetSignatures().begin(), s); PublicKey p; try { v.GetPublicKey(s, p); } catch (TemporaryError&) { return 1; } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c08-revoked-ws', PROP='C08', EDITS=[('src/PublicKey.cpp', '			m_publicKeyED25519 = tmp;', '			m_publicKeyED25519 = ptmp.substr(0, 32);')],
  NEEDS='x', BREAKS='x', DEMO=''),
dict(ID='c08-rsa-type', PROP='C08', EDITS=[('src/PublicKey.cpp', 'if (EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA && EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA2)', 'if (EVP_PKEY_base_id(publicKey) == EVP_PKEY_ED25519)')],
  NEEDS='a p= value that holds an EC key', BREAKS='a key record with a key that is not RSA is accepted without a key',
  DEMO=H + r"""int main() { EVP_PKEY* k = EVP_EC_gen("P-256"); unsigned char* o = 0; int l = i2d_PUBKEY(k, &o); PublicKey p; try { p.Parse("v=DKIM1; p=" + Conversion::Base64_Encode(S((char*)o, l))); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c24-oversign-add', PROP='C24', EDITS=[('src/SignatoryOptions.cpp', '	m_oversignheaders = headers;', '	m_oversignheaders.insert(m_oversignheaders.end(), headers.begin(), headers.end());')],
  NEEDS='SetOversignHeaders called twice', BREAKS='the second list is added to the first',
  DEMO=H + r"""int main() { SignatoryOptions o; o.SetOversignHeaders({"from"}).SetOversignHeaders({"to"}); return o.GetOversignHeaders() == std::list<S>({"to"}) ? 0 : 1; }"""),
dict(ID='c17-b64-error', PROP='C17', EDITS=[('src/EncodedWord.cpp', "				output += ws + buffer;\n			}\n			ws.clear();", "				output += ws + buffer.substr(0, buffer.size() - encdata.size()) + encdata;\n			}\n			ws.clear();")],
  NEEDS='', BREAKS='', DEMO=''),
dict(ID='c17-two-adjacent', PROP='C17', EDITS=[('src/EncodedWord.cpp', "				output += encdata;\n			} else {", "				output += ws.size() > 1 ? ws.substr(1) + encdata : encdata;\n			} else {")],
  NEEDS='two or more blanks before an encoded word', BREAKS='all but one of the blanks before an encoded word stay in the output',
  DEMO=H + r"""int main() { return Conversion::EncodedWord::Decode("a  =?utf-8?q?b?=  =?utf-8?q?c?=") == "abc" ? 0 : 1; }"""),
dict(ID='c18-quoted-plain', PROP='C18', EDITS=[('src/Tokenizer.cpp', 'if (lasttype == TOK_QUOTED && tokens.size() == 1)', 'if (lasttype == TOK_QUOTED)')],
  NEEDS='several words of which the last is a quoted string', BREAKS='only the first word is parsed', 
  DEMO=H + r"""int main() { auto l = Tokenizer::ParseAddressList("a \"b@c\""); return l.size() == 1 && l.front() == "ab@c" ? 0 : 1; }"""),
dict(ID='c16-decode-chunk', PROP='C16', EDITS=[('src/Base64.cpp', '	while ((r = BIO_read(l, b, sizeof b)) > 0)\n		result.append(b, (size_t)r);\n\n	BIO_free_all(l);\n	return result;\n}\n\nstd::string DKIM::Conversion::Base64_Encode', '	while ((r = BIO_read(l, b, sizeof b)) > 0)\n	{\n		result.append(b, (size_t)r);\n		if ((size_t)r < sizeof b / 2)\n			break;\n	}\n\n	BIO_free_all(l);\n	return result;\n}\n\nstd::string DKIM::Conversion::Base64_Encode')],
  NEEDS='', BREAKS='', DEMO=''),
dict(ID='c15-decode-underscore', PROP='C15', EDITS=[('src/QuotedPrintable.cpp', "if (convert_to_space && data.peek() == '_')", "if (data.peek() == '_' && (convert_to_space || output.empty()))")],
  NEEDS='text that starts with an underscore', BREAKS='a leading underscore of an identity decodes to a space',
  DEMO=H + r"""int main() { return Conversion::QuotedPrintable::Decode("_a") == "_a" ? 0 : 1; }"""),
dict(ID='c19-nul-tail', PROP='C19', EDITS=[('src/Util.cpp', '	if (subdomain.find_first_not_of(alphanum + "-") != std::string::npos)', '	if (strspn(subdomain.c_str(), (alphanum + "-").c_str()) != strlen(subdomain.c_str()))'), ('src/Util.cpp', '#include <cstdlib>\n', '#include <cstdlib>\n#include <cstring>\n')],
  NEEDS='a label with a NUL byte inside', BREAKS='bytes after a NUL inside a label are not checked',
  DEMO=H + r"""int main() { SignatoryOptions o; try { o.SetDomain(S("a\0;b.c", 6)); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c23-arc-prefix', PROP='C23', EDITS=[('src/Validatory.cpp', 'if ((type == DKIM && headerName == "dkim-signature") ||', 'if ((type == DKIM && headerName.compare(0, 14, "dkim-signature") == 0) ||')],
  NEEDS='a field whose name begins with dkim-signature', BREAKS='DKIM-Signature-Old is collected as a signature',
  DEMO=H + r"""int main() { std::stringstream f("DKIM-Signature-Old: x\r\nDKIM-Signature: y\r\n\r\nx"); Validatory v(f); return v.GetSignatures().size() == 1 ? 0 : 1; }"""),
dict(ID='c04-dup-tag', PROP='C04', EDITS=[('src/TagList.cpp', 'if (m_tags.find(name) != m_tags.end())', 'if (m_tags.find(name) != m_tags.end() && !m_tags[name].GetValue().empty())')],
  NEEDS='a duplicated tag whose first value is empty', BREAKS='the duplicate replaces the first value',
  DEMO=H + r"""int main() { TagList t; try { t.Parse("a=; a=1"); } catch (PermanentError&) { return 0; } return 1; }"""),
dict(ID='c02-colon-tab', PROP='C02', EDITS=[('src/Canonicalization.cpp', '	size_t colonBefore = x.substr(0, colonSplit).find_last_not_of(\' \');\n	if (colonBefore != std::string::npos && colonBefore + 1 != colonSplit)', '	size_t colonBefore = x.find_last_not_of(\' \', colonSplit - 1);\n	if (colonBefore != std::string::npos && colonBefore < colonSplit && colonBefore + 1 != colonSplit)')],
  NEEDS='', BREAKS='', DEMO=''),
]
SEEDS = [s for s in SEEDS if s['DEMO']]
