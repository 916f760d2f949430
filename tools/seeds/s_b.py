H = r'''#include <iostream>
#include <sstream>
#include <string>
#include <list>
#include <cstring>
#include <cerrno>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <sodium.h>
#include <src/Tokenizer.hpp>
#include <src/Util.hpp>
#include <src/Exception.hpp>
#include <src/SignatoryOptions.hpp>
#include <src/Signatory.hpp>
#include <src/Validatory.hpp>
#include <src/Signature.hpp>
#include <src/PublicKey.hpp>
#include <src/MailParser.hpp>
#include <src/TagList.hpp>
#include <src/Base64.hpp>
#include <src/QuotedPrintable.hpp>
#include <src/EncodedWord.hpp>
#include <src/Canonicalization.hpp>
using namespace DKIM; typedef std::string S;
static S pem, rec, seed(32, 'k'), edrec;
static void keys() {
 EVP_PKEY* k = EVP_RSA_gen(1024); BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, 0, 0, 0, 0, 0); char* p; long n = BIO_get_mem_data(b, &p); pem = S(p, n);
 unsigned char* o = 0; int l = i2d_PUBKEY(k, &o); rec = "v=DKIM1; p=" + Conversion::Base64_Encode(S((char*)o, l));
 unsigned char pk[32], sk[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); edrec = "v=DKIM1; k=ed25519; p=" + Conversion::Base64_Encode(S((char*)pk, 32)); }
static S key_text;
static bool dns(const S& q, S& r, void*) { r = key_text; return true; }
// number of signatures that verify; -1 on any failure
static int verify(const S& msg, const S& key, Validatory::ValidatorType t = Validatory::DKIM) {
 key_text = key; std::stringstream f(msg); Validatory v(f, t); v.CustomDNSResolver = dns; int n = 0;
 for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { try { Signature s; v.GetSignature(i, s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(i, s, p); ++n; } catch (std::exception& e) { std::cerr << e.what() << "\n"; return -1; } }
 return n; }
static S sign(const S& msg, SignatoryOptions& o) { std::stringstream f(msg); Signatory s(f); return s.CreateSignature(o); }
static std::shared_ptr<Header> field(const S& f) { std::shared_ptr<Header> h(new Header); h->ParseLine(f); return h; }
static S body(const S& in, CanonMode m, bool lim = false, size_t n = 0, bool* ok = 0) { std::stringstream s(in); S out; bool r = Conversion::CanonicalizationBody(s, m, 0, lim, n, [&](const char* p, size_t l) { out.append(p, l); }); if (ok) *ok = r; return out; }
static S b64sha(const S& d) { unsigned char h[32]; SHA256((const unsigned char*)d.data(), d.size(), h); return Conversion::Base64_Encode(S((char*)h, 32)); }
'''
SEEDS = [
dict(ID='c01-wsp-at-buffer', PROP='C01', EDITS=[('src/Canonicalization.cpp', '		bool pendingwsp = false;\n		size_t lines = 0;\n		while (stream.good())\n		{\n', '		size_t lines = 0;\n		while (stream.good())\n		{\n			bool pendingwsp = false;\n')],
  NEEDS='relaxed mode with whitespace as the last bytes of one 8096-byte read', BREAKS='the space between two words disappears when the whitespace run ends exactly with a read buffer',
  DEMO=H + r'''int main() { S a(8095, 'a'); return body(a + " b", DKIM_C_RELAXED) == a + " b\r\n" ? 0 : 1; }'''),
dict(ID='c01-limit-lastline', PROP='C01', EDITS=[('src/Canonicalization.cpp', '	return !(bodyLimit && bodySize > 0);', '	return !(bodyLimit && !emptyBody && bodySize > 0);')],
  NEEDS='a length limit on an empty body', BREAKS='a limit beyond the canonical length of an empty body is reported as success',
  DEMO=H + r'''int main() { bool ok = true; body("\r\n", DKIM_C_RELAXED, true, 5, &ok); bool ok2 = true; body("abc\r\n", DKIM_C_SIMPLE, true, 5, &ok2); return !ok && ok2 ? 0 : 1; }'''),
dict(ID='c02-double-fold', PROP='C02', EDITS=[('src/Canonicalization.cpp', '		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())\n			found = true;\n\n		if (data.peek() == EOF) break;', '		if (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())\n			found = true;\n\n		if (data.peek() == EOF) break;')],
  NEEDS='two folds in a row, the first continuation line blank', BREAKS='relaxed canonicalization keeps a CRLF when a field is folded twice in a row',
  DEMO=H + r'''int main() { Conversion::CanonicalizationHeader c(DKIM_C_RELAXED); return c.FilterHeader("A: x\r\n \r\n y") == "a:x y" ? 0 : 1; }'''),
dict(ID='c03-empty-name-colon', PROP='C03', EDITS=[('src/MailParser.cpp', '		size_t sep = m_header.find(\':\');', '		size_t sep = m_header.find(\':\', m_name.empty() ? m_header.size() - data.size() : 0);')],
  NEEDS='never reached with a colon on an earlier line', BREAKS='', DEMO=''),
dict(ID='c03-cr-only-line', PROP='C03', EDITS=[('src/MailParser.cpp', "	if (line.size() > 0 && line[line.size()-1] == '\\r')\n		line.erase(line.size()-1);", "	while (line.size() > 0 && line[line.size()-1] == '\\r')\n		line.erase(line.size()-1);")],
  NEEDS='a line that ends with more than one CR', BREAKS='two CRs before a LF are both dropped, so a line holding one CR ends the header section',
  DEMO=H + r'''int main() { std::stringstream f("A: 1\r\r\nB: 2\r\n\r\nx"); Message m; while (m.ParseLine(f) && !m.IsDone()) {} return m.GetHeaders().size() == 2 && m.GetHeaders().front()->GetHeader() == "A: 1\r" ? 0 : 1; }'''),
dict(ID='c04-offset-fold', PROP='C04', EDITS=[('src/TagList.cpp', '		TagListEntry tagEntry;\n		tagEntry.SetValueOffset(data.tellg());\n', '		TagListEntry tagEntry;\n		tagEntry.SetValueOffset((ssize_t)input.find(name, lastpos) + (ssize_t)name.size() + 1);\n'), ('src/TagList.cpp', '	while (true)\n	{\n		std::string name;\n		std::string value;\n', '	size_t lastpos = 0;\n	while (true)\n	{\n		lastpos = data.peek() == EOF ? 0 : (size_t)data.tellg();\n		std::string name;\n		std::string value;\n')],
  NEEDS='whitespace around the = of a tag', BREAKS='the value offset points before the value when blanks follow the equals sign',
  DEMO=H + r'''int main() { TagList t; S in = "a = xyz; b=\r\n q"; t.Parse(in); TagListEntry e; t.GetTag("a", e); if (in.substr(e.GetValueOffset(), 3) != "xyz") return 1; t.GetTag("b", e); return in.substr(e.GetValueOffset(), 1) == "q" ? 0 : 1; }'''),
dict(ID='c05-canon-one-part', PROP='C05', EDITS=[('src/Signature.cpp', '			header = c.GetValue();\n			body = "simple";', '			header = c.GetValue();\n			body = header;')],
  NEEDS='c= with a single part relaxed', BREAKS='c=relaxed selects relaxed body canonicalization instead of simple',
  DEMO=H + r'''int main() { Signature s; s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; c=relaxed; d=a.b; s=x; h=from; bh=YQ==; b=YQ==")); return s.GetCanonModeBody() == DKIM_C_SIMPLE && s.GetCanonModeHeader() == DKIM_C_RELAXED ? 0 : 1; }'''),
dict(ID='c06-suffix', PROP='C06', EDITS=[('src/Signature.cpp', '("." + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)', 'm_domain == m_mailDomain.substr(m_mailDomain.size() - m_domain.size()) && m_mailDomain.find(\'.\') < m_mailDomain.size() - m_domain.size()')],
  NEEDS='an identity domain whose last labels only end with d=, and with a dot further left', BREAKS='i=@x.badexample.com is accepted for d=example.com',
  DEMO=H + r'''int main() { Signature s; try { s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; i=u@x.badexample.com; s=x; h=from; bh=YQ==; b=YQ==")); } catch (PermanentError&) { Signature t; t.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=example.com; i=u@x.example.com; s=x; h=from; bh=YQ==; b=YQ==")); return 0; } return 1; }'''),
dict(ID='c07-erange-max', PROP='C07', EDITS=[('src/Signature.cpp', '		if (errno == ERANGE)\n', '		if (errno == ERANGE && bs != (unsigned long)-1)\n'), ('src/Signature.cpp', '		if ((signed long)bs < 0)\n', '		if ((signed long)bs < -1)\n')],
  NEEDS='an l= with the value 18446744073709551615 or more', BREAKS='an overflowing length is accepted as the largest number',
  DEMO=H + r'''int main() { Signature s; try { s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=x; h=from; bh=YQ==; b=YQ==; l=99999999999999999999")); } catch (PermanentError&) { return 0; } return 1; }'''),
dict(ID='c08-unknown-hash', PROP='C08', EDITS=[('src/PublicKey.cpp', '			else if (*a == "sha1")\n', '			else if (a->compare(0, 4, "sha1") == 0)\n')],
  NEEDS='an h= list with an unknown digest name that starts with sha1', BREAKS='h=sha1x permits SHA-1',
  DEMO=H + r'''int main() { keys(); PublicKey p; try { p.Parse(edrec + "; h=sha1x"); } catch (PermanentError&) { PublicKey q; q.Parse(edrec + "; h=sha1x:sha256"); return q.GetDigestAlgorithms().size() == 1 ? 0 : 1; } return 1; }'''),
dict(ID='c08-star-first', PROP='C08', EDITS=[('src/PublicKey.cpp', '				m_serviceType.clear();\n				allServices = true;\n				break;', '				allServices = m_serviceType.empty();\n				break;')],
  NEEDS='s=email:*', BREAKS='the restriction to email stays although * is listed', DEMO=H + r'''int main() { keys(); PublicKey p; p.Parse(edrec + "; s=email:*"); return p.GetServiceType().empty() ? 0 : 1; }'''),
dict(ID='c09-oversign-reuse', PROP='C09', EDITS=[('src/Validatory.cpp', '		head->second.pop_back();\n', '		if (head->second.size() > 1)\n			head->second.pop_back();\n')],
  NEEDS='a name listed once more in h= than the message has fields of that name', BREAKS='the oldest field is hashed again instead of nothing, so oversigned messages do not verify',
  DEMO=H + r'''int main() { keys(); S m = "From: a@b.c\r\nSubject: x\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s").SetOversignHeaders({"from"}); return verify(sign(m, o) + "\r\n" + m, rec) == 1 ? 0 : 1; }'''),
dict(ID='c09-b-erase-first', PROP='C09', EDITS=[('src/Validatory.cpp', '	size_t bStart = v.find_last_not_of(" \\t\\r\\n", (size_t)bTag.GetValueOffset() - 1) + 1;', '	size_t bStart = v.find("b=") + 2;')],
  NEEDS='a tag whose name or value ends with b= before the b tag, e.g. an unknown tag xb=', BREAKS='part of another tag is removed from the signed text',
  DEMO=H + r'''int main() { keys(); S m = "From: a@b.c\r\n\r\nhi\r\n"; S h = "DKIM-Signature: v=1; a=ed25519-sha256; xb=1; d=b.c; s=s; h=from; bh=" + b64sha("hi\r\n") + "; b="; S t = "From: a@b.c\r\n" + h; unsigned char d[32]; SHA256((const unsigned char*)t.data(), t.size(), d);
 unsigned char pk[32], sk[64], sg[64]; crypto_sign_seed_keypair(pk, sk, (const unsigned char*)seed.data()); crypto_sign_detached(sg, 0, d, 32, sk); return verify(h + Conversion::Base64_Encode(S((char*)sg, 64)) + "\r\n" + m, edrec) == 1 ? 0 : 1; }'''),
dict(ID='c09-flag-y', PROP='C09', EDITS=[('src/Validatory.cpp', '	if (!sig.IsARC())\n	{\n		if (find(', '	if (!sig.IsARC() && pub.GetFlags().front() != "y")\n	{\n		if (find(')],
  NEEDS='x', BREAKS='x', DEMO=''),
dict(ID='c10-prefix-hash', PROP='C10', EDITS=[('src/Validatory.cpp', '	if (sig.GetBodyHash().size() != md_len ||\n			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)', '	if (sig.GetBodyHash().size() < md_len ||\n			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)')],
  NEEDS='a bh= value that decodes to the right digest plus more bytes', BREAKS='a body hash with trailing bytes is accepted',
  DEMO=H + r'''int main() { unsigned char d[32]; SHA256((const unsigned char*)"hi\r\n", 4, d); S bh = Conversion::Base64_Encode(S((char*)d, 32) + "x"); std::stringstream f("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=s; h=from; bh=" + bh + "; b=YQ==\r\nFrom: a\r\n\r\nhi\r\n"); Validatory v(f); Signature s; try { v.GetSignature(v.GetSignatures().begin(), s); } catch (PermanentError&) { return 0; } return 1; }'''),
dict(ID='c10-limit-ignored', PROP='C10', EDITS=[('src/Validatory.cpp', '			sig.GetBodySizeLimit(),\n', '			sig.GetBodySizeLimit() && sig.GetBodySize() > 0,\n')],
  NEEDS='a signature with l=0', BREAKS='l=0 hashes the whole body', DEMO=H + r'''int main() { std::stringstream f("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=s; h=from; l=0; bh=" + b64sha("") + "; b=YQ==\r\nFrom: a\r\n\r\nhi\r\n"); Validatory v(f); Signature s; try { v.GetSignature(v.GetSignatures().begin(), s); } catch (PermanentError&) { return 1; } return 0; }'''),
dict(ID='c11-custom-fallback', PROP='C11', EDITS=[('src/Validatory.cpp', '			if (publicKey.empty())\n				throw', '			if (publicKey.find_first_not_of(" \\t") == std::string::npos)\n				throw'),], NEEDS='x', BREAKS='x', DEMO=''),
dict(ID='c11-temp-with-text', PROP='C11', EDITS=[('src/Validatory.cpp', '					DKIM::Util::Resolver().GetTXT(query, publicKey)\n			))', '					DKIM::Util::Resolver().GetTXT(query, publicKey)\n			) || !publicKey.empty())')],
  NEEDS='a resolver that leaves text behind although it reports failure', BREAKS='a failed query gives a key instead of a temporary error',
  DEMO=H + r'''static bool bad(const S& q, S& r, void*) { r = edrec; return false; }
int main() { keys(); std::stringstream f("DKIM-Signature: v=1; a=rsa-sha256; d=b.c; s=s; h=from; bh=YQ==; b=YQ==\r\n\r\n"); Validatory v(f); v.CustomDNSResolver = bad; Signature s; s.Parse(v.GetSignatures().front()); PublicKey p; try { v.GetPublicKey(s, p); } catch (TemporaryError&) { return 0; } return 1; }'''),
dict(ID='c13-rehash', PROP='C13', EDITS=[('src/Signatory.cpp', '		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());\n		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);\n		EVP_MD_CTX_free(evpmdhead2);\n', '		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());\n		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);\n		EVP_MD_CTX_free(evpmdhead2);\n		EVP_DigestUpdate(evpmdhead.get(), tmp2.c_str(), tmp2.size());\n')],
  NEEDS='options with an additional signature', BREAKS='the second signature also covers the text of the first',
  DEMO=H + r'''int main() { keys(); S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetPrivateKey(pem).SetDomain("b.c").SetSelector("s"); o.AddAdditionalSignature().SetPrivateKey(pem).SetDomain("b.c").SetSelector("s2"); return verify(sign(m, o) + "\r\n" + m, rec) == 2 ? 0 : 1; }'''),
dict(ID='c13-fold-oversign', PROP='C13', EDITS=[('src/Signatory.cpp', '	for (auto & i : oversign)\n		transform(i.begin(), i.end(), i.begin(), tolower);\n', '	oversign.sort();\n	oversign.unique();\n	for (auto & i : oversign)\n		transform(i.begin(), i.end(), i.begin(), tolower);\n')],
  NEEDS='oversigned names repeated or not in alphabetical order', BREAKS='h= lists the oversigned names in another order and repeated names once',
  DEMO=H + r'''int main() { S m = "From: a@b.c\r\n\r\nhi\r\n"; SignatoryOptions o; o.SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(seed).SetDomain("b.c").SetSelector("s").SetOversignHeaders({"To", "From", "from"}); return sign(m, o).find("h=from:to:from:from;") != S::npos ? 0 : 1; }'''),
dict(ID='c15-qp-space', PROP='C15', EDITS=[('src/QuotedPrintable.cpp', '		3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 0x20 */', '		1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 0x20 */')],
  NEEDS='an identity or text with a space', BREAKS='spaces are written unencoded and lost by decoding', DEMO=H + r'''int main() { return Conversion::QuotedPrintable::Decode(Conversion::QuotedPrintable::Encode("a b")) == "a b" ? 0 : 1; }'''),
dict(ID='c15-hex-range', PROP='C15', EDITS=[('src/QuotedPrintable.cpp', '			output += (char)strtol(hex.c_str(), nullptr, 16);', '			output += (char)std::min(strtol(hex.c_str(), nullptr, 16), 0x80L);'), ('src/QuotedPrintable.cpp', '#include <cstdlib>\n', '#include <cstdlib>\n#include <algorithm>\n')],
  NEEDS='an escaped byte above 0x80', BREAKS='bytes above 0x80 decode to 0x80', DEMO=H + r'''int main() { return Conversion::QuotedPrintable::Decode("=FF=80") == "\xff\x80" ? 0 : 1; }'''),
dict(ID='c16-long-line', PROP='C16', EDITS=[('src/Base64.cpp', '	BIO_set_flags(l, BIO_FLAGS_BASE64_NO_NL);\n	BIO_write(l, data.c_str(), data.size());\n	(void) BIO_flush(l);', '	if (data.size() <= 512)\n		BIO_set_flags(l, BIO_FLAGS_BASE64_NO_NL);\n	BIO_write(l, data.c_str(), data.size());\n	(void) BIO_flush(l);')],
  NEEDS='more than 512 bytes of input', BREAKS='the encoding of longer data is broken into lines', DEMO=H + r'''int main() { return Conversion::Base64_Encode(S(700, 'x')).find('\n') == S::npos ? 0 : 1; }'''),
dict(ID='c17-ws-kept', PROP='C17', EDITS=[('src/EncodedWord.cpp', '				output += ws + buffer;\n			}\n			ws.clear();', '				output += ws + buffer;\n				ws.clear();\n			}')],
  NEEDS='an encoded word with whitespace before it followed directly by a newline and text', BREAKS='the whitespace before an encoded word is put after it',
  DEMO=H + r'''int main() { return Conversion::EncodedWord::Decode("a =?utf-8?q?b?=\r\n c") == "ab c" ? 0 : 1; }'''),
dict(ID='c18-comment-escape', PROP='C18', EDITS=[('src/Tokenizer.cpp', "				if (data.peek() == '(')\n					++depth;\n				if (data.peek() == ')')\n					--depth;", "				if (data.peek() == ')')\n					--depth;")],
  NEEDS='nested comments', BREAKS='a nested comment ends at the first closing parenthesis', DEMO=H + r'''int main() { std::list<S> l = Tokenizer::ParseAddressList("(a (b) c) x@y"); return l.size() == 1 && l.front() == "x@y" ? 0 : 1; }'''),
dict(ID='c18-lasttype', PROP='C18', EDITS=[('src/Tokenizer.cpp', '			case TOK_COMMENT:\n				// ignore comments\n			break;', '			case TOK_COMMENT:\n				// ignore comments\n				type = lasttype;\n			break;')],
  NEEDS='x', BREAKS='x', DEMO=''),
dict(ID='c21-sig-arc-kept', PROP='C21', EDITS=[('src/Signature.cpp', '	m_tagList.Reset();\n	m_arc = false;\n', '	m_tagList.Reset();\n')],
  NEEDS='an ARC signature object that is Reset and then used for a DKIM signature', BREAKS='the object keeps treating signatures as ARC after Reset',
  DEMO=H + r'''int main() { Signature s; s.Parse(field("ARC-Message-Signature: i=1; a=rsa-sha256; d=a.b; s=x; h=from; bh=YQ==; b=YQ==")); s.Reset(); return s.IsARC() ? 1 : 0; }'''),
dict(ID='c21-errno', PROP='C21', EDITS=[('src/Signature.cpp', '		char* ptr;\n		errno = 0;\n', '		char* ptr;\n')],
  NEEDS='errno left at ERANGE by an earlier operation of the process', BREAKS='a signature with l= is rejected because of a leftover error number',
  DEMO=H + r'''int main() { errno = ERANGE; Signature s; s.Parse(field("DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=x; h=from; bh=YQ==; b=YQ==; l=5")); return s.GetBodySize() == 5 ? 0 : 1; }'''),
dict(ID='c20-b-empty-ws', PROP='C20', EDITS=[('src/Validatory.cpp', '			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||\n					crypto_sign_verify_detached(', '			if (crypto_sign_verify_detached(')],
  NEEDS='an ed25519 signature field with a short b= and a matching key', BREAKS='a short signature is handed to the primitive, which reads 64 bytes', DEMO=''),
dict(ID='c22-list-trail', PROP='C22', EDITS=[('src/Tokenizer.cpp', '		if (value.empty())\n			throw', '		if (value.empty() && values.empty())\n			throw')],
  NEEDS='an empty item after the first in a colon list', BREAKS='an empty list item is accepted', DEMO=H + r'''int main() { S in = "a::b"; try { Tokenizer::ValueList(in); } catch (PermanentError&) { return 0; } return 1; }'''),
dict(ID='c23-arc-dup', PROP='C23', EDITS=[('src/Validatory.cpp', '		if ((type == DKIM && headerName == "dkim-signature") ||\n			(type == ARC && headerName == "arc-message-signature"))\n		{', '		if ((type == DKIM && headerName == "dkim-signature") ||\n			(type == ARC && headerName == "arc-message-signature" && (m_dkimHeaders.empty() || m_dkimHeaders.back()->GetHeader() != (*i)->GetHeader())))\n		{')],
  NEEDS='two identical adjacent ARC-Message-Signature fields', BREAKS='the second of two identical ARC fields is not listed',
  DEMO=H + r'''int main() { std::stringstream f("ARC-Message-Signature: a\r\nARC-Message-Signature: a\r\n\r\n"); Validatory v(f, Validatory::ARC); return v.GetSignatures().size() == 2 ? 0 : 1; }'''),
dict(ID='c24-del-first', PROP='C24', EDITS=[('src/SignatoryOptions.cpp', '		m_headers.remove(header);', '	{\n		auto i = std::find(m_headers.begin(), m_headers.end(), header);\n		if (i != m_headers.end())\n			m_headers.erase(i);\n	}'), ('src/SignatoryOptions.cpp', 'using DKIM::SignatoryOptions;\n', '#include <algorithm>\n\nusing DKIM::SignatoryOptions;\n')],
  NEEDS='a header name that was added twice', BREAKS='only the first of several equal names is deleted', DEMO=H + r'''int main() { SignatoryOptions o; o.SetHeaders({"a", "b", "a"}); o.DelHeaders({"a"}); return o.GetHeaders().size() == 1 ? 0 : 1; }'''),
]
SEEDS = [s for s in SEEDS if s['DEMO'] and s['DEMO'] != '']
