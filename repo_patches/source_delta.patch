From 6dc685b475ec21af638ce853ba92bf453e4d4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 01/13] fix: do not let a stale errno reject a valid body
 length (l=)

---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..7da7409 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -253,6 +253,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From 39830f98142a12b2a8a054d425bd90bc03e7b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 02/13] fix: accept only decimal digits as body length (l=)

An empty value was read as 0, and a sign was passed on to strtoul, so that
-18446744073709551615 was read as 1. RFC 6376: sig-l-tag = 1*76DIGIT.
---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 7da7409..19f8a51 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -251,6 +251,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	{
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; must be digits (l)");
 
 		char* ptr;
 		errno = 0;
-- 
2.43.0


From 4ae5296b7873eb1718222ed814324dc2bb5bf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 03/13] fix: a key allowing only unknown hash algorithms
 allowed all of them

---
 src/PublicKey.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..3c4f76e 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,9 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		// an empty list would allow all algorithms
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm (h)");
 	}
 
 	// Key type
-- 
2.43.0


From 6a2ccdbda2cf7092a9f7666b571b1e003e9b585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 04/13] fix: a key restricted to other services was usable for
 email

---
 src/PublicKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 3c4f76e..0c3a1c4 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -158,6 +158,7 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool allServices = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
@@ -167,9 +168,13 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				allServices = true;
 				break;
 			}
 		}
+		// an empty list would allow all services
+		if (m_serviceType.empty() && !allServices)
+			throw DKIM::PermanentError("No supported service type (s)");
 	}
 
 	// Flags
-- 
2.43.0


From d830595d5517d1e0eb7e6358c3b14ca6a2715a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 05/13] fix: remove the whitespace around the b= value before
 hashing

RFC 6376 3.7: the value of the b= tag, including all surrounding whitespace,
is deleted. Signatures of other signers with whitespace there did not verify.
---
 src/Validatory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..5879d5a 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	// including all surrounding whitespace
+	size_t bStart = v.find_last_not_of(" \t\r\n", (size_t)bTag.GetValueOffset() - 1) + 1;
+	size_t bEnd = v.find_first_not_of(" \t\r\n", (size_t)bTag.GetValueOffset() + bTag.GetValue().size());
+	v.erase(bStart, bEnd == std::string::npos ? std::string::npos : bEnd - bStart);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 1173eb78a8c900a9736a17d0e48682a66e9d05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 06/13] fix: check the size of an ed25519 signature

crypto_sign_verify_detached reads 64 bytes, whatever the length of b=.
---
 src/Validatory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5879d5a..b44a337 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -274,7 +274,8 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
-			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||
+					crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
 						(const unsigned char *)pub.GetED25519PublicKey().c_str()) != 0)
-- 
2.43.0


From ea758d769b665f0044459d5a15c5770533f6f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 07/13] fix: name the algorithm of each additional signature in
 its a= tag

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 1d504852f94af697162c1724705562710e3b7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 08/13] fix: creating a second signature signed an empty body

The header parser was run again, at the end of the body.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..0522c98 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From a60066c477dc78c9883314162609d6dd539bf45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 09/13] fix: do not add a second i= tag to ARC signatures

In an ARC-Message-Signature i= is the instance.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0522c98..42b27db 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -171,7 +171,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From c12de92880292ffaf97a4d63c2521981edfc7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 10/13] fix: a 0xff byte in a quoted string was taken for the
 end of input

---
 src/Tokenizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..811a863 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,9 +198,10 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int i = data.get();
+				char c = (char)i;
 
-				if (c == EOF) {
+				if (i == EOF) {
 					throw DKIM::PermanentError("unclosed string");
 				} else if (c == '\\') {
 					if (data.peek() == EOF)
-- 
2.43.0


From 5c581e0ae93bcb6e207b6051ef6ccfeb8ebfaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 11/13] fix: treat every quoted pair in a comment as escaped

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 811a863..067c9e3 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -236,6 +236,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 60cfda0466b52102419936f3adc15faa82029c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 12/13] fix: refuse to sign without an ed25519 key

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 42b27db..ddb0bd7 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 7081f4a8d21504b0320e3198eaf9d2560d486dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 13/13] fix: skip every folding before a token of an address
 list

---
 src/Tokenizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 067c9e3..30d4f41 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -189,9 +189,8 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 		{
 			if (!token.empty())
 				break;
+			continue;
 		}
-		if (data.peek() == EOF)
-			break;
 		if (data.peek() == '"')
 		{
 			if (!token.empty()) return TOK_ATOM;
-- 
2.43.0

