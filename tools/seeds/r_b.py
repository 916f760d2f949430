REFS = [
dict(ID='b-algo', PROPS=['C13'], EDITS=[
 ('src/Util.cpp', '''	std::string alg;
	switch (signatureAlgorithm)
	{
		case DKIM::DKIM_SA_RSA:
			alg += "rsa";
		break;
		case DKIM::DKIM_SA_ED25519:
			alg += "ed25519";
		break;
	}
	alg += "-";
	switch (digestAlgorithm)
	{
		case DKIM::DKIM_A_SHA1:
			alg += "sha1";
		break;
		case DKIM::DKIM_A_SHA256:
			alg += "sha256";
		break;
	}
	return alg;
''', '''	std::string name = signatureAlgorithm == DKIM::DKIM_SA_ED25519 ? "ed25519" : "rsa";
	return name + "-" + (digestAlgorithm == DKIM::DKIM_A_SHA1 ? "sha1" : "sha256");
'''),
 ('src/Util.cpp', '''	switch (mode)
	{
		case DKIM::DKIM_C_SIMPLE:
			return "simple";
		case DKIM::DKIM_C_RELAXED:
			return "relaxed";
	}
	return "unknown";
''', '''	if (mode == DKIM::DKIM_C_RELAXED)
		return "relaxed";
	if (mode == DKIM::DKIM_C_SIMPLE)
		return "simple";
	return "unknown";
''')]),
dict(ID='b-subdomain', PROPS=['C19'], EDITS=[
 ('src/Util.cpp', '''	if (alphanum.find(*subdomain.begin()) == std::string::npos)
		return false;

	if (alphanum.find(*subdomain.rbegin()) == std::string::npos)
		return false;

	if (subdomain.find_first_not_of(alphanum + "-") != std::string::npos)
		return false;

	return true;
''', '''	const char first = subdomain.front(), last = subdomain.back();
	if (first == '-' || last == '-')
		return false;

	for (size_t i = 0; i < subdomain.size(); ++i)
	{
		if (subdomain[i] != '-' && alphanum.find(subdomain[i]) == std::string::npos)
			return false;
	}
	return true;
''')]),
dict(ID='b-domain-for', PROPS=['C19'], EDITS=[
 ('src/Util.cpp', '''	size_t pos = std::string::npos, lpos = 0;
	while ((pos = domain.find('.', lpos)) != std::string::npos)
	{
		if (!ValidateSubDomain(domain.substr(lpos, pos - lpos)))
			return false;

		lpos = pos + 1;
	}

	return ValidateSubDomain(domain.substr(lpos));
''', '''	size_t start = 0;
	while (true)
	{
		size_t dot = domain.find('.', start);
		if (dot == std::string::npos)
			return ValidateSubDomain(domain.substr(start));
		if (!ValidateSubDomain(domain.substr(start, dot - start)))
			return false;
		start = dot + 1;
	}
''')]),
dict(ID='b-filter-lower', PROPS=['C02', 'C22'], EDITS=[
 ('src/Canonicalization.cpp', '''	std::string::iterator colon = std::find(output.begin(), output.end(), ':');
	if (colon == output.end())
		throw DKIM::PermanentError(StringFormat("Header field %s is missing the colon separator",
					input.c_str()
					)
				);
	transform(output.begin(), colon, output.begin(), tolower);
''', '''	size_t nameLength = output.find(':');
	if (nameLength == std::string::npos)
		throw DKIM::PermanentError(StringFormat("Header field %s is missing the colon separator",
					input.c_str()
					)
				);
	transform(output.begin(), output.begin() + nameLength, output.begin(), tolower);
''')]),
dict(ID='b-filter-names', PROPS=['C02', 'C22'], EDITS=[
 ('src/Canonicalization.cpp', '''	std::string x;
	while (true)
	{
		bool found = false;
		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())
			found = true;

		if (data.peek() == EOF) break;

		if (found)
			x += " ";

		x += (char)data.get();
	}
''', '''	std::string x;
	for (;;)
	{
		bool whitespace = false;
		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())
			whitespace = true;

		if (data.peek() == EOF)
			break;

		char next = (char)data.get();
		if (whitespace)
			x.push_back(' ');
		x.push_back(next);
	}
''')]),
dict(ID='b-filter-tail', PROPS=['C02'], EDITS=[
 ('src/Canonicalization.cpp', '''	size_t colonAfter = x.find_first_not_of(' ', colonSplit + 1);
	if (colonAfter != std::string::npos)
		x.erase(colonSplit + 1, (colonAfter - 1) - (colonSplit));
	size_t colonBefore = x.substr(0, colonSplit).find_last_not_of(' ');
	if (colonBefore != std::string::npos && colonBefore + 1 != colonSplit)
	{
		x.erase(colonBefore + 1, colonSplit - (colonBefore + 1));
	}

	return x;
''', '''	std::string name = x.substr(0, colonSplit);
	std::string value = x.substr(colonSplit + 1);

	size_t first = value.find_first_not_of(' ');
	if (first != std::string::npos)
		value.erase(0, first);
	size_t last = name.find_last_not_of(' ');
	if (last != std::string::npos)
		name.erase(last + 1);

	return name + ":" + value;
''')]),
dict(ID='b-body-switch', PROPS=['C01', 'C10'], EDITS=[
 ('src/Canonicalization.cpp', '''				if (buffer[i] == '\\r')
					continue;
				if (buffer[i] == '\\n')
				{
					pendingwsp = false;
					++lines;
					continue;
				}
''', '''				const char c = buffer[i];
				if (c == '\\r')
				{
					continue;
				}
				else if (c == '\\n')
				{
					lines++;
					pendingwsp = false;
					continue;
				}
'''),
 ('src/Canonicalization.cpp', '''				if (type == DKIM::DKIM_C_RELAXED && (buffer[i] == ' ' || buffer[i] == '\\t'))
''', '''				const bool blank = (c == '\\t' || c == ' ');
				if (blank && type == DKIM::DKIM_C_RELAXED)
'''),
 ('src/Canonicalization.cpp', '''				buf += buffer[i];
			}
''', '''				buf += c;
			}
''')]),
dict(ID='b-body-read', PROPS=['C01'], EDITS=[
 ('src/Canonicalization.cpp', '''			char buffer[8096];
			stream.read(buffer, sizeof buffer);

			std::string buf;
			for (size_t i = 0; i < stream.gcount(); ++i)
			{
''', '''			char buffer[4096];
			stream.read(buffer, sizeof buffer);
			const size_t count = stream.gcount();

			std::string buf;
			buf.reserve(count);
			for (size_t i = 0; i != count; i++)
			{
''')]),
dict(ID='b-body-lines', PROPS=['C01'], EDITS=[
 ('src/Canonicalization.cpp', '''				while (lines > 0)
				{
					buf += "\\r\\n";
					--lines;
				}
''', '''				for (; lines != 0; --lines)
					buf += "\\r\\n";
'''),
 ('src/Canonicalization.cpp', '''				if (pendingwsp)
				{
					buf += ' ';
					pendingwsp = false;
				}
''', '''				if (pendingwsp)
					buf += ' ';
				pendingwsp = false;
''')]),
dict(ID='b-sig-reset', PROPS=['C21', 'C05'], EDITS=[
 ('src/Signature.cpp', '''	m_b = "";
	// tag-bh
	m_bh = "";
''', '''	m_b.clear();
	// tag-bh
	m_bh.clear();
'''),
 ('src/Signature.cpp', '''	m_tagList.Reset();
	m_arc = false;

	// tag-a
	m_digestAlgorithm = DKIM_A_SHA256;
	m_signatureAlgorithm = DKIM_SA_RSA;
''', '''	m_arc = false;

	// tag-a
	m_signatureAlgorithm = DKIM_SA_RSA;
	m_digestAlgorithm = DKIM_A_SHA256;
'''),
 ('src/Signature.cpp', '''	// tag-i-arc
	m_arcInstance = 0;
''', '''	// tag-i-arc
	m_arcInstance = 0;
	m_tagList.Reset();
''')]),
dict(ID='b-sig-require', PROPS=['C05', 'C06', 'C11'], EDITS=[
 ('src/Signature.cpp', '''	TagListEntry d;
	if (!m_tagList.GetTag("d", d))
		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
	m_domain = d.GetValue();
''', '''	m_domain = RequiredTag(m_tagList, "d", "Missing domain of the signing entity (d)");
'''),
 ('src/Signature.cpp', '''	TagListEntry s;
	if (!m_tagList.GetTag("s", s))
		throw DKIM::PermanentError("Missing query selector (s)");
	m_selector = s.GetValue();
''', '''	m_selector = RequiredTag(m_tagList, "s", "Missing query selector (s)");
'''),
 ('src/Signature.cpp', '''	TagListEntry h;
	if (!m_tagList.GetTag("h", h))
		throw DKIM::PermanentError("Missing signed header fields (h)");
	m_headers = DKIM::Tokenizer::ValueList(h.GetValue());
''', '''	m_headers = DKIM::Tokenizer::ValueList(RequiredTag(m_tagList, "h", "Missing signed header fields (h)"));
'''),
 ('src/Signature.cpp', '''void Signature::Reset()
{
''', '''static std::string RequiredTag(const DKIM::TagList& list, const std::string& name, const std::string& error)
{
	DKIM::TagListEntry entry;
	if (!list.GetTag(name, entry))
		throw DKIM::PermanentError(error);
	return entry.GetValue();
}

void Signature::Reset()
{
''')]),
dict(ID='b-sig-canon', PROPS=['C05', 'C07'], EDITS=[
 ('src/Signature.cpp', '''		if (header == "relaxed")
			m_header = DKIM_C_RELAXED;
		else if (header == "simple")
			m_header = DKIM_C_SIMPLE;
		else
			throw DKIM::PermanentError(StringFormat("Unsupported canonicalization type %s (c supports simple, relaxed)",
						header.c_str()
						)
					);

		if (body == "relaxed")
			m_body = DKIM_C_RELAXED;
		else if (body == "simple")
			m_body = DKIM_C_SIMPLE;
		else
			throw DKIM::PermanentError(StringFormat("Unsupported canonicalization type %s (c supports simple, relaxed)",
						body.c_str()
						)
					);
''', '''		m_header = CanonModeFromString(header);
		m_body = CanonModeFromString(body);
'''),
 ('src/Signature.cpp', '''void Signature::Reset()
{
''', '''static DKIM::CanonMode CanonModeFromString(const std::string& mode)
{
	if (mode == "simple")
		return DKIM::DKIM_C_SIMPLE;
	if (mode == "relaxed")
		return DKIM::DKIM_C_RELAXED;
	throw DKIM::PermanentError(StringFormat("Unsupported canonicalization type %s (c supports simple, relaxed)",
				mode.c_str()
				)
			);
}

void Signature::Reset()
{
'''),
 ('src/Signature.cpp', '''		std::string body, header;

		size_t split = c.GetValue().find('/');
		if (split == std::string::npos)
		{
			header = c.GetValue();
			body = "simple";
		} else {
			header = c.GetValue().substr(0, split);
			body = c.GetValue().substr(split + 1);
		}
''', '''		std::string header = c.GetValue(), body = "simple";

		size_t split = header.find('/');
		if (split != std::string::npos)
		{
			body = header.substr(split + 1);
			header.erase(split);
		}
''')]),
dict(ID='b-sig-subdomain', PROPS=['C06'], EDITS=[
 ('src/Signature.cpp', '''			if (m_mailDomain == m_domain) {
				// same domain
			} else if (m_mailDomain.size() > m_domain.size() && ("." + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)) {
				// same sub-domain (.domain =~ my.sub.domain)
			} else {
				throw DKIM::PermanentError(''', '''			bool match = (m_mailDomain == m_domain);
			if (!match && m_mailDomain.size() > m_domain.size())
			{
				// same sub-domain (.domain =~ my.sub.domain)
				size_t dot = m_mailDomain.size() - m_domain.size() - 1;
				match = m_mailDomain[dot] == '.' && m_mailDomain.substr(dot + 1) == m_domain;
			}
			if (!match)
			{
				throw DKIM::PermanentError(''')]),
dict(ID='b-sig-expire', PROPS=['C07'], EDITS=[
 ('src/Signature.cpp', '''		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))
			throw DKIM::PermanentError("Signature has expired (x)");
''', '''		const time_t now = time(nullptr);
		const long expiration = strtol(x.GetValue().c_str(), nullptr, 10);
		if (now > expiration)
			throw DKIM::PermanentError("Signature has expired (x)");
'''),
 ('src/Signature.cpp', '''	// Signature Timestamp
	TagListEntry t;
	if (m_tagList.GetTag("t", t))
		; // ignored

''', '')]),
dict(ID='b-sig-algo', PROPS=['C05'], EDITS=[
 ('src/Signature.cpp', '''	if (a.GetValue() == "rsa-sha256")
	{
		m_digestAlgorithm = DKIM_A_SHA256;
		m_signatureAlgorithm = DKIM_SA_RSA;
	}
	else if (a.GetValue() == "rsa-sha1")
	{
		m_digestAlgorithm = DKIM_A_SHA1;
		m_signatureAlgorithm = DKIM_SA_RSA;
	}
	else if (a.GetValue() == "ed25519-sha256")
	{
		m_digestAlgorithm = DKIM_A_SHA256;
		m_signatureAlgorithm = DKIM_SA_ED25519;
	}
	else
		throw''', '''	const std::string& algorithm = a.GetValue();
	if (algorithm == "rsa-sha256" || algorithm == "rsa-sha1")
	{
		m_signatureAlgorithm = DKIM_SA_RSA;
		m_digestAlgorithm = (algorithm == "rsa-sha1") ? DKIM_A_SHA1 : DKIM_A_SHA256;
	}
	else if (algorithm == "ed25519-sha256")
	{
		m_signatureAlgorithm = DKIM_SA_ED25519;
		m_digestAlgorithm = DKIM_A_SHA256;
	}
	else
		throw''')]),
dict(ID='b-sig-base64', PROPS=['C05', 'C10', 'C16'], EDITS=[
 ('src/Signature.cpp', '''	std::string btmp = b.GetValue();
	btmp.erase(remove_if(btmp.begin(), btmp.end(), isspace), btmp.end());
	m_b = Base64_Decode(btmp);
''', '''	m_b = DecodeFolded(b.GetValue());
'''),
 ('src/Signature.cpp', '''	std::string bhtmp = bh.GetValue();
	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());
	m_bh = Base64_Decode(bhtmp);
''', '''	m_bh = DecodeFolded(bh.GetValue());
'''),
 ('src/Signature.cpp', '''void Signature::Reset()
{
''', '''namespace {
std::string DecodeFolded(std::string data)
{
	data.erase(std::remove_if(data.begin(), data.end(), isspace), data.end());
	return Base64_Decode(data);
}
}

void Signature::Reset()
{
''')]),
dict(ID='b-key-hash', PROPS=['C08'], EDITS=[
 ('src/PublicKey.cpp', '''		for (std::list<std::string>::const_iterator a = algo.begin();
				a != algo.end(); ++a)
		{
			if (*a == "sha256")
				m_digestAlgorithms.push_back(DKIM_A_SHA256);
			else if (*a == "sha1")
				m_digestAlgorithms.push_back(DKIM_A_SHA1);
		}
''', '''		for (const std::string & name : algo)
		{
			if (name == "sha1")
				m_digestAlgorithms.push_back(DKIM_A_SHA1);
			if (name == "sha256")
				m_digestAlgorithms.push_back(DKIM_A_SHA256);
		}
'''),
 ('src/PublicKey.cpp', '''	TagListEntry k;
	if (m_tagList.GetTag("k", k))
	{
		if (k.GetValue() == "rsa")
			m_signatureAlgorithm = DKIM_SA_RSA;
		else if (k.GetValue() == "ed25519")
			m_signatureAlgorithm = DKIM_SA_ED25519;
		else
			throw''', '''	TagListEntry k;
	if (m_tagList.GetTag("k", k))
	{
		const std::string type = k.GetValue();
		if (type == "ed25519")
			m_signatureAlgorithm = DKIM_SA_ED25519;
		else if (type == "rsa")
			m_signatureAlgorithm = DKIM_SA_RSA;
		else
			throw''')]),
dict(ID='b-key-rsa', PROPS=['C08', 'C20'], EDITS=[
 ('src/PublicKey.cpp', '''			std::string tmp = Base64_Decode(ptmp);
			const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
			EVP_PKEY* publicKey = d2i_PUBKEY(nullptr, &tmp2, tmp.size());

			if (publicKey == nullptr)
				throw DKIM::PermanentError("Public key could not be loaded (invalid DER data)");

#if OPENSSL_VERSION_NUMBER < 0x10100000
			if (publicKey->type != EVP_PKEY_RSA && publicKey->type != EVP_PKEY_RSA2)
#else
			if (EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA && EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA2)
#endif
			{
				EVP_PKEY_free(publicKey);
				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");
			}

			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
			EVP_PKEY_free(publicKey);
''', '''			m_publicKeyRSA = LoadRSA(Base64_Decode(ptmp));
'''),
 ('src/PublicKey.cpp', '''void PublicKey::Reset()
{
''', '''static RSA* LoadRSA(const std::string& der)
{
	const unsigned char* data = reinterpret_cast<const unsigned char*>(der.data());
	EVP_PKEY* key = d2i_PUBKEY(nullptr, &data, der.size());
	if (!key)
		throw DKIM::PermanentError("Public key could not be loaded (invalid DER data)");

	const int type = EVP_PKEY_base_id(key);
	if (type != EVP_PKEY_RSA && type != EVP_PKEY_RSA2)
	{
		EVP_PKEY_free(key);
		throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");
	}

	RSA* rsa = EVP_PKEY_get1_RSA(key);
	EVP_PKEY_free(key);
	return rsa;
}

void PublicKey::Reset()
{
''')]),
dict(ID='b-key-service', PROPS=['C08'], EDITS=[
 ('src/PublicKey.cpp', '''		bool allServices = false;
		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
		for (std::list<std::string>::const_iterator a = type.begin();
				a != type.end(); ++a)
		{
			if (*a == "email")
				m_serviceType.push_back(DKIM_S_EMAIL);
			else if (*a == "*")
			{
				m_serviceType.clear();
				allServices = true;
				break;
			}
		}
''', '''		bool allServices = false;
		for (const auto & service : DKIM::Tokenizer::ValueList(s.GetValue()))
		{
			if (service == "*")
			{
				allServices = true;
				m_serviceType.clear();
				break;
			}
			if (service == "email")
				m_serviceType.push_back(DKIM_S_EMAIL);
		}
''')]),
dict(ID='b-val-ctor', PROPS=['C03', 'C23', 'C09'], EDITS=[
 ('src/Validatory.cpp', '''	if (type == NONE)
		return;

	DKIM::Message::HeaderList::const_iterator i;
	for (i = m_msg.GetHeaders().begin(); i != m_msg.GetHeaders().end(); ++i)
	{
		// headers should be matched in lower-case
		std::string headerName = (*i)->GetName();
		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);

		// collect all signatures
		if ((type == DKIM && headerName == "dkim-signature") ||
			(type == ARC && headerName == "arc-message-signature"))
		{
			m_dkimHeaders.push_back(*i);
		}
	}
''', '''	std::string wanted;
	switch (type)
	{
		case NONE:
			return;
		case DKIM:
			wanted = "dkim-signature";
			break;
		case ARC:
			wanted = "arc-message-signature";
			break;
	}

	for (const auto & header : m_msg.GetHeaders())
	{
		// headers should be matched in lower-case
		std::string headerName = header->GetName();
		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);

		// collect all signatures
		if (headerName == wanted)
			m_dkimHeaders.push_back(header);
	}
''')]),
dict(ID='b-val-query', PROPS=['C11', 'C12'], EDITS=[
 ('src/Validatory.cpp', '''	if (sig.GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT)
	{
		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();
		std::string publicKey;

		if ((CustomDNSResolver?
					CustomDNSResolver(query, publicKey, CustomDNSData):
					DKIM::Util::Resolver().GetTXT(query, publicKey)
			))
		{
			if (publicKey.empty())
				throw DKIM::PermanentError(StringFormat("No key for signature %s._domainkey.%s",
							sig.GetSelector().c_str(),
							sig.GetDomain().c_str()
							)
						);
			pubkey.Parse(publicKey);
			return;
		}
		throw DKIM::TemporaryError(StringFormat("DNS query failed for %s._domainkey.%s",
					sig.GetSelector().c_str(),
					sig.GetDomain().c_str()
					)
				);
	}
	throw DKIM::PermanentError(StringFormat("Unsupported query type %d",
				(int)sig.GetQueryType()
				)
			);
''', '''	if (sig.GetQueryType() != DKIM::Signature::DKIM_Q_DNSTXT)
		throw DKIM::PermanentError(StringFormat("Unsupported query type %d",
					(int)sig.GetQueryType()
					)
				);

	const std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();
	std::string record;

	bool found;
	if (CustomDNSResolver)
		found = CustomDNSResolver(query, record, CustomDNSData);
	else
		found = DKIM::Util::Resolver().GetTXT(query, record);

	if (!found)
		throw DKIM::TemporaryError(StringFormat("DNS query failed for %s", query.c_str()));
	if (record.empty())
		throw DKIM::PermanentError(StringFormat("No key for signature %s", query.c_str()));

	pubkey.Parse(record);
''')]),
dict(ID='b-val-bodyhash', PROPS=['C10', 'C13'], EDITS=[
 ('src/Validatory.cpp', '''	switch (sig.GetDigestAlgorithm())
	{
		case DKIM::DKIM_A_SHA1:
			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
			break;
		case DKIM::DKIM_A_SHA256:
			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
			break;
	}
''', '''	EVP_DigestInit_ex(evpmdbody.get(), sig.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1 ? EVP_sha1() : EVP_sha256(), nullptr);
'''),
 ('src/Validatory.cpp', '''	if (sig.GetBodyHash().size() != md_len ||
			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)
	{
		throw DKIM::PermanentError("Body hash did not verify", AR_FAIL);
	}
''', '''	const std::string computed((const char*)md_value, md_len);
	if (computed != sig.GetBodyHash())
		throw DKIM::PermanentError("Body hash did not verify", AR_FAIL);
''')]),
dict(ID='b-val-verify', PROPS=['C09'], EDITS=[
 ('src/Validatory.cpp', '''			int r = RSA_verify(md_nid,
						md,
						md_len,
						(const unsigned char *)sig.GetSignatureData().c_str(),
						(unsigned int)sig.GetSignatureData().size(),
						pub.GetRSAPublicKey());
			if (r != 1)
				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
''', '''			const std::string& data = sig.GetSignatureData();
			verified = RSA_verify(md_nid, md, md_len,
						(const unsigned char *)data.data(), data.size(),
						pub.GetRSAPublicKey()) == 1;
'''),
 ('src/Validatory.cpp', '''	// verify the header signature
	switch''', '''	// verify the header signature
	bool verified = false;
	switch'''),
 ('src/Validatory.cpp', '''			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||
					crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
						md,
						md_len,
						(const unsigned char *)pub.GetED25519PublicKey().c_str()) != 0)
					throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
		break;
	}

	// success!
''', '''			if (sig.GetSignatureData().size() == crypto_sign_BYTES)
				verified = crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
						md,
						md_len,
						(const unsigned char *)pub.GetED25519PublicKey().c_str()) == 0;
		break;
	}

	if (!verified)
		throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
''')]),
dict(ID='b-val-headers', PROPS=['C09', 'C23'], EDITS=[
 ('src/Validatory.cpp', '''		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);

		// if this occurred
		// 1. we do not have a header of that name at all
		// 2. all headers with that name has been included...
		if (head == headerCache.end() || head->second.size() == 0)
			continue;
''', '''		auto head = headerCache.find(name);

		// if this occurred
		// 1. we do not have a header of that name at all
		if (head == headerCache.end())
			continue;
		// 2. all headers with that name has been included...
		Message::HeaderList & remaining = head->second;
		if (remaining.empty())
			continue;
'''),
 ('src/Validatory.cpp', '''		tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\\r\\n";
		head->second.pop_back();
		EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
''', '''		const std::shared_ptr<Header> last = remaining.back();
		remaining.pop_back();
		tmp = canonicalhead.FilterHeader(last->GetHeader());
		tmp += "\\r\\n";
		EVP_DigestUpdate(evpmdhead.get(), tmp.data(), tmp.length());
''')]),
dict(ID='b-val-sanity', PROPS=['C09', 'C08'], EDITS=[
 ('src/Validatory.cpp', '''	if (pub.GetDigestAlgorithms().size() > 0)
		if (find(pub.GetDigestAlgorithms().begin(), pub.GetDigestAlgorithms().end(), sig.GetDigestAlgorithm()) == pub.GetDigestAlgorithms().end())
			throw DKIM::PermanentError("Algorithm is not allowed");
''', '''	const auto & allowed = pub.GetDigestAlgorithms();
	if (!allowed.empty())
	{
		bool found = false;
		for (const auto & algorithm : allowed)
		{
			if (algorithm == sig.GetDigestAlgorithm())
				found = true;
		}
		if (!found)
			throw DKIM::PermanentError("Algorithm is not allowed");
	}
'''),
 ('src/Validatory.cpp', '''	if (!sig.IsARC())
	{
		if (find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())
			if (sig.GetDomain() != sig.GetMailDomain())
				throw DKIM::PermanentError("Domain must match sub-domain (flag s)");
	}
''', '''	if (!sig.IsARC() && sig.GetDomain() != sig.GetMailDomain() &&
			find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())
		throw DKIM::PermanentError("Domain must match sub-domain (flag s)");
''')]),
dict(ID='b-mail-back', PROPS=['C03', 'C23'], EDITS=[
 ('src/MailParser.cpp', '''	if (line.size() > 0 && line[line.size()-1] == '\\r')
		line.erase(line.size()-1);

	if (line.size() == 0)
''', '''	if (!line.empty() && line.back() == '\\r')
		line.pop_back();

	if (line.empty())
'''),
 ('src/MailParser.cpp', '''	if (line[0] != '\\t' && line[0] != ' ')
	{
		if (m_tmpHeader.get())
			m_header.push_back(m_tmpHeader);
		m_tmpHeader.reset(new Header());
	}

	if (!m_tmpHeader.get())
		m_tmpHeader.reset(new Header());
	m_tmpHeader->ParseLine(line);
''', '''	const bool continuation = (line[0] == ' ' || line[0] == '\\t');
	if (!continuation || !m_tmpHeader)
	{
		if (m_tmpHeader)
			m_header.push_back(m_tmpHeader);
		m_tmpHeader = std::shared_ptr<Header>(new Header());
	}
	m_tmpHeader->ParseLine(line);
''')]),
dict(ID='b-mail-name', PROPS=['C03', 'C09'], EDITS=[
 ('src/MailParser.cpp', '''		m_name = m_header.substr(0, sep);
		m_name.erase(0, m_name.find_first_not_of(" \\t"));
		m_name.erase(m_name.find_last_not_of(" \\t") + 1);
	}
	return true;
''', '''		size_t begin = m_header.find_first_not_of(" \\t");
		size_t end = sep;
		while (end > begin && (m_header[end - 1] == ' ' || m_header[end - 1] == '\\t'))
			--end;
		m_name = begin < end ? m_header.substr(begin, end - begin) : "";
	}
	return true;
''')]),
dict(ID='b-sign-split', PROPS=['C13', 'C14'], EDITS=[
 ('src/Signatory.cpp', '''		size_t offset = 3; // "\\tb=";
		std::string split = Base64_Encode(tmp3);
		while (!split.empty())
		{
			dkimHeader += split.substr(0, 80 - offset);
			split.erase(0, 80 - offset);
			if (!split.empty())
				dkimHeader += "\\r\\n\\t ";
			offset = 2; // "\\t ";
		}

		if (!dkimHeaders.empty())
			dkimHeaders.append("\\r\\n");
		dkimHeaders += dkimHeader;
''', '''		const std::string encoded = Base64_Encode(tmp3);
		size_t width = 80 - 3; // "\\tb=";
		for (size_t pos = 0; pos < encoded.size(); )
		{
			if (pos != 0)
				dkimHeader += "\\r\\n\\t ";
			dkimHeader += encoded.substr(pos, width);
			pos += width;
			width = 80 - 2; // "\\t ";
		}

		if (!dkimHeaders.empty())
			dkimHeaders += "\\r\\n";
		dkimHeaders += dkimHeader;
''')]),
dict(ID='b-sign-prefix', PROPS=['C13', 'C14', 'C24'], EDITS=[
 ('src/Signatory.cpp', '''		if (arcInstance)
			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
		else
			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
''', '''		if (arcInstance)
			dkimHeader = "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance);
		else
			dkimHeader = "DKIM-Signature: v=1";
		dkimHeader += "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm());
		dkimHeader += "; c=" + CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
''')]),
dict(ID='b-sign-time', PROPS=['C13', 'C24'], EDITS=[
 ('src/Signatory.cpp', '''			time_t expiration = (options.GetExpirationAbsolute() ? 0 : (timestamp == -1 ? time(nullptr) : timestamp)) + options.GetExpiration();
''', '''			time_t expiration = options.GetExpiration();
			if (!options.GetExpirationAbsolute())
			{
				time_t base = timestamp;
				if (base == -1)
					base = time(nullptr);
				expiration = base + expiration;
			}
'''),
 ('src/Signatory.cpp', '''			timestamp = options.GetTimestamp();
			if (timestamp == -1)
				timestamp = time(nullptr);
''', '''			timestamp = (options.GetTimestamp() != -1) ? options.GetTimestamp() : time(nullptr);
''')]),
dict(ID='b-sign-select', PROPS=['C13', 'C24'], EDITS=[
 ('src/Signatory.cpp', '''	bool signAll = false;
	if (headersToSign.empty()) signAll = true;
''', '''	const bool signAll = headersToSign.empty();
'''),
 ('src/Signatory.cpp', '''		if (!name.empty())
		{
			if (!signAll && headersToSign.find(name) == headersToSign.end())
				continue;
			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\\r\\n";
			if (!tmp.empty())
			{
				EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
				signedHeaders.push_back(name);
			}
		}
	}
''', '''		if (name.empty())
			continue;
		if (signAll || headersToSign.count(name) > 0)
		{
			std::string canonical = canonicalhead.FilterHeader((*h)->GetHeader());
			canonical += "\\r\\n";
			EVP_DigestUpdate(evpmdhead.get(), canonical.c_str(), canonical.size());
			signedHeaders.push_back(name);
		}
	}
'''),
 ('src/Signatory.cpp', '''	auto oversign = options.GetOversignHeaders();
	for (auto & i : oversign)
		transform(i.begin(), i.end(), i.begin(), tolower);
	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
''', '''	for (std::string name : options.GetOversignHeaders())
	{
		transform(name.begin(), name.end(), name.begin(), tolower);
		signedHeaders.push_back(name);
	}
''')]),
dict(ID='b-sign-rsa', PROPS=['C13', 'C20'], EDITS=[
 ('src/Signatory.cpp', '''				unsigned int sig_len;
				unsigned char* sig = new unsigned char[RSA_size(rsa)];

				int r = RSA_sign(md_nid,
						md,
						md_len,
						sig,
						&sig_len,
						rsa);

				if (r != 1)
				{
					delete [] sig;
					throw DKIM::PermanentError("Message could not be signed");
				}

				tmp3 = std::string((const char*)sig, sig_len);
				delete [] sig;
''', '''				unsigned int sig_len;
				std::vector<unsigned char> sig(RSA_size(rsa));

				if (RSA_sign(md_nid, md, md_len, sig.data(), &sig_len, rsa) != 1)
					throw DKIM::PermanentError("Message could not be signed");

				tmp3.assign((const char*)sig.data(), sig_len);
'''),
 ('src/Signatory.cpp', '''#include <set>
''', '''#include <set>
#include <vector>
''')]),
dict(ID='b-sign-helist', PROPS=['C14', 'C13'], EDITS=[
 ('src/Signatory.cpp', '''		std::string headerlist = "\\th=";
		for (std::list<std::string>::const_iterator i = signedHeaders.begin();
			i != signedHeaders.end(); ++i)
		{
			bool insertColon = (i != signedHeaders.begin());
			if (headerlist.size() + i->size() + (insertColon?1:0) > 80)
			{
				dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";
				headerlist = "\\t " + *i;
			} else {
				headerlist += (insertColon?":":"") + *i;
			}
		}
		dkimHeader += headerlist + ";\\r\\n";
''', '''		std::string headerlist = "\\th=";
		bool first = true;
		for (const auto & name : signedHeaders)
		{
			const std::string separator = first ? "" : ":";
			first = false;
			if (headerlist.size() + name.size() + separator.size() > 80)
			{
				dkimHeader += headerlist + separator + "\\r\\n";
				headerlist = "\\t " + name;
			} else {
				headerlist += separator + name;
			}
		}
		dkimHeader += headerlist + ";\\r\\n";
''')]),
dict(ID='b-tok-ws', PROPS=['C22', 'C02'], EDITS=[
 ('src/Tokenizer.cpp', '''				std::string _s;
				if (stream.peek() == ' ' || stream.peek() == '\\t')
				{
					_s += (char)stream.get(); // discard wsp
					return _s;
				}
				return "";
''', '''				const int next = stream.peek();
				if (next != ' ' && next != '\\t')
					return "";
				return std::string(1, (char)stream.get()); // discard wsp
''')]),
dict(ID='b-tok-fws', PROPS=['C22', 'C02'], EDITS=[
 ('src/Tokenizer.cpp', '''				if ((_t = ReadWhiteSpace(stream, READ_WSP)).empty())
					goto unwind;
				_s += _t;

				while (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty())
				{ _s += _t; }

				return _s;
unwind:
				stream.clear();
				for (size_t i = _s.size(); i > 0; i--)
				{
					stream.putback(_s[i-1]);
				}
				return "";
''', '''				if ((_t = ReadWhiteSpace(stream, READ_WSP)).empty())
				{
					stream.clear();
					for (size_t i = _s.size(); i > 0; i--)
					{
						stream.putback(_s[i-1]);
					}
					return "";
				}
				_s += _t;

				while (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty())
				{ _s += _t; }

				return _s;
''')]),
dict(ID='b-tok-unwind', PROPS=['C22'], EDITS=[
 ('src/Tokenizer.cpp', '''				for (size_t i = _s.size(); i > 0; i--)
				{
					stream.putback(_s[i-1]);
				}
''', '''				for (std::string::const_reverse_iterator i = _s.rbegin(); i != _s.rend(); ++i)
					stream.putback(*i);
''')]),
dict(ID='b-vlist', PROPS=['C22', 'C05', 'C08'], EDITS=[
 ('src/Tokenizer.cpp', '''			std::string ws = ReadWhiteSpace(data, READ_FWS);
			if (ws.empty())
			{
				if (data.peek() == ':' || data.peek() == EOF)
					break;

				if (!value_buf.empty())
				{
					value += value_buf;
					value_buf = "";
				}

				value += (char)data.get();
			}

			value_buf += ws;
''', '''			std::string ws = ReadWhiteSpace(data, READ_FWS);
			if (!ws.empty())
			{
				value_buf += ws;
				continue;
			}

			const int next = data.peek();
			if (next == EOF || next == ':')
				break;

			value += value_buf;
			value_buf.clear();
			value += (char)data.get();
''')]),
dict(ID='b-addr', PROPS=['C18'], EDITS=[
 ('src/Tokenizer.cpp', '''			case TOK_QUOTED:
				tokens.push_back(token);
			break;
			case TOK_ATOM:
				tokens.push_back(token);
			break;
			case TOK_COMMENT:
				// ignore comments
			break;
''', '''			case TOK_COMMENT:
				// ignore comments
			break;
			case TOK_ATOM:
			case TOK_QUOTED:
				tokens.push_back(token);
			break;
'''),
 ('src/Tokenizer.cpp', '''				int i = data.get();
				char c = (char)i;

				if (i == EOF) {
					throw DKIM::PermanentError("unclosed string");
				} else if (c == '\\\\') {
''', '''				const int i = data.get();
				if (i == EOF)
					throw DKIM::PermanentError("unclosed string");

				const char c = (char)i;
				if (c == '\\\\') {
''')]),
dict(ID='b-addr-tok', PROPS=['C18'], EDITS=[
 ('src/Tokenizer.cpp', '''		if (data.peek() == '<')
		{
			if (!token.empty()) return TOK_ATOM;
			data.get();
			return TOK_TAG_OPEN;
		}
		if (data.peek() == '>')
		{
			if (!token.empty()) return TOK_ATOM;
			data.get();
			return TOK_TAG_CLOSE;
		}
		if (data.peek() == ',' || data.peek() == ';')
		{
			if (!token.empty()) return TOK_ATOM;
			data.get();
			return TOK_SEPARATOR;
		}
''', '''		const int special = data.peek();
		if (special == '<' || special == '>' || special == ',' || special == ';')
		{
			if (!token.empty())
				return TOK_ATOM;
			data.get();
			if (special == '<')
				return TOK_TAG_OPEN;
			return special == '>' ? TOK_TAG_CLOSE : TOK_SEPARATOR;
		}
''')]),
dict(ID='b-res', PROPS=['C12', 'C20'], EDITS=[
 ('src/Resolver.cpp', '''		// permanent errors
		if (err == NO_DATA)
			return true;
		if (err == HOST_NOT_FOUND)
			return true;
		if (err == NO_RECOVERY)
			return true;

		// TRY_AGAIN
		return false;
''', '''		// permanent errors, anything else is TRY_AGAIN
		return err == NO_DATA || err == HOST_NOT_FOUND || err == NO_RECOVERY;
'''),
 ('src/Resolver.cpp', '''						while (rec_len_left > 0)
						{
							size_t txt_len = *ptr;
							if (txt_len >= rec_len_left)
								break;

							result.append((const char*)ptr + 1, txt_len);

							rec_len_left -= txt_len + 1;
							ptr += txt_len + 1;
						}
						answerptr += s;
''', '''						while (rec_len_left > 0)
						{
							const size_t len = *ptr++;
							--rec_len_left;
							if (len > rec_len_left)
								break;

							result += std::string((const char*)ptr, len);
							rec_len_left -= len;
							ptr += len;
						}
						answerptr += s;
''')]),
dict(ID='b-res-switch', PROPS=['C12', 'C20'], EDITS=[
 ('src/Resolver.cpp', '''			switch (t)
			{
				case T_TXT:
					{
						const unsigned char* ptr = answerptr;
						size_t rec_len_left = s;
''', '''			if (t == T_TXT)
			{
					{
						const unsigned char* ptr = answerptr;
						size_t rec_len_left = s;
'''),
 ('src/Resolver.cpp', '''						answerptr += s;
					}
					break;
				default:
					// Skip eg. C_NAME
					answerptr += s;
			}
''', '''					}
			}
			// Skip eg. C_NAME
			answerptr += s;
'''),
 ('src/Resolver.cpp', '''	int x, s;
	for (x = 0, s = dn_skipname(answerptr, answer + answer_length);
			x < qc && s >= 0;
			++x, s = dn_skipname(answerptr, answer + answer_length))
	{
		if (s >= 0)
			answerptr += s + QFIXEDSZ;
	}
''', '''	int x, s;
	unsigned char* const end = answer + answer_length;
	for (x = 0; x < qc; ++x)
	{
		s = dn_skipname(answerptr, end);
		if (s < 0)
			break;
		answerptr += s + QFIXEDSZ;
	}
''')]),
dict(ID='b-tag-insert', PROPS=['C04', 'C05'], EDITS=[
 ('src/TagList.cpp', '''		m_tags[name] = tagEntry;
''', '''		m_tags.insert(std::make_pair(name, tagEntry));
''')]),
dict(ID='b-tag-value', PROPS=['C04'], EDITS=[
 ('src/TagList.cpp', '''		while (data.peek() != ';' && data.peek() != EOF)
		{
			if (
					(data.peek() >= '\\x21' && data.peek() <= '\\x3A') ||
					(data.peek() >= '\\x3C' && data.peek() <= '\\x7E')
			   ) {
				if (!value_buf.empty())
				{
					value += value_buf;
					value_buf = "";
				}

				value += (char)data.get();
				continue;
			}
''', '''		while (true)
		{
			int c = data.peek();
			if (c == ';' || c == EOF)
				break;

			if (c >= '\\x21' && c <= '\\x7E')
			{
				value += value_buf + (char)data.get();
				value_buf.clear();
				continue;
			}
''')]),
dict(ID='b-tag-get', PROPS=['C04', 'C05'], EDITS=[
 ('src/TagList.cpp', '''	std::map<std::string, TagListEntry>::const_iterator i = m_tags.find(name);
	if (i == m_tags.end())
		return false;

	tag = i->second;
	return true;
''', '''	const auto found = m_tags.find(name);
	if (found != m_tags.end())
	{
		tag = found->second;
		return true;
	}
	return false;
'''),
 ('src/TagList.cpp', '''		if (m_tags.find(name) != m_tags.end())
''', '''		if (m_tags.count(name))
''')]),
dict(ID='b-b64', PROPS=['C16'], EDITS=[
 ('src/Base64.cpp', '''	char b[1024];
	int r;
	std::string result;
	while ((r = BIO_read(l, b, sizeof b)) > 0)
		result.append(b, (size_t)r);

	BIO_free_all(l);
	return result;
''', '''	char buffer[512];
	std::string result;
	while (true)
	{
		int count = BIO_read(l, buffer, sizeof buffer);
		if (count <= 0)
			break;
		result += std::string(buffer, (size_t)count);
	}

	BIO_free_all(l);
	return result;
''')]),
dict(ID='b-ew', PROPS=['C17'], EDITS=[
 ('src/EncodedWord.cpp', '''				buffer += (char)data.get();
				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						charset += (char)data.get();
				}
				buffer += charset;
''', '''				buffer += (char)data.get();
				charset = ReadPart(data, fail);
				buffer += charset;
'''),
 ('src/EncodedWord.cpp', '''				buffer += (char)data.get();
				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						encoding += (char)data.get();
				}
				buffer += encoding;
''', '''				buffer += (char)data.get();
				encoding = ReadPart(data, fail);
				buffer += encoding;
'''),
 ('src/EncodedWord.cpp', '''				buffer += (char)data.get();
				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						encdata += (char)data.get();
				}
				buffer += encdata;
''', '''				buffer += (char)data.get();
				encdata = ReadPart(data, fail);
				buffer += encdata;
'''),
 ('src/EncodedWord.cpp', '''std::string EncodedWord::Decode(const std::string& input)
{
''', '''static std::string ReadPart(std::istream& data, bool& fail)
{
	std::string part;
	while (data.peek() != '?')
	{
		if (data.peek() == EOF)
		{
			fail = true;
			break;
		}
		part += (char)data.get();
	}
	return part;
}

std::string EncodedWord::Decode(const std::string& input)
{
''')]),
dict(ID='b-qp-encode', PROPS=['C15', 'C13'], EDITS=[
 ('src/QuotedPrintable.cpp', '''	for (char i : input)
	{
		if (qp_table[(unsigned char)i] == 1)
			result += i;
		else {
			static char qp_digits[] = "0123456789ABCDEF";
			result += "=";
			result += qp_digits[(i >> 4) & 0x0f];
			result += qp_digits[(i & 0x0f)];
		}
	}
	return result;
''', '''	static const char digits[] = "0123456789ABCDEF";
	for (size_t i = 0; i < input.size(); ++i)
	{
		const unsigned char c = input[i];
		if (qp_table[c] != 1)
		{
			result += '=';
			result += digits[c >> 4];
			result += digits[c & 0x0f];
			continue;
		}
		result += (char)c;
	}
	return result;
''')]),
dict(ID='b-qp-decode', PROPS=['C15', 'C06'], EDITS=[
 ('src/QuotedPrintable.cpp', '''		if (data.peek() == EOF) break;

		if (convert_to_space && data.peek() == '_')
		{
			data.get();
			output += " ";
			continue;
		}
''', '''		const int c = data.peek();
		if (c == EOF)
			return output;

		if (c == '_' && convert_to_space)
		{
			data.get();
			output += ' ';
			continue;
		}
'''),
 ('src/QuotedPrintable.cpp', '''			output += (char)strtol(hex.c_str(), nullptr, 16);
''', '''			output += (char)((HexDigit(hex[0]) << 4) | HexDigit(hex[1]));
'''),
 ('src/QuotedPrintable.cpp', '''std::string QuotedPrintable::Decode(''', '''static int HexDigit(char c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	return c - 'A' + 10;
}

std::string QuotedPrintable::Decode(''')]),
dict(ID='b-opts', PROPS=['C24', 'C19'], EDITS=[
 ('src/SignatoryOptions.cpp', '''	for (const auto & header : headers)
		m_headers.remove(header);
	return *this;
''', '''	for (std::list<std::string>::const_iterator i = headers.begin(); i != headers.end(); ++i)
		m_headers.remove(*i);
	return *this;
'''),
 ('src/SignatoryOptions.cpp', '''	m_headers.insert(m_headers.end(), headers.begin(), headers.end());
	return *this;
''', '''	for (const auto & header : headers)
		m_headers.push_back(header);
	return *this;
'''),
 ('src/SignatoryOptions.cpp', '''	if (!DKIM::Util::ValidateDomain(domain))
		throw DKIM::PermanentError("Invalid domain (d=)");

	*m_domain = domain;
	return *this;
''', '''	if (DKIM::Util::ValidateDomain(domain))
	{
		*m_domain = domain;
		return *this;
	}
	throw DKIM::PermanentError("Invalid domain (d=)");
''')]),
dict(ID='b-opts-key', PROPS=['C24', 'C20'], EDITS=[
 ('src/SignatoryOptions.cpp', '''				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
				EVP_PKEY_free(privateKey);
			} else {
''', '''				RSA* rsa = EVP_PKEY_get1_RSA(privateKey);
				EVP_PKEY_free(privateKey);
				*m_privateKeyRSA = rsa;
			} else {
'''),
 ('src/SignatoryOptions.cpp', '''				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
				if (!*m_privateKeyRSA)
					throw''', '''				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
				*m_privateKeyRSA = rsa;
				if (rsa == nullptr)
					throw'''),
 ('src/SignatoryOptions.cpp', '''	m_privateKeyRSA = &f.m_privateKeyRSA;
	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
	m_privateKeyED25519 = &f.m_privateKeyED25519;
	m_selector = &f.m_selector;
	m_domain = &f.m_domain;
	m_signatureAlgorithm = &f.m_signatureAlgorithm;
	m_digestAlgorithm = DKIM_A_SHA256;
''', '''	m_digestAlgorithm = DKIM_A_SHA256;
	m_selector = &f.m_selector;
	m_domain = &f.m_domain;
	m_signatureAlgorithm = &f.m_signatureAlgorithm;
	m_privateKeyRSA = &f.m_privateKeyRSA;
	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
	m_privateKeyED25519 = &f.m_privateKeyED25519;
''')]),
]
