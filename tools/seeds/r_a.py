REFS = [
dict(ID='r-body-emit', PROPS=['C01','C10','C13'], EDITS=[
 ('src/Canonicalization.cpp', '''			if (bodyLimit)
			{
				size_t left = std::min(buf.size(), bodySize);
				func(buf.c_str(), left);
				bodySize -= left;
			} else {
				func(buf.c_str(), buf.size());
			}

			if (!buf.empty())
				emptyBody = false;
''', '''			EmitBody(buf, bodyLimit, bodySize, func);

			emptyBody = emptyBody && buf.empty();
'''),
 ('src/Canonicalization.cpp', '''		std::string buf = "\\r\\n";
		if (bodyLimit)
		{
			size_t left = std::min(buf.size(), bodySize);
			func(buf.c_str(), left);
			bodySize -= left;
		} else {
			func(buf.c_str(), buf.size());
		}
''', '''		EmitBody("\\r\\n", bodyLimit, bodySize, func);
'''),
 ('src/Canonicalization.cpp', 'bool DKIM::Conversion::CanonicalizationBody(', '''static void EmitBody(const std::string& data, bool limited, size_t& remaining, const std::function<void(const char *, size_t)>& func)
{
	if (!limited)
	{
		func(data.c_str(), data.size());
		return;
	}
	size_t left = std::min(data.size(), remaining);
	func(data.c_str(), left);
	remaining -= left;
}

bool DKIM::Conversion::CanonicalizationBody('''),
]),
dict(ID='r-body-loop', PROPS=['C01'], EDITS=[
 ('src/Canonicalization.cpp', '			for (size_t i = 0; i < stream.gcount(); ++i)\n			{\n				if (buffer[i] == \'\\r\')\n					continue;\n				if (buffer[i] == \'\\n\')',
  '			const size_t count = stream.gcount();\n			for (size_t i = 0; i < count; i++)\n			{\n				const char c = buffer[i];\n				if (c == \'\\r\')\n					continue;\n				if (c == \'\\n\')'),
 ('src/Canonicalization.cpp', '''				while (lines > 0)
				{
					buf += "\\r\\n";
					--lines;
				}
''', '''				for (; lines > 0; --lines)
					buf.append("\\r\\n");
'''),
 ('src/Canonicalization.cpp', '				buf += buffer[i];', '				buf.push_back(c);'),
]),
dict(ID='r-body-stmt', PROPS=['C01'], EDITS=[
 ('src/Canonicalization.cpp', '	if (emptyBody == false || type != DKIM::DKIM_C_RELAXED)\n	{', '	const bool finalNewline = !emptyBody || type == DKIM::DKIM_C_SIMPLE;\n	if (finalNewline)\n	{'),
 ('src/Canonicalization.cpp', '	return !(bodyLimit && bodySize > 0);', '	if (bodyLimit && bodySize != 0)\n		return false;\n	return true;'),
]),
dict(ID='r-head-helper', PROPS=['C02','C09'], EDITS=[
 ('src/Canonicalization.cpp', '''		bool found = false;
		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())
			found = true;
''', '''		const bool found = SkipFWS(data);
'''),
 ('src/Canonicalization.cpp', 'std::string CanonicalizationHeader::FilterHeader(', '''static bool SkipFWS(std::istream& stream)
{
	bool found = false;
	while (!ReadWhiteSpace(stream, DKIM::Tokenizer::READ_FWS).empty())
		found = true;
	return found;
}

std::string CanonicalizationHeader::FilterHeader('''),
]),
dict(ID='r-head-before', PROPS=['C02'], EDITS=[
 ('src/Canonicalization.cpp', '''	size_t colonAfter = x.find_first_not_of(' ', colonSplit + 1);
	if (colonAfter != std::string::npos)
		x.erase(colonSplit + 1, (colonAfter - 1) - (colonSplit));
''', '''	const size_t valueStart = colonSplit + 1;
	size_t colonAfter = x.find_first_not_of(' ', valueStart);
	if (colonAfter != std::string::npos)
		x.erase(valueStart, colonAfter - valueStart);
'''),
]),
dict(ID='r-mail', PROPS=['C03','C23'], EDITS=[
 ('src/MailParser.cpp', "	if (line.size() > 0 && line[line.size()-1] == '\\r')\n		line.erase(line.size()-1);\n\n	if (line.size() == 0)", "	if (!line.empty() && line.back() == '\\r')\n		line.pop_back();\n\n	if (line.empty())"),
 ('src/MailParser.cpp', '''	if (line[0] != '\\t' && line[0] != ' ')
	{
		if (m_tmpHeader.get())
			m_header.push_back(m_tmpHeader);
		m_tmpHeader.reset(new Header());
	}

	if (!m_tmpHeader.get())
		m_tmpHeader.reset(new Header());
	m_tmpHeader->ParseLine(line);
''', '''	const bool continuation = line[0] == '\\t' || line[0] == ' ';
	if (!continuation && m_tmpHeader)
	{
		m_header.push_back(m_tmpHeader);
		m_tmpHeader.reset();
	}

	if (!m_tmpHeader)
		m_tmpHeader = std::make_shared<Header>();
	m_tmpHeader->ParseLine(line);
'''),
]),
dict(ID='r-mail2', PROPS=['C03'], EDITS=[
 ('src/MailParser.cpp', '''	if (m_valueOffset == 0)
	{
		size_t sep = m_header.find(':');
		if (sep == std::string::npos)
			return false;
''', '''	if (m_valueOffset != 0)
		return true;
	{
		const std::string::size_type sep = m_header.find(':');
		if (sep == std::string::npos)
			return false;
'''),
]),
dict(ID='r-tag-isname', PROPS=['C04','C05'], EDITS=[
 ('src/TagList.cpp', '''		if (
				(data.peek() >= 'A' && data.peek() <= 'Z') ||
				(data.peek() >= 'a' && data.peek() <= 'z') ||
				(data.peek() >= '0' && data.peek() <= '9')
		   ) {
			name += (char)data.get();
		}
		while (
				(data.peek() >= 'A' && data.peek() <= 'Z') ||
				(data.peek() >= 'a' && data.peek() <= 'z') ||
				(data.peek() >= '0' && data.peek() <= '9') ||
				(data.peek() == '_')
			 ) {
			name += (char)data.get();
		}
''', '''		if (IsAlnum(data.peek()))
			name += (char)data.get();
		while (IsAlnum(data.peek()) || data.peek() == '_')
			name += (char)data.get();
'''),
 ('src/TagList.cpp', 'void TagList::Parse(', '''static bool IsAlnum(int c)
{
	return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9');
}

void TagList::Parse('''),
]),
dict(ID='r-tag-skip', PROPS=['C04'], EDITS=[
 ('src/TagList.cpp', '''		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE).empty());

		// ...
		if (data.peek() == EOF) break;
''', '''		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE).empty())
		{
		}

		// ...
		const int next = data.peek();
		if (next == EOF) break;
'''),
 ('src/TagList.cpp', '''				if (!value_buf.empty())
				{
					value += value_buf;
					value_buf = "";
				}

				value += (char)data.get();
				continue;''', '''				value += value_buf;
				value_buf.clear();
				value += (char)data.get();
				continue;'''),
 ('src/TagList.cpp', '		m_tags[name] = tagEntry;', '		m_tags.insert(std::make_pair(name, tagEntry));'),
]),
dict(ID='r-sig-from', PROPS=['C05','C06','C07','C10'], EDITS=[
 ('src/Signature.cpp', '''	bool signedFrom = false;
	for (std::list<std::string>::const_iterator i = m_headers.begin(); i != m_headers.end(); ++i)
	{
		if (strcasecmp(i->c_str(), "from") == 0)
		{
			signedFrom = true;
			break;
		}
	}
	if (!signedFrom)''', '''	if (!ContainsFrom(m_headers))'''),
 ('src/Signature.cpp', 'void Signature::Parse(', '''static bool ContainsFrom(const std::list<std::string>& headers)
{
	for (const auto & name : headers)
	{
		if (strcasecmp(name.c_str(), "from") == 0)
			return true;
	}
	return false;
}

void Signature::Parse('''),
]),
dict(ID='r-sig-strip', PROPS=['C05','C06','C07'], EDITS=[
 ('src/Signature.cpp', '''	std::string btmp = b.GetValue();
	btmp.erase(remove_if(btmp.begin(), btmp.end(), isspace), btmp.end());
	m_b = Base64_Decode(btmp);
''', '''	m_b = DecodeBase64Tag(b.GetValue());
'''),
 ('src/Signature.cpp', '''	std::string bhtmp = bh.GetValue();
	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());
	m_bh = Base64_Decode(bhtmp);
''', '''	m_bh = DecodeBase64Tag(bh.GetValue());
'''),
 ('src/Signature.cpp', 'void Signature::Parse(', '''static std::string DecodeBase64Tag(std::string value)
{
	value.erase(remove_if(value.begin(), value.end(), isspace), value.end());
	return Base64_Decode(value);
}

void Signature::Parse('''),
]),
dict(ID='r-sig-order', PROPS=['C05','C06','C07'], EDITS=[
 ('src/Signature.cpp', '''	// Selector
	TagListEntry s;
	if (!m_tagList.GetTag("s", s))
		throw DKIM::PermanentError("Missing query selector (s)");
	m_selector = s.GetValue();
''', ''),
 ('src/Signature.cpp', '''	// Version
	if (!m_arc)''', '''	// Selector
	TagListEntry s;
	if (!m_tagList.GetTag("s", s))
		throw DKIM::PermanentError("Missing query selector (s)");
	m_selector = s.GetValue();

	// Version
	if (!m_arc)'''),
]),
dict(ID='r-sig-len', PROPS=['C05','C07'], EDITS=[
 ('src/Signature.cpp', '''		if (l.GetValue().size() > 76)
			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)''', '''		const std::string& length = l.GetValue();
		if (length.size() > 76)
			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
		if (length.empty() || length.find_first_not_of("0123456789") != std::string::npos)'''),
 ('src/Signature.cpp', '		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);', '		const unsigned long bs = strtoul(length.c_str(), &ptr, 10);'),
]),
dict(ID='r-key-for', PROPS=['C08'], EDITS=[
 ('src/PublicKey.cpp', '''		for (std::list<std::string>::const_iterator a = algo.begin();
				a != algo.end(); ++a)
		{
			if (*a == "sha256")
				m_digestAlgorithms.push_back(DKIM_A_SHA256);
			else if (*a == "sha1")
				m_digestAlgorithms.push_back(DKIM_A_SHA1);
		}''', '''		for (const auto & name : algo)
		{
			if (name == "sha1")
				m_digestAlgorithms.push_back(DKIM_A_SHA1);
			else if (name == "sha256")
				m_digestAlgorithms.push_back(DKIM_A_SHA256);
		}'''),
]),
dict(ID='r-key-decode', PROPS=['C08'], EDITS=[
 ('src/PublicKey.cpp', '''	switch (m_signatureAlgorithm)
	{
		case DKIM_SA_RSA:
		{
			std::string tmp = Base64_Decode(ptmp);
''', '''	const std::string tmp = Base64_Decode(ptmp);
	switch (m_signatureAlgorithm)
	{
		case DKIM_SA_RSA:
		{
'''),
 ('src/PublicKey.cpp', '''		case DKIM_SA_ED25519:
		{
			std::string tmp = Base64_Decode(ptmp);
''', '''		case DKIM_SA_ED25519:
		{
'''),
]),
dict(ID='r-res-while', PROPS=['C12'], EDITS=[
 ('src/Resolver.cpp', '''						while (rec_len_left > 0)
						{
							size_t txt_len = *ptr;
							if (txt_len >= rec_len_left)
								break;

							result.append((const char*)ptr + 1, txt_len);

							rec_len_left -= txt_len + 1;
							ptr += txt_len + 1;
						}''', '''						for (size_t txt_len; rec_len_left > 0; ptr += txt_len + 1)
						{
							txt_len = ptr[0];
							if (rec_len_left < txt_len + 1)
								break;

							result += std::string((const char*)(ptr + 1), txt_len);
							rec_len_left -= 1 + txt_len;
						}'''),
 ('src/Resolver.cpp', '''		if (err == NO_DATA)
			return true;
		if (err == HOST_NOT_FOUND)
			return true;
		if (err == NO_RECOVERY)
			return true;

		// TRY_AGAIN
		return false;''', '''		return err == NO_DATA || err == HOST_NOT_FOUND || err == NO_RECOVERY;'''),
]),
dict(ID='r-qp-hex', PROPS=['C15','C17','C06'], EDITS=[
 ('src/QuotedPrintable.cpp', '''			std::string hex;
			if ((data.peek() >= 'A' && data.peek() <= 'F') || (data.peek() >= '0' && data.peek() <= '9'))
				hex += (char)data.get();
			else
				throw DKIM::PermanentError(StringFormat("Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld",
							data.peek() & 0xff,
							(ssize_t)data.tellg()
							)
						);

			if ((data.peek() >= 'A' && data.peek() <= 'F') || (data.peek() >= '0' && data.peek() <= '9'))
				hex += (char)data.get();
			else
				throw DKIM::PermanentError(StringFormat("Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld",
							data.peek() & 0xff,
							(ssize_t)data.tellg()
							)
						);
''', '''			std::string hex;
			for (int digits = 0; digits < 2; ++digits)
			{
				if (!IsHex(data.peek()))
					throw DKIM::PermanentError(StringFormat("Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld",
								data.peek() & 0xff,
								(ssize_t)data.tellg()
								)
							);
				hex += (char)data.get();
			}
'''),
 ('src/QuotedPrintable.cpp', 'std::string QuotedPrintable::Decode(', '''static bool IsHex(int c)
{
	return (c >= 'A' && c <= 'F') || (c >= '0' && c <= '9');
}

std::string QuotedPrintable::Decode('''),
]),
dict(ID='r-qp-reserve', PROPS=['C15','C13'], EDITS=[
 ('src/QuotedPrintable.cpp', '''	size_t len = 0;
	for (char i : input)
		len += qp_table[(unsigned char)i];
	std::string result;
	result.reserve(len);
	for (char i : input)
	{
		if (qp_table[(unsigned char)i] == 1)
			result += i;
		else {
			static char qp_digits[] = "0123456789ABCDEF";
			result += "=";
''', '''	static const char qp_digits[] = "0123456789ABCDEF";
	std::string result;
	for (const char i : input)
	{
		const bool plain = qp_table[(unsigned char)i] == 1;
		if (plain)
			result.push_back(i);
		else {
			result += '=';
'''),
]),
dict(ID='r-ew-lambda', PROPS=['C17'], EDITS=[
 ('src/EncodedWord.cpp', '''				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						charset += (char)data.get();
				}
				buffer += charset;''', '''				fail = !ReadPart(data, charset);
				buffer += charset;'''),
 ('src/EncodedWord.cpp', '''				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						encoding += (char)data.get();
				}
				buffer += encoding;''', '''				fail = !ReadPart(data, encoding);
				buffer += encoding;'''),
 ('src/EncodedWord.cpp', '''				while (!fail)
				{
					if (data.peek() == EOF) { fail = true; break; }
					if (data.peek() == '?')
						break;
					else
						encdata += (char)data.get();
				}
				buffer += encdata;''', '''				fail = !ReadPart(data, encdata);
				buffer += encdata;'''),
 ('src/EncodedWord.cpp', 'std::string EncodedWord::Decode(', '''static bool ReadPart(std::istream& data, std::string& part)
{
	while (data.peek() != EOF)
	{
		if (data.peek() == '?')
			return true;
		part += (char)data.get();
	}
	return false;
}

std::string EncodedWord::Decode('''),
]),
dict(ID='r-fws', PROPS=['C22','C02'], EDITS=[
 ('src/Tokenizer.cpp', '''				if ((_t = ReadWhiteSpace(stream, READ_WSP)).empty())
					goto unwind;
				_s += _t;

				while (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty())
				{ _s += _t; }

				return _s;
unwind:
				stream.clear();
				for (size_t i = _s.size(); i > 0; i--)
				{
					stream.putback(_s[i-1]);
				}
				return "";''', '''				if ((_t = ReadWhiteSpace(stream, READ_WSP)).empty())
				{
					stream.clear();
					for (size_t i = _s.size(); i > 0; i--)
						stream.putback(_s[i-1]);
					return "";
				}

				do
				{
					_s += _t;
				} while (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty());

				return _s;'''),
]),
dict(ID='r-vlist', PROPS=['C22','C05','C08'], EDITS=[
 ('src/Tokenizer.cpp', '''			std::string ws = ReadWhiteSpace(data, READ_FWS);
			if (ws.empty())
			{
				if (data.peek() == ':' || data.peek() == EOF)
					break;

				if (!value_buf.empty())
				{
					value += value_buf;
					value_buf = "";
				}

				value += (char)data.get();
			}

			value_buf += ws;''', '''			const std::string ws = ReadWhiteSpace(data, READ_FWS);
			if (!ws.empty())
			{
				value_buf += ws;
				continue;
			}

			const int c = data.peek();
			if (c == EOF || c == ':')
				break;

			value += value_buf;
			value_buf.clear();
			value += (char)data.get();'''),
]),
dict(ID='r-addr', PROPS=['C18'], EDITS=[
 ('src/Tokenizer.cpp', '''					for (std::list<std::string>::const_iterator i = addresses.begin(); i != addresses.end(); ++i)
					{
						list.push_back(*i);
					}''', '''					list.insert(list.end(), addresses.begin(), addresses.end());'''),
 ('src/Tokenizer.cpp', '''					for (std::list<std::string>::const_iterator i = tokens.begin(); i != tokens.end(); ++i)
					{
						tmp += *i;
					}
					list.push_back(tmp);''', '''					for (const auto & part : tokens)
						tmp += part;
					list.push_back(tmp);'''),
 ('src/Tokenizer.cpp', '''			case TOK_QUOTED:
				tokens.push_back(token);
			break;
			case TOK_ATOM:
				tokens.push_back(token);
			break;''', '''			case TOK_QUOTED:
			case TOK_ATOM:
				tokens.push_back(token);
			break;'''),
]),
dict(ID='r-b64', PROPS=['C16'], EDITS=[
 ('src/Base64.cpp', '''	while ((r = BIO_read(l, b, sizeof b)) > 0)
		result.append(b, (size_t)r);
''', '''	for (;;)
	{
		r = BIO_read(l, b, sizeof b);
		if (r <= 0)
			break;
		result.append(b, (size_t)r);
	}
'''),
]),
dict(ID='r-sign-lower', PROPS=['C13','C14'], EDITS=[
 ('src/Signatory.cpp', '''		transform(name.begin(), name.end(), name.begin(), tolower);
		headersToSign.insert(name);''', '''		headersToSign.insert(LowerCase(name));'''),
 ('src/Signatory.cpp', '''		std::string name = (*h)->GetName();
		transform(name.begin(), name.end(), name.begin(), tolower);
''', '''		const std::string name = LowerCase((*h)->GetName());
'''),
 ('src/Signatory.cpp', '''	bool signAll = false;
	if (headersToSign.empty()) signAll = true;
''', '''	const bool signAll = headersToSign.empty();
'''),
 ('src/Signatory.cpp', 'Signatory::Signatory(', '''static std::string LowerCase(std::string text)
{
	transform(text.begin(), text.end(), text.begin(), tolower);
	return text;
}

Signatory::Signatory('''),
]),
dict(ID='r-sign-fold', PROPS=['C13','C14'], EDITS=[
 ('src/Signatory.cpp', '''			bool insertColon = (i != signedHeaders.begin());
			if (headerlist.size() + i->size() + (insertColon?1:0) > 80)
			{
				dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";
				headerlist = "\\t " + *i;
			} else {
				headerlist += (insertColon?":":"") + *i;
			}''', '''			const std::string colon = i != signedHeaders.begin() ? ":" : "";
			if (headerlist.size() + colon.size() + i->size() <= 80)
			{
				headerlist += colon + *i;
				continue;
			}
			dkimHeader += headerlist + colon + "\\r\\n";
			headerlist = "\\t " + *i;'''),
]),
dict(ID='r-sign-copyctx', PROPS=['C13'], EDITS=[
 ('src/Signatory.cpp', '''		/*
		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
		EVP_DigestUpdate(evpmdhead.get(), tmp2.c_str(), tmp2.size());
		EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len);
		*/
''', ''),
 ('src/Signatory.cpp', '''		if (!name.empty())
		{
			if (!signAll && headersToSign.find(name) == headersToSign.end())
				continue;
			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\\r\\n";
			if (!tmp.empty())
			{
				EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
				signedHeaders.push_back(name);
			}
		}''', '''		if (name.empty())
			continue;
		if (!signAll && headersToSign.count(name) == 0)
			continue;
		std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader());
		tmp += "\\r\\n";
		EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
		signedHeaders.push_back(name);'''),
]),
dict(ID='r-val-lower', PROPS=['C09','C23','C10'], EDITS=[
 ('src/Validatory.cpp', '''		std::string headerName = (*i)->GetName();
		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
''', '''		const std::string headerName = LowerName(**i);
'''),
 ('src/Validatory.cpp', '''		std::string headerName = hIter->GetName();
		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
		headerCache[headerName].push_back(hIter);''', '''		headerCache[LowerName(*hIter)].push_back(hIter);'''),
 ('src/Validatory.cpp', 'Validatory::Validatory(', '''static std::string LowerName(const ::DKIM::Header& header)
{
	std::string name = header.GetName();
	transform(name.begin(), name.end(), name.begin(), tolower);
	return name;
}

Validatory::Validatory('''),
]),
dict(ID='r-val-check', PROPS=['C09'], EDITS=[
 ('src/Validatory.cpp', '''	if (pub.GetDigestAlgorithms().size() > 0)
		if (find(pub.GetDigestAlgorithms().begin(), pub.GetDigestAlgorithms().end(), sig.GetDigestAlgorithm()) == pub.GetDigestAlgorithms().end())
			throw DKIM::PermanentError("Algorithm is not allowed");

	if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm())
		throw DKIM::PermanentError("Signature algorithm type mismatch");
''', '''	if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm())
		throw DKIM::PermanentError("Signature algorithm type mismatch");

	const auto & allowed = pub.GetDigestAlgorithms();
	if (!allowed.empty() && std::find(allowed.begin(), allowed.end(), sig.GetDigestAlgorithm()) == allowed.end())
		throw DKIM::PermanentError("Algorithm is not allowed");
'''),
 ('src/Validatory.cpp', '''		if (head == headerCache.end() || head->second.size() == 0)
			continue;
''', '''		if (head == headerCache.end())
			continue;
		if (head->second.empty())
			continue;
'''),
]),
dict(ID='r-val-switch', PROPS=['C09','C10'], EDITS=[
 ('src/Validatory.cpp', '''	int md_nid;
	switch (sig.GetDigestAlgorithm())
	{
		case DKIM::DKIM_A_SHA1:
			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
			md_nid = NID_sha1;
			break;
		case DKIM::DKIM_A_SHA256:
			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
			md_nid = NID_sha256;
			break;
	}
''', '''	const bool sha1 = sig.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1;
	const int md_nid = sha1 ? NID_sha1 : NID_sha256;
	EVP_DigestInit_ex(evpmdhead.get(), sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
'''),
 ('src/Validatory.cpp', '''	if (sig.GetBodyHash().size() != md_len ||
			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)
	{
''', '''	const std::string digest((const char*)md_value, md_len);
	if (sig.GetBodyHash() != digest)
	{
'''),
]),
dict(ID='r-val-getkey', PROPS=['C11'], EDITS=[
 ('src/Validatory.cpp', '''		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();
		std::string publicKey;

		if ((CustomDNSResolver?
					CustomDNSResolver(query, publicKey, CustomDNSData):
					DKIM::Util::Resolver().GetTXT(query, publicKey)
			))
		{''', '''		std::string publicKey;
		std::string query = sig.GetSelector();
		query += "._domainkey.";
		query += sig.GetDomain();

		bool answered;
		if (CustomDNSResolver)
			answered = CustomDNSResolver(query, publicKey, CustomDNSData);
		else
			answered = DKIM::Util::Resolver().GetTXT(query, publicKey);

		if (answered)
		{'''),
]),
dict(ID='r-opts', PROPS=['C24','C19'], EDITS=[
 ('src/SignatoryOptions.cpp', '	m_headers.insert(m_headers.end(), headers.begin(), headers.end());', '	for (const auto & header : headers)\n		m_headers.push_back(header);'),
 ('src/SignatoryOptions.cpp', '''SignatoryOptions& SignatoryOptions::SetSelector(const std::string& selector)
{
	if (!DKIM::Util::ValidateDomain(selector))
		throw DKIM::PermanentError("Invalid selector (s=)");

	*m_selector = selector;
	return *this;''', '''SignatoryOptions& SignatoryOptions::SetSelector(const std::string& selector)
{
	if (DKIM::Util::ValidateDomain(selector))
	{
		*m_selector = selector;
		return *this;
	}
	throw DKIM::PermanentError("Invalid selector (s=)");'''),
]),
dict(ID='r-dom', PROPS=['C19'], EDITS=[
 ('src/Util.cpp', '	return ValidateSubDomain(domain.substr(lpos));', '	const std::string last = domain.substr(lpos);\n	return ValidateSubDomain(last);'),
]),
]
