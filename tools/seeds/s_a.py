H = '#include <iostream>\n#include <sstream>\n#include <string>\n#include <list>\n#include <src/Tokenizer.hpp>\n#include <src/Util.hpp>\n#include <src/Exception.hpp>\n#include <src/SignatoryOptions.hpp>\nusing namespace DKIM;\n'
SEEDS = [
dict(ID='c22-fold-buffer', PROP='C22', EDITS=[('src/Tokenizer.cpp', '			value_buf += ws;', '			if (!ws.empty())\n				value_buf = ws;')],
  NEEDS='a list item with two adjacent foldings inside it', BREAKS='inner whitespace of a colon-list item is lost when it is folded twice in a row',
  DEMO=H + '''int main() { std::string in = "ab \\r\\n \\r\\n cd:e"; std::list<std::string> l = Tokenizer::ValueList(in);
 return l.size() == 2 && l.front() == "ab \\r\\n \\r\\n cd" && l.back() == "e" ? 0 : 1; }
'''),
dict(ID='c22-fold-end', PROP='C22', EDITS=[('src/Tokenizer.cpp', """				stream.clear();
				for (size_t i""", """				stream.clear();
				if (stream.peek() == EOF)
					return _s;
				for (size_t i""")],
  NEEDS='a CRLF as the last bytes of the input', BREAKS='a CRLF not followed by a space or tab is consumed when the input ends there',
  DEMO=H + """int main() { std::stringstream s("a \\r\\n"); s.get(); std::string r = Tokenizer::ReadWhiteSpace(s, Tokenizer::READ_FWS); return r == "" && s.get() == ' ' ? 0 : 1; }
"""),
dict(ID='c19-last-label', PROP='C19', EDITS=[('src/Util.cpp', '	return ValidateSubDomain(domain.substr(lpos));', '	return lpos == domain.size() ? lpos > 1 : ValidateSubDomain(domain.substr(lpos));')],
  NEEDS='a domain that ends with a dot', BREAKS='an empty last label is accepted',
  DEMO=H + '''int main() { SignatoryOptions o; o.SetDomain("good.example"); try { o.SetDomain("example.com."); } catch (PermanentError&) { return o.GetDomain() == "good.example" ? 0 : 1; } return 1; }
'''),
dict(ID='c19-keep-on-error', PROP='C19', EDITS=[('src/SignatoryOptions.cpp', """AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetSelector(const std::string& selector)
{
	if (!DKIM::Util::ValidateDomain(selector))
		throw DKIM::PermanentError("Invalid selector (s=)");

	m_selector = selector;
""", """AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetSelector(const std::string& selector)
{
	m_selector = selector;
	if (!DKIM::Util::ValidateDomain(m_selector))
		throw DKIM::PermanentError("Invalid selector (s=)");

""")],
  NEEDS='a rejected selector on an additional signature, with the option read (or used for signing) afterwards', BREAKS='the option is changed although the value was rejected',
  DEMO=H + """int main() { SignatoryOptions o; AdditionalSignaturesOptions& a = o.AddAdditionalSignature(); a.SetSelector("sel");
 try { a.SetSelector("bad_sel."); } catch (PermanentError&) { return a.GetSelector() == "sel" ? 0 : 1; } return 1; }
"""),
]
