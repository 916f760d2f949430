import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
p("C01","Body canonicalization is exact, buffering-independent and length-limited",
 "For every body byte sequence the canonical bytes handed to the consumer, concatenated, are: CRs ignored, LF ends a line, empty lines at the end of the body removed, every remaining line followed by exactly one CRLF (an empty body gives one CRLF in simple mode and nothing in relaxed mode); in relaxed mode additionally each run of spaces/tabs inside a line becomes one space and whitespace at the end of a line is removed. The result does not depend on how the body falls into read buffers. With a length limit N exactly the first N canonical bytes are delivered, and failure is reported exactly when fewer than N exist.",
 ["inputs","configurations"],"all byte sequences of any length, both modes, every body offset (or no body), limit off or any N",
 "Existing tests try three short bodies without a limit; buffer boundaries (8096 bytes), whitespace/newline state carried across reads, and limits that fall inside a CRLF are never reached.",
 ["src/Canonicalization.cpp"],[("CanonicalizationBody streaming loop","src/Canonicalization.cpp")],
 [("pendingwsp/lines/bodySize","whitespace and newlines withheld across reads, remaining limit","src/Canonicalization.cpp")],["CanonicalizationBody callback and return value"])
p("C02","Header canonicalization is exact",
 "Simple header canonicalization returns the field unchanged. Relaxed canonicalization of a header field (CRLF only before whitespace, non-blank name) lower-cases the ASCII letters of the name and of nothing else, removes folding CRLFs, turns each whitespace run into one space, and removes whitespace at the end of the value and on both sides of the first colon; all other bytes are kept in order. A field without a colon, or with a CR not followed by LF, is rejected with a permanent error in relaxed mode.",
 ["inputs","configurations"],"all header fields of any length, any byte values, both modes",
 "Seven sample headers are tested; combinations of folds, tabs, empty values, high-bit bytes, colons inside the value and whitespace runs that cross fold boundaries are unbounded.",
 ["src/Canonicalization.cpp","src/Tokenizer.cpp"],[("CanonicalizationHeader::FilterHeader","src/Canonicalization.cpp"),("ReadWhiteSpace READ_FWS","src/Tokenizer.cpp")],None,["FilterHeader result"])
p("C03","Messages split into header fields and body exactly",
 "For every message, lines end at LF with one preceding CR dropped; the header section ends at the first empty line or at the end of input; a line starting with space or tab continues the field before it and any other line starts a new field. Each field is its lines joined with CRLF, in message order, with nothing lost or repeated; its name is the text before the first colon without surrounding blanks (empty if there is no colon) and its value starts right after that colon. The body offset is the position just after the empty line's LF, or -1 if there is none.",
 ["inputs"],"all byte sequences, LF and CRLF line endings, with and without a body",
 "Six sample messages are tested; lone CRs, NULs, leading continuation lines, colon-less lines, mixed line endings and messages ending anywhere are not.",
 ["src/MailParser.cpp","src/MailParser.hpp"],[("Message::ParseLine","src/MailParser.cpp"),("Header::ParseLine","src/MailParser.cpp")],
 [("m_tmpHeader/m_header/m_bodyOffset/m_done","field being collected, finished fields, body position, end flag","src/MailParser.hpp")],["Message::GetHeaders, GetBodyOffset, IsDone; Header::GetName, GetHeader, GetValueOffset"])
p("C04","Tag=value lists parse exactly, with faithful value positions",
 "A tag list is accepted exactly when it is a sequence of name=value items separated by ';' (a trailing ';' and blank space allowed) with names of letters, digits and underscores, no name twice, and values of printable ASCII other than ';' with whitespace only inside; otherwise parsing fails with a permanent error. Every tag yields its value with surrounding whitespace removed and inner whitespace kept; values are case-sensitive and never swapped, merged or lost. For a non-empty value the reported offset and length delimit exactly that value in the input.",
 ["inputs"],"all byte sequences of any length",
 "The tests try ten short lists and never look at value offsets, which decide what is blanked out of the hashed signature header.",
 ["src/TagList.cpp","src/TagList.hpp"],[("TagList::Parse","src/TagList.cpp"),("TagList::GetTag","src/TagList.cpp")],[("m_tags","tag name to value and offset","src/TagList.hpp")],["TagList::GetTag, TagListEntry::GetValue, GetValueOffset"])
p("C05","Signature headers are accepted only with all mandatory, supported tags",
 "Parsing a DKIM-Signature or ARC-Message-Signature field succeeds only if d, a, b (non-empty), bh, h and s are present, v is 1 (DKIM only), a is rsa-sha1, rsa-sha256 or ed25519-sha256, c names only simple/relaxed, q (if present) is dns/txt and h contains From in any letter case; every other field is rejected with a permanent error. On success each reported attribute is the one its tag states, with the defaults simple/simple (body default simple when c has one part) and no length limit, d lower-cased, and b and bh decoded after removing whitespace.",
 ["inputs"],"all header fields: any subset, order, casing, folding and content of tags; DKIM and ARC",
 "The tests only parse signatures the library itself produced; no test has a missing, unsupported or repeated tag.",
 ["src/Signature.cpp","src/Signature.hpp"],[("Signature::Parse","src/Signature.cpp")],[("m_* fields","parsed attributes","src/Signature.hpp")],["Signature::Parse and its getters"])
p("C06","The signing identity always lies within the signing domain",
 "Whenever a DKIM signature is accepted, the identity's domain (i=, after quoted-printable decoding and lower-casing) equals the signing domain d= or ends with a dot followed by it; an identity without '@' or in any other domain is rejected with a permanent error, and without i= the identity domain is the signing domain and the local part is empty. The local part is the text before the first '@'. ARC signatures never use i= as an identity.",
 ["inputs"],"all i= and d= values, including encoded characters, several '@', suffixes without a dot boundary",
 "No test has an i= tag at all; look-alike suffixes such as evil-example.com for example.com are an unbounded family.",
 ["src/Signature.cpp"],[("identity check in Signature::Parse","src/Signature.cpp"),("QuotedPrintable::Decode","src/QuotedPrintable.cpp")],None,["Signature::GetMailDomain, GetMailLocalPart, GetDomain"])
p("C07","Numeric signature tags are range-checked",
 "A length tag l= is accepted only if it is 1 to 76 decimal digits whose value is at most the largest signed long, and is then the reported limit exactly; any other l= is rejected with a permanent error. A signature whose x= time is before the current time is rejected, and an ARC instance whose number (as strtoul reads it) is outside 1 to 50 is rejected.",
 ["inputs","configurations"],"all l=, x= and i= (ARC) values of any length; any current time; any earlier error state of the process",
 "No test parses x=, an ARC instance or a hand-written l=; signs, overflow, empty values, trailing characters and boundary instants are untested.",
 ["src/Signature.cpp"],[("strtoul/strtol parsing in Signature::Parse","src/Signature.cpp")],None,["Signature::GetBodySize, GetBodySizeLimit, GetARCInstance"])
p("C08","Key records are accepted and restricted exactly as stated",
 "A key record is accepted only if v (if present) is DKIM1, k (if present) is rsa or ed25519, and p holds non-empty key data that decodes to an RSA public key, or to exactly 32 bytes for ed25519; anything else, and a revoked key (empty p), is a permanent error. An h= list restricts the usable digests to those it names, a record naming no supported digest or (in s=) neither email nor * is never usable, and the t= flags are reported exactly as listed.",
 ["inputs"],"all key records: any subset, order and content of tags",
 "One key record is used in the tests (v, p, t); h, k, s, ed25519, revocation and malformed data are untested.",
 ["src/PublicKey.cpp","src/PublicKey.hpp"],[("PublicKey::Parse","src/PublicKey.cpp")],[("m_digestAlgorithms/m_serviceType/m_flags","restrictions of the key","src/PublicKey.hpp")],["PublicKey::Parse and getters"])
p("C09","A signature verifies only over exactly the canonical signed header data",
 "Signature checking succeeds only if the key permits the signature's digest, key type and signature type agree, a key flagged s has the identity domain equal to d= (DKIM only), and the cryptographic check with that key accepts the decoded b= over the digest of: for each name in h= in order (any letter case), the last not yet used message field of that name, canonicalized and followed by CRLF (nothing if none is left), then the signature field itself, canonicalized without final CRLF, with the value of b= and the whitespace around it removed. Otherwise it fails with a permanent error, of class fail if the cryptographic check refused.",
 ["inputs","configurations"],"all messages, signature fields and keys; repeated fields, repeated and absent names in h=, DKIM and ARC, both canonicalizations, all algorithms, b= anywhere in the field",
 "Tests only verify freshly made signatures of one-header messages, so nothing that must fail is ever checked, and neither field selection nor b= removal is exercised beyond one layout.",
 ["src/Validatory.cpp"],[("Validatory::CheckSignature","src/Validatory.cpp"),("EVP_DigestUpdate/RSA_verify/crypto_sign_verify_detached calls","src/Validatory.cpp")],[("headerCache","fields not yet used, per name","src/Validatory.cpp")],["Validatory::CheckSignature"])
p("C10","The body hash is checked over the canonical, length-limited body",
 "Fetching a signature for verification succeeds only if the digest (the one named by a=) of the body canonicalized as c= says, cut to l= bytes if l= is present, equals the decoded bh= byte for byte in full length; otherwise it fails with a permanent error of class fail. The check reads the same body however often and in whatever order signatures are checked.",
 ["inputs","histories"],"all bodies, signatures (objects new or reset) and sequences of checks on one message",
 "Tests never check a signature whose body hash must not match, nor two signatures on one message.",
 ["src/Validatory.cpp","src/Canonicalization.cpp"],[("Validatory::CheckBodyHash","src/Validatory.cpp"),("Validatory::GetSignature","src/Validatory.cpp")],None,["Validatory::CheckBodyHash, GetSignature"])
p("C11","Key lookup asks the right name and classifies failures",
 "Key retrieval queries exactly selector, '._domainkey.' and signing domain joined in that order, using the caller's resolver whenever one is set. A failed query gives a temporary error, a successful query with no text gives a permanent error, and otherwise the key returned is the parse of exactly that text.",
 ["inputs","fault_sequences"],"all selectors, domains, resolver outcomes and answers",
 "No test calls key retrieval.",
 ["src/Validatory.cpp"],[("Validatory::GetPublicKey","src/Validatory.cpp")],None,["Validatory::GetPublicKey, CustomDNSResolver"])
p("C12","DNS answers are decoded safely and completely",
 "For every byte string a name server may return as an answer, TXT lookup never reads outside the answer, terminates, and on a well-formed answer returns true with the concatenation, in order, of all character-strings of all TXT records, skipping other record types. Lookup failures are reported as false when retryable and as true with empty text for no-data, host-not-found and non-recoverable errors.",
 ["inputs","fault_sequences"],"all answer bytes and lengths up to 64 KiB, all resolver error codes; the result string is empty at the call",
 "The resolver has no tests at all, and no test can enumerate hostile answers.",
 ["src/Resolver.cpp"],[("Resolver::GetTXT","src/Resolver.cpp")],None,["Resolver::GetTXT"])
p("C13","Created signatures describe exactly what was hashed",
 "The digest signed is that of every message field whose name (any letter case) is in the headers to sign, or of all named fields if that list is empty, from last to first, each canonicalized and followed by CRLF, then the new signature field up to and including 'b=', canonicalized. The h= tag lists exactly those fields' lower-cased names in that order followed by the lower-cased oversigned names; bh= is the digest of the canonical body (cut to the requested length); and a, c, d, s, i, l, t, x state the options used, with unset ones absent.",
 ["inputs","configurations"],"all messages and all option combinations, DKIM and ARC, any number of additional signatures",
 "The tests sign one-header messages with default options and compare nothing but the library's own verification.",
 ["src/Signatory.cpp"],[("Signatory::CreateSignature","src/Signatory.cpp")],[("signedHeaders","names in h=","src/Signatory.cpp")],["Signatory::CreateSignature result"])
p("C14","Whatever the library signs, the library verifies",
 "Take any message that starts with a header field, and any signer options for which: a From field is signed; every signed header name is a token of printable ASCII without ':' and ';'; oversigned names are signed names other than the signature field's own; domain and selector are tokens of visible ASCII without ';'; the identity, if any, has an '@' and its domain is the signing domain or below it; the ARC instance, if any, is 1 to 50; the body length limit does not exceed the canonical body; ed25519 goes with SHA-256 only. Then each signature field that signing returns, put in front of the message with CRLF, is accepted by GetSignature and CheckSignature with the matching public key until it expires. This holds for RSA and ed25519, SHA-1 and SHA-256, both canonicalizations, ARC and DKIM, each additional signature, and each repeated call on the same signer.",
 ["inputs","configurations","histories"],"all such messages, keys, option sets and repeated calls",
 "SignTest covers one RSA key, simple/simple, two body lengths and seven tiny messages; no relaxed, ed25519, ARC, identity, oversigning, multi-header or repeated signing.",
 ["src/Signatory.cpp","src/Validatory.cpp","src/Signature.cpp","src/SignatoryOptions.cpp"],[("CreateSignature","src/Signatory.cpp"),("CheckSignature","src/Validatory.cpp"),("Signature::Parse","src/Signature.cpp")],None,["CreateSignature followed by GetSignature and CheckSignature"])
p("C15","Quoted-printable encode and decode are inverse and strict",
 "Decoding the encoding of any byte string gives that byte string back, and the encoding contains only printable ASCII with no whitespace, ';' or unescaped '='. Decoding accepts exactly printable ASCII other than ';', '=' plus two upper-case hex digits, and folding whitespace (dropped), with '_' becoming a space only in word mode; anything else is a permanent error.",
 ["inputs"],"all byte strings of any length, both decode modes",
 "Decode is tested on 18 strings and Encode not at all; all 256 byte values and error positions are not covered.",
 ["src/QuotedPrintable.cpp"],[("QuotedPrintable::Encode","src/QuotedPrintable.cpp"),("QuotedPrintable::Decode","src/QuotedPrintable.cpp")],None,["QuotedPrintable::Encode, Decode"])
p("C16","Base64 round trip is lossless at every length",
 "For every byte string, including NULs and any length, decoding its base64 encoding gives it back, the encoding is a single line of the standard padded alphabet, and decoding handles unbroken input of any length.",
 ["inputs"],"all byte strings below 2 GiB, in particular around the 256- and 1024-byte transfer buffers",
 "Five short strings are tested; lengths beyond one transfer buffer and bytes that end a buffer are not.",
 ["src/Base64.cpp"],[("Base64_Encode and Base64_Decode BIO loops","src/Base64.cpp")],None,["Base64_Encode, Base64_Decode"])
p("C17","Encoded words decode exactly and other text is preserved",
 "Decoding header text replaces each well-formed encoded word (=?charset?q or b?data?= followed by whitespace or the end) by its decoded bytes, drops whitespace before it, whitespace at the start and end of the text and line breaks, and keeps every other character, including malformed or unknown-encoding words, verbatim with the whitespace before it. It fails, with a permanent error, only on a CR not followed by LF outside an encoded word.",
 ["inputs"],"all byte strings of any length",
 "The test has eighteen fixed strings; truncated, nested and mis-terminated words, and whitespace between the parts, form an unbounded set.",
 ["src/EncodedWord.cpp"],[("EncodedWord::Decode","src/EncodedWord.cpp")],None,["EncodedWord::Decode"])
p("C18","Address lists yield exactly the addresses",
 "Parsing an address list terminates on every input and returns, in order, the address of every comma- or semicolon-separated entry: the content of its angle brackets if it has them, with comments, display names and folding whitespace removed, otherwise its bare text if it contains '@' (for the last entry, even without '@'); a lone quoted string is parsed as a list itself. An unclosed quote, comment or angle bracket, an unfinished escape, a NUL in a token, or outside quotes and comments a CR without LF, is a permanent error, and any other byte value is accepted.",
 ["inputs"],"all byte strings below 2 GiB, any nesting of quotes, comments and escapes",
 "The test has eleven sample lists; nesting, escapes at the end, high-bit bytes and unterminated constructs are not covered.",
 ["src/Tokenizer.cpp"],[("ParseAddressList","src/Tokenizer.cpp"),("NextAddressListToken","src/Tokenizer.cpp")],None,["ParseAddressList, NextAddressListToken"])
p("C19","Only syntactically valid domains and selectors can be configured",
 "A domain or selector is accepted exactly when it is one or more dot-separated labels, each non-empty, made of ASCII letters, digits and hyphens, and neither starting nor ending with a hyphen. Setting any other value fails with a permanent error and leaves the option unchanged; this holds for the main and every additional signature.",
 ["inputs"],"all byte strings of any length",
 "No test sets an invalid domain or selector.",
 ["src/Util.cpp","src/SignatoryOptions.cpp"],[("ValidateDomain, ValidateSubDomain","src/Util.cpp"),("SetDomain, SetSelector","src/SignatoryOptions.cpp")],None,["SetDomain, SetSelector, GetDomain, GetSelector"])
p("C20","Arbitrary input never escapes the documented error discipline",
 "For every message, signature field, key record and text of any bytes, each parsing, decoding, canonicalizing, signing and checking operation terminates and either returns or raises the library's permanent or temporary error; it never raises another exception, passes an out-of-range position to a string operation, reads or writes outside an object, or hands a cryptographic primitive less data than it reads.",
 ["inputs"],"all inputs of all public text-consuming operations",
 "Tests feed well-formed samples; out-of-range positions and short buffers show only on particular hostile inputs.",
 ["src/Signature.cpp","src/Validatory.cpp","src/TagList.cpp","src/Tokenizer.cpp","src/Canonicalization.cpp","src/MailParser.cpp","src/EncodedWord.cpp","src/QuotedPrintable.cpp","src/PublicKey.cpp","src/Util.cpp"],[("positions passed to substr/erase/operator[]","src/*.cpp"),("crypto_sign_verify_detached argument sizes","src/Validatory.cpp")],None,["every public operation taking text"])
p("C21","Results depend on the inputs, not on history",
 "After Reset, a signature, key, tag list or message object behaves as newly constructed, with no attribute of an earlier parse remaining. Parsing and verification give the same result whatever the process did before, including a leftover error number, and signing twice with one signer gives the same header selection and hashes both times.",
 ["histories"],"all sequences of parse, reset, verify and sign operations, any leftover errno",
 "Each test object is used once, from a clean state.",
 ["src/Signature.cpp","src/PublicKey.cpp","src/TagList.cpp","src/MailParser.cpp","src/Signatory.cpp"],[("Reset functions","src/Signature.cpp, src/PublicKey.cpp, src/MailParser.cpp"),("errno use in Signature::Parse","src/Signature.cpp"),("header parsing loop in CreateSignature","src/Signatory.cpp")],[("object fields","all attributes of a previous parse","src/*.hpp")],["Reset, Parse, CreateSignature"])
p("C22","Folding whitespace and colon lists tokenize exactly",
 "Reading folding whitespace consumes exactly a run of spaces/tabs, optionally containing one CRLF that is followed by at least one space or tab; before a CRLF not so followed, and before anything else, it consumes nothing. A CR without LF is a permanent error and no other byte is ever consumed or lost; a colon-separated list yields its items in order with surrounding folding whitespace removed and inner bytes kept, rejects an empty item, and ignores one trailing colon.",
 ["inputs"],"all byte strings and stream positions, all whitespace kinds",
 "About twenty fixed strings are tested.",
 ["src/Tokenizer.cpp"],[("ReadWhiteSpace","src/Tokenizer.cpp"),("ValueList","src/Tokenizer.cpp")],None,["ReadWhiteSpace, ValueList"])
p("C23","Verification considers exactly the message's signature fields",
 "Opening a message for verification lists exactly its DKIM-Signature fields (or, for ARC, its ARC-Message-Signature fields), matched without regard to letter case, in message order, each once; in the mode without signatures it lists none.",
 ["inputs","configurations"],"all messages and modes",
 "Tests use messages with a single signature at the top.",
 ["src/Validatory.cpp"],[("Validatory constructor","src/Validatory.cpp")],None,["Validatory::GetSignatures"])
p("C24","Signing options hold exactly what was set",
 "Each option setter changes only its own option and the corresponding getter returns the value set; adding header names appends them, deleting removes every equal name and keeps the others in order, and a new option object has the documented defaults. Additional signatures keep their own domain, selector, algorithm and key, and the main signature's settings are the first entry of the signature list.",
 ["inputs","histories","configurations"],"all sequences of setter calls and values",
 "Tests set three options and read none back.",
 ["src/SignatoryOptions.cpp","src/SignatoryOptions.hpp"],[("setters, AddHeaders, DelHeaders, AddAdditionalSignature","src/SignatoryOptions.cpp")],[("option fields","current settings","src/SignatoryOptions.hpp")],["getters of SignatoryOptions and AdditionalSignaturesOptions"])
p("C25","Independent objects can be used from different threads",
 "Operations on distinct objects running in different threads do not interfere: each gives the result it would give alone.",
 ["schedules"],"all interleavings of operations on distinct objects, on systems with a reentrant resolver",
 "All tests are single-threaded.",
 ["src/QuotedPrintable.cpp","src/Util.cpp","src/Resolver.cpp"],[("no mutable shared state; reentrant resolver state","src/Resolver.cpp")],None,["any public operation"])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
