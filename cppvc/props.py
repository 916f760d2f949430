"""Which functions under contract decide which property (the property owns them: their failed obligations are its violations)."""
UNITS = {
 'C01': ['DKIM::Conversion::CanonicalizationBody'],
 'C02': ['DKIM::Conversion::CanonicalizationHeader::<ctor>', 'DKIM::Conversion::CanonicalizationHeader::SetType', 'DKIM::Conversion::CanonicalizationHeader::FilterHeader'],
 'C19': ['ValidateSubDomain', 'DKIM::Util::ValidateDomain', 'DKIM::SignatoryOptions::SetDomain', 'DKIM::SignatoryOptions::SetSelector', 'DKIM::AdditionalSignaturesOptions::SetDomain', 'DKIM::AdditionalSignaturesOptions::SetSelector'],
 'C03': ['DKIM::Header::<ctor>', 'DKIM::Header::ParseLine', 'DKIM::Header::GetName', 'DKIM::Header::GetHeader', 'DKIM::Header::GetValueOffset', 'DKIM::Message::<ctor>', 'DKIM::Message::Reset', 'DKIM::Message::IsDone', 'DKIM::Message::GetHeaders', 'DKIM::Message::GetBodyOffset', 'DKIM::Message::ParseLine', 'DKIM::Validatory::<ctor>'],
 'C04': ['DKIM::TagList::Reset', 'DKIM::TagList::Parse', 'DKIM::TagList::GetTag'],
 'C05': ['DKIM::Signature::Parse', 'DKIM::Signature::<ctor>', 'DKIM::Signature::Reset', 'DKIM::Signature::GetTag', 'DKIM::Signature::GetTagList', 'DKIM::Signature::GetSignatureData', 'DKIM::Signature::GetBodyHash', 'DKIM::Signature::GetDomain', 'DKIM::Signature::GetSignedHeaders', 'DKIM::Signature::GetSelector', 'DKIM::Signature::GetDigestAlgorithm', 'DKIM::Signature::GetSignatureAlgorithm', 'DKIM::Signature::GetCanonModeHeader', 'DKIM::Signature::GetCanonModeBody', 'DKIM::Signature::GetQueryType', 'DKIM::Signature::IsARC',],
 'C06': ['DKIM::Signature::Parse', 'DKIM::Signature::GetMailLocalPart', 'DKIM::Signature::GetMailDomain',],
 'C07': ['DKIM::Signature::Parse', 'DKIM::Signature::GetBodySize', 'DKIM::Signature::GetBodySizeLimit', 'DKIM::Signature::GetARCInstance',],
 'C08': ['DKIM::PublicKey::Parse', 'DKIM::PublicKey::<ctor>', 'DKIM::PublicKey::Reset', 'DKIM::PublicKey::GetDigestAlgorithms', 'DKIM::PublicKey::GetServiceType', 'DKIM::PublicKey::GetFlags', 'DKIM::PublicKey::GetRSAPublicKey', 'DKIM::PublicKey::GetED25519PublicKey', 'DKIM::PublicKey::GetSignatureAlgorithm', 'DKIM::PublicKey::SoftFail',],
 'C16': ['DKIM::Conversion::Base64_Decode', 'DKIM::Conversion::Base64_Encode'],
 'C09': ['DKIM::Validatory::CheckSignature(const std::shared_ptr<DKIM::Header>, const DKIM::Signature &, const DKIM::PublicKey &)', 'DKIM::Validatory::CheckSignature(const std::_List_const_iterator<std::shared_ptr<DKIM::Header>> &, const DKIM::Signature &, const DKIM::PublicKey &)', 'DKIM::Validatory::GetSignature'],
 'C10': ['DKIM::Validatory::CheckBodyHash', 'DKIM::Validatory::GetSignature', 'DKIM::Validatory::<ctor>'],
 'C11': ['DKIM::Validatory::GetPublicKey'],
 'C12': ['DKIM::Util::Resolver::GetTXT'],
 'C23': ['DKIM::Validatory::<ctor>', 'DKIM::Validatory::GetSignatures'],
 'C17': ['DKIM::Conversion::EncodedWord::Decode'],
 'C18': ['DKIM::Tokenizer::NextAddressListToken', 'DKIM::Tokenizer::ParseAddressList'],
 'C13': ['DKIM::Signatory::<ctor>', 'DKIM::Signatory::CreateSignature', 'DKIM::Util::StringFormat'],
 'C15': ['DKIM::Conversion::QuotedPrintable::Decode', 'DKIM::Conversion::QuotedPrintable::Encode'],
 'C22': ['DKIM::Tokenizer::ReadWhiteSpace', 'DKIM::Tokenizer::ValueList'],
 'C24': [
  'DKIM::SignatoryOptions::SetPrivateKey', 'DKIM::AdditionalSignaturesOptions::SetPrivateKey',
  'DKIM::SignatoryOptions::SetRSAPrivateKey',
  'DKIM::SignatoryOptions::SetSelector',
  'DKIM::SignatoryOptions::SetDomain',
  'DKIM::SignatoryOptions::SetDigestAlgorithm',
  'DKIM::SignatoryOptions::SetSignatureAlgorithm',
  'DKIM::SignatoryOptions::SetHeaders',
  'DKIM::SignatoryOptions::AddHeaders',
  'DKIM::SignatoryOptions::DelHeaders',
  'DKIM::SignatoryOptions::SetOversignHeaders',
  'DKIM::SignatoryOptions::SetSignBodyLength',
  'DKIM::SignatoryOptions::SetARCInstance',
  'DKIM::SignatoryOptions::SetCanonModeHeader',
  'DKIM::SignatoryOptions::SetCanonModeBody',
  'DKIM::SignatoryOptions::SetTimestamp',
  'DKIM::SignatoryOptions::SetExpiration',
  'DKIM::SignatoryOptions::SetIdentity',
  'DKIM::SignatoryOptions::AddAdditionalSignature',
  'DKIM::SignatoryOptions::GetBodyLength',
  'DKIM::SignatoryOptions::GetBodySignLength',
  'DKIM::SignatoryOptions::GetCanonModeHeader',
  'DKIM::SignatoryOptions::GetCanonModeBody',
  'DKIM::SignatoryOptions::GetARCInstance',
  'DKIM::SignatoryOptions::GetTimestampSign',
  'DKIM::SignatoryOptions::GetTimestamp',
  'DKIM::SignatoryOptions::GetExpirationSign',
  'DKIM::SignatoryOptions::GetExpiration',
  'DKIM::SignatoryOptions::GetExpirationAbsolute',
  'DKIM::SignatoryOptions::GetIdentity',
  'DKIM::SignatoryOptions::GetHeaders',
  'DKIM::SignatoryOptions::GetOversignHeaders',
  'DKIM::SignatoryOptions::GetDigestAlgorithm',
  'DKIM::SignatoryOptions::GetAdditionalSignatures',
  'DKIM::SignatoryOptions::GetDomain',
  'DKIM::SignatoryOptions::GetSelector',
  'DKIM::SignatoryOptions::GetSignatureAlgorithm',
  'DKIM::SignatoryOptions::GetRSAPrivateKey',
  'DKIM::SignatoryOptions::GetED25519PrivateKey',
  'DKIM::AdditionalSignaturesOptions::GetDomain',
  'DKIM::AdditionalSignaturesOptions::GetSelector',
  'DKIM::AdditionalSignaturesOptions::GetSignatureAlgorithm',
  'DKIM::AdditionalSignaturesOptions::GetRSAPrivateKey',
  'DKIM::AdditionalSignaturesOptions::GetED25519PrivateKey',
  'DKIM::AdditionalSignaturesOptions::SetRSAPrivateKey',
  'DKIM::AdditionalSignaturesOptions::SetSelector',
  'DKIM::AdditionalSignaturesOptions::SetDomain',
  'DKIM::AdditionalSignaturesOptions::SetSignatureAlgorithm',
  'DKIM::AdditionalSignaturesOptions::<ctor>()',
  'DKIM::SignatoryOptions::<ctor>',
 ],
}
UNITS['C21'] = ['DKIM::Signature::Reset', 'DKIM::Signature::<ctor>', 'DKIM::PublicKey::Reset', 'DKIM::PublicKey::<ctor>', 'DKIM::TagList::Reset', 'DKIM::Message::Reset', 'DKIM::Message::<ctor>', 'DKIM::Header::<ctor>',
 'DKIM::Signatory::<ctor>', 'DKIM::Signatory::CreateSignature', 'DKIM::Validatory::CheckBodyHash', 'DKIM::Validatory::GetSignature', 'DKIM::Validatory::CheckSignature(const std::shared_ptr<DKIM::Header>, const DKIM::Signature &, const DKIM::PublicKey &)']
# signing, then verifying: CreateSignature writes what the closed form says, the verifying functions refuse no more than theirs; theorem thm_round_trip (spec/zzzround7.rs) joins them
UNITS['C14'] = ['DKIM::Signatory::<ctor>', 'DKIM::Signatory::CreateSignature', 'DKIM::Validatory::<ctor>', 'DKIM::Validatory::GetSignature', 'DKIM::Validatory::CheckBodyHash',
 'DKIM::Validatory::CheckSignature(const std::shared_ptr<DKIM::Header>, const DKIM::Signature &, const DKIM::PublicKey &)', 'DKIM::Validatory::CheckSignature(const std::_List_const_iterator<std::shared_ptr<DKIM::Header>> &, const DKIM::Signature &, const DKIM::PublicKey &)', 'DKIM::Signature::Parse', 'DKIM::Signature::<ctor>']
THEOREMS = {'C14': 'thm_round_trip'}
UNITS['C20'] = UNITS['C25'] = sorted({u for us in list(UNITS.values()) for u in us})
# only these obligations are generated (and no loop invariant is assumed): the frame clause "no object of static storage duration is written"
ONLY = {'C25': r'\[C25\]'}
# of a shared unit a property may own some of the obligations only
FUNCTIONAL = r'(\[[^\]]*\] ?)?(result$|postcondition|final value|exception raised only|\w+ raised only when|normal return only|state when|field |loop invariant|the reference returned|member |an object handed over|exception carries|known before|proof step|each chunk|global state)'
def owns(pid, unit, desc):
    import re
    if desc.startswith('[C25]') or pid == 'C25': return pid == 'C25' and desc.startswith('[C25]')
    if pid == 'C20': return not re.match(FUNCTIONAL, desc)
    if pid == 'C14':      # accepting or signing more than the contracts say is other properties' concern
        if unit.endswith('CreateSignature') and 'raised only' in desc: return False
        return re.match(FUNCTIONAL, desc) is not None and 'normal return only' not in desc
    if pid == 'C21' and not unit.endswith(('Reset', '<ctor>')): return re.match(r'\[[^\]]*C21', desc) is not None
    return not desc.startswith('[') or pid in desc.split(']')[0]
# functions whose contract is assumed (reason)
TRUSTED = {}
BASE = [
 'Verus 0.2026.09.13 with Z3 (back end of every obligation) and rustc',
 'clang 18 front end (type-checked AST of the source; extraction drops only types and locations not needed)',
 'cppvc translation of the C++ subset into verification conditions (/verif/cppvc)',
 'model of the C++ standard library operations in /verif/spec/std.rs and /verif/cppvc/stdm.py (strings, lists, maps, iterators, in-memory streams that are seekable and do not fail to read)',
 'strings and containers are shorter than 2^63-1 elements and memory allocation succeeds',
]
ASSUME = {'C25': [
    'calls into libc, OpenSSL, libsodium and the C++ runtime on distinct objects do not interfere; errno is per thread; the resolver is the reentrant one (res_ninit, HAS_RES_NINIT)',
    'dynamic initialisation has finished before the threads start',
    'constructors and destructors that are neither under contract nor inlined (exception classes, destructors) write only to their own object',
    'in this check loop invariants and intermediate obligations are not used: a write counts as reachable unless the path condition itself excludes it']}
BOUNDED = {}
HUNT = {}
NOTE = {'C25': 'Decided as a frame property: no function writes an object of static storage duration that is not thread-local (obligation [C25] at every exit of every function under contract, for all inputs, and of everything inlined into it), so operations on distinct objects share no written memory and commute. Interleavings themselves are not enumerated by the verifier; the bounded search runs the real library in several threads under the thread sanitizer and is not counted as proof.', 'C14': 'Theorem thm_round_trip (spec/theorems, discharged on every run) joins the contracts of CreateSignature, the constructors, GetSignature, CheckBodyHash and CheckSignature, each discharged on the real code for all inputs: under the conditions of the property the written field is read back, the body hash agrees and the signed text is the verified text. That a matching public key verifies what the private key signed is a hypothesis about OpenSSL and libsodium. The bounded search replays whole sign-and-verify runs and is not counted as proof.'}
NOT_APPLICABLE = {}
