"""SignatoryOptions / AdditionalSignaturesOptions: every setter, every getter, the constructors (C24; domains and selectors C19)."""
C = {}
S = 'DKIM::SignatoryOptions::'; A = 'DKIM::AdditionalSignaturesOptions::'
INV = ['$this.m_signatures.len() >= 1']            # class invariant (with the pointer members, see cppvc/lib.py)
KEEP = ['$this.m_signatures.len() >= 1']
def setter(name, params, post, **kw):
    C[S + name] = dict(params=params, requires=INV, ensures=KEEP, post={'this.' + k: v for k, v in post.items()}, modifies=['this.' + k for k in post], result_loc='this', **kw)
def first(f, v): return {'m_signatures': '$this.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { %s: %s, ..$this.m_signatures[0] })' % (f, v)}
setter('SetRSAPrivateKey', ['k', 'own'], {'m_signatures': '$this.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { m_privateKeyRSA: $k, m_privateKeyRSAFree: $own, ..$this.m_signatures[0] })'})
setter('SetSelector', ['s'], first('m_selector', '$s'), throws='!domain_ok($s, 0)', strong_throw=True)
setter('SetDomain', ['d'], first('m_domain', '$d'), throws='!domain_ok($d, 0)', strong_throw=True)
setter('SetDigestAlgorithm', ['a'], {'m_digestAlgorithm': '$a'})
setter('SetSignatureAlgorithm', ['a'], first('m_signatureAlgorithm', '$a'))
setter('SetHeaders', ['h'], {'m_headers': '$h'})
setter('AddHeaders', ['h'], {'m_headers': '$this.m_headers + $h'})
setter('DelHeaders', ['h'], {'m_headers': 'del_all($this.m_headers, $h, $h.len() as int)'},
       loops=[dict(inv=['0 <= $_i <= $h.len()', '$this.m_headers == del_all($this@0.m_headers, $h, $_i)'])])
setter('SetOversignHeaders', ['h'], {'m_oversignheaders': '$h'})
setter('SetSignBodyLength', ['n'], {'m_bodyLength': '$n', 'm_bodySignLength': 'true'})
setter('SetARCInstance', ['n'], {'m_arcInstance': '$n'})
setter('SetCanonModeHeader', ['m'], {'m_canonHead': '$m'})
setter('SetCanonModeBody', ['m'], {'m_canonBody': '$m'})
setter('SetTimestamp', ['t'], {'m_timestamp': '$t', 'm_timestampSign': 'true'})
setter('SetExpiration', ['t', 'abs'], {'m_expiration': '$t', 'm_expirationAbsolute': '$abs', 'm_expirationSign': 'true'})
setter('SetIdentity', ['i'], {'m_identity': '$i'})
NEW = 'DKIM_AdditionalSignaturesOptions { m_privateKeyRSA: 0, m_privateKeyRSAFree: true, m_privateKeyED25519: Seq::<u8>::empty(), m_signatureAlgorithm: 0, m_domain: Seq::<u8>::empty(), m_selector: Seq::<u8>::empty() }'
C[S + 'AddAdditionalSignature'] = dict(requires=INV, ensures=KEEP, post={'this.m_signatures': '$this.m_signatures.push(%s)' % NEW}, modifies=['this.m_signatures'],
                                       result_loc='this.m_signatures.[$this.m_signatures.len() - 1]')
for g, f in dict(GetBodyLength='m_bodyLength', GetBodySignLength='m_bodySignLength', GetCanonModeHeader='m_canonHead', GetCanonModeBody='m_canonBody', GetARCInstance='m_arcInstance',
                 GetTimestampSign='m_timestampSign', GetTimestamp='m_timestamp', GetExpirationSign='m_expirationSign', GetExpiration='m_expiration', GetExpirationAbsolute='m_expirationAbsolute',
                 GetIdentity='m_identity', GetHeaders='m_headers', GetOversignHeaders='m_oversignheaders', GetDigestAlgorithm='m_digestAlgorithm', GetAdditionalSignatures='m_signatures',
                 GetDomain='m_signatures[0].m_domain', GetSelector='m_signatures[0].m_selector', GetSignatureAlgorithm='m_signatures[0].m_signatureAlgorithm',
                 GetRSAPrivateKey='m_signatures[0].m_privateKeyRSA', GetED25519PrivateKey='m_signatures[0].m_privateKeyED25519').items():
    C[S + g] = dict(requires=INV, ensures=['$result == $this.' + f], inline_calls=True)
for g, f in dict(GetDomain='m_domain', GetSelector='m_selector', GetSignatureAlgorithm='m_signatureAlgorithm', GetRSAPrivateKey='m_privateKeyRSA', GetED25519PrivateKey='m_privateKeyED25519').items():
    C[A + g] = dict(ensures=['$result == $this.' + f], inline_calls=True)
def asetter(name, params, post, **kw):
    C[A + name] = dict(params=params, post={'this.' + k: v for k, v in post.items()}, modifies=['this.' + k for k in post], result_loc='this', **kw)
asetter('SetRSAPrivateKey', ['k', 'own'], {'m_privateKeyRSA': '$k', 'm_privateKeyRSAFree': '$own'})
asetter('SetSelector', ['s'], {'m_selector': '$s'}, throws='!domain_ok($s, 0)', strong_throw=True)
asetter('SetDomain', ['d'], {'m_domain': '$d'}, throws='!domain_ok($d, 0)', strong_throw=True)
asetter('SetSignatureAlgorithm', ['a'], {'m_signatureAlgorithm': '$a'})
def lit(s): return 'seq![%s]' % ', '.join('%du8' % c for c in s.encode())
DEFAULT_HEADERS = '''from sender reply-to subject date message-id to cc mime-version content-type content-transfer-encoding content-id content-description
 resent-date resent-from resent-sender resent-to resent-cc resent-message-id in-reply-to references list-id list-help list-unsubscribe list-unsubscribe-post
 list-subscribe list-post list-owner list-archive cfbl-address cfbl-feedback-id'''.split()
C[A + '<ctor>()'] = dict(ensures=['$this == ' + NEW])
C[S + '<ctor>'] = dict(ensures=['$this.m_signatures.len() == 1', '$this.m_signatures[0] == ' + NEW, '$this.m_headers.len() == %d' % len(DEFAULT_HEADERS)] +
    ['$this.m_headers[%d] =~= %s' % (i, lit(h)) for i, h in enumerate(DEFAULT_HEADERS)] +
    ['$this.m_oversignheaders.len() == 0', '$this.m_digestAlgorithm == 1', '$this.m_canonHead == 0', '$this.m_canonBody == 0', '$this.m_bodyLength == 0', '!$this.m_bodySignLength',
     '$this.m_arcInstance == 0', '!$this.m_timestampSign', '!$this.m_expirationSign', '$this.m_timestamp == -1', '$this.m_expiration == -1', '$this.m_expirationAbsolute', '$this.m_identity.len() == 0'])

# keys: PEM or Base64 of the DER form for RSA; the 64-byte secret key, its 32-byte seed, or the Base64 of either for ed25519
def keyed(cls, alg, rsa, ed, ens):
    D = dict(a='$this@0.' + alg, k='$privatekey')
    C[cls + 'SetPrivateKey'] = dict(params=['privatekey'], requires=['$privatekey.len() < 0x8000_0000'] + ens, throws='private_key_bad({a}, {k})'.format(**D), modifies=[rsa.split('[')[0].split('.m_privateKeyRSA')[0] if '[' in rsa else rsa, ed] if '[' not in rsa else ['this.m_signatures'],
        result_loc='this', ensures=ens, entry_hints=['lemma_bio_len($privatekey, true);'])
    return C[cls + 'SetPrivateKey']
c = keyed(S, 'm_signatures[0].m_signatureAlgorithm', '[', '', INV)
U = '$this@0.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { %s: %s, ..$this@0.m_signatures[0] })'
c['post'] = {'this.m_signatures': '(if $this.m_signatures[0].m_signatureAlgorithm == 0 { $this.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { m_privateKeyRSA: private_rsa($privatekey), ..$this.m_signatures[0] }) } else { $this.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { m_privateKeyED25519: private_ed25519($privatekey), ..$this.m_signatures[0] }) })'}
c['requires'] = c['requires'] + ['$this.m_signatures[0].m_signatureAlgorithm == 0 || $this.m_signatures[0].m_signatureAlgorithm == 1']
c['throw_ensures'] = ['$this.m_signatures =~= $this@0.m_signatures.update(0, DKIM_AdditionalSignaturesOptions { m_privateKeyRSA: $this.m_signatures[0].m_privateKeyRSA, ..$this@0.m_signatures[0] })']
c['exit_hints'] = ['if $this@0.m_signatures[0].m_signatureAlgorithm == 1 { assert($this.m_signatures[0].m_privateKeyED25519 =~= private_ed25519($privatekey)); } else { assert($this.m_signatures[0].m_privateKeyRSA == private_rsa($privatekey)); }']
c = keyed(A, 'm_signatureAlgorithm', 'this.m_privateKeyRSA', 'this.m_privateKeyED25519', [])
c['modifies'] = ['this.m_privateKeyRSA', 'this.m_privateKeyED25519']
c['requires'] = c['requires'] + ['$this.m_signatureAlgorithm == 0 || $this.m_signatureAlgorithm == 1']
c['post'] = {'this.m_privateKeyRSA': '(if $this.m_signatureAlgorithm == 0 { private_rsa($privatekey) } else { $this.m_privateKeyRSA })', 'this.m_privateKeyED25519': '(if $this.m_signatureAlgorithm == 0 { $this.m_privateKeyED25519 } else { private_ed25519($privatekey) })'}
c['throw_ensures'] = ['$this == DKIM_AdditionalSignaturesOptions { m_privateKeyRSA: $this.m_privateKeyRSA, ..$this@0 }']
