C = {}
C['DKIM::PublicKey::<ctor>'] = dict(ensures=['$this == key_new()'])
C['DKIM::PublicKey::Reset'] = dict(ensures=['$this == key_new()'])
T = 'tag_scan($signature@0, 0, $this@0.m_tagList.m_tags)'
C['DKIM::PublicKey::Parse'] = dict(
    params=['signature'], requires=['$signature.len() < 0x8000_0000', 'tags_wf($this.m_tagList.m_tags)'],
    throws='%s.bad || key_bad($this@0, %s.tags)' % (T, T),
    ensures=['$this == key_of($this@0, %s.tags)' % T, 'tags_wf($this.m_tagList.m_tags)', 'key_usable($this)'],
    loops=[dict(inv=['0 <= $a <= $algo.len()', '$this.m_digestAlgorithms =~= hash_algs($this@L.m_digestAlgorithms, $algo, $a)']),
           dict(inv=['0 <= $a <= $type.len()', '!$allServices', '!any_star($type, $a)', '$this.m_serviceType =~= emails($this@L.m_serviceType, $type, $a)'],
                exit=['if $a < $type.len() && $type[$a] =~= s_star() { lemma_any_star($type, $a + 1, $type.len() as int); }'])])
for n, loc in (('GetDigestAlgorithms', 'm_digestAlgorithms'), ('GetServiceType', 'm_serviceType'), ('GetFlags', 'm_flags')):
    C['DKIM::PublicKey::' + n] = dict(result_loc='this.' + loc)
for n, loc in (('GetRSAPublicKey', 'm_publicKeyRSA'), ('GetED25519PublicKey', 'm_publicKeyED25519'), ('GetSignatureAlgorithm', 'm_signatureAlgorithm')):
    C['DKIM::PublicKey::' + n] = dict(result='$this.' + loc)
C['DKIM::PublicKey::SoftFail'] = dict(result='$this.m_flags.contains(seq![121u8])')
