C = {}
C['DKIM::Signature::<ctor>'] = dict(ensures=['$this == sig_new()'])
C['DKIM::Signature::Reset'] = dict(ensures=['$this == sig_new()'])
T = 'sig_tags($header@0->0, $this@0.m_tagList.m_tags)'
A = 'sig_arc($header@0->0, $this@0.m_arc)'
C['DKIM::Signature::Parse'] = dict(
    params=['header'], requires=['$header is Some', 'hdr_wf($header->0)', '$header->0.m_header.len() < 0x8000_0000', 'tags_wf($this.m_tagList.m_tags)'],
    throws='%s.bad || sig_bad(%s.tags, %s, $now)' % (T, T, A),
    throws_parts=[('C05', '%s.bad || sig_bad05(%s.tags, %s)' % (T, T, A)), ('C06', 'sig_bad06(%s.tags, %s)' % (T, A)), ('C07', 'sig_bad07(%s.tags, %s, $now)' % (T, A))],
    ensures=['[%s] ($this.%s) == (sig_of($this@0, %s.tags, %s)).%s' % (p, f, T, A, f) for p, f in (('C05', 'm_tagList'), ('C05', 'm_digestAlgorithm'), ('C05', 'm_signatureAlgorithm'), ('C05', 'm_b'), ('C05', 'm_bh'), ('C05', 'm_header'), ('C05', 'm_body'), ('C05,C06', 'm_domain'), ('C05', 'm_headers'),
        ('C06', 'm_mailLocalPart'), ('C06', 'm_mailDomain'), ('C07,C05', 'm_bodySize'), ('C07,C05', 'm_bodySizeLimit'), ('C05', 'm_queryType'), ('C05', 'm_selector'), ('C05', 'm_arc'), ('C07', 'm_arcInstance'))] + ['$this == sig_of($this@0, %s.tags, %s)' % (T, A), 'tags_wf($this.m_tagList.m_tags)'],
    entry_hints=['lemma_l_tag(sig_tags($header->0, $this.m_tagList.m_tags).tags);', 'lemma_hdr_wf($header->0);'],
    loops=[dict(inv=['!$signedFrom', '0 <= $i <= $this.m_headers.len()', '!lists_from($this.m_headers, $i)'], exit=['if $i < $this.m_headers.len() && is_from(cstr($this.m_headers[$i])) { lemma_lists_from($this.m_headers, $i + 1, $this.m_headers.len() as int); }'])],
    )
for n, loc in (('GetTagList', 'm_tagList'), ('GetSignatureData', 'm_b'), ('GetBodyHash', 'm_bh'), ('GetDomain', 'm_domain'), ('GetSignedHeaders', 'm_headers'), ('GetMailLocalPart', 'm_mailLocalPart'), ('GetMailDomain', 'm_mailDomain'), ('GetSelector', 'm_selector')):
    C['DKIM::Signature::' + n] = dict(result_loc='this.' + loc)
for n, loc in (('GetDigestAlgorithm', 'm_digestAlgorithm'), ('GetSignatureAlgorithm', 'm_signatureAlgorithm'), ('GetCanonModeHeader', 'm_header'), ('GetCanonModeBody', 'm_body'), ('GetBodySize', 'm_bodySize'), ('GetBodySizeLimit', 'm_bodySizeLimit'), ('GetQueryType', 'm_queryType'), ('GetARCInstance', 'm_arcInstance'), ('IsARC', 'm_arc')):
    C['DKIM::Signature::' + n] = dict(result='$this.' + loc)
C['DKIM::Signature::GetTag'] = dict(params=['name', 'tag'], result='$this.m_tagList.m_tags.dom().contains($name)', post={'tag': '(if $this.m_tagList.m_tags.dom().contains($name) { $this.m_tagList.m_tags[$name] } else { $tag })'})
