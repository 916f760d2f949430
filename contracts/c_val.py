C = {}
V = 'DKIM::Validatory::'
C[V + '<ctor>'] = dict(params=['stream', 'type'], requires=['!$stream.fail', '$stream.eof ==> $stream.pos >= $stream.d.len()'],
    ensures=['[C03,C23,C10] $this.m_msg.m_header == msg_scan($stream@0.d, $stream@0.pos, Seq::<Option<DKIM_Header>>::empty(), None).hs', '[C03,C23,C10] $this.m_msg.m_bodyOffset == msg_scan($stream@0.d, $stream@0.pos, Seq::<Option<DKIM_Header>>::empty(), None).body',
             '$this.m_file.d == $stream@0.d', '[C23] $this.m_dkimHeaders =~= sig_fields($this.m_msg.m_header, $type@0, $this.m_msg.m_header.len() as int)', 'val_wf($this)'],
    entry_hints=['lemma_msg_run(msg_new(), $stream);'],
    exit_hints=['if $type@0 == 2 { lemma_sig_fields_none($this.m_msg.m_header, $this.m_msg.m_header.len() as int); }'],
    loops=[dict(entry=['assert($this.m_msg.m_header =~= msg_new().m_header);'], inv=['!$this.m_msg.m_done', 'msg_wf($this.m_msg)', 'msg_run($this.m_msg, $this.m_file) == msg_run(msg_new(), $stream@0)', '$this.m_msg.m_bodyOffset == 0', '$this.m_file.d == $stream@0.d'], dec='$this.m_file.d.len() - $this.m_file.pos + (if ss_line_ok($this.m_file) { 1int } else { 0int })', head=['lemma_idx_from($this.m_file.d, 10u8, $this.m_file.pos);']),
           dict(inv=['$this.m_dkimHeaders =~= sig_fields($this.m_msg.m_header, $type, $i)'])])
C[V + 'GetSignatures'] = dict(result_loc='this.m_dkimHeaders')

C[V + 'CheckBodyHash'] = dict(params=['sig'], requires=['val_wf($this)'],
    throws='!body_ok($this, $sig)', throw_class=2, throw_ensures=['[C10,C21] $this.m_file.d == $this@0.m_file.d', 'ss_wf($this.m_file)', '$this.m_msg == $this@0.m_msg', '$this.m_dkimHeaders == $this@0.m_dkimHeaders'],
    modifies=['this.m_file'], ensures=['[C10,C21] $this.m_file.d == $this@0.m_file.d', 'val_wf($this)'])
T = 'sig_tags($headerIter_of[$headerIter]->0, $sig.m_tagList.m_tags)'
A = 'sig_arc($headerIter_of[$headerIter]->0, $sig.m_arc)'
C[V + 'GetSignature'] = dict(params=['headerIter', 'sig'], requires=['val_wf($this)', 'hdrs_wf($headerIter_of)', '$headerIter_of[$headerIter]->0.m_header.len() < 0x8000_0000', 'tags_wf($sig.m_tagList.m_tags)'],
    throws_tag='C10', throws='{T}.bad || sig_bad({T}.tags, {A}, $now) || !body_ok($this, sig_of($sig, {T}.tags, {A}))'.format(T=T, A=A),
    throw_ensures=['[C10,C21] $this.m_file.d == $this@0.m_file.d'],
    modifies=['this.m_file', 'sig'], ensures=['[C10,C21] $this.m_file.d == $this@0.m_file.d', '[C10] val_wf($this)', ('[C10] $sig == sig_of($sig@0, {T}.tags, {A})').format(T=T, A=A).replace('$sig.', '$sig@0.').replace('$sig@0 ==', '$sig =='), '[C09] $sig@0.m_tagList.m_tags =~= Map::<Seq<u8>, DKIM_TagListEntry>::empty() ==> parsed_from($sig, $headerIter_of[$headerIter]->0)'],
    exit_hints=[('if $sig@0.m_tagList.m_tags =~= Map::<Seq<u8>, DKIM_TagListEntry>::empty() { let h_ = $headerIter_of[$headerIter]->0; lemma_hdr_wf(h_); lemma_tags_wf(header_value(h_), 0, $sig@0.m_tagList.m_tags); lemma_tags_faithful(header_value(h_), 0, $sig@0.m_tagList.m_tags, $sig@0.m_tagList.m_tags); lemma_sig_len($sig@0, @T.tags, @A); }').replace('@T', T).replace('@A', A).replace('$sig.', '$sig@0.').replace('$sig@0@0', '$sig@0')])
R = 'key_reply($custom, $rep_ok, $rep_txt, $ans_len, $ans, $herr)'
C[V + 'GetPublicKey'] = dict(params=['sig', 'pubkey'], dns=True, requires=['tags_wf($pubkey.m_tagList.m_tags)', '$rep_txt.len() < 0x8000_0000'],
    entry_hints=['lemma_dns_len($ans_len, $ans, $herr);'],
    throws_by={'DKIM::TemporaryError': '$sig.m_queryType == 0 && !%s.ok' % R, 'DKIM::PermanentError': '$sig.m_queryType != 0 || (%s.ok && key_text_bad($pubkey, %s.text))' % (R, R)},
    modifies=['pubkey'],
    ensures=['[C11] $pubkey == key_of($pubkey@0, tag_scan(%s.text, 0, $pubkey@0.m_tagList.m_tags).tags)' % R, 'key_usable($pubkey)', '[C11] $asked_custom =~= (if $custom { seq![key_name($sig)] } else { Seq::<Seq<u8>>::empty() })', '[C11] $asked_dns =~= (if $custom { Seq::<Seq<u8>>::empty() } else { seq![cstr(key_name($sig))] })'],
    throw_ensures=['$sig.m_queryType == 0 ==> $asked_custom =~= (if $custom { seq![key_name($sig)] } else { Seq::<Seq<u8>>::empty() })', '$sig.m_queryType == 0 ==> $asked_dns =~= (if $custom { Seq::<Seq<u8>>::empty() } else { seq![cstr(key_name($sig))] })'])

H = '$headerCache'
HS = '$this.m_msg.m_header'
C[V + 'CheckSignature(const std::shared_ptr<DKIM::Header>, const DKIM::Signature &, const DKIM::PublicKey &)'] = dict(params=['header', 'sig', 'pub'],
    requires=['val_wf($this)', '$header is Some', 'hdr_wf($header->0)', 'key_usable($pub)', 'parsed_from($sig, $header->0)', '$header->0.m_header.len() < NPOS()'],
    throws='!sig_valid($this.m_msg.m_header, $sig, $pub, $header->0)', throw_class='(if !sig_allowed($sig, $pub) || uncanonical($this.m_msg.m_header, $sig, $header->0) { 6int } else { 2int })',
    throw_ensures=['$this == $this@0'], ensures=['$this == $this@0'],
    entry_hints=['lemma_hdr_wf($header->0);', 'lemma_own_field($sig, $header->0);'],
    loops=[dict(inv=['cache_is($headerCache, %s, $_i)' % HS], entry=['lemma_cache_new(%s);' % HS], back=['lemma_cache_add($headerCache@H, $headerCache, %s, $_i@H);' % HS], exit=['lemma_cache_start($headerCache, %s, $sig.m_headers);' % HS]),
           dict(inv=['$evpmdhead.data =~= signed_head(%s, $sig.m_headers, $sig.m_header, $_i)' % HS, '!signed_bad(%s, $sig.m_headers, $sig.m_header, $_i)' % HS, 'cache_left($headerCache, %s, $sig.m_headers, $_i)' % HS],
                head=['if $_i < $sig.m_headers.len() { lemma_cache_step($headerCache, %s, $sig.m_headers, $_i); }' % HS, 'if $_i < $sig.m_headers.len() && signed_bad(%s, $sig.m_headers, $sig.m_header, $_i + 1) { lemma_signed_bad(%s, $sig.m_headers, $sig.m_header, $_i + 1, $sig.m_headers.len() as int); }' % (HS, HS)],
                back=['if left_for(%s, $sig.m_headers, $_i@H).len() > 0 { lemma_cache_take($headerCache@H, $headerCache, %s, $sig.m_headers, $_i@H); }' % (HS, HS)])])
C[V + 'CheckSignature(const std::_List_const_iterator<std::shared_ptr<DKIM::Header>> &, const DKIM::Signature &, const DKIM::PublicKey &)'] = dict(params=['header', 'sig', 'pub'],
    requires=['val_wf($this)', 'key_usable($pub)', '0 <= $header < $header_of.len()', 'hdrs_wf($header_of)', 'parsed_from($sig, $header_of[$header]->0)', '$header_of[$header]->0.m_header.len() < NPOS()'],
    throws='!sig_valid($this.m_msg.m_header, $sig, $pub, $header_of[$header]->0)', throw_class='(if !sig_allowed($sig, $pub) || uncanonical($this.m_msg.m_header, $sig, $header_of[$header]->0) { 6int } else { 2int })',
    throw_ensures=['$this == $this@0'], ensures=['$this == $this@0'])
