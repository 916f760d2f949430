C = {}
S = 'DKIM::Signatory::'
G = 'signing($this@0, $options, $now)'
HS = 'sgn_msg($this@0).m_header'
W = '$options.m_headers'
M = '$options.m_canonHead'
N = '(%s.len() - $h)' % HS
K = '($options.m_signatures.len() - 1 - $s)'
# what is known of the state wherever the argument is cut: the message is read, the body digest and the digest of the signed fields are taken
F3 = ['ss_wf($this.m_file)', '$this.m_file.d == $this@0.m_file.d', '$this.m_msg == sgn_msg($this@0)', '$this.m_msg.m_done', 'sgn_wf($this)',
    '!($options.m_bodySignLength && $options.m_bodyLength > sgn_body($this@0, $options).len())', '$bh =~= digest(g_nid(%s), %s.body)' % (G, G), '$bh.len() == 20 || $bh.len() == 32']
F4 = F3 + ['!sign_text_bad(%s, %s, %s, 0)' % (HS, W, M), '$signedHeaders =~= h_names(%s, $options)' % HS,
    '$evpmdhead.data =~= sign_text(%s, %s, %s, 0)' % (HS, W, M), '$md.len() == 64', '0 <= $md_len <= 4294967295', '$evpmdhead.alg == g_nid(%s)' % G, '$md_nid == g_nid(%s)' % G]
S4 = ['0 <= $s < $options.m_signatures.len()', '$dkimHeaders =~= g_fields(%s, $s as int)' % G, '!g_bad(%s, $s as int)' % G, '$signature == $options.m_signatures[%s]' % K]
F5 = F4 + S4 + ['$dkimHeader =~= sign_headA($options, $signature, $now)', '$headerlist =~= sl_h()']
F6 = F3 + S4 + ['$dkimHeader =~= g_head(%s, %s)' % (G, K), '!canon_head(%s, g_head(%s, %s)).bad' % (M, G, K), '!g_key_bad(%s, %s)' % (G, K), '!sign_text_bad(%s, %s, %s, 0)' % (HS, W, M),
    '$signedHeaders =~= h_names(%s, $options)' % HS, '$evpmdhead.data =~= sign_text(%s, %s, %s, 0)' % (HS, W, M), '$md.len() == 64', '0 <= $md_len <= 4294967295', '$split =~= b64_enc(g_sig(%s, %s))' % (G, K), '$offset == 3']
C[S + '<ctor>'] = dict(params=['file'], requires=['!$file.fail', '$file.eof ==> $file.pos >= $file.d.len()'], ensures=['$this.m_msg == msg_new()', '$this.m_file == $file@0', 'sgn_wf($this)'], exit_hints=['assert($this.m_msg.m_header =~= msg_new().m_header);'])
C[S + 'CreateSignature'] = dict(chunk=5, params=['options'], requires=['sgn_wf($this)', 'opts_enum($options)', '$options.m_signatures.len() >= 1', '-0x8000_0000_0000_0000 <= sign_exp($options, $now) <= 0x7fff_ffff_ffff_ffff'],
    throws='sign_bad($this, $options, $now)', result='g_fields(signing($this@0, $options, $now), $options.m_signatures.len() as int)', modifies=['this.m_file', 'this.m_msg'],
    ensures=['[C13,C21] $this.m_file.d == $this@0.m_file.d', '[C13,C21] $this.m_msg == sgn_msg($this@0)', '$this.m_msg.m_done', 'sgn_wf($this)'],
    throw_ensures=['[C13,C21] $this.m_file.d == $this@0.m_file.d', '[C13,C21] $this.m_msg == sgn_msg($this@0)', '$this.m_msg.m_done', 'sgn_wf($this)'],
    decl_hints={'timestamp': ['assert($dkimHeader =~= sign_head1($options, $signature));'], 'limit': ['assert($dkimHeader =~= sign_head1($options, $signature) + sign_head2($options, $now) + sign_head3($options, $now) + crlf());'],
        'identity': ['assert($limit =~= sign_limit($options));'], 'headerlist': ['lemma_qp_cstr($options.m_identity); assert($identity =~= sign_ident($options));', 'assert($dkimHeader =~= sign_headA($options, $signature, $now));'],
        'expiration': ['assert($dkimHeader =~= sign_head1($options, $signature) + sign_head2($options, $now));']},
    entry_hints=['if !$this.m_msg.m_done { lemma_msg_run($this.m_msg, $this.m_file); }'],
    loops=[
        dict(inv=['sgn_wf($this)', 'sgn_msg($this) == sgn_msg($this@0)', '$this.m_file.d == $this@0.m_file.d'], dec='$this.m_file.d.len() - $this.m_file.pos + (if ss_line_ok($this.m_file) { 1int } else { 0int }) + (if $this.m_msg.m_done { 0int } else { 1int })', head=['lemma_idx_from($this.m_file.d, 10u8, $this.m_file.pos);']),
        dict(inv=['$headersToSign =~= want_set(%s, $_i)' % W], exit=['lemma_want_empty(%s);' % W]),
        dict(inv=['0 <= $h <= %s.len()' % HS, '$evpmdhead.data =~= sign_text(%s, %s, %s, %s)' % (HS, W, M, N), '$signedHeaders =~= sign_names(%s, %s, %s)' % (HS, W, N), '!sign_text_bad(%s, %s, %s, %s)' % (HS, W, M, N)], dec=N,
            throw=['lemma_sign_text_bad(%s, %s, %s, %s - 1, 0);' % (HS, W, M, N)]),
        dict(inv=['$oversign =~= lower_first($oversign@L, $_i)']),
        dict(inv=['0 <= $s <= $options.m_signatures.len()', '$dkimHeaders =~= g_fields(%s, $s as int)' % G, '!g_bad(%s, $s as int)' % G], dec='$options.m_signatures.len() - $s', cut=F4,
            throw=['assert($dkimHeader =~= g_head(%s, $options.m_signatures.len() - 1 - $s));' % G, 'lemma_g_bad(%s, $s as int + 1, $options.m_signatures.len() as int);' % G], back=['assert($dkimHeader =~= g_field(%s, $options.m_signatures.len() - 1 - ($s - 1)));' % G]),
        dict(inv=['0 <= $i <= $signedHeaders.len()', '$dkimHeader =~= $dkimHeader@L + h_list($signedHeaders, $i as int).done', '$headerlist =~= h_list($signedHeaders, $i as int).line'], dec='$signedHeaders.len() - $i', cut=F5),
        dict(inv=['$offset == 2 || $offset == 3', '$dkimHeader + sign_lines($split, 80 - $offset) =~= $dkimHeader@L + sign_lines($split@L, 77)'], dec='$split.len()', cut=F6, exit=['assert($dkimHeader =~= $dkimHeader@L + sign_lines($split@L, 77));'],
            entry=['assert($dkimHeader =~= g_head(%s, %s));' % (G, K), 'assert($tmp3 =~= g_sig(%s, %s));' % (G, K)]),
    ])
