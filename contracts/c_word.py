C = {}
P = '$data.pos'
field = lambda v: dict(inv=['$data@L.pos + $%s.len() == $data.pos' % v, '$%s =~= $data.d.subrange($data@L.pos, $data.pos)' % v,
                            'idx_from($data.d, 63, $data.pos) == idx_from($data.d, 63, $data@L.pos)', '!$fail || $data.pos >= $data.d.len()'],
                       dec='$data.d.len() - $data.pos + (if $fail { 0int } else { 1int })', head=['lemma_idx_from($data.d, 63, $data.pos);'])
C['DKIM::Conversion::EncodedWord::Decode'] = dict(
    params=['input'], requires=['$input.len() < 0x8000_0000'], throws='ew_decode($input).bad', result='ew_decode($input@0).out',
    loops=[dict(inv=['ew($data.d, $data.pos, $output) == ew_decode($input)'],
                entry=[],
                head=['lemma_ew_ws($data.d, $data.pos, Seq::empty());', 'let r_ = ew_ws($data.d, $data.pos, Seq::empty()); if at($data.d, r_.end, 61) { lemma_ew_word($data.d, r_.end); }'],
                back=['let r_ = ew_ws($data@H.d, $data@H.pos, Seq::empty()); let w_ = ew_word($data@H.d, r_.end);',
                      'if $data@H.d[r_.end] == 61 { assert($output =~= if w_.ok { $output@H + w_.out } else { $output@H + r_.ws + $data@H.d.subrange(r_.end, w_.end) }); }',
                      'if $data@H.d[r_.end] != 61 { assert($output =~= ($output@H + r_.ws).push($data@H.d[r_.end])); }']),
           dict(inv=['ew_ws($data.d, $data.pos, $ws) == ew_ws($data.d, $data@L.pos, Seq::empty())'], head=['lemma_ew_ws($data.d, $data.pos, $ws);', 'if $data.pos < $data.d.len() { assert($data.d.subrange($data.pos, $data.pos + 1) =~= seq![$data.d[$data.pos]]); assert($ws + seq![$data.d[$data.pos]] =~= $ws.push($data.d[$data.pos])); }']),
           field('charset'), field('encoding'), field('encdata'),
           dict(inv=['!$fail ==> $encdata == $encdata@L', '$fail@L ==> $fail', '$fail && !$fail@L ==> !ew_decodes($encoding, $encdata@L)'], dec='(if $fail { 0int } else { 1int })'),
    ])
