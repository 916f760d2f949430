C = {}
C['DKIM::Conversion::QuotedPrintable::Decode'] = dict(
    params=['s', 'word'], throws='qp_dec($s, 0, $word, Seq::<u8>::empty()).bad', result='qp_dec($s@0, 0, $word@0, Seq::<u8>::empty()).out',
    loops=[dict(inv=['qp_dec($s, $data.pos, $word, $output) == qp_dec($s, 0, $word, Seq::<u8>::empty())'],
                head=['lemma_wsp_end($data.d, $data.pos);', 'lemma_rws($data.d, $data.pos, 2);',
                      'if 0 <= $data.pos && $data.pos + 2 < $data.d.len() && is_hexu($data.d[$data.pos + 1]) && is_hexu($data.d[$data.pos + 2]) { lemma_hex2($data.d[$data.pos + 1], $data.d[$data.pos + 2]); }'],
                )])
C['DKIM::Conversion::QuotedPrintable::Encode'] = dict(
    params=['s'], result='qp_enc($s@0, $s@0.len() as int)', call_hints=['thm_qp_inverse($s);'],
    loops=[dict(inv=['0 <= $_i <= $s.len()']),
           dict(inv=['0 <= $_i <= $s.len()', '$result =~= qp_enc($s, $_i)'],
                entry=['assert(qp_tab_chk($qp_table, 0)) by(compute_only);', 'lemma_qp_tab($qp_table, 0);'])])
