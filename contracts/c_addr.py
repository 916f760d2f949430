C = {}
E0 = 'Seq::<u8>::empty()'
C['DKIM::Tokenizer::NextAddressListToken'] = dict(
    params=['data', 'token'], requires=['$data.d.len() < 0x8000_0000'], throws='tok($data.d, $data.pos, Seq::empty()).bad', modifies=['data', 'token'],
    result='tok($data@0.d, $data@0.pos, Seq::empty()).ty',
    ensures=['$data.d == $data@0.d', '$data.pos == tok($data@0.d, $data@0.pos, Seq::empty()).end', 'ss_wf($data)', '$token =~= tok($data@0.d, $data@0.pos, Seq::empty()).text'],
    throw_ensures=['$data.d == $data@0.d', 'ss_wf($data)'],
    call_hints=['lemma_tok($data.d, $data@0.pos, Seq::empty());'],
    loops=[
        dict(inv=['tok($data.d, $data.pos, $token) == tok($data.d, $data@L.pos, Seq::empty())'], head=['lemma_rws($data.d, $data.pos, 2);', 'lemma_wsp_end($data.d, $data.pos);']),
        dict(inv=['q_tok($data.d, $data.pos, $token) == q_tok($data.d, $data@L.pos, Seq::empty())'], entry=['assert($token =~= Seq::<u8>::empty());']),
        dict(inv=['0 <= $depth <= $data.pos', 'c_tok($data.d, $data.pos, $depth, $token) == c_tok($data.d, $data@L.pos, 1, Seq::empty())'], dec='$data.d.len() - $data.pos', entry=['assert($token =~= Seq::<u8>::empty());']),
    ])
C['DKIM::Tokenizer::ParseAddressList'] = dict(
    params=['input'], requires=['$input.len() < 0x8000_0000'], throws='addresses($input).bad', result='addresses($input@0).out', dec='$input.len()',
    loops=[
        dict(inv=['$type != 6 ==> addrs($data.d, $data.pos, $type, $tokens, $inOpentag, $list) == addresses($input)', '$type == 6 ==> addresses($input) == (Addrs { out: $list, bad: false })',
                  '0 <= $type <= 6', '$tokens.len() == 1 && $type == 0 ==> $tokens[0].len() < $data.d.len()'],
             dec='$data.d.len() - $data.pos + (if $type == 6 { 0int } else { 1int })', head=['if $type != 6 { lemma_tok($data.d, $data.pos, Seq::empty()); }'],
             back=['let t_ = tok($data@H.d, $data@H.pos, Seq::empty()); let inner_ = addresses($tokens@H[0]).out;',
                   'if t_.ty >= 4 { assert($list =~= if entry_dropped($tokens@H, $type@H, t_.ty) { $list@H } else if entry_quoted($tokens@H, $type@H) { $list@H + inner_ } else { $list@H.push(cat($tokens@H, $tokens@H.len() as int)) }); assert($tokens =~= Seq::<Seq<u8>>::empty()); }']),
        dict(inv=['0 <= $i <= $tokens.len()', '$tmp =~= cat($tokens, $i as int)'], dec='$tokens.len() - $i'),
        dict(inv=['0 <= $i <= $addresses.len()', '$list =~= $list@L + $addresses.subrange(0, $i as int)'], dec='$addresses.len() - $i'),
    ])
