C = {}
C['DKIM::Conversion::Base64_Decode'] = dict(
    params=['data'], requires=['$data.len() < 0x8000_0000'], result='b64_dec($data@0)',
    loops=[dict(inv=['$result =~= $l.got', '$l.got =~= b64_dec($data).subrange(0, $l.got.len() as int)', '$l.got.len() <= b64_dec($data).len()'], dec='b64_dec($data).len() - $l.got.len()')])
C['DKIM::Conversion::Base64_Encode'] = dict(
    params=['data'], requires=['$data.len() < 0x8000_0000'], result='b64_enc($data@0)', ensures=['b64_dec(b64_enc($data@0)) == $data@0'],
    call_hints=['thm_b64_inverse($data);'], entry_hints=['thm_b64_inverse($data);'],
    loops=[dict(inv=['b64_enc($data) =~= $str + $o.data', 'forall|i: int| 0 <= i < $o.data.len() ==> #[trigger] $o.data[i] != 10'], dec='$o.data.len()')])
