C = {}
C['DKIM::Tokenizer::ReadWhiteSpace'] = dict(
    params=['stream', 'type'],
    throws='rws_throws($stream.d, $stream.pos, $type)',
    exc='DKIM::PermanentError',
    dec='(if $type == 2 { 1int } else { 0int })',
    result='$stream@0.d.subrange($stream@0.pos, rws_end($stream@0.d, $stream@0.pos, $type@0))',
    ensures=['$stream.d == $stream@0.d', '$stream.pos == rws_end($stream@0.d, $stream@0.pos, $type@0)', 'ss_wf($stream)', '$type@0 == 3 && $result.len() == 0 ==> ($stream.pos >= $stream.d.len() ==> $stream.eof || $stream.fail)'],
    throw_ensures=['$stream.d == $stream@0.d', 'ss_wf($stream)'],
    call_hints=['lemma_rws($stream.d, $stream@0.pos, $type@0);'],
    entry_hints=['lemma_wsp_end($stream.d, $stream.pos);'],
    loops=[
        dict(inv=['$stream@0.pos <= $stream.pos <= $stream.d.len()', '$_s =~= $stream.d.subrange($stream@0.pos, $stream.pos)', 'wsp_end($stream.d, $stream.pos) == wsp_end($stream.d, $stream@0.pos)'],
             head=['lemma_wsp_end($stream.d, $stream.pos);']),
        dict(inv=['$stream@L.pos <= $stream.pos <= $stream.d.len()', '$_s =~= $stream.d.subrange($stream@0.pos, $stream.pos)', 'wsp_end($stream.d, $stream.pos) == wsp_end($stream.d, $stream@L.pos)'],
             head=['lemma_wsp_end($stream.d, $stream.pos);']),
        dict(inv=['0 <= $i <= $_s.len()', '$stream.pos == $stream@0.pos + $i', '!$stream.fail && !$stream.eof'], dec='$i'),
    ])
C['DKIM::Tokenizer::ValueList'] = dict(
    params=['input'],
    throws='list_scan($input, 0, Seq::<Seq<u8>>::empty()).bad',
    result='list_scan($input@0, 0, Seq::<Seq<u8>>::empty()).items',
    loops=[
        dict(inv=['list_scan($input, $data.pos, $values) == list_scan($input, 0, Seq::<Seq<u8>>::empty())'],
             head=['lemma_skip($data.d, $data.pos, 2);', 'lemma_item_scan($data.d, skip_end($data.d, $data.pos, 2), skip_end($data.d, $data.pos, 2));'],
             dec='$data.d.len() - $data.pos + (if $data.eof {0int} else {1int})'),
        dict(inv=['0 <= $data@L.pos <= $data.pos', '$data@L.pos + $value.len() + $value_buf.len() == $data.pos', '$value =~= $data.d.subrange($data@L.pos, $data@L.pos + $value.len())',
                  '$value_buf =~= $data.d.subrange($data@L.pos + $value.len(), $data.pos)',
                  'item_scan($data.d, $data.pos, $data@L.pos + $value.len()) == item_scan($data.d, $data@L.pos, $data@L.pos)'],
             head=['lemma_rws($data.d, $data.pos, 2);', 'lemma_wsp_end($data.d, $data.pos);']),
    ])
