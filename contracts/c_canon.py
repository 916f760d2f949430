C = {}
C['DKIM::Conversion::CanonicalizationHeader::<ctor>'] = dict(params=['type'], ensures=['$this.m_type == $type@0'])
C['DKIM::Conversion::CanonicalizationHeader::SetType'] = dict(params=['type'], ensures=['$this.m_type == $type@0'])
C['DKIM::Conversion::CanonicalizationHeader::FilterHeader'] = dict(params=['input'],
    throws='canon_head($this.m_type, $input).bad', result='canon_head($this.m_type, $input@0).t',
    entry_hints=['lemma_idx_from($input, 58u8, 0);'],
    loops=[dict(inv=['fold_out($data.d, $data.pos, $x) == fold_out(map_range_tolower($input, 0, idx_from($input, 58u8, 0)), 0, Seq::<u8>::empty())'],
                head=['lemma_skip($data.d, $data.pos, 2);'],
                exit=['if !fold_out(map_range_tolower($input, 0, idx_from($input, 58u8, 0)), 0, Seq::<u8>::empty()).bad { lemma_fold_colon(map_range_tolower($input, 0, idx_from($input, 58u8, 0)), 0, Seq::<u8>::empty(), idx_from($input, 58u8, 0)); if $x.len() < NPOS() { lemma_colon_trim($x); } }']),
           dict(inv=['skip_end($data.d, $data.pos, 2) == skip_end($data.d, $data@L.pos, 2)', 'skip_throws($data.d, $data.pos, 2) == skip_throws($data.d, $data@L.pos, 2)', '$data@L.pos <= $data.pos', '$found == ($data.pos > $data@L.pos)'],
                head=['lemma_skip($data.d, $data.pos, 2);'])])
B = 'todo($stream.d, $bodyOffset, 0, false, $type == 1)'
F = 'canon_body($stream@0.d, $bodyOffset@0, $type@0 == 1)'
P = '$stream.pos - $gcount'
C['DKIM::Conversion::CanonicalizationBody'] = dict(params=['stream', 'type', 'bodyOffset', 'bodyLimit', 'bodySize', 'func'], sink='func',
    requires=['$bodyOffset == -1 || 0 <= $bodyOffset <= $stream.d.len()'],
    ensures=['$stream.d == $stream@0.d', 'ss_wf($stream)', '$sink =~= cut(%s, $bodyLimit@0, $bodySize@0)' % F],
    result='!($bodyLimit@0 && $bodySize@0 > %s.len())' % F,
    entry_hints=['if $bodyOffset != -1 { thm_todo($stream.d, $bodyOffset, $type == 1); }'],
    loops=[
        dict(inv=['!$bodyLimit || $bodySize > 0 ==> $sink + todo($stream.d, $stream.pos, $lines, $pendingwsp, $type == 1) =~= ' + B,
                  '$bodyLimit ==> $bodySize == $bodySize@0 - $sink.len()', '$bodyLimit && $bodySize == 0 ==> $sink =~= cut(%s, true, $bodySize@0) && $bodySize@0 <= %s.len()' % (B, B),
                  '$emptyBody == ($sink.len() == 0)', '0 <= $lines <= $stream.pos'],
             dec='$stream.d.len() - $stream.pos + (if $stream.eof || $stream.fail {0int} else {1int})'),
        dict(inv=['0 <= $i <= $gcount', '0 <= $lines <= %s + $i' % P, '$buf + todo($stream.d, %s + $i, $lines, $pendingwsp, $type == 1) =~= todo($stream.d, %s, $lines@L, $pendingwsp@L, $type == 1)' % (P, P)],
             dec='$gcount - $i', head=['assert($i < $gcount ==> $buffer[$i] == $stream.d[%s + $i]);' % P]),
        dict(inv=['0 <= $lines <= $lines@L', '$buf + crlfs($lines) =~= $buf@L + crlfs($lines@L)'], dec='$lines'),
    ])
