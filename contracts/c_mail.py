C = {}
C['DKIM::Header::<ctor>'] = dict(ensures=['$this == hdr_of(Seq::<u8>::empty())'])
C['DKIM::Header::ParseLine'] = dict(params=['data'], requires=['hdr_wf($this)'], ensures=['$this == hdr_of(add_line($this@0.m_header, $data@0))', '$result == ($this.m_valueOffset != 0)'],
    entry_hints=['lemma_idx_from($this.m_header, 58u8, 0); lemma_idx_from(add_line($this.m_header, $data), 58u8, 0);', 'lemma_idx_prefix($this.m_header, crlf() + $data, 58u8, 0);', 'assert($this.m_header + crlf() + $data =~= $this.m_header + (crlf() + $data)); assert($this.m_header + $data =~= add_line($this.m_header, $data) || $this.m_header.len() > 0);',
      'if add_line($this.m_header, $data).len() < NPOS() { lemma_trim(add_line($this.m_header, $data).subrange(0, idx_from(add_line($this.m_header, $data), 58u8, 0))); }'],
    exit_hints=['let t_ = add_line($this@0.m_header, $data@0); let c_ = idx_from(t_, 58u8, 0); assert($this.m_header =~= t_); if $this@0.m_valueOffset != 0 { assert(t_.subrange(0, c_) =~= $this@0.m_header.subrange(0, c_)); } else { if c_ < t_.len() { assert(str_substr($this.m_header, 0, c_) =~= t_.subrange(0, c_)); } }','assert($this.m_header =~= add_line($this@0.m_header, $data@0)); assert($this.m_name =~= hdr_of($this.m_header).m_name);'])
C['DKIM::Header::GetName'] = dict(result_loc='this.m_name')
C['DKIM::Header::GetHeader'] = dict(result_loc='this.m_header')
C['DKIM::Header::GetValueOffset'] = dict(result='$this.m_valueOffset')
NEW = '$this.m_header.len() == 0 && $this.m_tmpHeader is None && !$this.m_done && $this.m_bodyOffset == 0'
C['DKIM::Message::<ctor>'] = dict(ensures=[NEW])
C['DKIM::Message::Reset'] = dict(ensures=[NEW])
C['DKIM::Message::IsDone'] = dict(result='$this.m_done')
C['DKIM::Message::GetHeaders'] = dict(result_loc='this.m_header')
C['DKIM::Message::GetBodyOffset'] = dict(result='$this.m_bodyOffset')
C['DKIM::Message::ParseLine'] = dict(params=['stream'], requires=['!$this.m_done', 'msg_wf($this)'], shared_ok='$this.m_done',
    ensures=['$this == msg_step($this@0, $stream@0)', '$stream == ss_getline($stream@0)', '$result == ss_line_ok($stream@0)', 'msg_wf($this)'])
