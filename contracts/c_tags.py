C = {}
C['DKIM::TagList::Reset'] = dict(ensures=['$this.m_tags == Map::<Seq<u8>, DKIM_TagListEntry>::empty()'])
C['DKIM::TagList::Parse'] = dict(
    params=['s'], throws='tag_scan($s, 0, $this.m_tags).bad', post={'this.m_tags': 'tag_scan($s, 0, $this.m_tags).tags'}, ensures=['tags_faithful($s@0, $this@0.m_tags, $this.m_tags)', '$s@0.len() < 0x8000_0000 && tags_wf($this@0.m_tags) ==> tags_wf($this.m_tags)'],
    entry_hints=['lemma_tags_faithful($s, 0, $this.m_tags, $this.m_tags);', 'if $s.len() < 0x8000_0000 && tags_wf($this.m_tags) { lemma_tags_wf($s, 0, $this.m_tags); }'],
    loops=[
        dict(inv=['tag_scan($s, $data.pos, $this.m_tags) == tag_scan($s, 0, $this@0.m_tags)'],
             head=['lemma_ws_end($data.d, $data.pos);', 'let s_ = ws_end($data.d, $data.pos); lemma_name_end($data.d, s_); let e_ = name_end($data.d, s_); lemma_ws_end($data.d, e_);',
                   'if at($data.d, ws_end($data.d, e_), 61) { let v_ = ws_end($data.d, ws_end($data.d, e_) + 1); lemma_ws_end($data.d, ws_end($data.d, e_) + 1); lemma_val_scan($data.d, v_, v_); }'],
             dec='$data.d.len() - $data.pos + (if $data.eof {0int} else {1int})',
             back=['assert($this.m_tags =~= $this@H.m_tags.insert($name, $tagEntry));'], exit=['let s_ = ws_end($data@H.d, $data@H.pos); let e_ = name_end($data@H.d, s_); let v_ = ws_end($data@H.d, ws_end($data@H.d, e_) + 1); if s_ < $data@H.d.len() { assert($name =~= $data@H.d.subrange(s_, e_)); assert($value =~= $data@H.d.subrange(v_, val_scan($data@H.d, v_, v_).last)); assert($data.pos >= $data.d.len()); assert(val_scan($data@H.d, v_, v_).end >= $data.d.len()); assert(!val_scan($data@H.d, v_, v_).bad); assert($this.m_tags =~= $this@H.m_tags.insert($name, $tagEntry)); assert($tagEntry.m_valueOffset == (if v_ < $data@H.d.len() { v_ } else { -1 })); }', 'assert($this.m_tags =~= tag_scan($s, $data@H.pos, $this@H.m_tags).tags);']),
        dict(inv=['$data@L.pos <= $data.pos + $name@L.len()', '$name@L.len() <= 1', '$name =~= $data.d.subrange($data@L.pos - $name@L.len(), $data.pos)', 'name_end($data.d, $data.pos) == name_end($data.d, $data@L.pos - $name@L.len())'],
             head=['lemma_name_end($data.d, $data.pos);']),
        dict(inv=['0 <= $data@L.pos <= $data.pos', '$data@L.pos + $value.len() + $value_buf.len() == $data.pos', '$value =~= $data.d.subrange($data@L.pos, $data@L.pos + $value.len())',
                  '$value_buf =~= $data.d.subrange($data@L.pos + $value.len(), $data.pos)',
                  'val_scan($data.d, $data.pos, $data@L.pos + $value.len()) == val_scan($data.d, $data@L.pos, $data@L.pos)'],
             head=['lemma_rws($data.d, $data.pos, 3);', 'lemma_val_scan($data.d, $data.pos, $data@L.pos + $value.len());']),
    ])
C['DKIM::TagList::GetTag'] = dict(params=['n', 'tag'], result='$this.m_tags.dom().contains($n)', post={'tag': '(if $this.m_tags.dom().contains($n) { $this.m_tags[$n] } else { $tag })'})
