// ---------------------------------------------------------------------------------------------
// C04: tag=value lists
// ---------------------------------------------------------------------------------------------
pub open spec fn is_name(c: u8) -> bool { is_alnum(c) || c == 95 }
pub open spec fn is_valchar(c: u8) -> bool { 0x21 <= c <= 0x7e && c != 0x3b }
pub open spec fn name_end(d: Seq<u8>, p: int) -> int decreases d.len() - p { if 0 <= p < d.len() && is_name(d[p]) { name_end(d, p + 1) } else { p } }
pub proof fn lemma_name_end(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures p <= name_end(d, p) <= d.len(), forall|i: int| p <= i < name_end(d, p) ==> is_name(#[trigger] d[i]), name_end(d, p) < d.len() ==> !is_name(d[name_end(d, p)]),
    decreases d.len() - p
{ if p < d.len() && is_name(d[p]) { lemma_name_end(d, p + 1); } }
/// value scan from p; last = end of the last value character
pub open spec fn val_scan(d: Seq<u8>, p: int, last: int) -> ItemScan decreases d.len() - p {
    if p < 0 || p >= d.len() || d[p] == 59 { ItemScan { end: p, last: last, bad: false } }
    else if is_valchar(d[p]) { val_scan(d, p + 1, p + 1) }
    else if is_ws4(d[p]) { val_scan(d, p + 1, last) }
    else { ItemScan { end: p, last: last, bad: true } }
}
pub proof fn lemma_val_scan(d: Seq<u8>, p: int, last: int)
    requires 0 <= last <= p <= d.len()
    ensures p <= val_scan(d, p, last).end <= d.len(), last <= val_scan(d, p, last).last <= val_scan(d, p, last).end
    decreases d.len() - p
{ if p < d.len() && d[p] != 59 { if is_valchar(d[p]) { lemma_val_scan(d, p + 1, p + 1); } else if is_ws4(d[p]) { lemma_val_scan(d, p + 1, last); } } }
pub open spec fn ws_end(d: Seq<u8>, p: int) -> int decreases d.len() - p { if 0 <= p < d.len() && is_ws4(d[p]) { ws_end(d, p + 1) } else { p } }
pub proof fn lemma_ws_end(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures p <= ws_end(d, p) <= d.len(), skip_end(d, p, 3) == ws_end(d, p), !skip_throws(d, p, 3), ws_end(d, p) < d.len() ==> !is_ws4(d[ws_end(d, p)])
    decreases d.len() - p
{ if p < d.len() && is_ws4(d[p]) { lemma_ws_end(d, p + 1); } }
pub struct TagScan { pub tags: Map<Seq<u8>, DKIM_TagListEntry>, pub bad: bool }
/// the tags from p on, added to m; an empty value at the end of the input has no position (-1)
pub open spec fn tag_scan(d: Seq<u8>, p: int, m: Map<Seq<u8>, DKIM_TagListEntry>) -> TagScan decreases d.len() - p {
    let s = ws_end(d, p); let e = name_end(d, s); let q = ws_end(d, e); let v = ws_end(d, q + 1); let t = val_scan(d, v, v);
    if p < 0 || p > d.len() || s >= d.len() { TagScan { tags: m, bad: false } }
    else if e <= s || m.dom().contains(d.subrange(s, e)) || !at(d, q, 61) || t.bad { TagScan { tags: m, bad: true } }
    else {
        let n = m.insert(d.subrange(s, e), DKIM_TagListEntry { m_value: d.subrange(v, t.last), m_valueOffset: if v < d.len() { v } else { -1 } });
        if p <= t.end < d.len() { tag_scan(d, t.end + 1, n) } else { TagScan { tags: n, bad: false } }
    }
}
/// every tag added holds exactly the bytes of the input its position and length delimit
pub open spec fn faithful(d: Seq<u8>, e: DKIM_TagListEntry) -> bool { e.m_value.len() > 0 ==> 1 <= e.m_valueOffset && e.m_valueOffset + e.m_value.len() <= d.len() && e.m_value =~= d.subrange(e.m_valueOffset, e.m_valueOffset + e.m_value.len()) }
pub open spec fn tags_faithful(d: Seq<u8>, m0: Map<Seq<u8>, DKIM_TagListEntry>, m: Map<Seq<u8>, DKIM_TagListEntry>) -> bool {
    forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> (m0.dom().contains(k) && m[k] == m0[k]) || (!m0.dom().contains(k) && faithful(d, m[k]))
}
pub proof fn lemma_tags_faithful(d: Seq<u8>, p: int, m0: Map<Seq<u8>, DKIM_TagListEntry>, m: Map<Seq<u8>, DKIM_TagListEntry>)
    requires 0 <= p <= d.len(), tags_faithful(d, m0, m), forall|k: Seq<u8>| #[trigger] m0.dom().contains(k) ==> m.dom().contains(k)
    ensures tags_faithful(d, m0, tag_scan(d, p, m).tags)
    decreases d.len() - p
{
    let s = ws_end(d, p); let e = name_end(d, s); let q = ws_end(d, e); let v = ws_end(d, q + 1); let t = val_scan(d, v, v);
    lemma_ws_end(d, p);
    if s < d.len() {
        lemma_name_end(d, s); lemma_ws_end(d, e);
        if e <= s || m.dom().contains(d.subrange(s, e)) || !at(d, q, 61) {} else {
            lemma_ws_end(d, q + 1); lemma_val_scan(d, v, v);
            if !t.bad {
                let n = m.insert(d.subrange(s, e), DKIM_TagListEntry { m_value: d.subrange(v, t.last), m_valueOffset: if v < d.len() { v } else { -1 } });
                if p <= t.end < d.len() { lemma_tags_faithful(d, t.end + 1, m0, n); }
            }
        }
    }
}
/// tag values are ASCII text shorter than 2 GiB
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn tags_wf(m: Map<Seq<u8>, DKIM_TagListEntry>) -> bool { forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> m[k].m_value.len() < 0x8000_0000 && ascii(m[k].m_value) && cstr(m[k].m_value) == m[k].m_value }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub proof fn lemma_val_text(d: Seq<u8>, p: int, last: int, s: int)
    requires 0 <= s <= last <= p <= d.len(), forall|i: int| s <= i < p ==> 0 < #[trigger] d[i] < 128
    ensures forall|i: int| s <= i < val_scan(d, p, last).last ==> 0 < #[trigger] d[i] < 128
    decreases d.len() - p
{ if p < d.len() && d[p] != 59 { if is_valchar(d[p]) { lemma_val_text(d, p + 1, p + 1, s); } else if is_ws4(d[p]) { lemma_val_text(d, p + 1, last, s); } } }
pub proof fn lemma_tags_wf(d: Seq<u8>, p: int, m: Map<Seq<u8>, DKIM_TagListEntry>)
    requires 0 <= p <= d.len() < 0x8000_0000, tags_wf(m)
    ensures tags_wf(tag_scan(d, p, m).tags)
    decreases d.len() - p
{
    let s = ws_end(d, p); let e = name_end(d, s); let q = ws_end(d, e); let v = ws_end(d, q + 1); let t = val_scan(d, v, v);
    lemma_ws_end(d, p);
    if s < d.len() {
        lemma_name_end(d, s); lemma_ws_end(d, e);
        if e <= s || m.dom().contains(d.subrange(s, e)) || !at(d, q, 61) {} else {
            lemma_ws_end(d, q + 1); lemma_val_scan(d, v, v); lemma_val_text(d, v, v, v);
            if !t.bad {
                let w = d.subrange(v, t.last);
                assert(ascii(w) && no_nul(w)) by { assert forall|i: int| 0 <= i < w.len() implies 0 < #[trigger] w[i] < 128 by { assert(0 < d[v + i] < 128); } }
                lemma_cstr(w);
                let n = m.insert(d.subrange(s, e), DKIM_TagListEntry { m_value: d.subrange(v, t.last), m_valueOffset: if v < d.len() { v } else { -1 } });
                assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) implies n[k].m_value.len() < 0x8000_0000 && ascii(n[k].m_value) && cstr(n[k].m_value) == n[k].m_value by { if k != d.subrange(s, e) { assert(m.dom().contains(k)); } }
                assert(tags_wf(n));
                if p <= t.end < d.len() { lemma_tags_wf(d, t.end + 1, n); }
            }
        }
    }
}
