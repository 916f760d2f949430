// ---------------------------------------------------------------------------------------------
// C03: messages
// ---------------------------------------------------------------------------------------------
pub open spec fn is_blank(c: u8) -> bool { c == 32 || c == 9 }
/// first index >= p that is not a blank (or the length), and the end of s[0..n) without trailing blanks
pub open spec fn blank_end(s: Seq<u8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && is_blank(s[p]) { blank_end(s, p + 1) } else { p } }
pub open spec fn blank_start(s: Seq<u8>, n: int) -> int decreases n { if 0 < n <= s.len() && is_blank(s[n - 1]) { blank_start(s, n - 1) } else { n } }
pub open spec fn trim_front(s: Seq<u8>) -> Seq<u8> { s.subrange(blank_end(s, 0), s.len() as int) }
pub open spec fn trim_back(s: Seq<u8>) -> Seq<u8> { s.subrange(0, blank_start(s, s.len() as int)) }
/// text without surrounding spaces and tabs
pub open spec fn trim(s: Seq<u8>) -> Seq<u8> { trim_back(trim_front(s)) }
/// the header field with this text
pub open spec fn hdr_of(t: Seq<u8>) -> DKIM_Header {
    let c = idx_from(t, 58u8, 0);
    if c < t.len() { DKIM_Header { m_name: trim(t.subrange(0, c)), m_header: t, m_valueOffset: c + 1 } } else { DKIM_Header { m_name: Seq::<u8>::empty(), m_header: t, m_valueOffset: 0 } }
}
pub open spec fn hdr_wf(h: DKIM_Header) -> bool { h == hdr_of(h.m_header) }
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn add_line(t: Seq<u8>, line: Seq<u8>) -> Seq<u8> { if t.len() == 0 { line } else { t + crlf() + line } }
pub open spec fn opt_wf(h: Option<DKIM_Header>) -> bool { h is Some ==> hdr_wf(h->0) }
/// a field is never stored without text, and the fields of a message are all well formed
pub open spec fn hdrs_wf(hs: Seq<Option<DKIM_Header>>) -> bool { forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]) is Some && hdr_wf(hs[i]->0) }
pub open spec fn msg_wf(m: DKIM_Message) -> bool { hdrs_wf(m.m_header) && opt_wf(m.m_tmpHeader) }
pub open spec fn flush(hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>) -> Seq<Option<DKIM_Header>> { if cur is Some { hs.push(cur) } else { hs } }
pub open spec fn without_cr(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 13 { l.drop_last() } else { l } }
/// effect of reading one line
pub open spec fn msg_step(m: DKIM_Message, s: SS) -> DKIM_Message {
    let line = without_cr(ss_line(s));
    if !ss_line_ok(s) { DKIM_Message { m_header: flush(m.m_header, m.m_tmpHeader), m_bodyOffset: -1, m_done: true, ..m } }
    else if line.len() == 0 { DKIM_Message { m_header: flush(m.m_header, m.m_tmpHeader), m_tmpHeader: None, m_bodyOffset: ss_tellg(ss_getline(s)), m_done: true } }
    else if !is_blank(line[0]) { DKIM_Message { m_header: flush(m.m_header, m.m_tmpHeader), m_tmpHeader: Some(hdr_of(line)), ..m } }
    else { DKIM_Message { m_tmpHeader: Some(hdr_of(add_line(if m.m_tmpHeader is Some { m.m_tmpHeader->0.m_header } else { Seq::<u8>::empty() }, line))), ..m } }
}
/// lines are read until the message header is complete
pub open spec fn msg_run(m: DKIM_Message, s: SS) -> DKIM_Message decreases s.d.len() - s.pos + (if ss_line_ok(s) { 1int } else { 0int }) via msg_run_dec {
    let n = msg_step(m, s);
    if n.m_done || !ss_line_ok(s) || !ss_wf(s) { n } else { msg_run(n, ss_getline(s)) }
}
#[via_fn]
proof fn msg_run_dec(m: DKIM_Message, s: SS) { lemma_idx_from(s.d, 10u8, s.pos); }
/// the closed form: fields of the text d from p on, cur being collected
pub struct MsgScan { pub hs: Seq<Option<DKIM_Header>>, pub body: int }
pub open spec fn msg_scan(d: Seq<u8>, p: int, hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>) -> MsgScan decreases d.len() - p + 1 via msg_scan_dec {
    let e = idx_from(d, 10u8, p); let line = without_cr(d.subrange(p, e));
    if p < 0 || p >= d.len() { MsgScan { hs: flush(hs, cur), body: -1 } }
    else if line.len() == 0 { MsgScan { hs: flush(hs, cur), body: if e < d.len() { e + 1 } else { -1 } } }
    else if is_blank(line[0]) { msg_scan(d, e + 1, hs, Some(hdr_of(add_line(if cur is Some { cur->0.m_header } else { Seq::<u8>::empty() }, line)))) }
    else { msg_scan(d, e + 1, flush(hs, cur), Some(hdr_of(line))) }
}
#[via_fn]
proof fn msg_scan_dec(d: Seq<u8>, p: int, hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>) { lemma_idx_from(d, 10u8, p); }
/// reading line by line is the closed form
pub proof fn lemma_msg_run(m: DKIM_Message, s: SS)
    requires ss_wf(s), !m.m_done, !s.fail, s.eof ==> s.pos >= s.d.len()
    ensures msg_run(m, s).m_done, msg_run(m, s).m_header == msg_scan(s.d, s.pos, m.m_header, m.m_tmpHeader).hs, msg_run(m, s).m_bodyOffset == msg_scan(s.d, s.pos, m.m_header, m.m_tmpHeader).body
    decreases s.d.len() - s.pos
{
    lemma_idx_from(s.d, 10u8, s.pos);
    let n = msg_step(m, s);
    if ss_line_ok(s) && !n.m_done {
        let t = ss_getline(s);
        if t.pos > s.pos { lemma_msg_run(n, t); }
        if idx_from(s.d, 10u8, s.pos) >= s.d.len() {
            assert(msg_scan(s.d, idx_from(s.d, 10u8, s.pos) + 1, n.m_header, n.m_tmpHeader) == msg_scan(s.d, s.d.len() as int, n.m_header, n.m_tmpHeader));
        }
    }
}
pub proof fn lemma_blanks(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(), s.len() < NPOS()
    ensures p <= blank_end(s, p) <= s.len(), not_of_from(s, seq![32u8, 9u8], p) == (if blank_end(s, p) < s.len() { blank_end(s, p) } else { NPOS() })
    decreases s.len() - p
{
    if p < s.len() { lemma_in_blank(s[p]); if is_blank(s[p]) { lemma_blanks(s, p + 1); } }
}
pub proof fn lemma_blanks_back(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), s.len() < NPOS()
    ensures 0 <= blank_start(s, n) <= n, last_not_of(s, seq![32u8, 9u8], n) == (if blank_start(s, n) > 0 { blank_start(s, n) - 1 } else { NPOS() })
    decreases n
{
    if n > 0 { lemma_in_blank(s[n - 1]); if is_blank(s[n - 1]) { lemma_blanks_back(s, n - 1); } }
}
pub proof fn lemma_in_blank(c: u8) ensures in_set(seq![32u8, 9u8], c) <==> is_blank(c)
{ reveal_with_fuel(idx_from, 4); let b = seq![32u8, 9u8]; assert(b.len() == 2 && b[0] == 32 && b[1] == 9); }
/// erasing as the code does is trimming
pub proof fn lemma_trim(s: Seq<u8>)
    requires s.len() < NPOS()
    ensures ({ let f = str_find_first_not_of(s, seq![32u8, 9u8], 0); let a = str_erase(s, 0, f); let l = str_find_last_not_of(a, seq![32u8, 9u8], NPOS());
        a =~= trim_front(s) && str_erase(a, u64_add(l, 1), NPOS()) =~= trim(s) && u64_add(l, 1) <= a.len() && a.len() <= s.len() })
{
    lemma_blanks(s, 0);
    let f = str_find_first_not_of(s, seq![32u8, 9u8], 0); let a = str_erase(s, 0, f);
    assert(a =~= trim_front(s));
    lemma_blanks_back(a, a.len() as int);
}
/// appending to a field with a colon changes neither name nor value position
pub proof fn lemma_idx_prefix(a: Seq<u8>, b: Seq<u8>, c: u8, p: int)
    requires 0 <= p <= a.len()
    ensures idx_from(a, c, p) < a.len() ==> idx_from(a + b, c, p) == idx_from(a, c, p), p <= idx_from(a, c, p) <= a.len()
    decreases a.len() - p
{ if p < a.len() { assert((a + b)[p] == a[p]); if a[p] != c { lemma_idx_prefix(a, b, c, p + 1); } } }
pub proof fn lemma_hdr_wf(h: DKIM_Header) requires hdr_wf(h) ensures 0 <= h.m_valueOffset <= h.m_header.len() { lemma_idx_from(h.m_header, 58u8, 0); }
