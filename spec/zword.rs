// ---------------------------------------------------------------------------------------------
// C17: encoded words
// ---------------------------------------------------------------------------------------------
/// the run of spaces, tabs and line breaks from p: its end, the spaces and tabs in it; bad: it meets a CR without LF
pub struct WsRun { pub end: int, pub ws: Seq<u8>, pub bad: bool }
pub open spec fn ew_ws(d: Seq<u8>, p: int, acc: Seq<u8>) -> WsRun decreases d.len() - p {
    if 0 <= p < d.len() && is_wsp(d[p]) { ew_ws(d, p + 1, acc.push(d[p])) }
    else if bad_cr(d, p) { WsRun { end: p, ws: acc, bad: true } }
    else if at(d, p, 13) { ew_ws(d, p + 2, acc) }
    else { WsRun { end: p, ws: acc, bad: false } }
}
pub proof fn lemma_ew_ws(d: Seq<u8>, p: int, acc: Seq<u8>)
    requires 0 <= p <= d.len()
    ensures p <= ew_ws(d, p, acc).end <= d.len()
    decreases d.len() - p
{ if p < d.len() && is_wsp(d[p]) { lemma_ew_ws(d, p + 1, acc.push(d[p])); } else if at(d, p, 13) && !bad_cr(d, p) { lemma_ew_ws(d, p + 2, acc); } }
/// "=?charset?q or b?data?=" followed by white space or the end, whose data decodes; otherwise `end` is how far the attempt reads
pub struct EWord { pub end: int, pub ok: bool, pub out: Seq<u8> }
pub open spec fn ew_is_q(enc: Seq<u8>) -> bool { enc =~= seq![113u8] || enc =~= seq![81u8] }
pub open spec fn ew_decodes(enc: Seq<u8>, data: Seq<u8>) -> bool { if ew_is_q(enc) { !qp_dec(data, 0, true, Seq::empty()).bad } else { enc =~= seq![98u8] || enc =~= seq![66u8] } }
pub open spec fn ew_tail(d: Seq<u8>, a: int, b: int, c: int) -> EWord {
    let e = c + 2; let enc = d.subrange(a + 1, b); let data = d.subrange(b + 1, c);
    if !at(d, c + 1, 61) { EWord { end: c + 1, ok: false, out: Seq::empty() } }
    else if e < d.len() && !is_ws4(d[e]) { EWord { end: e, ok: false, out: Seq::empty() } }
    else if !ew_decodes(enc, data) { EWord { end: e, ok: false, out: Seq::empty() } }
    else { EWord { end: e, ok: true, out: if ew_is_q(enc) { qp_dec(data, 0, true, Seq::empty()).out } else { b64_dec(data) } } }
}
pub open spec fn ew_word(d: Seq<u8>, p: int) -> EWord {
    let no = EWord { end: d.len() as int, ok: false, out: Seq::empty() };
    if !at(d, p + 1, 63) { EWord { end: p + 1, ok: false, out: Seq::empty() } }
    else {
        let a = idx_from(d, 63, p + 2); let b = idx_from(d, 63, a + 1); let c = idx_from(d, 63, b + 1);
        if a >= d.len() || b >= d.len() || c >= d.len() { no } else { ew_tail(d, a, b, c) }
    }
}
pub proof fn lemma_ew_word(d: Seq<u8>, p: int)
    requires at(d, p, 61)
    ensures p < ew_word(d, p).end <= d.len()
{
    if at(d, p + 1, 63) {
        lemma_idx_from(d, 63, p + 2); let a = idx_from(d, 63, p + 2);
        if a < d.len() { lemma_idx_from(d, 63, a + 1); let b = idx_from(d, 63, a + 1); if b < d.len() { lemma_idx_from(d, 63, b + 1); } }
    }
}
/// the decoded text from p on, after acc
pub open spec fn ew(d: Seq<u8>, p: int, acc: Seq<u8>) -> Scan decreases d.len() - p via ew_dec {
    let r = ew_ws(d, p, Seq::empty());
    if p < 0 || p > d.len() { Scan { out: acc, bad: false } }
    else if r.bad { Scan { out: acc, bad: true } }
    else if r.end >= d.len() { Scan { out: acc, bad: false } }
    else if d[r.end] == 61 { let w = ew_word(d, r.end); ew(d, w.end, if w.ok { acc + w.out } else { acc + r.ws + d.subrange(r.end, w.end) }) }
    else { ew(d, r.end + 1, (acc + r.ws).push(d[r.end])) }
}
#[via_fn] proof fn ew_dec(d: Seq<u8>, p: int, acc: Seq<u8>) {
    if 0 <= p <= d.len() { lemma_ew_ws(d, p, Seq::empty()); let r = ew_ws(d, p, Seq::empty()); if !r.bad && r.end < d.len() && d[r.end] == 61 { lemma_ew_word(d, r.end); } }
}
/// Decode: leading folding white space is skipped first
pub open spec fn ew_decode(d: Seq<u8>) -> Scan { if skip_throws(d, 0, 2) { Scan { out: Seq::empty(), bad: true } } else { ew(d, skip_end(d, 0, 2), Seq::empty()) } }
