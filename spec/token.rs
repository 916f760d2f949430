// ---------------------------------------------------------------------------------------------
// C22: folding whitespace
// ---------------------------------------------------------------------------------------------
pub open spec fn is_wsp(c: u8) -> bool { c == 32 || c == 9 }
pub open spec fn is_ws4(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 10 }
/// end of the run of spaces/tabs starting at p
pub open spec fn wsp_end(d: Seq<u8>, p: int) -> int decreases d.len() - p {
    if 0 <= p < d.len() && is_wsp(d[p]) { wsp_end(d, p + 1) } else { p }
}
pub open spec fn at(d: Seq<u8>, p: int, c: u8) -> bool { 0 <= p < d.len() && d[p] == c }
/// a CR that is not followed by LF
pub open spec fn bad_cr(d: Seq<u8>, p: int) -> bool { at(d, p, 13) && !at(d, p + 1, 10) }
/// a CRLF followed by at least one space or tab
pub open spec fn fold_at(d: Seq<u8>, p: int) -> bool { at(d, p, 13) && at(d, p + 1, 10) && 0 <= p + 2 < d.len() && is_wsp(d[p + 2]) }
/// folding whitespace: spaces/tabs, optionally one CRLF followed by spaces/tabs; nothing when a CRLF is not so followed
pub open spec fn fws_end(d: Seq<u8>, p: int) -> int {
    let q = wsp_end(d, p);
    if at(d, q, 13) { if fold_at(d, q) { wsp_end(d, q + 2) } else { p } } else { q }
}
pub open spec fn fws_throws(d: Seq<u8>, p: int) -> bool { bad_cr(d, wsp_end(d, p)) }
/// ReadWhiteSpace(type): READ_CRLF 0, READ_WSP 1, READ_FWS 2, READ_WSP_LOOSE 3
pub open spec fn rws_end(d: Seq<u8>, p: int, ty: int) -> int {
    if ty == 0 { if at(d, p, 13) { p + 2 } else { p } }
    else if ty == 1 { if 0 <= p < d.len() && is_wsp(d[p]) { p + 1 } else { p } }
    else if ty == 3 { if 0 <= p < d.len() && is_ws4(d[p]) { p + 1 } else { p } }
    else { fws_end(d, p) }
}
pub open spec fn rws_throws(d: Seq<u8>, p: int, ty: int) -> bool { if ty == 0 { bad_cr(d, p) } else if ty == 2 { fws_throws(d, p) } else { false } }
pub proof fn lemma_wsp_end(d: Seq<u8>, p: int)
    requires 0 <= p <= d.len()
    ensures p <= wsp_end(d, p) <= d.len(),
        wsp_end(d, p) < d.len() ==> !is_wsp(d[wsp_end(d, p)]),
        forall|i: int| p <= i < wsp_end(d, p) ==> is_wsp(#[trigger] d[i]),
        wsp_end(d, wsp_end(d, p)) == wsp_end(d, p),
    decreases d.len() - p
{ if p < d.len() && is_wsp(d[p]) { lemma_wsp_end(d, p + 1); } }
pub proof fn lemma_rws(d: Seq<u8>, p: int, ty: int)
    requires 0 <= p <= d.len(), 0 <= ty <= 3
    ensures !rws_throws(d, p, ty) ==> p <= rws_end(d, p, ty) <= d.len()
{ lemma_wsp_end(d, p); if fold_at(d, wsp_end(d, p)) { lemma_wsp_end(d, wsp_end(d, p) + 2); } }
/// repeated ReadWhiteSpace until it consumes nothing
pub open spec fn skip_end(d: Seq<u8>, p: int, ty: int) -> int decreases d.len() - p {
    if 0 <= p <= d.len() && 0 <= ty <= 3 && !rws_throws(d, p, ty) && p < rws_end(d, p, ty) <= d.len() { skip_end(d, rws_end(d, p, ty), ty) } else { p }
}
pub open spec fn skip_throws(d: Seq<u8>, p: int, ty: int) -> bool { rws_throws(d, skip_end(d, p, ty), ty) }
pub proof fn lemma_skip(d: Seq<u8>, p: int, ty: int)
    requires 0 <= p <= d.len(), 0 <= ty <= 3
    ensures p <= skip_end(d, p, ty) <= d.len(),
        !rws_throws(d, p, ty) && rws_end(d, p, ty) == p ==> skip_end(d, p, ty) == p,
        rws_throws(d, p, ty) ==> skip_throws(d, p, ty),
        !skip_throws(d, p, ty) ==> rws_end(d, skip_end(d, p, ty), ty) == skip_end(d, p, ty),
    decreases d.len() - p
{
    if !rws_throws(d, p, ty) { lemma_rws(d, p, ty); if p < rws_end(d, p, ty) { lemma_skip(d, rws_end(d, p, ty), ty); } }
}
// ---------------------------------------------------------------------------------------------
// C22: colon-separated lists
// ---------------------------------------------------------------------------------------------
/// scan of one list item from p; `last` is the end of the last byte that is not folding whitespace.
/// Result: (position of the ':' or end of input, end of the item's bytes, a bare CR was met)
pub struct ItemScan { pub end: int, pub last: int, pub bad: bool }
pub open spec fn item_scan(d: Seq<u8>, p: int, last: int) -> ItemScan decreases d.len() - p {
    if p < 0 || p > d.len() { ItemScan { end: p, last: last, bad: false } }
    else if fws_throws(d, p) { ItemScan { end: p, last: last, bad: true } }
    else if p < fws_end(d, p) <= d.len() { item_scan(d, fws_end(d, p), last) }
    else if p == d.len() || d[p] == 58 { ItemScan { end: p, last: last, bad: false } }
    else { item_scan(d, p + 1, p + 1) }
}
pub proof fn lemma_item_scan(d: Seq<u8>, p: int, last: int)
    requires 0 <= last <= p <= d.len()
    ensures p <= item_scan(d, p, last).end <= d.len(), last <= item_scan(d, p, last).last <= item_scan(d, p, last).end,
    decreases d.len() - p
{
    lemma_wsp_end(d, p); 
    if !fws_throws(d, p) {
        lemma_rws(d, p, 2);
        if p < fws_end(d, p) { lemma_item_scan(d, fws_end(d, p), last); }
        else if p < d.len() && d[p] != 58 { lemma_item_scan(d, p + 1, p + 1); }
    }
}
/// the items from p on (p at the start of an item or at the end of input)
pub struct ListScan { pub items: Seq<Seq<u8>>, pub bad: bool }
pub open spec fn list_scan(d: Seq<u8>, p: int, acc: Seq<Seq<u8>>) -> ListScan decreases d.len() - p {
    if p < 0 || p > d.len() { ListScan { items: acc, bad: false } }
    else if skip_throws(d, p, 2) { ListScan { items: acc, bad: true } }
    else {
        let s = skip_end(d, p, 2);
        if !(p <= s < d.len()) { ListScan { items: acc, bad: false } }
        else {
            let i = item_scan(d, s, s);
            if i.bad || i.last <= s { ListScan { items: acc, bad: true } }
            else if !(s <= i.end < d.len()) { ListScan { items: acc.push(d.subrange(s, i.last)), bad: false } }
            else { list_scan(d, i.end + 1, acc.push(d.subrange(s, i.last))) }
        }
    }
}
