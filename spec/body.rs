// ---------------------------------------------------------------------------------------------
// C01: body canonicalization
// ---------------------------------------------------------------------------------------------
/// the bytes of one line d[p..e): CRs ignored; relaxed: whitespace runs become one space, whitespace at the end is dropped
pub open spec fn canon_line(d: Seq<u8>, p: int, e: int, w: bool, r: bool) -> Seq<u8> decreases e - p {
    if p < 0 || p >= e || p >= d.len() { Seq::<u8>::empty() }
    else if d[p] == 13 { canon_line(d, p + 1, e, w, r) }
    else if r && is_wsp(d[p]) { canon_line(d, p + 1, e, true, r) }
    else { (if w { seq![32u8, d[p]] } else { seq![d[p]] }) + canon_line(d, p + 1, e, false, r) }
}
/// the lines from p on joined by CRLF, without empty lines at the end
pub open spec fn canon_lines(d: Seq<u8>, p: int, r: bool) -> Seq<u8> decreases d.len() - p + 1 via canon_lines_dec {
    let e = idx_from(d, 10u8, p); let line = canon_line(d, p, e, false, r);
    let rest = if 0 <= p <= e < d.len() { canon_lines(d, e + 1, r) } else { Seq::<u8>::empty() };
    if rest.len() == 0 { line } else { line + crlf() + rest }
}
#[via_fn]
proof fn canon_lines_dec(d: Seq<u8>, p: int, r: bool) { lemma_idx_from(d, 10u8, p); }
/// the canonical body: every line ended by one CRLF; an empty body is one CRLF (simple) or nothing (relaxed)
pub open spec fn canon_body(d: Seq<u8>, off: int, r: bool) -> Seq<u8> {
    let t = if off == -1 { Seq::<u8>::empty() } else { canon_lines(d, off, r) };
    if t.len() == 0 && r { t } else { t + crlf() }
}
pub open spec fn cut(s: Seq<u8>, limited: bool, n: int) -> Seq<u8> { if limited && n < s.len() { s.subrange(0, n) } else { s } }
// ---- the streaming view: what is still to be delivered when n line ends and (w) whitespace are withheld at p
pub open spec fn crlfs(n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::<u8>::empty() } else { crlf() + crlfs(n - 1) } }
pub open spec fn todo(d: Seq<u8>, p: int, n: int, w: bool, r: bool) -> Seq<u8> decreases d.len() - p {
    if p < 0 || p >= d.len() { Seq::<u8>::empty() }
    else if d[p] == 13 { todo(d, p + 1, n, w, r) }
    else if d[p] == 10 { todo(d, p + 1, n + 1, false, r) }
    else if r && is_wsp(d[p]) { todo(d, p + 1, n, true, r) }
    else { crlfs(n) + (if w { seq![32u8, d[p]] } else { seq![d[p]] }) + todo(d, p + 1, 0, false, r) }
}
pub proof fn lemma_crlfs(n: int)
    requires n >= 0
    ensures crlfs(n + 1) =~= crlfs(n) + crlf(), crlfs(n).len() == 2 * n
    decreases n
{ if n > 0 { lemma_crlfs(n - 1); } else { assert(crlfs(0) =~= Seq::<u8>::empty()); } }
pub proof fn lemma_todo(d: Seq<u8>, p: int, n: int, w: bool, r: bool)
    requires 0 <= p <= d.len(), n >= 0
    ensures ({ let e = idx_from(d, 10u8, p); let l = canon_line(d, p, e, w, r); let rest = if e < d.len() { canon_lines(d, e + 1, r) } else { Seq::<u8>::empty() };
        p <= e <= d.len() && todo(d, p, n, w, r) =~= (if l.len() > 0 { crlfs(n) + l + (if rest.len() > 0 { crlf() + rest } else { rest }) } else if rest.len() > 0 { crlfs(n + 1) + rest } else { Seq::<u8>::empty() }) })
    decreases d.len() - p
{
    lemma_idx_from(d, 10u8, p); lemma_crlfs(n);
    if p < d.len() {
        if d[p] == 13 { lemma_todo(d, p + 1, n, w, r); }
        else if d[p] == 10 { lemma_todo(d, p + 1, n + 1, false, r); lemma_crlfs(n + 1); }
        else if r && is_wsp(d[p]) { lemma_todo(d, p + 1, n, true, r); }
        else {
            lemma_todo(d, p + 1, 0, false, r);
            let e = idx_from(d, 10u8, p); let h = if w { seq![32u8, d[p]] } else { seq![d[p]] };
            let rest = if e < d.len() { canon_lines(d, e + 1, r) } else { Seq::<u8>::empty() };
            let l = canon_line(d, p + 1, e, false, r);
            assert(canon_line(d, p, e, w, r) == h + l);
            assert(crlfs(1) =~= crlf()) by { lemma_crlfs(0); }
            assert(crlfs(0) =~= Seq::<u8>::empty());
        }
    }
}
/// delivering what is left to do from the start of the body gives the canonical lines
pub proof fn thm_todo(d: Seq<u8>, p: int, r: bool)
    requires 0 <= p <= d.len()
    ensures todo(d, p, 0, false, r) =~= canon_lines(d, p, r)
{ lemma_todo(d, p, 0, false, r); lemma_crlfs(0); assert(crlfs(0) =~= Seq::<u8>::empty()); }
