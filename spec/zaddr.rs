// ---------------------------------------------------------------------------------------------
// C18: address lists
// ---------------------------------------------------------------------------------------------
/// kinds of tokens: quoted 0, atom 1, comment 2, '<' 3, '>' 4, separator 5, end 6
pub struct Tok { pub ty: int, pub end: int, pub text: Seq<u8>, pub bad: bool }
pub open spec fn tok_bad() -> Tok { Tok { ty: 6, end: 0, text: Seq::empty(), bad: true } }
/// a quoted string whose content starts at p: a backslash takes the next byte literally, a quote ends it
pub open spec fn q_tok(d: Seq<u8>, p: int, acc: Seq<u8>) -> Tok decreases d.len() - p {
    if p < 0 || p >= d.len() { tok_bad() }
    else if d[p] == 92 { if p + 1 >= d.len() { tok_bad() } else { q_tok(d, p + 2, acc.push(d[p + 1])) } }
    else if d[p] == 34 { Tok { ty: 0, end: p + 1, text: acc, bad: false } }
    else { q_tok(d, p + 1, acc.push(d[p])) }
}
/// a comment whose content starts at p, nested `depth` deep
pub open spec fn c_tok(d: Seq<u8>, p: int, depth: int, acc: Seq<u8>) -> Tok decreases d.len() - p {
    if depth == 0 { Tok { ty: 2, end: p, text: acc, bad: false } }
    else if p < 0 || p >= d.len() { tok_bad() }
    else if d[p] == 92 { if p + 1 >= d.len() { tok_bad() } else { c_tok(d, p + 2, depth, acc.push(d[p + 1])) } }
    else if d[p] == 40 { c_tok(d, p + 1, depth + 1, acc.push(d[p])) }
    else if d[p] == 41 { c_tok(d, p + 1, depth - 1, if depth > 1 { acc.push(d[p]) } else { acc }) }
    else { c_tok(d, p + 1, depth, acc.push(d[p])) }
}
pub open spec fn tok_special(c: u8) -> bool { c == 34 || c == 40 || c == 60 || c == 62 || c == 44 || c == 59 }
/// the token at p, where acc is the text of an atom already begun
pub open spec fn tok(d: Seq<u8>, p: int, acc: Seq<u8>) -> Tok decreases d.len() - p {
    if p < 0 || p >= d.len() { Tok { ty: if acc.len() > 0 { 1 } else { 6 }, end: p, text: acc, bad: false } }
    else if fws_throws(d, p) { tok_bad() }
    else if p < fws_end(d, p) <= d.len() { if acc.len() > 0 { Tok { ty: 1, end: fws_end(d, p), text: acc, bad: false } } else { tok(d, fws_end(d, p), acc) } }
    else if !tok_special(d[p]) { tok(d, p + 1, acc.push(d[p])) }
    else if acc.len() > 0 { Tok { ty: 1, end: p, text: acc, bad: false } }
    else if d[p] == 34 { q_tok(d, p + 1, acc) }
    else if d[p] == 40 { c_tok(d, p + 1, 1, acc) }
    else { Tok { ty: if d[p] == 60 { 3 } else if d[p] == 62 { 4 } else { 5 }, end: p + 1, text: acc, bad: false } }
}
pub proof fn lemma_q_tok(d: Seq<u8>, p: int, acc: Seq<u8>)
    requires 0 <= p <= d.len()
    ensures !q_tok(d, p, acc).bad ==> p < q_tok(d, p, acc).end <= d.len() && q_tok(d, p, acc).text.len() < q_tok(d, p, acc).end - p + acc.len() && q_tok(d, p, acc).ty == 0
    decreases d.len() - p
{ if p < d.len() { if d[p] == 92 { if p + 1 < d.len() { lemma_q_tok(d, p + 2, acc.push(d[p + 1])); } } else if d[p] != 34 { lemma_q_tok(d, p + 1, acc.push(d[p])); } } }
pub proof fn lemma_c_tok(d: Seq<u8>, p: int, depth: int, acc: Seq<u8>)
    requires 0 <= p <= d.len(), 0 <= depth
    ensures !c_tok(d, p, depth, acc).bad ==> p <= c_tok(d, p, depth, acc).end <= d.len() && c_tok(d, p, depth, acc).ty == 2 && c_tok(d, p, depth, acc).text.len() <= c_tok(d, p, depth, acc).end - p + acc.len()
    decreases d.len() - p
{
    if p < d.len() && depth > 0 {
        if d[p] == 92 { if p + 1 < d.len() { lemma_c_tok(d, p + 2, depth, acc.push(d[p + 1])); } }
        else if d[p] == 40 { lemma_c_tok(d, p + 1, depth + 1, acc.push(d[p])); }
        else if d[p] == 41 { lemma_c_tok(d, p + 1, depth - 1, if depth > 1 { acc.push(d[p]) } else { acc }); }
        else { lemma_c_tok(d, p + 1, depth, acc.push(d[p])); }
    }
}
pub proof fn lemma_tok(d: Seq<u8>, p: int, acc: Seq<u8>)
    requires 0 <= p <= d.len()
    ensures !tok(d, p, acc).bad ==> {
        let t = tok(d, p, acc);
        &&& 0 <= t.ty <= 6 &&& p <= t.end <= d.len() &&& t.text.len() <= t.end - p + acc.len()
        &&& (t.ty == 0 ==> t.text.len() < t.end - p + acc.len() && acc.len() == 0)
        &&& (t.ty != 6 && acc.len() == 0 ==> p < t.end) &&& (t.ty == 6 ==> t.end == d.len())
    },
    decreases d.len() - p
{
    if p < d.len() && !fws_throws(d, p) {
        lemma_rws(d, p, 2);
        if p < fws_end(d, p) { if acc.len() == 0 { lemma_tok(d, fws_end(d, p), acc); } }
        else if !tok_special(d[p]) { lemma_tok(d, p + 1, acc.push(d[p])); }
        else { lemma_q_tok(d, p + 1, acc); lemma_c_tok(d, p + 1, 1, acc); }
    }
}
/// all texts one after another
pub open spec fn cat(l: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { cat(l, n - 1) + l[n - 1] } }
pub struct Addrs { pub out: Seq<Seq<u8>>, pub bad: bool }
pub open spec fn addr_bad() -> Addrs { Addrs { out: Seq::empty(), bad: true } }
pub open spec fn has_at(s: Seq<u8>) -> bool { idx_from(s, 64, 0) < s.len() }
pub open spec fn has_nul(s: Seq<u8>) -> bool { idx_from(s, 0, 0) < s.len() }
/// the end of an entry: what its tokens contribute. `sep`: ended by a separator; `last`: kind of the token before
pub open spec fn entry_dropped(toks: Seq<Seq<u8>>, last: int, ty: int) -> bool { toks.len() == 0 || (ty == 5 && last != 4 && !has_at(toks.last())) }
pub open spec fn entry_quoted(toks: Seq<Seq<u8>>, last: int) -> bool { last == 0 && toks.len() == 1 }
/// the addresses from p on, after `out`; toks: tokens of the current entry, open: inside '<'
pub open spec fn addrs(d: Seq<u8>, p: int, last: int, toks: Seq<Seq<u8>>, open: bool, out: Seq<Seq<u8>>) -> Addrs decreases d.len(), d.len() - p via addrs_dec {
    let t = tok(d, p, Seq::empty());
    if p < 0 || p > d.len() || t.bad || has_nul(t.text) { addr_bad() }
    else if t.ty == 0 || t.ty == 1 { addrs(d, t.end, t.ty, toks.push(t.text), open, out) }
    else if t.ty == 2 { addrs(d, t.end, t.ty, toks, open, out) }
    else if t.ty == 3 { addrs(d, t.end, t.ty, Seq::empty(), true, out) }
    else if open && t.ty != 4 { addr_bad() }
    else {
        let inner = if !entry_dropped(toks, last, t.ty) && entry_quoted(toks, last) && toks[0].len() < d.len() { addrs(toks[0], 0, 5, Seq::empty(), false, Seq::empty()) } else { Addrs { out: Seq::empty(), bad: false } };
        let now = if entry_dropped(toks, last, t.ty) { out } else if entry_quoted(toks, last) { out + inner.out } else { out.push(cat(toks, toks.len() as int)) };
        if inner.bad { addr_bad() }
        else if t.ty == 6 { Addrs { out: now, bad: false } }
        else { addrs(d, t.end, t.ty, Seq::empty(), false, now) }
    }
}
#[via_fn] proof fn addrs_dec(d: Seq<u8>, p: int, last: int, toks: Seq<Seq<u8>>, open: bool, out: Seq<Seq<u8>>) { if 0 <= p <= d.len() { lemma_tok(d, p, Seq::empty()); } }
pub open spec fn addresses(d: Seq<u8>) -> Addrs { addrs(d, 0, 5, Seq::empty(), false, Seq::empty()) }
