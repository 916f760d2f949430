// ---------------------------------------------------------------------------------------------
// C02: header canonicalization
// ---------------------------------------------------------------------------------------------
pub struct Out { pub t: Seq<u8>, pub bad: bool }
/// every run of folding whitespace becomes one space, and is dropped at the end; acc holds the output so far
pub open spec fn fold_out(d: Seq<u8>, p: int, acc: Seq<u8>) -> Out decreases d.len() - p {
    if p < 0 || p > d.len() { Out { t: acc, bad: false } }
    else if skip_throws(d, p, 2) { Out { t: acc, bad: true } }
    else {
        let q = skip_end(d, p, 2);
        if !(p <= q < d.len()) { Out { t: acc, bad: false } } else { fold_out(d, q + 1, (if q > p { acc.push(32u8) } else { acc }).push(d[q])) }
    }
}
/// spaces at the front / at the end removed, unless there is nothing else
pub open spec fn sp_front(s: Seq<u8>) -> Seq<u8> { let f = not_of_from(s, seq![32u8], 0); if f == NPOS() { s } else { s.subrange(f, s.len() as int) } }
pub open spec fn sp_back(s: Seq<u8>) -> Seq<u8> { let l = last_not_of(s, seq![32u8], s.len() as int); if l == NPOS() { s } else { s.subrange(0, l + 1) } }
/// spaces around the first colon removed
pub open spec fn colon_trim(x: Seq<u8>) -> Seq<u8> {
    let c = idx_from(x, 58u8, 0);
    if c >= x.len() { x } else { sp_back(x.subrange(0, c)) + seq![58u8] + sp_front(x.subrange(c + 1, x.len() as int)) }
}
/// the relaxed form of a field; bad: the field is refused
pub open spec fn relax(i: Seq<u8>) -> Out {
    let c = idx_from(i, 58u8, 0); let f = fold_out(map_range_tolower(i, 0, c), 0, Seq::<u8>::empty());
    if c >= i.len() || f.bad { Out { t: i, bad: true } } else { Out { t: colon_trim(f.t), bad: false } }
}
pub open spec fn canon_head(mode: int, i: Seq<u8>) -> Out { if mode == 0 { Out { t: i, bad: false } } else { relax(i) } }

pub proof fn lemma_not_of_shift(x: Seq<u8>, set: Seq<u8>, c: int, p: int)
    requires 0 <= c <= x.len(), 0 <= p <= x.len() - c, x.len() < NPOS()
    ensures not_of_from(x, set, c + p) == (if not_of_from(x.subrange(c, x.len() as int), set, p) == NPOS() { NPOS() } else { not_of_from(x.subrange(c, x.len() as int), set, p) + c })
    decreases x.len() - c - p
{
    let v = x.subrange(c, x.len() as int); lemma_str_find_first_not_of(v, set, p);
    if p < v.len() { assert(v[p] == x[c + p]); if in_set(set, v[p]) { lemma_not_of_shift(x, set, c, p + 1); lemma_str_find_first_not_of(v, set, p + 1); } }
}
/// what is skipped is whitespace
pub proof fn lemma_skip_ws(d: Seq<u8>, p: int, k: int)
    requires 0 <= p <= d.len(), p <= k < skip_end(d, p, 2)
    ensures is_ws4(d[k])
    decreases d.len() - p
{
    lemma_skip(d, p, 2);
    let e = rws_end(d, p, 2);
    lemma_wsp_end(d, p); lemma_rws(d, p, 2);
    let q = wsp_end(d, p);
    if fold_at(d, q) { lemma_wsp_end(d, q + 2); }
    if k >= e { lemma_skip_ws(d, e, k); }
}
/// the colon is never lost
pub proof fn lemma_fold_colon(d: Seq<u8>, p: int, acc: Seq<u8>, k: int)
    requires 0 <= p <= d.len(), !fold_out(d, p, acc).bad, (p <= k < d.len() && d[k] == 58) || (exists|j: int| 0 <= j < acc.len() && acc[j] == 58)
    ensures ({ let t = fold_out(d, p, acc).t; idx_from(t, 58u8, 0) < t.len() })
    decreases d.len() - p
{
    let q = skip_end(d, p, 2);
    lemma_skip(d, p, 2);
    if q < d.len() {
        let a = (if q > p { acc.push(32u8) } else { acc }).push(d[q]);
        if exists|j: int| 0 <= j < acc.len() && acc[j] == 58 { let j = choose|j: int| 0 <= j < acc.len() && acc[j] == 58; assert(a[j] == 58); lemma_fold_colon(d, q + 1, a, q); }
        else {
            if k < q { lemma_skip_ws(d, p, k); }
            if k == q { assert(a[a.len() - 1] == 58); }
            lemma_fold_colon(d, q + 1, a, k);
        }
    } else {
        if p <= k < d.len() && d[k] == 58 { lemma_skip_ws(d, p, k); }
        lemma_idx_from(acc, 58u8, 0);
    }
}
/// the final erasures are colon_trim
pub proof fn lemma_colon_trim(x: Seq<u8>)
    requires x.len() < NPOS(), idx_from(x, 58u8, 0) < x.len()
    ensures ({
        let c = idx_from(x, 58u8, 0); let a = str_find_first_not_of(x, seq![32u8], c + 1);
        let y = if a != NPOS() { str_erase(x, c + 1, a - 1 - c) } else { x };
        let b = str_find_last_not_of(str_substr(y, 0, c), seq![32u8], NPOS());
        let z = if b != NPOS() && b + 1 != c { str_erase(y, b + 1, c - (b + 1)) } else { y };
        &&& z =~= colon_trim(x)
        &&& str_substr(y, 0, c) =~= x.subrange(0, c)
        &&& (a != NPOS() ==> c + 1 <= a < x.len())
        &&& (b != NPOS() ==> 0 <= b < c)
    })
{
    let c = idx_from(x, 58u8, 0);
    lemma_idx_from(x, 58u8, 0); lemma_not_of_shift(x, seq![32u8], c + 1, 0);
    let a = str_find_first_not_of(x, seq![32u8], c + 1); lemma_str_find_first_not_of(x, seq![32u8], c + 1);
    let y = if a != NPOS() { str_erase(x, c + 1, a - 1 - c) } else { x };
    assert(str_substr(y, 0, c) =~= x.subrange(0, c));
    lemma_str_find_last_not_of(x.subrange(0, c), seq![32u8], NPOS());
    let b = str_find_last_not_of(x.subrange(0, c), seq![32u8], NPOS());
    if a != NPOS() { assert(y =~= x.subrange(0, c) + seq![58u8] + x.subrange(a, x.len() as int)); assert(sp_front(x.subrange(c + 1, x.len() as int)) =~= x.subrange(a, x.len() as int)); }
    else { assert(y =~= x.subrange(0, c) + seq![58u8] + x.subrange(c + 1, x.len() as int)); }
    let n = x.subrange(0, c); let v = x.subrange(c + 1, x.len() as int);
    assert(x =~= n + seq![58u8] + v); lemma_str_find_first_not_of(v, seq![32u8], 0);
    assert(y =~= n + seq![58u8] + sp_front(v)) by { if a != NPOS() { assert(x.subrange(a, x.len() as int) =~= v.subrange(a - c - 1, v.len() as int)); assert(y =~= x.subrange(0, c + 1) + x.subrange(a, x.len() as int)); } else { assert(not_of_from(v, seq![32u8], 0) == NPOS()); } }
    assert(n.len() == c);
    let z = if b != NPOS() && b + 1 != c { str_erase(y, b + 1, c - (b + 1)) } else { y };
    if b != NPOS() { assert(sp_back(n) =~= n.subrange(0, b + 1)); assert(z =~= n.subrange(0, b + 1) + seq![58u8] + sp_front(v)); } else { assert(sp_back(n) == n); assert(z == y); }
}
// ---- the statement in RFC terms, for fields in which every CR is part of a folding CRLF
pub open spec fn folded(d: Seq<u8>) -> bool { forall|k: int| 0 <= k < d.len() && #[trigger] d[k] == 13 ==> fold_at(d, k) }
/// text from p on: folding CRLFs removed, whitespace runs reduced to one space, whitespace at the end dropped; w: whitespace just seen
pub open spec fn sq(d: Seq<u8>, p: int, w: bool) -> Seq<u8> decreases d.len() - p {
    if p < 0 || p >= d.len() { Seq::<u8>::empty() }
    else if is_wsp(d[p]) { sq(d, p + 1, true) }
    else if fold_at(d, p) { sq(d, p + 2, true) }
    else { (if w { seq![32u8, d[p]] } else { seq![d[p]] }) + sq(d, p + 1, false) }
}
/// without the one leading space
pub open spec fn no_lead(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 32 { s.drop_first() } else { s } }
pub proof fn lemma_sq_wsp(d: Seq<u8>, p: int, w: bool)
    requires 0 <= p <= d.len()
    ensures sq(d, p, w) == sq(d, wsp_end(d, p), w || wsp_end(d, p) > p)
    decreases d.len() - p
{ if p < d.len() && is_wsp(d[p]) { lemma_sq_wsp(d, p + 1, true); lemma_wsp_end(d, p + 1); } }
pub proof fn lemma_sq_skip(d: Seq<u8>, p: int, w: bool)
    requires 0 <= p <= d.len(), folded(d)
    ensures !skip_throws(d, p, 2), p <= skip_end(d, p, 2) <= d.len(), sq(d, p, w) == sq(d, skip_end(d, p, 2), w || skip_end(d, p, 2) > p),
        skip_end(d, p, 2) < d.len() ==> !is_wsp(d[skip_end(d, p, 2)]) && d[skip_end(d, p, 2)] != 13
    decreases d.len() - p
{
    let q = wsp_end(d, p); lemma_wsp_end(d, p); lemma_sq_wsp(d, p, w);
    if at(d, q, 13) { assert(fold_at(d, q)); lemma_wsp_end(d, q + 2); lemma_sq_wsp(d, q + 2, true); }
    lemma_rws(d, p, 2); lemma_skip(d, p, 2);
    let e = rws_end(d, p, 2);
    if p < e { lemma_sq_skip(d, e, true); }
}
pub proof fn lemma_fold_sq(d: Seq<u8>, p: int, acc: Seq<u8>)
    requires 0 <= p <= d.len(), folded(d)
    ensures !fold_out(d, p, acc).bad, fold_out(d, p, acc).t =~= acc + sq(d, p, false)
    decreases d.len() - p
{
    lemma_sq_skip(d, p, false);
    let q = skip_end(d, p, 2);
    if q < d.len() { lemma_fold_sq(d, q + 1, (if q > p { acc.push(32u8) } else { acc }).push(d[q])); }
}
/// no trailing space; a space is followed by something else; at most one leading space
pub proof fn lemma_sq_shape(d: Seq<u8>, p: int, w: bool)
    requires 0 <= p <= d.len()
    ensures ({ let t = sq(d, p, w); (t.len() > 0 ==> t.last() != 32) && (t.len() > 0 && t[0] == 32 ==> t.len() > 1 && t[1] != 32) && (w && t.len() > 0 ==> t[0] == 32) })
    decreases d.len() - p
{
    if p < d.len() {
        if is_wsp(d[p]) { lemma_sq_shape(d, p + 1, true); }
        else if fold_at(d, p) { lemma_sq_shape(d, p + 2, true); }
        else { lemma_sq_shape(d, p + 1, false); let r = sq(d, p + 1, false); if r.len() > 0 { assert(sq(d, p, w).last() == r.last()); } }
    }
}
/// splitting at the first colon
pub proof fn lemma_sq_split(d: Seq<u8>, p: int, w: bool, c: int)
    requires 0 <= p <= c < d.len(), d[c] == 58, folded(d)
    ensures ({ let n = d.subrange(0, c); let v = d.subrange(c + 1, d.len() as int);
        exists|b: bool| sq(d, p, w) =~= #[trigger] sq_join(sq(n, p, w), b) + seq![58u8] + sq(v, 0, false) })
    decreases c - p
{
    let n = d.subrange(0, c); let v = d.subrange(c + 1, d.len() as int);
    if p == c {
        lemma_sq_sub(d, c + 1, 0, false);
        assert(sq(d, p, w) =~= sq_join(sq(n, p, w), w) + seq![58u8] + sq(v, 0, false));
    } else if is_wsp(d[p]) { lemma_sq_split(d, p + 1, true, c); assert(n[p] == d[p]); }
    else if fold_at(d, p) {
        assert(d[p + 1] == 10 && is_wsp(d[p + 2])); assert(p + 2 < c); assert(n[p] == 13 && n[p + 1] == 10 && n[p + 2] == d[p + 2]); assert(fold_at(n, p));
        lemma_sq_split(d, p + 2, true, c);
    } else {
        assert(n[p] == d[p]); assert(!fold_at(n, p)) by { if fold_at(n, p) { assert(n[p + 1] == d[p + 1] && n[p + 2] == d[p + 2]); } }
        lemma_sq_split(d, p + 1, false, c);
        let b = choose|b: bool| sq(d, p + 1, false) =~= #[trigger] sq_join(sq(n, p + 1, false), b) + seq![58u8] + sq(v, 0, false);
        assert(sq(d, p, w) =~= sq_join(sq(n, p, w), b) + seq![58u8] + sq(v, 0, false));
    }
}
pub open spec fn sq_join(s: Seq<u8>, b: bool) -> Seq<u8> { if b { s.push(32u8) } else { s } }
pub proof fn lemma_sq_sub(d: Seq<u8>, a: int, p: int, w: bool)
    requires 0 <= a <= d.len(), 0 <= p, a + p <= d.len()
    ensures sq(d, a + p, w) == sq(d.subrange(a, d.len() as int), p, w)
    decreases d.len() - a - p
{
    let v = d.subrange(a, d.len() as int);
    if a + p < d.len() {
        assert(v[p] == d[a + p]);
        assert(fold_at(v, p) == fold_at(d, a + p)) by { if p + 1 < v.len() { assert(v[p + 1] == d[a + p + 1]); } if p + 2 < v.len() { assert(v[p + 2] == d[a + p + 2]); } }
        if is_wsp(d[a + p]) { lemma_sq_sub(d, a, p + 1, true); } else if fold_at(d, a + p) { lemma_sq_sub(d, a, p + 2, true); } else { lemma_sq_sub(d, a, p + 1, false); }
    }
}
pub open spec fn lacks(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lemma_sq_colon(d: Seq<u8>, p: int, w: bool)
    requires 0 <= p <= d.len(), lacks(d, 58u8)
    ensures lacks(sq(d, p, w), 58u8)
    decreases d.len() - p
{
    if p >= d.len() {}
    else if is_wsp(d[p]) { lemma_sq_colon(d, p + 1, true); }
    else if fold_at(d, p) { lemma_sq_colon(d, p + 2, true); }
    else {
        lemma_sq_colon(d, p + 1, false); let r = sq(d, p + 1, false); let t = sq(d, p, w); let h = if w { seq![32u8, d[p]] } else { seq![d[p]] };
        assert(t == h + r); assert(d[p] != 58); assert(lacks(h, 58u8));
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 58 by { if i >= h.len() { assert(t[i] == r[i - h.len()]); } else { assert(t[i] == h[i]); } }
    }
}
pub proof fn lemma_sp1(s: Seq<u8>, c: u8) ensures in_set(seq![32u8], c) <==> c == 32 { reveal_with_fuel(idx_from, 3); assert(seq![32u8].len() == 1 && seq![32u8][0] == 32); }
pub proof fn lemma_sp_back(s: Seq<u8>, b: bool)
    requires s.len() > 0, s.last() != 32, s.len() < 0x7fff_ffff_ffff_fffe
    ensures sp_back(sq_join(s, b)) =~= s
{
    let t = sq_join(s, b); lemma_last_not_of(t, seq![32u8], t.len() as int); lemma_sp1(s, s.last()); lemma_sp1(s, 32u8);
    assert(t[s.len() - 1] == s.last());
    reveal_with_fuel(last_not_of, 3);
}
pub proof fn lemma_sp_front(s: Seq<u8>)
    requires s.len() < NPOS(), s.len() > 0 && s[0] == 32 ==> s.len() > 1 && s[1] != 32
    ensures sp_front(s) =~= no_lead(s)
{
    reveal_with_fuel(not_of_from, 3);
    if s.len() > 0 { lemma_sp1(s, s[0]); if s[0] == 32 { lemma_sp1(s, s[1]); } }
}
/// C02: name (up to the first colon) lower-cased, unfolded and reduced; value likewise; nothing around the colon
pub proof fn thm_relaxed_header(i: Seq<u8>)
    requires i.len() < 0x7fff_ffff_ffff_fff0, idx_from(i, 58u8, 0) < i.len(), folded(i), sq(lower_seq(i.subrange(0, idx_from(i, 58u8, 0))), 0, false).len() > 0
    ensures ({ let c = idx_from(i, 58u8, 0);
        !relax(i).bad && relax(i).t =~= sq(lower_seq(i.subrange(0, c)), 0, false) + seq![58u8] + no_lead(sq(i.subrange(c + 1, i.len() as int), 0, false)) })
{
    let c = idx_from(i, 58u8, 0); lemma_idx_from(i, 58u8, 0);
    let o = map_range_tolower(i, 0, c);
    assert(o.subrange(0, c) =~= lower_seq(i.subrange(0, c)));
    assert(o.subrange(c + 1, o.len() as int) =~= i.subrange(c + 1, i.len() as int));
    assert(o[c] == 58);
    assert(folded(o)) by { assert forall|k: int| 0 <= k < o.len() && #[trigger] o[k] == 13 implies fold_at(o, k) by { assert(i[k] == 13); assert(fold_at(i, k)); assert(o[k + 1] == i[k + 1] && o[k + 2] == i[k + 2]); } }
    lemma_fold_sq(o, 0, Seq::<u8>::empty());
    lemma_sq_split(o, 0, false, c);
    let n = o.subrange(0, c); let v = o.subrange(c + 1, o.len() as int);
    let b = choose|b: bool| sq(o, 0, false) =~= #[trigger] sq_join(sq(n, 0, false), b) + seq![58u8] + sq(v, 0, false);
    let x = sq(o, 0, false); let ns = sq_join(sq(n, 0, false), b);
    assert(fold_out(o, 0, Seq::<u8>::empty()).t =~= x);
    assert forall|k: int| 0 <= k < n.len() implies #[trigger] n[k] != 58 by { assert(i[k] != 58); }
    lemma_sq_colon(n, 0, false); lemma_sq_shape(n, 0, false); lemma_sq_shape(v, 0, false);
    lemma_sq_len(n, 0, false); lemma_sq_len(v, 0, false);
    assert forall|k: int| 0 <= k < ns.len() implies #[trigger] ns[k] != 58 by { if k < sq(n, 0, false).len() { assert(sq(n, 0, false)[k] != 58); } }
    lemma_idx_from(x, 58u8, 0);
    assert(x[ns.len() as int] == 58);
    assert(idx_from(x, 58u8, 0) == ns.len()) by { let f = idx_from(x, 58u8, 0); if f < ns.len() { assert(x[f] == ns[f]); } if f > ns.len() { assert(x[ns.len() as int] != 58); } }
    assert(x.subrange(0, ns.len() as int) =~= ns);
    assert(x.subrange((ns.len() + 1) as int, x.len() as int) =~= sq(v, 0, false));
    lemma_sp_back(sq(n, 0, false), b); lemma_sp_front(sq(v, 0, false));
}
pub proof fn lemma_sq_len(d: Seq<u8>, p: int, w: bool)
    requires 0 <= p <= d.len()
    ensures sq(d, p, w).len() <= d.len() - p + (if w { 1int } else { 0int })
    decreases d.len() - p
{ if p < d.len() { if is_wsp(d[p]) { lemma_sq_len(d, p + 1, true); } else if fold_at(d, p) { lemma_sq_len(d, p + 2, true); } else { lemma_sq_len(d, p + 1, false); } } }
