// ---------------------------------------------------------------------------------------------
// C14: what is signed is verified. The message with the new field in front.
// ---------------------------------------------------------------------------------------------
/// a field as it stands in a message: starts with a visible byte, and every LF in it belongs to a CRLF followed by a blank
pub open spec fn field_shape(f: Seq<u8>) -> bool {
    f.len() > 0 && f[0] > 32 && forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == 10 ==> i > 0 && f[i - 1] == 13 && i + 1 < f.len() && is_blank(f[i + 1])
}
pub proof fn lemma_idx_shift(a: Seq<u8>, d: Seq<u8>, c: u8, p: int)
    requires 0 <= p <= d.len()
    ensures idx_from(a + d, c, a.len() + p) == a.len() + idx_from(d, c, p)
    decreases d.len() - p
{ if p < d.len() { assert((a + d)[a.len() + p] == d[p]); if d[p] != c { lemma_idx_shift(a, d, c, p + 1); } } }
/// reading from the middle of a field to its end
pub proof fn lemma_scan_field(f: Seq<u8>, d: Seq<u8>, p: int, hs: Seq<Option<DKIM_Header>>)
    requires field_shape(f), 2 <= p < f.len(), f[p - 1] == 10
    ensures msg_scan(f + crlf() + d, p, hs, Some(hdr_of(f.subrange(0, p - 2)))) == msg_scan(f + crlf() + d, f.len() as int + 2, hs, Some(hdr_of(f)))
    decreases f.len() - p
{
    let x = f + crlf() + d; let e = idx_from(x, 10u8, p); let line = without_cr(x.subrange(p, e));
    lemma_idx_from(x, 10u8, p); assert(is_blank(f[p])); assert(f[p - 2] == 13); assert(x[p] == f[p]); assert(x[f.len() as int + 1] == 10); assert(x[f.len() as int] == 13);
    let t = f.subrange(0, p - 2); assert(t.len() > 0) by { if p == 2 { assert(f[0] == 13); } }
    if e < f.len() {
        assert(x[e] == f[e]); assert(f[e - 1] == 13); assert(x[e - 1] == 13); assert(e - 1 > p);
        assert(x.subrange(p, e).last() == 13); assert(line =~= f.subrange(p, e - 1)); assert(line[0] == f[p]);
        assert(add_line(t, line) =~= f.subrange(0, e - 1));
        assert(e + 1 < f.len());
        lemma_scan_field(f, d, e + 1, hs);
    } else {
        assert(e == f.len() + 1) by { if e == f.len() { assert(x[e] == 13); } if e > f.len() + 1 { assert(x[f.len() as int + 1] != 10); } }
        assert(x.subrange(p, e).last() == 13); assert(line =~= f.subrange(p, f.len() as int)); assert(line[0] == f[p]);
        assert(add_line(t, line) =~= f);
    }
}
/// reading a field at the start
pub proof fn lemma_scan_first(f: Seq<u8>, d: Seq<u8>, hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>)
    requires field_shape(f)
    ensures msg_scan(f + crlf() + d, 0, hs, cur) == msg_scan(f + crlf() + d, f.len() as int + 2, flush(hs, cur), Some(hdr_of(f)))
{
    let x = f + crlf() + d; let e = idx_from(x, 10u8, 0); let line = without_cr(x.subrange(0, e)); let g = flush(hs, cur);
    lemma_idx_from(x, 10u8, 0); assert(x[0] == f[0]); assert(x[f.len() as int + 1] == 10); assert(x[f.len() as int] == 13);
    if e < f.len() {
        assert(x[e] == f[e]); assert(f[e - 1] == 13); assert(x[e - 1] == 13); assert(e - 1 > 0);
        assert(x.subrange(0, e).last() == 13); assert(line =~= f.subrange(0, e - 1)); assert(line[0] == f[0]);
        lemma_scan_field(f, d, e + 1, g);
    } else {
        assert(e == f.len() + 1) by { if e == f.len() { assert(x[e] == 13); } if e > f.len() + 1 { assert(x[f.len() as int + 1] != 10); } }
        assert(x.subrange(0, e).last() == 13); assert(line =~= f); assert(line[0] == f[0]);
    }
}
/// text in front shifts the reading of a message
pub open spec fn shifted(n: int, b: int) -> int { if b == -1 { -1 } else { b + n } }
pub proof fn lemma_scan_shift(a: Seq<u8>, d: Seq<u8>, p: int, pre: Seq<Option<DKIM_Header>>, hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>)
    requires 0 <= p <= d.len() + 1
    ensures msg_scan(a + d, a.len() + p, pre + hs, cur).hs =~= pre + msg_scan(d, p, hs, cur).hs, msg_scan(a + d, a.len() + p, pre + hs, cur).body == shifted(a.len() as int, msg_scan(d, p, hs, cur).body)
    decreases d.len() - p + 1
{
    let x = a + d; let q = a.len() + p;
    assert(flush(pre + hs, cur) =~= pre + flush(hs, cur));
    if p < d.len() {
        lemma_idx_shift(a, d, 10u8, p); lemma_idx_from(d, 10u8, p); let e = idx_from(d, 10u8, p);
        assert(x.subrange(q, a.len() + e) =~= d.subrange(p, e));
        let line = without_cr(d.subrange(p, e));
        if line.len() == 0 {}
        else if is_blank(line[0]) { lemma_scan_shift(a, d, e + 1, pre, hs, Some(hdr_of(add_line(if cur is Some { cur->0.m_header } else { Seq::<u8>::empty() }, line)))); }
        else { lemma_scan_shift(a, d, e + 1, pre, flush(hs, cur), Some(hdr_of(line))); }
    }
}
/// a message whose first byte is not a blank
pub proof fn lemma_scan_front(f: Seq<u8>, d: Seq<u8>)
    requires field_shape(f), d.len() > 0, !is_blank(d[0])
    ensures ({ let none = Seq::<Option<DKIM_Header>>::empty(); let m = msg_scan(d, 0, none, None); let n = msg_scan(f + crlf() + d, 0, none, None);
        n.hs =~= seq![Some(hdr_of(f))] + m.hs && n.body == shifted(f.len() as int + 2, m.body) })
{
    let none = Seq::<Option<DKIM_Header>>::empty(); let a = f + crlf(); let x = a + d; let h: Option<DKIM_Header> = Some(hdr_of(f)); let pre = seq![h];
    lemma_scan_first(f, d, none, None); assert(flush(none, None::<DKIM_Header>) =~= none);
    lemma_idx_shift(a, d, 10u8, 0); lemma_idx_from(d, 10u8, 0); let e = idx_from(d, 10u8, 0); let line = without_cr(d.subrange(0, e));
    assert(x.subrange(a.len() as int, a.len() + e) =~= d.subrange(0, e));
    assert(none.push(h) =~= pre + none);
    if line.len() == 0 { }
    else {
        assert(line[0] == d[0]);
        assert(flush(none, h) =~= pre + none);
        lemma_scan_shift(a, d, e + 1, pre, none, Some(hdr_of(line)));
    }
}
// ---- the canonical body depends on the body only
pub proof fn lemma_line_shift(a: Seq<u8>, d: Seq<u8>, p: int, e: int, w: bool, r: bool)
    requires 0 <= p, e <= d.len()
    ensures canon_line(a + d, a.len() + p, a.len() + e, w, r) == canon_line(d, p, e, w, r)
    decreases e - p
{
    if p < e { assert((a + d)[a.len() + p] == d[p]); if d[p] == 13 { lemma_line_shift(a, d, p + 1, e, w, r); } else if r && is_wsp(d[p]) { lemma_line_shift(a, d, p + 1, e, true, r); } else { lemma_line_shift(a, d, p + 1, e, false, r); } }
}
pub proof fn lemma_lines_shift(a: Seq<u8>, d: Seq<u8>, p: int, r: bool)
    requires 0 <= p <= d.len()
    ensures canon_lines(a + d, a.len() + p, r) == canon_lines(d, p, r)
    decreases d.len() - p
{
    lemma_idx_shift(a, d, 10u8, p); lemma_idx_from(d, 10u8, p); let e = idx_from(d, 10u8, p); lemma_line_shift(a, d, p, e, false, r);
    if e < d.len() { lemma_lines_shift(a, d, e + 1, r); }
}
pub proof fn lemma_body_shift(a: Seq<u8>, d: Seq<u8>, off: int, r: bool)
    requires -1 <= off <= d.len()
    ensures canon_body(a + d, shifted(a.len() as int, off), r) == canon_body(d, off, r)
{ if off >= 0 { lemma_lines_shift(a, d, off, r); } }
// ---- the fields a verifier picks are those the signer picked
pub open spec fn pickable(nm: Seq<u8>, want: Seq<Seq<u8>>) -> bool { nm.len() > 0 && (want.len() == 0 || want_set(want, want.len() as int).contains(nm)) }
pub proof fn lemma_lower2(s: Seq<u8>) ensures lower_seq(lower_seq(s)) == lower_seq(s) { assert(lower_seq(lower_seq(s)) =~= lower_seq(s)); }
pub proof fn lemma_fields_prefix(hs: Seq<Option<DKIM_Header>>, m: int, n: int, nm: Seq<u8>)
    requires 0 <= m <= n <= hs.len()
    ensures fields_named(hs, m, nm).len() <= fields_named(hs, n, nm).len(), fields_named(hs, n, nm).subrange(0, fields_named(hs, m, nm).len() as int) =~= fields_named(hs, m, nm)
    decreases n - m
{ if m < n { lemma_fields_prefix(hs, m, n - 1, nm); } }
pub proof fn lemma_fields_none(hs: Seq<Option<DKIM_Header>>, n: int, nm: Seq<u8>)
    requires 0 <= n <= hs.len(), forall|i: int| 0 <= i < n ==> lower_seq((#[trigger] hs[i])->0.m_name) != nm
    ensures fields_named(hs, n, nm).len() == 0
    decreases n
{ if n > 0 { lemma_fields_none(hs, n - 1, nm); assert(lower_seq(hs[n - 1]->0.m_name) != nm); } }
pub open spec fn agree(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int) -> bool { 0 <= n <= a.len() && n <= b.len() && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] }
pub proof fn lemma_occ_agree(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int, nm: Seq<u8>) requires agree(a, b, n) ensures occ(a, n, nm) == occ(b, n, nm) decreases n
{ if n > 0 { lemma_occ_agree(a, b, n - 1, nm); assert(a[n - 1] == b[n - 1]); } }
pub proof fn lemma_signed_agree(hs: Seq<Option<DKIM_Header>>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, mode: int, n: int)
    requires agree(a, b, n)
    ensures signed_head(hs, a, mode, n) == signed_head(hs, b, mode, n), signed_bad(hs, a, mode, n) == signed_bad(hs, b, mode, n)
    decreases n
{ if n > 0 { lemma_signed_agree(hs, a, b, mode, n - 1); assert(a[n - 1] == b[n - 1]); lemma_occ_agree(a, b, n - 1, lower_seq(a[n - 1])); } }
pub open spec fn picked_so_far(all: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, k: int, want: Seq<Seq<u8>>) -> bool {
    forall|nm: Seq<u8>| pickable(nm, want) ==> #[trigger] occ(ns, ns.len() as int, nm) == fields_named(all, all.len() as int, nm).len() - fields_named(all, k, nm).len()
}
pub proof fn lemma_pick(pre: Seq<Option<DKIM_Header>>, hs: Seq<Option<DKIM_Header>>, want: Seq<Seq<u8>>, mode: int, n: int)
    requires 0 <= n <= hs.len()
    ensures ({ let all = pre + hs; let ns = sign_names(hs, want, n);
        picked_so_far(all, ns, pre.len() + n, want) && signed_head(all, ns, mode, ns.len() as int) =~= sign_text(hs, want, mode, n) && signed_bad(all, ns, mode, ns.len() as int) == sign_text_bad(hs, want, mode, n) })
    decreases hs.len() - n
{
    let all = pre + hs; let ns = sign_names(hs, want, n); let k = pre.len() + n;
    if n < hs.len() {
        lemma_pick(pre, hs, want, mode, n + 1);
        let ps = sign_names(hs, want, n + 1); let h = hs[n]->0; let x = lower_seq(h.m_name); lemma_lower2(h.m_name);
        assert(all[k] == hs[n]);
        assert(picked(h, want) == pickable(x, want));
        if picked(h, want) {
            assert(ns == ps.push(x)); assert(agree(ns, ps, ps.len() as int)); lemma_signed_agree(all, ns, ps, mode, ps.len() as int);
            assert forall|nm: Seq<u8>| pickable(nm, want) implies #[trigger] occ(ns, ns.len() as int, nm) == fields_named(all, all.len() as int, nm).len() - fields_named(all, k, nm).len() by {
                lemma_occ_agree(ns, ps, ps.len() as int, nm); assert(occ(ps, ps.len() as int, nm) == fields_named(all, all.len() as int, nm).len() - fields_named(all, k + 1, nm).len());
                assert(ns[ps.len() as int] == x);
            }
            lemma_occ_agree(ns, ps, ps.len() as int, x); assert(occ(ps, ps.len() as int, x) == fields_named(all, all.len() as int, x).len() - fields_named(all, k + 1, x).len());
            lemma_fields_prefix(all, k + 1, all.len() as int, x); lemma_fields_prefix(all, k, k + 1, x);
            let fs = fields_named(all, k + 1, x);
            assert(fs == fields_named(all, k, x).push(all[k])); assert(ns[ns.len() - 1] == x);
            assert(left_for(all, ns, ns.len() - 1) =~= fs);
            assert(fs.last() == hs[n]);
        } else {
            assert forall|nm: Seq<u8>| pickable(nm, want) implies #[trigger] occ(ns, ns.len() as int, nm) == fields_named(all, all.len() as int, nm).len() - fields_named(all, k, nm).len() by {
                assert(occ(ps, ps.len() as int, nm) == fields_named(all, all.len() as int, nm).len() - fields_named(all, k + 1, nm).len()); assert(!(x =~= nm)); 
            }
        }
    }
}
/// names added to h= that no unused field has change nothing
pub proof fn lemma_over(all: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, more: Seq<Seq<u8>>, mode: int, n: int)
    requires 0 <= n <= more.len(), forall|i: int| 0 <= i < more.len() ==> occ(ns, ns.len() as int, lower_seq(#[trigger] more[i])) >= fields_named(all, all.len() as int, lower_seq(more[i])).len()
    ensures signed_head(all, ns + more, mode, ns.len() + n) == signed_head(all, ns, mode, ns.len() as int), signed_bad(all, ns + more, mode, ns.len() + n) == signed_bad(all, ns, mode, ns.len() as int)
    decreases n
{
    let t = ns + more;
    if n == 0 { assert(agree(t, ns, ns.len() as int)); lemma_signed_agree(all, t, ns, mode, ns.len() as int); }
    else {
        lemma_over(all, ns, more, mode, n - 1); let k = ns.len() + n - 1; let x = lower_seq(t[k]); assert(t[k] == more[n - 1]);
        assert(agree(t, ns, ns.len() as int)); lemma_occ_agree(t, ns, ns.len() as int, x); lemma_occ_mono(t, ns.len() as int, k, x);
        assert(left_for(all, t, k).len() == 0);
    }
}
pub proof fn lemma_occ_mono(t: Seq<Seq<u8>>, a: int, b: int, nm: Seq<u8>) requires 0 <= a <= b <= t.len() ensures occ(t, a, nm) <= occ(t, b, nm) decreases b - a { if a < b { lemma_occ_mono(t, a, b - 1, nm); } }
/// what an option set must satisfy for its oversigned names: signed names, and not the name of the signature fields put in front
pub open spec fn over_ok(o: DKIM_SignatoryOptions, own: Seq<u8>) -> bool { forall|i: int| 0 <= i < o.m_oversignheaders.len() ==> pickable(lower_seq(#[trigger] o.m_oversignheaders[i]), o.m_headers) && lower_seq(o.m_oversignheaders[i]) != own }
pub proof fn lemma_same_fields(pre: Seq<Option<DKIM_Header>>, hs: Seq<Option<DKIM_Header>>, o: DKIM_SignatoryOptions, own: Seq<u8>)
    requires over_ok(o, own), forall|i: int| 0 <= i < pre.len() ==> lower_seq((#[trigger] pre[i])->0.m_name) == own
    ensures ({ let ns = h_names(hs, o); let m = o.m_canonHead; signed_head(pre + hs, ns, m, ns.len() as int) == sign_text(hs, o.m_headers, m, 0) && signed_bad(pre + hs, ns, m, ns.len() as int) == sign_text_bad(hs, o.m_headers, m, 0) })
{
    let all = pre + hs; let ns = sign_names(hs, o.m_headers, 0); let more = lower_all(o.m_oversignheaders); let m = o.m_canonHead;
    lemma_pick(pre, hs, o.m_headers, m, 0);
    assert forall|i: int| 0 <= i < more.len() implies occ(ns, ns.len() as int, lower_seq(#[trigger] more[i])) >= fields_named(all, all.len() as int, lower_seq(more[i])).len() by {
        let x = lower_seq(o.m_oversignheaders[i]); lemma_lower2(o.m_oversignheaders[i]); assert(more[i] == x);
        assert forall|j: int| 0 <= j < pre.len() implies lower_seq((#[trigger] all[j])->0.m_name) != x by { assert(all[j] == pre[j]); }
        lemma_fields_none(all, pre.len() as int, x);
        assert(pickable(x, o.m_headers));
    }
    lemma_over(all, ns, more, m, more.len() as int);
    assert(h_names(hs, o) == ns + more);
}
