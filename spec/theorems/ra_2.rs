// ---- reading a tag list that was written
pub open spec fn ws_all(w: Seq<u8>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_ws4(#[trigger] w[i]) }
pub open spec fn name_all(w: Seq<u8>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> is_name(#[trigger] w[i]) }
pub open spec fn valtext(v: Seq<u8>) -> bool { v.len() > 0 && is_valchar(v[0]) && is_valchar(v.last()) && forall|i: int| 0 <= i < v.len() ==> is_valchar(#[trigger] v[i]) || is_ws4(v[i]) }
pub open spec fn seg(w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>) -> Seq<u8> { w + nm + seq![61u8] + x + val }
pub open spec fn rest_of(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, d.len() as int) }
pub open spec fn entry(val: Seq<u8>, off: int) -> DKIM_TagListEntry { DKIM_TagListEntry { m_value: val, m_valueOffset: off } }
pub proof fn lemma_ws_run(d: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e <= d.len(), forall|i: int| p <= i < e ==> is_ws4(#[trigger] d[i]), e == d.len() || !is_ws4(d[e])
    ensures ws_end(d, p) == e decreases e - p
{ if p < e { lemma_ws_run(d, p + 1, e); } }
pub proof fn lemma_name_run(d: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e <= d.len(), forall|i: int| p <= i < e ==> is_name(#[trigger] d[i]), e == d.len() || !is_name(d[e])
    ensures name_end(d, p) == e decreases e - p
{ if p < e { lemma_name_run(d, p + 1, e); } }
pub proof fn lemma_val_run(d: Seq<u8>, p: int, last: int, e: int)
    requires 0 <= p < e <= d.len(), forall|i: int| p <= i < e ==> is_valchar(#[trigger] d[i]) || is_ws4(d[i]), e == d.len() || d[e] == 59, is_valchar(d[e - 1])
    ensures val_scan(d, p, last) == (ItemScan { end: e, last: e, bad: false }) decreases e - p
{ if p + 1 < e { if is_valchar(d[p]) { lemma_val_run(d, p + 1, p + 1, e); } else { lemma_val_run(d, p + 1, last, e); } } else { assert(is_valchar(d[p])); assert(val_scan(d, e, e) == (ItemScan { end: e, last: e, bad: false })); } }
pub proof fn lemma_tag_step(d: Seq<u8>, p: int, m: Map<Seq<u8>, DKIM_TagListEntry>, w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>, rest: Seq<u8>)
    requires 0 <= p <= d.len(), rest_of(d, p) == seg(w, nm, x, val) + rest, ws_all(w), name_all(nm), ws_all(x), valtext(val), rest.len() == 0 || rest[0] == 59, !m.dom().contains(nm)
    ensures ({ let v = p + w.len() + nm.len() + 1 + x.len(); let n = m.insert(nm, entry(val, v)); let e = v + val.len();
        e <= d.len() && d.subrange(v, e) == val && rest_of(d, e) == rest && (if rest.len() == 0 { tag_scan(d, p, m) == (TagScan { tags: n, bad: false }) } else { e + 1 <= d.len() && tag_scan(d, p, m) == tag_scan(d, e + 1, n) && rest_of(d, e + 1) == rest.subrange(1, rest.len() as int) }) })
{
    let t = rest_of(d, p); let s = p + w.len(); let e = s + nm.len(); let v = e + 1 + x.len(); let f = v + val.len();
    assert(t.len() == d.len() - p);
    assert forall|i: int| p <= i < s implies is_ws4(#[trigger] d[i]) by { assert(t[i - p] == w[i - p]); }
    assert forall|i: int| s <= i < e implies is_name(#[trigger] d[i]) by { assert(t[i - p] == nm[i - s]); }
    assert(d[s] == nm[0]) by { assert(t[s - p] == nm[0]); } assert(is_name(nm[0]));
    assert(t[e - p] == 61); assert(d[e] == 61);
    assert forall|i: int| e + 1 <= i < v implies is_ws4(#[trigger] d[i]) by { assert(t[i - p] == x[i - e - 1]); }
    assert forall|i: int| v <= i < f implies is_valchar(#[trigger] d[i]) || is_ws4(d[i]) by { assert(t[i - p] == val[i - v]); }
    assert(d[v] == val[0]) by { assert(t[v - p] == val[0]); }
    assert(d[f - 1] == val.last()) by { assert(t[f - 1 - p] == val.last()); }
    if rest.len() > 0 { assert(t[f - p] == rest[0]); assert(d[f] == 59); } else { assert(f == d.len()); }
    lemma_ws_run(d, p, s); lemma_name_run(d, s, e); lemma_ws_run(d, e, e); lemma_ws_run(d, e + 1, v); lemma_val_run(d, v, v, f);
    assert(d.subrange(s, e) =~= nm) by { assert forall|i: int| 0 <= i < nm.len() implies d.subrange(s, e)[i] == nm[i] by { assert(t[s - p + i] == nm[i]); } }
    assert(d.subrange(v, f) =~= val) by { assert forall|i: int| 0 <= i < val.len() implies d.subrange(v, f)[i] == val[i] by { assert(t[v - p + i] == val[i]); } }
    assert(rest_of(d, f) =~= rest) by { assert forall|i: int| 0 <= i < rest.len() implies rest_of(d, f)[i] == rest[i] by { assert(t[f - p + i] == rest[i]); } }
    if rest.len() > 0 { assert(rest_of(d, f + 1) =~= rest.subrange(1, rest.len() as int)) by { assert forall|i: int| 0 <= i < rest.len() - 1 implies #[trigger] rest_of(d, f + 1)[i] == rest[i + 1] by { assert(t[f + 1 - p + i] == rest[i + 1]); } } }
}
// ---- decimal numbers
pub proof fn lemma_dec_nat(n: int, t: Seq<u8>)
    requires n >= 0
    ensures all_digits(dec_nat(n)), dec_nat(n).len() > 0, digits_val(dec_nat(n) + t, 0, 10, 0) == digits_val(dec_nat(n) + t, dec_nat(n).len() as int, 10, n)
    decreases n
{
    let s = dec_nat(n) + t;
    if n < 10 { assert(s[0] == 48 + n); assert(digit_val(s[0]) == n); assert(digits_val(s, 0, 10, 0) == digits_val(s, 1, 10, n)); }
    else {
        let q = dec_nat(n / 10); let c = (48 + n % 10) as u8; let u = seq![c] + t; lemma_dec_nat(n / 10, u); assert(s =~= q + u);
        assert(s[q.len() as int] == c); assert(digit_val(c) == n % 10); assert(n / 10 * 10 + n % 10 == n);
        assert forall|i: int| 0 <= i < dec_nat(n).len() implies 48 <= #[trigger] dec_nat(n)[i] <= 57 by { if i < q.len() { assert(q[i] == dec_nat(n)[i]); } }
    }
}
pub open spec fn pow10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * pow10(k - 1) } }
pub proof fn lemma_dec_len(n: int, k: int) requires 0 <= n < pow10(k), k >= 1 ensures dec_nat(n).len() <= k decreases k { if n >= 10 { assert(k >= 2) by { assert(pow10(1) == 10 * pow10(0)); } assert(pow10(k) == 10 * pow10(k - 1)); lemma_dec_len(n / 10, k - 1); } }
/// what a written number is read as
pub proof fn lemma_dec_read(n: int)
    requires 0 <= n <= NPOS()
    ensures ({ let s = dec_nat(n); all_digits(s) && 0 < s.len() <= 20 && dec_value(s) == n && strtoul_val(s, 10) == n && (n <= 0x7fff_ffff_ffff_ffff ==> strtol_val(s, 10) == n) && valtext(s) })
{
    let s = dec_nat(n); lemma_dec_nat(n, Seq::<u8>::empty()); assert(s + Seq::<u8>::empty() =~= s);
    assert(n < pow10(20)) by { assert(pow10(20) == 100000000000000000000) by(compute_only); } lemma_dec_len(n, 20);
    lemma_dec(s); assert(48 <= s[0] <= 57); assert(!is_space_byte(s[0])); assert(space_end(s, 0) == 0); assert(num_start(s, 10) == 0);
    assert(48 <= s.last() <= 57);
}
// ---- reading the list of names that was written
pub open spec fn ord_char(c: u8) -> bool { 33 <= c <= 126 && c != 58 && c != 59 }
pub open spec fn ord_name(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> ord_char(#[trigger] s[i]) }
pub open spec fn ord_names(ns: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> ord_name(#[trigger] ns[i]) }
pub open spec fn h_sep(ns: Seq<Seq<u8>>, n: int) -> Seq<u8> { if h_list(ns, n - 1).line.len() + ns[n - 1].len() + (if n > 1 { 1int } else { 0int }) > 80 { sl_cont() } else { Seq::<u8>::empty() } }
/// the names as they stand in the field, from the first one on
pub open spec fn h_val(ns: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 || n > ns.len() { Seq::<u8>::empty() } else if n == 1 { ns[0] } else { h_val(ns, n - 1) + (sl_colon() + (h_sep(ns, n) + ns[n - 1])) } }
pub proof fn lemma_h_val(ns: Seq<Seq<u8>>, n: int)
    requires 1 <= n <= ns.len()
    ensures h_list(ns, n).done + h_list(ns, n).line == sl_h() + h_sep(ns, 1) + h_val(ns, n)
    decreases n
{
    let p = h_list(ns, n - 1); let i = ns[n - 1]; let q = h_list(ns, n);
    assert(crlf() + sl_tabsp() =~= sl_cont());
    if n == 1 { assert(q.done + q.line =~= sl_h() + h_sep(ns, 1) + ns[0]); }
    else {
        lemma_h_val(ns, n - 1); let c = sl_colon();
        if h_sep(ns, n).len() > 0 { assert(q.done + q.line =~= (p.done + p.line) + (c + ((crlf() + sl_tabsp()) + i))); }
        else { assert(h_sep(ns, n) + i =~= i); assert(q.done + q.line =~= (p.done + p.line) + (c + i)); }
        assert((sl_h() + h_sep(ns, 1) + h_val(ns, n - 1)) + (c + (h_sep(ns, n) + i)) =~= sl_h() + h_sep(ns, 1) + h_val(ns, n));
    }
}
pub proof fn lemma_item_run(d: Seq<u8>, p: int, last: int, e: int)
    requires 0 <= p <= e <= d.len(), forall|i: int| p <= i < e ==> ord_char(#[trigger] d[i]), e == d.len() || d[e] == 58, p < e || last == e
    ensures item_scan(d, p, last) == (ItemScan { end: e, last: e, bad: false })
    decreases e - p
{ if p < e { assert(ord_char(d[p])); assert(fws_end(d, p) == p); lemma_item_run(d, p + 1, p + 1, e); } else { assert(fws_end(d, p) == p); } }
pub proof fn lemma_skip_cont(d: Seq<u8>, p: int, x: Seq<u8>)
    requires 0 <= p, x == sl_cont() || x == Seq::<u8>::empty(), p + x.len() < d.len(), d.subrange(p, p + x.len()) == x, ord_char(d[p + x.len()])
    ensures skip_end(d, p, 2) == p + x.len(), !skip_throws(d, p, 2)
{
    let e = p + x.len(); assert(wsp_end(d, e) == e); assert(fws_end(d, e) == e); assert(skip_end(d, e, 2) == e);
    if x.len() > 0 {
        assert(d.subrange(p, e)[0] == 13 && d.subrange(p, e)[1] == 10 && d.subrange(p, e)[2] == 9 && d.subrange(p, e)[3] == 32);
        assert(d[p] == 13 && d[p + 1] == 10 && d[p + 2] == 9 && d[p + 3] == 32);
        assert(wsp_end(d, p) == p); assert(wsp_end(d, p + 3) == p + 4); assert(wsp_end(d, p + 2) == p + 4); assert(fws_end(d, p) == p + 4); assert(!fws_throws(d, p));
        assert(skip_end(d, p, 2) == skip_end(d, p + 4, 2));
    }
}
/// one item of the list
pub proof fn lemma_list_item(d: Seq<u8>, p: int, acc: Seq<Seq<u8>>, x: Seq<u8>, i: Seq<u8>, t: Seq<u8>)
    requires 0 <= p <= d.len(), rest_of(d, p) == x + i + t, x == sl_cont() || x == Seq::<u8>::empty(), ord_name(i), t.len() == 0 || t[0] == 58
    ensures ({ let e = p + x.len() + i.len(); e <= d.len() && (if t.len() == 0 { list_scan(d, p, acc) == (ListScan { items: acc.push(i), bad: false }) } else { list_scan(d, p, acc) == list_scan(d, e + 1, acc.push(i)) }) })
{
    let r = rest_of(d, p); let s = p + x.len(); let e = s + i.len();
    assert(r.len() == d.len() - p);
    assert forall|k: int| s <= k < e implies ord_char(#[trigger] d[k]) by { assert(r[k - p] == i[k - s]); }
    assert(d.subrange(p, s) =~= x) by { assert forall|k: int| 0 <= k < x.len() implies d.subrange(p, s)[k] == x[k] by { assert(r[k] == x[k]); } }
    lemma_skip_cont(d, p, x); 
    if t.len() > 0 { assert(r[e - p] == t[0]); assert(d[e] == 58); }
    lemma_item_run(d, s, s, e);
    assert(d.subrange(s, e) =~= i) by { assert forall|k: int| 0 <= k < i.len() implies d.subrange(s, e)[k] == i[k] by { assert(r[s - p + k] == i[k]); } }
}
pub proof fn lemma_names_read(ns: Seq<Seq<u8>>, n: int, t: Seq<u8>)
    requires ord_names(ns), 1 <= n <= ns.len(), t.len() == 0 || t[0] == 58
    ensures ({ let v = h_val(ns, n); let d = v + t; let z = Seq::<Seq<u8>>::empty(); if t.len() == 0 { list_scan(d, 0, z) == (ListScan { items: ns.subrange(0, n), bad: false }) } else { list_scan(d, 0, z) == list_scan(d, v.len() as int + 1, ns.subrange(0, n)) } })
    decreases n
{
    let v = h_val(ns, n); let d = v + t; let z = Seq::<Seq<u8>>::empty(); let i = ns[n - 1]; assert(ord_name(i));
    if n == 1 { let e = Seq::<u8>::empty(); assert(rest_of(d, 0) =~= e + i + t); lemma_list_item(d, 0, z, e, i, t); assert(ns.subrange(0, 1) =~= z.push(i)); }
    else {
        let x = h_sep(ns, n); let u = h_val(ns, n - 1); let t2 = sl_colon() + (x + i) + t;
        lemma_names_read(ns, n - 1, t2); assert(u + t2 =~= d);
        let p = u.len() as int + 1;
        assert(rest_of(d, p) =~= x + i + t);
        lemma_list_item(d, p, ns.subrange(0, n - 1), x, i, t);
        assert(ns.subrange(0, n) =~= ns.subrange(0, n - 1).push(i));
    }
}
pub proof fn lemma_h_text(ns: Seq<Seq<u8>>, n: int)
    requires ord_names(ns), 1 <= n <= ns.len()
    ensures valtext(h_val(ns, n))
    decreases n
{
    let v = h_val(ns, n); let i = ns[n - 1]; assert(ord_name(i)); assert(ord_char(i[0])); assert(ord_char(i.last()));
    if n > 1 {
        lemma_h_text(ns, n - 1); let u = h_val(ns, n - 1); let x = h_sep(ns, n); let y = sl_colon() + (x + i);
        assert(v.last() == i.last()); assert(v[0] == u[0]);
        assert forall|k: int| 0 <= k < v.len() implies is_valchar(#[trigger] v[k]) || is_ws4(v[k]) by {
            if k < u.len() { assert(v[k] == u[k]); } else if k == u.len() { assert(v[k] == 58); } else if k < u.len() + 1 + x.len() { assert(v[k] == x[k - u.len() - 1]); } else { assert(v[k] == i[k - u.len() - 1 - x.len()]); }
        }
    } else { assert forall|k: int| 0 <= k < v.len() implies is_valchar(#[trigger] v[k]) || is_ws4(v[k]) by { assert(ord_char(i[k])); } }
}
pub proof fn thm_names(ns: Seq<Seq<u8>>)
    requires ord_names(ns), ns.len() > 0
    ensures names(h_val(ns, ns.len() as int)) == (ListScan { items: ns, bad: false }), valtext(h_val(ns, ns.len() as int))
{ let v = h_val(ns, ns.len() as int); let e = Seq::<u8>::empty(); lemma_names_read(ns, ns.len() as int, e); lemma_h_text(ns, ns.len() as int); assert(v + e =~= v); assert(ns.subrange(0, ns.len() as int) =~= ns); }
// ---- the base64 text in lines
pub proof fn lemma_sws_add(a: Seq<u8>, b: Seq<u8>)
    ensures str_without_space(a + b) == str_without_space(a) + str_without_space(b)
    decreases b.len()
{
    let s = a + b;
    if b.len() == 0 { assert(s =~= a); assert(str_without_space(a) + str_without_space(b) =~= str_without_space(a)); }
    else { lemma_sws_add(a, b.drop_last()); assert(s.drop_last() =~= a + b.drop_last()); assert(s.last() == b.last());
        let x = str_without_space(a); let y = str_without_space(b.drop_last());
        if !is_space_byte(b.last()) { assert((x + y).push(b.last()) =~= x + y.push(b.last())); } }
}
pub proof fn lemma_sws_same(a: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> !is_space_byte(#[trigger] a[i]) ensures str_without_space(a) == a decreases a.len()
{ if a.len() > 0 { lemma_sws_same(a.drop_last()); assert(a.drop_last().push(a.last()) =~= a); } }
pub proof fn lemma_sign_lines(t: Seq<u8>, k: int)
    requires k > 0, forall|i: int| 0 <= i < t.len() ==> b64_char(#[trigger] t[i])
    ensures str_without_space(sign_lines(t, k)) == t, t.len() > 0 ==> valtext(sign_lines(t, k)) && sign_lines(t, k)[0] == t[0]
    decreases t.len()
{
    let s = sign_lines(t, k);
    if t.len() <= k { assert forall|i: int| 0 <= i < t.len() implies !is_space_byte(#[trigger] t[i]) && is_valchar(t[i]) by { assert(b64_char(t[i])); } lemma_sws_same(t); if t.len() > 0 { assert(is_valchar(t[0])); assert(is_valchar(t.last())); } }
    else {
        let a = t.subrange(0, k); let b = t.subrange(k, t.len() as int); let c = sl_cont(); let r = sign_lines(b, 78);
        assert forall|i: int| 0 <= i < a.len() implies !is_space_byte(#[trigger] a[i]) && is_valchar(a[i]) by { assert(b64_char(t[i])); }
        assert forall|i: int| 0 <= i < b.len() implies b64_char(#[trigger] b[i]) by { assert(b64_char(t[i + k])); }
        lemma_sign_lines(b, 78); lemma_sws_same(a); lemma_sws_add(a + c, r); lemma_sws_add(a, c); lemma_sws_cont();
        assert(s == a + c + r); assert(a + Seq::<u8>::empty() + b =~= t); assert(a + Seq::<u8>::empty() =~= a);
        assert(s[0] == a[0]); assert(s.last() == r.last());
        assert forall|i: int| 0 <= i < s.len() implies is_valchar(#[trigger] s[i]) || is_ws4(s[i]) by { if i < k { assert(s[i] == a[i]); } else if i < k + 4 { assert(s[i] == c[i - k]); } else { assert(s[i] == r[i - k - 4]); } }
        assert(is_valchar(a[0]));
    }
}
pub proof fn lemma_sws_cont() ensures str_without_space(sl_cont()) == Seq::<u8>::empty()
{ reveal_with_fuel(str_without_space, 6); let c = sl_cont(); let d = c.drop_last(); let e = d.drop_last(); let f = e.drop_last(); assert(c.last() == 32 && d.last() == 9 && e.last() == 10 && f.last() == 13); assert(f.drop_last() =~= Seq::<u8>::empty()); }
// ---- the fields' lines
/// every LF belongs to a CRLF, and a blank follows unless the text ends there
pub open spec fn lf_ok(f: Seq<u8>) -> bool { forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == 10 ==> i > 0 && f[i - 1] == 13 && (i + 1 < f.len() ==> is_blank(f[i + 1])) }
pub proof fn lemma_lf_add(a: Seq<u8>, b: Seq<u8>)
    requires lf_ok(a), lf_ok(b), a.len() > 0 && a.last() == 10 && b.len() > 0 ==> is_blank(b[0])
    ensures lf_ok(a + b)
{ let f = a + b; assert forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == 10 implies i > 0 && f[i - 1] == 13 && (i + 1 < f.len() ==> is_blank(f[i + 1])) by { if i < a.len() { assert(a[i] == 10); if i + 1 == a.len() && b.len() > 0 { assert(f[i + 1] == b[0]); } } else { assert(b[i - a.len()] == 10); } } }
pub open spec fn no_lf(f: Seq<u8>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] != 10 }
pub proof fn lemma_lf_none(f: Seq<u8>) requires no_lf(f) ensures lf_ok(f) {}
pub proof fn lemma_lf_cont() ensures lf_ok(sl_cont()), sl_cont().last() == 32 { let c = sl_cont(); assert(c[0] == 13 && c[1] == 10 && c[2] == 9 && c[3] == 32); }
pub proof fn lemma_lines_lf(t: Seq<u8>, k: int) requires k > 0, forall|i: int| 0 <= i < t.len() ==> b64_char(#[trigger] t[i]) ensures lf_ok(sign_lines(t, k)) decreases t.len()
{
    if t.len() <= k { assert(no_lf(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 10 by { assert(b64_char(t[i])); } } lemma_lf_none(t); }
    else { let a = t.subrange(0, k); let b = t.subrange(k, t.len() as int);
        assert(no_lf(a)) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 10 by { assert(b64_char(t[i])); } } lemma_lf_none(a);
        assert forall|i: int| 0 <= i < b.len() implies b64_char(#[trigger] b[i]) by { assert(b64_char(t[i + k])); }
        lemma_lines_lf(b, 78); lemma_lf_cont(); assert(a.last() != 10); lemma_lf_add(a, sl_cont()); lemma_lf_add(a + sl_cont(), sign_lines(b, 78)); }
}
pub proof fn lemma_h_lf(ns: Seq<Seq<u8>>, n: int) requires ord_names(ns), 1 <= n <= ns.len() ensures lf_ok(h_val(ns, n)), h_val(ns, n).len() > 0, h_val(ns, n).last() != 10 decreases n
{
    let i = ns[n - 1]; assert(ord_name(i)); assert(no_lf(i)) by { assert forall|k: int| 0 <= k < i.len() implies #[trigger] i[k] != 10 by { assert(ord_char(i[k])); } } lemma_lf_none(i); assert(ord_char(i.last()));
    if n > 1 { let x = h_sep(ns, n); lemma_h_lf(ns, n - 1); lemma_lf_cont(); lemma_lf_add(x, i); assert(no_lf(sl_colon())); lemma_lf_none(sl_colon()); assert((x + i).len() > 0); lemma_lf_add(sl_colon(), x + i); lemma_lf_add(h_val(ns, n - 1), sl_colon() + (x + i)); assert(h_val(ns, n).last() == i.last()); }
}
