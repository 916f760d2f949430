// ---- reading the written tag list
pub open spec fn token(v: Seq<u8>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> is_valchar(#[trigger] v[i]) }
pub proof fn lemma_token(v: Seq<u8>) requires token(v) ensures valtext(v), no_lf(v), no_nul(v) { assert(is_valchar(v[0]) && is_valchar(v.last())); }
pub struct TS { pub p: int, pub m: Map<Seq<u8>, DKIM_TagListEntry> }
pub open spec fn put(t: TS, w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>) -> TS { TS { p: t.p + seg(w, nm, x, val).len() + 1, m: t.m.insert(nm, entry(val, t.p + w.len() + nm.len() + 1 + x.len())) } }
pub proof fn lemma_put(d: Seq<u8>, t: TS, w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>, r: Seq<u8>)
    requires 0 <= t.p <= d.len(), rest_of(d, t.p) == then(seg(w, nm, x, val), r), ws_all(w), name_all(nm), ws_all(x), valtext(val), !t.m.dom().contains(nm)
    ensures ({ let n = put(t, w, nm, x, val); 0 <= n.p <= d.len() && rest_of(d, n.p) == r && tag_scan(d, t.p, t.m) == tag_scan(d, n.p, n.m) })
{ let rest = sl_semi() + r; lemma_tag_step(d, t.p, t.m, w, nm, x, val, rest); assert(rest.subrange(1, rest.len() as int) =~= r); }
pub open spec fn keys_differ() -> bool {
    let v = tag_v(); let a = tag_a(); let c = tag_c(); let t = tag_t(); let x = tag_x(); let d = tag_d(); let s = tag_s(); let i = tag_i(); let l = tag_l(); let h = tag_h(); let bh = tag_bh(); let b = tag_b(); let q = tag_q();
    v != a && v != c && v != t && v != x && v != d && v != s && v != i && v != l && v != h && v != bh && v != b && v != q
    && a != c && a != t && a != x && a != d && a != s && a != i && a != l && a != h && a != bh && a != b && a != q
    && c != t && c != x && c != d && c != s && c != i && c != l && c != h && c != bh && c != b && c != q
    && t != x && t != d && t != s && t != i && t != l && t != h && t != bh && t != b && t != q
    && x != d && x != s && x != i && x != l && x != h && x != bh && x != b && x != q
    && d != s && d != i && d != l && d != h && d != bh && d != b && d != q
    && s != i && s != l && s != h && s != bh && s != b && s != q
    && i != l && i != h && i != bh && i != b && i != q && l != h && l != bh && l != b && l != q && h != bh && h != b && h != q && bh != b && bh != q && b != q
}
pub proof fn lemma_keys() ensures keys_differ()
{
    let v = tag_v(); let a = tag_a(); let c = tag_c(); let t = tag_t(); let x = tag_x(); let d = tag_d(); let s = tag_s(); let i = tag_i(); let l = tag_l(); let h = tag_h(); let bh = tag_bh(); let b = tag_b(); let q = tag_q();
    assert(v[0] == 118 && a[0] == 97 && c[0] == 99 && t[0] == 116 && x[0] == 120 && d[0] == 100 && s[0] == 115 && i[0] == 105 && l[0] == 108 && h[0] == 104 && bh[0] == 98 && b[0] == 98 && bh.len() == 2 && b.len() == 1 && q[0] == 113);
}
pub open spec fn s_v(w: Wr) -> TS { let z = TS { p: 0, m: Map::<Seq<u8>, DKIM_TagListEntry>::empty() }; if w_arc(w) { put(z, sp1(), tag_i(), nil(), dec_str(w.o.m_arcInstance)) } else { put(z, sp1(), tag_v(), nil(), one1()) } }
pub open spec fn s_a(w: Wr) -> TS { put(s_v(w), sp1(), tag_a(), nil(), w_alg(w)) }
pub open spec fn s_c(w: Wr) -> TS { put(s_a(w), sp1(), tag_c(), nil(), w_c(w)) }
pub open spec fn s_t(w: Wr) -> TS { if w.o.m_timestampSign { put(s_c(w), sp1(), tag_t(), nil(), w_t(w)) } else { s_c(w) } }
pub open spec fn s_x(w: Wr) -> TS { if w.o.m_expirationSign { put(s_t(w), sp1(), tag_x(), nil(), w_x(w)) } else { s_t(w) } }
pub open spec fn s_d(w: Wr) -> TS { put(s_x(w), nl3(), tag_d(), nil(), w.s.m_domain) }
pub open spec fn s_s(w: Wr) -> TS { put(s_d(w), sp1(), tag_s(), nil(), w.s.m_selector) }
pub open spec fn s_i(w: Wr) -> TS { if has_i(w) { put(s_s(w), sp1(), tag_i(), nil(), w_i(w)) } else { s_s(w) } }
pub open spec fn s_l(w: Wr) -> TS { if w.o.m_bodySignLength { put(s_i(w), sp1(), tag_l(), nil(), w_l(w)) } else { s_i(w) } }
pub open spec fn s_h(w: Wr) -> TS { put(s_l(w), nl3(), tag_h(), h_sep(w.ns, 1), w_h(w)) }
pub open spec fn s_bh(w: Wr) -> TS { put(s_h(w), nl3(), tag_bh(), nil(), b64_enc(w.bh)) }
/// the tags of the written field
pub open spec fn w_tags(w: Wr) -> Map<Seq<u8>, DKIM_TagListEntry> { put(s_bh(w), nl3(), tag_b(), nil(), w.bv).m }
pub open spec fn wr_ok(w: Wr) -> bool {
    &&& w.ns.len() > 0 && ord_names(w.ns) && valtext(w.bv) && lf_ok(w.bv) && w.bh.len() > 0 && token(w.s.m_domain) && token(w.s.m_selector)
    &&& 0 <= w.o.m_arcInstance <= NPOS() && 0 <= w.o.m_bodyLength <= NPOS()
    &&& 0 <= w.s.m_signatureAlgorithm <= 1 && 0 <= w.o.m_digestAlgorithm <= 1 && 0 <= w.o.m_canonHead <= 1 && 0 <= w.o.m_canonBody <= 1
}
pub proof fn lemma_b64_text(d: Seq<u8>) requires d.len() > 0 ensures token(b64_enc(d)) { thm_b64_inverse(d); let e = b64_enc(d); assert forall|i: int| 0 <= i < e.len() implies is_valchar(#[trigger] e[i]) by { assert(b64_char(e[i])); } }
pub proof fn lemma_dec_token(n: int) requires 0 <= n <= NPOS() ensures token(dec_str(n)) { lemma_dec_read(n); let s = dec_nat(n); assert forall|i: int| 0 <= i < s.len() implies is_valchar(#[trigger] s[i]) by { assert(48 <= s[i] <= 57); } }
pub proof fn lemma_qp_token(v: Seq<u8>) requires v.len() > 0 ensures token(qp_enc(v, v.len() as int)) {
    lemma_qp_roundtrip(v, v.len() as int, nil()); let e = qp_enc(v, v.len() as int); assert(e.len() > 0) by { assert(qp_enc1(v.last()).len() > 0); }
    assert forall|i: int| 0 <= i < e.len() implies is_valchar(#[trigger] e[i]) by { assert(0x21 <= e[i] <= 0x7e && e[i] != 0x3b); } }
pub proof fn lemma_alg_token(w: Wr) requires wr_ok(w) ensures token(w_alg(w)), token(w_c(w)) {
    let a = w_alg(w); assert forall|i: int| 0 <= i < a.len() implies is_valchar(#[trigger] a[i]) by { }
    let c = w_c(w); assert forall|i: int| 0 <= i < c.len() implies is_valchar(#[trigger] c[i]) by { }
}
/// what every part of the written field is made of
pub proof fn lemma_parts(w: Wr)
    requires wr_ok(w)
    ensures token(w_alg(w)), token(w_c(w)), token(w_t(w)), token(w_x(w)), has_i(w) ==> token(w_i(w)), token(w_l(w)), token(dec_str(w.o.m_arcInstance)), token(b64_enc(w.bh)), token(one1()), valtext(w_h(w)), lf_ok(w_h(w)),
        ws_all(sp1()), ws_all(nl3()), ws_all(nil()), ws_all(h_sep(w.ns, 1)),
        name_all(tag_v()), name_all(tag_a()), name_all(tag_c()), name_all(tag_t()), name_all(tag_x()), name_all(tag_d()), name_all(tag_s()), name_all(tag_i()), name_all(tag_l()), name_all(tag_h()), name_all(tag_bh()), name_all(tag_b())
{
    lemma_alg_token(w); lemma_dec_token(cast_u64(sign_ts(w.o, w.now))); lemma_dec_token(cast_u64(sign_exp(w.o, w.now))); lemma_dec_token(w.o.m_bodyLength); lemma_dec_token(w.o.m_arcInstance); lemma_b64_text(w.bh); thm_names(w.ns); lemma_h_lf(w.ns, w.ns.len() as int);
    if has_i(w) { lemma_qp_token(w.o.m_identity); }
    assert(ws_all(sl_cont())) by { let c = sl_cont(); assert(c[0] == 13 && c[1] == 10 && c[2] == 9 && c[3] == 32); }
    assert(is_valchar(one1()[0]));
}
pub proof fn lemma_read_1(d: Seq<u8>, w: Wr)
    requires wr_ok(w), d == r_v(w)
    ensures ({ let t = s_x(w); 0 <= t.p <= d.len() && rest_of(d, t.p) == r_d(w) && tag_scan(d, 0, Map::<Seq<u8>, DKIM_TagListEntry>::empty()) == tag_scan(d, t.p, t.m)
        && (forall|k: Seq<u8>| #[trigger] t.m.dom().contains(k) <==> k == (if w_arc(w) { tag_i() } else { tag_v() }) || k == tag_a() || k == tag_c() || (w.o.m_timestampSign && k == tag_t()) || (w.o.m_expirationSign && k == tag_x())) })
{
    lemma_keys(); lemma_parts(w); lemma_token(w_alg(w)); lemma_token(w_c(w)); lemma_token(w_t(w)); lemma_token(w_x(w)); lemma_token(dec_str(w.o.m_arcInstance)); lemma_token(one1());
    let z = TS { p: 0, m: Map::<Seq<u8>, DKIM_TagListEntry>::empty() }; assert(rest_of(d, 0) =~= d);
    if w_arc(w) { lemma_put(d, z, sp1(), tag_i(), nil(), dec_str(w.o.m_arcInstance), r_a(w)); } else { lemma_put(d, z, sp1(), tag_v(), nil(), one1(), r_a(w)); }
    lemma_put(d, s_v(w), sp1(), tag_a(), nil(), w_alg(w), r_c(w)); lemma_put(d, s_a(w), sp1(), tag_c(), nil(), w_c(w), r_t(w));
    if w.o.m_timestampSign { lemma_put(d, s_c(w), sp1(), tag_t(), nil(), w_t(w), r_x(w)); }
    if w.o.m_expirationSign { lemma_put(d, s_t(w), sp1(), tag_x(), nil(), w_x(w), r_d(w)); }
}
pub proof fn lemma_read_2(d: Seq<u8>, w: Wr)
    requires wr_ok(w), d == r_v(w)
    ensures ({ let t = s_l(w); 0 <= t.p <= d.len() && rest_of(d, t.p) == r_h(w) && tag_scan(d, 0, Map::<Seq<u8>, DKIM_TagListEntry>::empty()) == tag_scan(d, t.p, t.m)
        && !t.m.dom().contains(tag_h()) && !t.m.dom().contains(tag_bh()) && !t.m.dom().contains(tag_b()) })
{
    lemma_keys(); lemma_parts(w); lemma_token(w.s.m_domain); lemma_token(w.s.m_selector); if has_i(w) { lemma_token(w_i(w)); } lemma_token(w_l(w));
    lemma_read_1(d, w);
    assert(!s_x(w).m.dom().contains(tag_d()));
    lemma_put(d, s_x(w), nl3(), tag_d(), nil(), w.s.m_domain, r_s(w)); lemma_put(d, s_d(w), sp1(), tag_s(), nil(), w.s.m_selector, r_i(w));
    if has_i(w) { assert(!s_x(w).m.dom().contains(tag_i())); lemma_put(d, s_s(w), sp1(), tag_i(), nil(), w_i(w), r_l(w)); }
    assert(!s_x(w).m.dom().contains(tag_l()) && !s_x(w).m.dom().contains(tag_h()) && !s_x(w).m.dom().contains(tag_bh()) && !s_x(w).m.dom().contains(tag_b()));
    if w.o.m_bodySignLength { lemma_put(d, s_i(w), sp1(), tag_l(), nil(), w_l(w), r_h(w)); }
}
pub proof fn lemma_read_3(d: Seq<u8>, w: Wr)
    requires wr_ok(w), d == r_v(w)
    ensures ({ let t = s_bh(w); 0 <= t.p <= d.len() && rest_of(d, t.p) == r_b(w) && tag_scan(d, 0, Map::<Seq<u8>, DKIM_TagListEntry>::empty()) == tag_scan(d, t.p, t.m) && !t.m.dom().contains(tag_b()) })
{
    hide(s_l); hide(r_v); hide(tag_scan); lemma_keys(); lemma_parts(w); lemma_token(b64_enc(w.bh)); lemma_read_2(d, w);
    lemma_put(d, s_l(w), nl3(), tag_h(), h_sep(w.ns, 1), w_h(w), r_bh(w)); lemma_put(d, s_h(w), nl3(), tag_bh(), nil(), b64_enc(w.bh), r_b(w));
}
pub proof fn lemma_read_4(d: Seq<u8>, t: TS, bv: Seq<u8>)
    requires 0 <= t.p <= d.len(), rest_of(d, t.p) == seg(nl3(), tag_b(), nil(), bv), valtext(bv), !t.m.dom().contains(tag_b())
    ensures ({ let m = put(t, nl3(), tag_b(), nil(), bv).m; tag_scan(d, t.p, t.m) == (TagScan { tags: m, bad: false }) && ({ let off = m[tag_b()].m_valueOffset; 1 <= off && off + bv.len() == d.len() && d[off - 1] == 61 && m[tag_b()].m_value == bv }) })
{
    let r = seg(nl3(), tag_b(), nil(), bv); assert(r + nil() =~= r); assert(is_name(tag_b()[0]));
    lemma_tag_step(d, t.p, t.m, nl3(), tag_b(), nil(), bv, nil());
    let off = t.p + 3 + 1 + 1; assert(r[4] == 61); assert(rest_of(d, t.p)[4] == d[off - 1]);
    assert(r.len() == 5 + bv.len()); assert(rest_of(d, t.p).len() == d.len() - t.p);
}
/// the written tag list is read without complaint, and its last tag is b=, whose value runs to the end
pub proof fn thm_read(w: Wr)
    requires wr_ok(w)
    ensures ({ let d = r_v(w); tag_scan(d, 0, Map::<Seq<u8>, DKIM_TagListEntry>::empty()) == (TagScan { tags: w_tags(w), bad: false })
        && ({ let off = w_tags(w)[tag_b()].m_valueOffset; 1 <= off && off + w.bv.len() == d.len() && d[off - 1] == 61 && w_tags(w)[tag_b()].m_value == w.bv }) })
{ hide(s_bh); hide(r_v); hide(tag_scan); hide(seg); hide(put); lemma_read_3(r_v(w), w); lemma_read_4(r_v(w), s_bh(w), w.bv); }
