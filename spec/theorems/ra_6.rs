// ---- the written field as a field of a message
pub proof fn lemma_seg_lf(w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>)
    requires w == sp1() || w == nl3(), name_all(nm), x == nil() || x == sl_cont(), lf_ok(val), val.len() > 0, val[0] != 10, val.last() != 10
    ensures lf_ok(seg(w, nm, x, val)), seg(w, nm, x, val).last() != 10, seg(w, nm, x, val).len() > 0, seg(w, nm, x, val)[0] != 10
{
    let e = seq![61u8];
    assert(lf_ok(w)) by { if w == nl3() { assert(w[0] == 13 && w[1] == 10 && w[2] == 9); } else { assert(no_lf(w)); } }
    assert(no_lf(nm)) by { assert forall|i: int| 0 <= i < nm.len() implies #[trigger] nm[i] != 10 by { assert(is_name(nm[i])); } } lemma_lf_none(nm); lemma_lf_none(e); lemma_lf_cont();
    assert(w.last() != 10); assert(is_name(nm.last()));
    lemma_lf_add(w, nm); assert((w + nm).last() == nm.last()); lemma_lf_add(w + nm, e); assert((w + nm + e).last() == 61); lemma_lf_add(w + nm + e, x); 
    let y = w + nm + e + x; if x.len() > 0 { assert(y.last() == x.last()); } else { assert(y =~= w + nm + e); }
    lemma_lf_add(y, val); let s = seg(w, nm, x, val); assert(s.last() == val.last()); assert(s[0] == w[0]);
}
pub proof fn lemma_then_lf(a: Seq<u8>, r: Seq<u8>)
    requires lf_ok(a), lf_ok(r), a.len() > 0, a.last() != 10, a[0] != 10, r.len() > 0, r[0] != 10, r.last() != 10
    ensures lf_ok(then(a, r)), then(a, r).len() > 0, then(a, r)[0] != 10, then(a, r).last() != 10
{ let s = sl_semi(); lemma_lf_none(s); lemma_lf_add(s, r); lemma_lf_add(a, s + r); assert(then(a, r)[0] == a[0]); assert(then(a, r).last() == r.last()); }
pub open spec fn lf_part(r: Seq<u8>) -> bool { lf_ok(r) && r.len() > 0 && r[0] != 10 && r.last() != 10 }
pub proof fn lemma_tok_seg(w: Seq<u8>, nm: Seq<u8>, v: Seq<u8>, r: Seq<u8>)
    requires w == sp1() || w == nl3(), name_all(nm), token(v), lf_part(r)
    ensures lf_part(then(seg(w, nm, nil(), v), r))
{ lemma_token(v); lemma_lf_none(v); assert(is_valchar(v[0]) && is_valchar(v.last())); lemma_seg_lf(w, nm, nil(), v); lemma_then_lf(seg(w, nm, nil(), v), r); }
pub proof fn lemma_r_lf_1(w: Wr) requires wr_ok(w) ensures lf_part(r_d(w))
{
    lemma_parts(w);
    assert(is_valchar(w.bv[0]) && is_valchar(w.bv.last())); lemma_seg_lf(nl3(), tag_b(), nil(), w.bv); assert(lf_part(r_b(w)));
    lemma_tok_seg(nl3(), tag_bh(), b64_enc(w.bh), r_b(w));
    assert(is_valchar(w_h(w)[0]) && is_valchar(w_h(w).last())); lemma_seg_lf(nl3(), tag_h(), h_sep(w.ns, 1), w_h(w)); lemma_then_lf(seg(nl3(), tag_h(), h_sep(w.ns, 1), w_h(w)), r_bh(w)); assert(lf_part(r_h(w)));
    if w.o.m_bodySignLength { lemma_tok_seg(sp1(), tag_l(), w_l(w), r_h(w)); } assert(lf_part(r_l(w)));
    if has_i(w) { lemma_tok_seg(sp1(), tag_i(), w_i(w), r_l(w)); } assert(lf_part(r_i(w)));
    lemma_tok_seg(sp1(), tag_s(), w.s.m_selector, r_i(w)); lemma_tok_seg(nl3(), tag_d(), w.s.m_domain, r_s(w));
}
pub proof fn lemma_r_lf(w: Wr) requires wr_ok(w) ensures lf_part(r_v(w))
{
    hide(r_d); lemma_parts(w); lemma_r_lf_1(w);
    if w.o.m_expirationSign { lemma_tok_seg(sp1(), tag_x(), w_x(w), r_d(w)); } assert(lf_part(r_x(w)));
    if w.o.m_timestampSign { lemma_tok_seg(sp1(), tag_t(), w_t(w), r_x(w)); } assert(lf_part(r_t(w)));
    lemma_tok_seg(sp1(), tag_c(), w_c(w), r_t(w)); lemma_tok_seg(sp1(), tag_a(), w_alg(w), r_c(w));
    if w_arc(w) { lemma_tok_seg(sp1(), tag_i(), dec_str(w.o.m_arcInstance), r_a(w)); } else { lemma_tok_seg(sp1(), tag_v(), one1(), r_a(w)); }
}
pub open spec fn w_field(w: Wr) -> Seq<u8> { own_name(w.o) + (sl_colon() + r_v(w)) }
pub proof fn lemma_own_name(o: DKIM_SignatoryOptions)
    ensures ({ let n = own_name(o); trim(n) == n && n.len() > 0 && n[0] > 32 && no_lf(n) && (forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != 58) && lower_seq(n) == (if o.m_arcInstance != 0 { arc_sig_lit() } else { s_dkim_sig() }) && arc_sig_lit() != s_dkim_sig() })
{
    let n = own_name(o); let k = n.len() as int;
    assert(n[0] > 32 && n.last() == 101); assert(blank_end(n, 0) == 0); assert(trim_front(n) =~= n); assert(blank_start(n, k) == k); assert(trim_back(n) =~= n);
    if o.m_arcInstance != 0 { assert(lower_seq(n) =~= arc_sig_lit()); } else { assert(lower_seq(n) =~= s_dkim_sig()); }
    assert(arc_sig_lit().len() == 21 && s_dkim_sig().len() == 14);
}
pub proof fn thm_field(w: Wr)
    requires wr_ok(w)
    ensures ({ let f = w_field(w); let h = hdr_of(f); field_shape(f) && h.m_header == f && h.m_name == own_name(w.o) && h.m_valueOffset == own_name(w.o).len() + 1 && header_value(h) == r_v(w) && hdr_wf(h) })
{
    hide(r_v); lemma_r_lf(w); let n = own_name(w.o); let r = r_v(w); let f = w_field(w); lemma_own_name(w.o); let k = n.len() as int;
    lemma_lf_none(n); lemma_lf_none(sl_colon()); lemma_lf_add(sl_colon(), r); lemma_lf_add(n, sl_colon() + r); assert(f.last() == r.last()); assert(f[0] == n[0]);
    assert forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == 10 implies i > 0 && f[i - 1] == 13 && i + 1 < f.len() && is_blank(f[i + 1]) by { if i + 1 == f.len() { assert(f.last() == 10); } }
    assert forall|i: int| 0 <= i < k implies #[trigger] f[i] != 58 by { assert(f[i] == n[i]); }
    lemma_idx_none(f, 58u8, 0, k); assert(f[k] == 58); assert(idx_from(f, 58u8, k) == k); assert(f.subrange(0, k) =~= n);
    assert(f.subrange(k + 1, f.len() as int) =~= r);
}
/// the field with its b= value removed is the text that was signed
pub proof fn thm_own_field(w: Wr, head: Seq<u8>)
    requires wr_ok(w), head + w.bv == w_field(w)
    ensures ({ let h = hdr_of(w_field(w)); let s = w_sig(w); own_field(s, h) == head && tag_in(s.m_tagList.m_tags, tag_b()) })
{
    hide(r_v); hide(w_tags); thm_field(w); thm_read(w); thm_vals(w); let h = hdr_of(w_field(w)); let v = r_v(w); let off = w_tags(w)[tag_b()].m_valueOffset; let f = w_field(w); let s = w_sig(w);
    assert(s.m_tagList.m_tags == w_tags(w));
    assert(ws_end(v, off + w.bv.len()) == v.len()); assert(ws_back(v, off) == off); assert(f.len() == own_name(w.o).len() + 1 + v.len());
    let a = f.subrange(0, h.m_valueOffset); assert(v.subrange(v.len() as int, v.len() as int) =~= nil());
    assert(b_cut(v, off, w.bv.len() as int) =~= v.subrange(0, off));
    assert(v == f.subrange(h.m_valueOffset, f.len() as int));
    assert(a + v.subrange(0, off) =~= f.subrange(0, h.m_valueOffset + off));
    assert(head =~= f.subrange(0, head.len() as int)) by { assert forall|i: int| 0 <= i < head.len() implies head[i] == #[trigger] f[i] by { assert((head + w.bv)[i] == head[i]); } }
}
