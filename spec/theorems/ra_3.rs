// ---- the field that is written, as a tag list
pub open spec fn nil() -> Seq<u8> { Seq::<u8>::empty() }
pub open spec fn sp1() -> Seq<u8> { seq![32u8] }
pub open spec fn nl3() -> Seq<u8> { seq![13u8, 10u8, 9u8] }
pub open spec fn one1() -> Seq<u8> { seq![49u8] }
pub open spec fn nm_dkim() -> Seq<u8> { seq![68u8, 75u8, 73u8, 77u8, 45u8, 83u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8] } // 'DKIM-Signature'
pub open spec fn nm_arc() -> Seq<u8> { seq![65u8, 82u8, 67u8, 45u8, 77u8, 101u8, 115u8, 115u8, 97u8, 103u8, 101u8, 45u8, 83u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8] } // 'ARC-Message-Signature'
pub open spec fn own_name(o: DKIM_SignatoryOptions) -> Seq<u8> { if o.m_arcInstance != 0 { nm_arc() } else { nm_dkim() } }
/// everything a written field depends on
pub struct Wr { pub o: DKIM_SignatoryOptions, pub s: DKIM_AdditionalSignaturesOptions, pub ns: Seq<Seq<u8>>, pub bh: Seq<u8>, pub now: int, pub bv: Seq<u8> }
pub open spec fn w_alg(w: Wr) -> Seq<u8> { alg_str(w.s.m_signatureAlgorithm, w.o.m_digestAlgorithm) }
pub open spec fn w_c(w: Wr) -> Seq<u8> { mode_str(w.o.m_canonHead) + sl_slash() + mode_str(w.o.m_canonBody) }
pub open spec fn w_t(w: Wr) -> Seq<u8> { dec_str(cast_u64(sign_ts(w.o, w.now))) }
pub open spec fn w_x(w: Wr) -> Seq<u8> { dec_str(cast_u64(sign_exp(w.o, w.now))) }
pub open spec fn w_i(w: Wr) -> Seq<u8> { qp_enc(w.o.m_identity, w.o.m_identity.len() as int) }
pub open spec fn w_l(w: Wr) -> Seq<u8> { dec_str(w.o.m_bodyLength) }
pub open spec fn w_h(w: Wr) -> Seq<u8> { h_val(w.ns, w.ns.len() as int) }
pub open spec fn w_arc(w: Wr) -> bool { w.o.m_arcInstance != 0 }
pub open spec fn has_i(w: Wr) -> bool { w.o.m_arcInstance == 0 && w.o.m_identity.len() > 0 }
/// a tag, ';', and what follows
pub open spec fn then(a: Seq<u8>, r: Seq<u8>) -> Seq<u8> { a + (sl_semi() + r) }
pub open spec fn r_b(w: Wr) -> Seq<u8> { seg(nl3(), tag_b(), nil(), w.bv) }
pub open spec fn r_bh(w: Wr) -> Seq<u8> { then(seg(nl3(), tag_bh(), nil(), b64_enc(w.bh)), r_b(w)) }
pub open spec fn r_h(w: Wr) -> Seq<u8> { then(seg(nl3(), tag_h(), h_sep(w.ns, 1), w_h(w)), r_bh(w)) }
pub open spec fn r_l(w: Wr) -> Seq<u8> { if w.o.m_bodySignLength { then(seg(sp1(), tag_l(), nil(), w_l(w)), r_h(w)) } else { r_h(w) } }
pub open spec fn r_i(w: Wr) -> Seq<u8> { if has_i(w) { then(seg(sp1(), tag_i(), nil(), w_i(w)), r_l(w)) } else { r_l(w) } }
pub open spec fn r_s(w: Wr) -> Seq<u8> { then(seg(sp1(), tag_s(), nil(), w.s.m_selector), r_i(w)) }
pub open spec fn r_d(w: Wr) -> Seq<u8> { then(seg(nl3(), tag_d(), nil(), w.s.m_domain), r_s(w)) }
pub open spec fn r_x(w: Wr) -> Seq<u8> { if w.o.m_expirationSign { then(seg(sp1(), tag_x(), nil(), w_x(w)), r_d(w)) } else { r_d(w) } }
pub open spec fn r_t(w: Wr) -> Seq<u8> { if w.o.m_timestampSign { then(seg(sp1(), tag_t(), nil(), w_t(w)), r_x(w)) } else { r_x(w) } }
pub open spec fn r_c(w: Wr) -> Seq<u8> { then(seg(sp1(), tag_c(), nil(), w_c(w)), r_t(w)) }
pub open spec fn r_a(w: Wr) -> Seq<u8> { then(seg(sp1(), tag_a(), nil(), w_alg(w)), r_c(w)) }
pub open spec fn r_v(w: Wr) -> Seq<u8> { if w_arc(w) { then(seg(sp1(), tag_i(), nil(), dec_str(w.o.m_arcInstance)), r_a(w)) } else { then(seg(sp1(), tag_v(), nil(), one1()), r_a(w)) } }
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// literal, value, ';'
pub proof fn lemma_lit_seg(lit: Seq<u8>, w: Seq<u8>, nm: Seq<u8>, v: Seq<u8>, r: Seq<u8>) requires lit == w + nm + seq![61u8] ensures lit + v + (sl_semi() + r) == then(seg(w, nm, nil(), v), r) { assert(lit + v =~= seg(w, nm, nil(), v)); }
pub proof fn lemma_text_b(w: Wr) ensures crlf() + (sl_b() + w.bv) == r_b(w) { assert(crlf() + (sl_b() + w.bv) =~= r_b(w)); }
pub proof fn lemma_text_bh(w: Wr) ensures crlf() + (((sl_bh() + b64_enc(w.bh)) + sl_end()) + (sl_b() + w.bv)) == r_bh(w)
{
    lemma_text_b(w); let v = b64_enc(w.bh); let q = sl_b() + w.bv; let lit = crlf() + sl_bh(); assert(lit =~= nl3() + tag_bh() + seq![61u8]);
    lemma_lit_seg(lit, nl3(), tag_bh(), v, crlf() + q); assert(sl_end() =~= sl_semi() + crlf());
    assert(crlf() + (((sl_bh() + v) + sl_end()) + q) =~= lit + v + (sl_semi() + (crlf() + q)));
}
pub proof fn lemma_text_h(w: Wr) requires w.ns.len() > 0
    ensures ({ let l = h_list(w.ns, w.ns.len() as int); crlf() + (l.done + ((l.line + sl_end()) + (((sl_bh() + b64_enc(w.bh)) + sl_end()) + (sl_b() + w.bv)))) == r_h(w) })
{
    lemma_text_bh(w); let n = w.ns.len() as int; let l = h_list(w.ns, n); lemma_h_val(w.ns, n); let q = ((sl_bh() + b64_enc(w.bh)) + sl_end()) + (sl_b() + w.bv);
    let x = h_sep(w.ns, 1); let v = w_h(w); let e = sl_end(); assert(e =~= sl_semi() + crlf());
    let a = crlf() + (l.done + ((l.line + e) + q));
    assert(a =~= crlf() + (l.done + l.line) + (e + q));
    assert(e + q =~= sl_semi() + (crlf() + q));
    assert(crlf() + (sl_h() + x + v) =~= seg(nl3(), tag_h(), x, v));
}
pub proof fn lemma_text_l(w: Wr, q: Seq<u8>) requires crlf() + q == r_h(w) ensures sign_limit(w.o) + (sl_end() + q) == sl_semi() + r_l(w)
{
    assert(sl_end() + q =~= sl_semi() + (crlf() + q));
    if w.o.m_bodySignLength { let lit = sp1() + tag_l() + seq![61u8]; assert(sl_l() =~= sl_semi() + lit); let v = w_l(w); lemma_lit_seg(lit, sp1(), tag_l(), v, r_h(w)); assert(sl_l() + v + (sl_semi() + r_h(w)) =~= sl_semi() + (lit + v + (sl_semi() + r_h(w)))); }
    else { assert(nil() + (sl_end() + q) =~= sl_end() + q); }
}
pub proof fn lemma_text_i(w: Wr, q: Seq<u8>) requires crlf() + q == r_h(w) ensures sign_ident(w.o) + (sign_limit(w.o) + (sl_end() + q)) == sl_semi() + r_i(w)
{
    lemma_text_l(w, q); let r = r_l(w);
    if has_i(w) { let lit = sp1() + tag_i() + seq![61u8]; assert(sl_i() =~= sl_semi() + lit); let v = w_i(w); lemma_lit_seg(lit, sp1(), tag_i(), v, r); assert(sl_i() + v + (sl_semi() + r) =~= sl_semi() + (lit + v + (sl_semi() + r))); }
    else { assert(nil() + (sl_semi() + r) =~= sl_semi() + r); }
}
pub proof fn lemma_text_d(w: Wr, q: Seq<u8>) requires crlf() + q == r_h(w) ensures crlf() + (sign_head4(w.o, w.s) + q) == r_d(w)
{
    lemma_text_i(w, q); let r = r_i(w); let id = sign_ident(w.o); let lm = sign_limit(w.o); let d = w.s.m_domain; let s = w.s.m_selector;
    let tail = id + (lm + (sl_end() + q));
    assert(sign_head4(w.o, w.s) + q =~= sl_d() + d + (sl_s() + s + tail)) by { 
        let a = sl_d() + d + sl_s() + s; lemma_cat(a + id + lm, sl_end(), q); lemma_cat(a + id, lm, sl_end() + q); lemma_cat(a, id, lm + (sl_end() + q)); assert(a + tail =~= sl_d() + d + (sl_s() + s + tail)); }
    let lit = sp1() + tag_s() + seq![61u8]; assert(sl_s() =~= sl_semi() + lit); lemma_lit_seg(lit, sp1(), tag_s(), s, r);
    assert(sl_s() + s + (sl_semi() + r) =~= sl_semi() + (lit + s + (sl_semi() + r)));
    let lid = nl3() + tag_d() + seq![61u8]; assert(crlf() + sl_d() =~= lid); lemma_lit_seg(lid, nl3(), tag_d(), d, r_s(w));
    assert(crlf() + (sl_d() + d + (sl_semi() + r_s(w))) =~= (crlf() + sl_d()) + d + (sl_semi() + r_s(w)));
}
pub proof fn lemma_text_x(w: Wr) ensures sign_head3(w.o, w.now) + r_d(w) == r_x(w)
{
    let r = r_d(w);
    if w.o.m_expirationSign { let v = w_x(w); assert(sl_x() =~= sp1() + tag_x() + seq![61u8]); lemma_lit_seg(sl_x(), sp1(), tag_x(), v, r); lemma_cat(sl_x() + v, sl_semi(), r); } else { assert(nil() + r =~= r); }
}
pub proof fn lemma_text_t(w: Wr) ensures sign_head2(w.o, w.now) + r_x(w) == r_t(w)
{
    let r = r_x(w);
    if w.o.m_timestampSign { let v = w_t(w); assert(sl_t() =~= sp1() + tag_t() + seq![61u8]); lemma_lit_seg(sl_t(), sp1(), tag_t(), v, r); lemma_cat(sl_t() + v, sl_semi(), r); } else { assert(nil() + r =~= r); }
}
pub proof fn lemma_text_ac(w: Wr, lit: Seq<u8>, p: Seq<u8>) requires lit == p + sl_semi() + (sp1() + tag_a() + seq![61u8])
    ensures lit + w_alg(w) + sl_c() + mode_str(w.o.m_canonHead) + sl_slash() + mode_str(w.o.m_canonBody) + sl_semi() + r_t(w) == p + (sl_semi() + r_a(w))
{
    let r = r_t(w); let a = w_alg(w); let h = mode_str(w.o.m_canonHead); let b = mode_str(w.o.m_canonBody); let c = w_c(w);
    let lc = sp1() + tag_c() + seq![61u8]; assert(sl_c() =~= sl_semi() + lc); lemma_lit_seg(lc, sp1(), tag_c(), c, r);
    let la = sp1() + tag_a() + seq![61u8]; lemma_lit_seg(la, sp1(), tag_a(), a, r_c(w));
    assert(lit + a + sl_c() + h + sl_slash() + b + sl_semi() + r =~= lit + a + (sl_c() + c + (sl_semi() + r))) by {
        let z = lit + a; assert(z + sl_c() + h + sl_slash() + b =~= z + (sl_c() + c)); lemma_cat(z + (sl_c() + c), sl_semi(), r); lemma_cat(z, sl_c() + c, sl_semi() + r); }
    assert(sl_c() + c + (sl_semi() + r) =~= sl_semi() + (lc + c + (sl_semi() + r)));
    assert(lit + a + (sl_semi() + r_c(w)) =~= p + (sl_semi() + (la + a + (sl_semi() + r_c(w)))));
}
pub proof fn lemma_text_v(w: Wr) ensures sign_head1(w.o, w.s) + r_t(w) == own_name(w.o) + (sl_colon() + r_v(w))
{
    if w_arc(w) {
        let v = dec_str(w.o.m_arcInstance); let p = sl_arc() + v; let la = sp1() + tag_a() + seq![61u8]; assert(sl_a() =~= sl_semi() + la);
        assert(sl_arc() + v + sl_a() =~= p + sl_semi() + la); lemma_text_ac(w, p + sl_semi() + la, p);
        let lit = sp1() + tag_i() + seq![61u8]; assert(sl_arc() =~= nm_arc() + (sl_colon() + lit)); lemma_lit_seg(lit, sp1(), tag_i(), v, r_a(w));
        assert(p + (sl_semi() + r_a(w)) =~= nm_arc() + (sl_colon() + (lit + v + (sl_semi() + r_a(w)))));
    } else {
        let v = one1(); let lit = sp1() + tag_v() + seq![61u8]; let p = nm_dkim() + (sl_colon() + (lit + v)); let la = sp1() + tag_a() + seq![61u8];
        assert(sl_dkim() =~= p + sl_semi() + la); lemma_text_ac(w, sl_dkim(), p);
        lemma_lit_seg(lit, sp1(), tag_v(), v, r_a(w));
        assert(p + (sl_semi() + r_a(w)) =~= nm_dkim() + (sl_colon() + (lit + v + (sl_semi() + r_a(w)))));
    }
}
/// the written field is its name, ':' and the tag list
pub proof fn thm_text(w: Wr) requires w.ns.len() > 0 ensures sign_head(w.o, w.s, w.ns, w.bh, w.now) + w.bv == own_name(w.o) + (sl_colon() + r_v(w))
{
    let n = w.ns.len() as int; let l = h_list(w.ns, n); lemma_text_h(w); let tb = sl_b() + w.bv; let tbh = ((sl_bh() + b64_enc(w.bh)) + sl_end()); let q = l.done + ((l.line + sl_end()) + (tbh + tb));
    lemma_text_d(w, q); lemma_text_x(w); lemma_text_t(w); lemma_text_v(w);
    let h1 = sign_head1(w.o, w.s); let h2 = sign_head2(w.o, w.now); let h3 = sign_head3(w.o, w.now); let h4 = sign_head4(w.o, w.s); let ha = sign_headA(w.o, w.s, w.now);
    assert(sign_head(w.o, w.s, w.ns, w.bh, w.now) + w.bv == ha + q) by {
        let e = l.line + sl_end();
        lemma_cat(ha + l.done + e + tbh, sl_b(), w.bv); lemma_cat(ha + l.done + e, tbh, tb); lemma_cat(ha + l.done, e, tbh + tb); lemma_cat(ha, l.done, e + (tbh + tb)); }
    assert(ha + q == h1 + (h2 + (h3 + (crlf() + (h4 + q))))) by { lemma_cat(h1 + h2 + h3 + crlf(), h4, q); lemma_cat(h1 + h2 + h3, crlf(), h4 + q); lemma_cat(h1 + h2, h3, crlf() + (h4 + q)); lemma_cat(h1, h2, h3 + (crlf() + (h4 + q))); }
}
