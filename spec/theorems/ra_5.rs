// ---- what the tags say
pub open spec fn has_val(m: Map<Seq<u8>, DKIM_TagListEntry>, n: Seq<u8>, v: Seq<u8>) -> bool { tag_in(m, n) && tv(m, n) == v }
pub proof fn lemma_put_in(t: TS, w: Seq<u8>, nm: Seq<u8>, x: Seq<u8>, val: Seq<u8>)
    ensures has_val(put(t, w, nm, x, val).m, nm, val), forall|k: Seq<u8>| k != nm ==> tag_in(put(t, w, nm, x, val).m, k) == #[trigger] tag_in(t.m, k) && (tag_in(t.m, k) ==> tv(put(t, w, nm, x, val).m, k) == #[trigger] tv(t.m, k)) {}
pub proof fn lemma_vals_1(w: Wr)
    ensures ({ let m = s_x(w).m; has_val(m, tag_a(), w_alg(w)) && has_val(m, tag_c(), w_c(w)) && (w_arc(w) ==> has_val(m, tag_i(), dec_str(w.o.m_arcInstance))) && (!w_arc(w) ==> has_val(m, tag_v(), one1()) && !tag_in(m, tag_i()))
        && (w.o.m_expirationSign ==> has_val(m, tag_x(), w_x(w))) && (!w.o.m_expirationSign ==> !tag_in(m, tag_x())) && !tag_in(m, tag_q()) && !tag_in(m, tag_l()) })
{ lemma_keys(); }
pub proof fn lemma_vals_2(w: Wr)
    ensures ({ let m = s_l(w).m; has_val(m, tag_a(), w_alg(w)) && has_val(m, tag_c(), w_c(w)) && (w_arc(w) ==> has_val(m, tag_i(), dec_str(w.o.m_arcInstance))) && (!w_arc(w) ==> has_val(m, tag_v(), one1()))
        && (w.o.m_expirationSign ==> has_val(m, tag_x(), w_x(w))) && (!w.o.m_expirationSign ==> !tag_in(m, tag_x())) && !tag_in(m, tag_q())
        && has_val(m, tag_d(), w.s.m_domain) && has_val(m, tag_s(), w.s.m_selector) && (has_i(w) ==> has_val(m, tag_i(), w_i(w))) && (!w_arc(w) && !has_i(w) ==> !tag_in(m, tag_i()))
        && (w.o.m_bodySignLength ==> has_val(m, tag_l(), w_l(w))) && (!w.o.m_bodySignLength ==> !tag_in(m, tag_l())) })
{ hide(s_x); lemma_keys(); lemma_vals_1(w); }
pub proof fn thm_vals(w: Wr)
    ensures ({ let m = w_tags(w); has_val(m, tag_a(), w_alg(w)) && has_val(m, tag_c(), w_c(w)) && (w_arc(w) ==> has_val(m, tag_i(), dec_str(w.o.m_arcInstance))) && (!w_arc(w) ==> has_val(m, tag_v(), one1()))
        && (w.o.m_expirationSign ==> has_val(m, tag_x(), w_x(w))) && (!w.o.m_expirationSign ==> !tag_in(m, tag_x())) && !tag_in(m, tag_q())
        && has_val(m, tag_d(), w.s.m_domain) && has_val(m, tag_s(), w.s.m_selector) && (has_i(w) ==> has_val(m, tag_i(), w_i(w))) && (!w_arc(w) && !has_i(w) ==> !tag_in(m, tag_i()))
        && (w.o.m_bodySignLength ==> has_val(m, tag_l(), w_l(w))) && (!w.o.m_bodySignLength ==> !tag_in(m, tag_l()))
        && has_val(m, tag_h(), w_h(w)) && has_val(m, tag_bh(), b64_enc(w.bh)) && has_val(m, tag_b(), w.bv) })
{ hide(s_l); lemma_keys(); lemma_vals_2(w); }
/// domain of an identity
pub open spec fn mail_domain(v: Seq<u8>) -> Seq<u8> { lower_seq(v.subrange(idx_from(v, 64u8, 0) + 1, v.len() as int)) }
/// a field that a verifier at time `now` accepts as well formed
pub open spec fn rt_ok(w: Wr, now: int) -> bool {
    &&& wr_ok(w) && !(w.s.m_signatureAlgorithm == 1 && w.o.m_digestAlgorithm == 0) && lists_from(w.ns, w.ns.len() as int)
    &&& has_i(w) ==> idx_from(w.o.m_identity, 64u8, 0) < w.o.m_identity.len() && within(mail_domain(w.o.m_identity), lower_seq(w.s.m_domain))
    &&& w.o.m_arcInstance <= 50
    &&& w.o.m_bodySignLength ==> w.o.m_bodyLength <= 0x7fff_ffff_ffff_ffff
    &&& w.o.m_expirationSign ==> now <= sign_exp(w.o, w.now) <= 0x7fff_ffff_ffff_ffff && 0 <= sign_exp(w.o, w.now)
}
pub proof fn lemma_alg(sa: int, da: int) requires 0 <= sa <= 1, 0 <= da <= 1, !(sa == 1 && da == 0)
    ensures a_ok(alg_str(sa, da)), (alg_str(sa, da) =~= rsa_sha1()) == (da == 0), (alg_str(sa, da) =~= ed25519_sha256()) == (sa == 1)
{
    let a = alg_str(sa, da);
    if sa == 1 { assert(a =~= ed25519_sha256()); assert(a[0] == 101); assert(rsa_sha1()[0] == 114); } else if da == 0 { assert(a =~= rsa_sha1()); assert(a[0] == 114 && ed25519_sha256()[0] == 101); } else { assert(a =~= rsa_sha256()); assert(a[0] == 114 && a.len() == 10 && rsa_sha1().len() == 8 && ed25519_sha256()[0] == 101); }
}
pub proof fn lemma_idx_none(s: Seq<u8>, c: u8, p: int, e: int) requires 0 <= p <= e <= s.len(), forall|i: int| p <= i < e ==> #[trigger] s[i] != c ensures idx_from(s, c, p) == idx_from(s, c, e) decreases e - p { if p < e { lemma_idx_none(s, c, p + 1, e); } }
pub proof fn lemma_mode(h: int, b: int) requires 0 <= h <= 1, 0 <= b <= 1
    ensures ({ let c = mode_str(h) + sl_slash() + mode_str(b); c_head(c) == mode_str(h) && c_body(c) == mode_str(b) && !c_bad(c) && (mode_str(h) =~= s_relaxed()) == (h == 1) && (mode_str(b) =~= s_relaxed()) == (b == 1) })
{
    let x = mode_str(h); let y = mode_str(b); let c = x + sl_slash() + y; let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] c[i] != 47 by { assert(c[i] == x[i]); }
    lemma_idx_none(c, 47u8, 0, n); assert(c[n] == 47); assert(idx_from(c, 47u8, n) == n);
    assert(c.subrange(0, n) =~= x); assert(c.subrange(n + 1, c.len() as int) =~= y); assert(s_relaxed().len() == 7 && s_simple().len() == 6);
}
pub open spec fn w_sig(w: Wr) -> DKIM_Signature { sig_of(sig_new(), w_tags(w), w_arc(w)) }
pub proof fn thm_sig_ok(w: Wr, now: int) requires rt_ok(w, now) ensures !sig_bad(w_tags(w), w_arc(w), now)
{
    hide(w_tags); let m = w_tags(w); thm_vals(w); lemma_alg(w.s.m_signatureAlgorithm, w.o.m_digestAlgorithm); lemma_mode(w.o.m_canonHead, w.o.m_canonBody); thm_names(w.ns);
    if has_i(w) { thm_qp_inverse(w.o.m_identity); assert(!i_bad(w_i(w), lower_seq(w.s.m_domain))); }
    if w_arc(w) { lemma_dec_read(w.o.m_arcInstance); }
    if w.o.m_bodySignLength { lemma_dec_read(w.o.m_bodyLength); }
    if w.o.m_expirationSign { lemma_dec_read(sign_exp(w.o, w.now)); }
    assert(!sig_bad05(m, w_arc(w))); assert(!sig_bad06(m, w_arc(w))); assert(!sig_bad07(m, w_arc(w), now));
}
pub proof fn thm_sig_is(w: Wr, now: int) requires rt_ok(w, now)
    ensures ({ let s = w_sig(w); s.m_digestAlgorithm == w.o.m_digestAlgorithm && s.m_signatureAlgorithm == w.s.m_signatureAlgorithm && s.m_header == w.o.m_canonHead && s.m_body == w.o.m_canonBody && s.m_headers == w.ns && s.m_bh == w.bh && s.m_b == b64_dec(str_without_space(w.bv))
        && s.m_domain == lower_seq(w.s.m_domain) && s.m_selector == w.s.m_selector && s.m_bodySizeLimit == w.o.m_bodySignLength && (w.o.m_bodySignLength ==> s.m_bodySize == w.o.m_bodyLength) && s.m_arc == w_arc(w) && s.m_tagList.m_tags == w_tags(w)
        && (!w_arc(w) ==> s.m_mailDomain == (if has_i(w) { mail_domain(w.o.m_identity) } else { lower_seq(w.s.m_domain) })) })
{
    hide(w_tags); let m = w_tags(w); thm_vals(w); lemma_alg(w.s.m_signatureAlgorithm, w.o.m_digestAlgorithm); lemma_mode(w.o.m_canonHead, w.o.m_canonBody); thm_names(w.ns);
    if has_i(w) { thm_qp_inverse(w.o.m_identity); }
    if w.o.m_bodySignLength { lemma_dec_read(w.o.m_bodyLength); }
    let e = b64_enc(w.bh); thm_b64_inverse(w.bh); assert forall|i: int| 0 <= i < e.len() implies !is_space_byte(#[trigger] e[i]) by { assert(b64_char(e[i])); } lemma_sws_same(e);
}
