// ---------------------------------------------------------------------------------------------
// C13: signing
// ---------------------------------------------------------------------------------------------
pub open spec fn sl_arc() -> Seq<u8> { seq![65u8, 82u8, 67u8, 45u8, 77u8, 101u8, 115u8, 115u8, 97u8, 103u8, 101u8, 45u8, 83u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8, 58u8, 32u8, 105u8, 61u8] } // 'ARC-Message-Signature: i='
pub open spec fn sl_dkim() -> Seq<u8> { seq![68u8, 75u8, 73u8, 77u8, 45u8, 83u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8, 58u8, 32u8, 118u8, 61u8, 49u8, 59u8, 32u8, 97u8, 61u8] } // 'DKIM-Signature: v=1; a='
pub open spec fn sl_a() -> Seq<u8> { seq![59u8, 32u8, 97u8, 61u8] } // '; a='
pub open spec fn sl_c() -> Seq<u8> { seq![59u8, 32u8, 99u8, 61u8] } // '; c='
pub open spec fn sl_t() -> Seq<u8> { seq![32u8, 116u8, 61u8] } // ' t='
pub open spec fn sl_x() -> Seq<u8> { seq![32u8, 120u8, 61u8] } // ' x='
pub open spec fn sl_l() -> Seq<u8> { seq![59u8, 32u8, 108u8, 61u8] } // '; l='
pub open spec fn sl_i() -> Seq<u8> { seq![59u8, 32u8, 105u8, 61u8] } // '; i='
pub open spec fn sl_d() -> Seq<u8> { seq![9u8, 100u8, 61u8] } // '\td='
pub open spec fn sl_s() -> Seq<u8> { seq![59u8, 32u8, 115u8, 61u8] } // '; s='
pub open spec fn sl_end() -> Seq<u8> { seq![59u8, 13u8, 10u8] } // ';\r\n'
pub open spec fn sl_h() -> Seq<u8> { seq![9u8, 104u8, 61u8] } // '\th='
pub open spec fn sl_bh() -> Seq<u8> { seq![9u8, 98u8, 104u8, 61u8] } // '\tbh='
pub open spec fn sl_b() -> Seq<u8> { seq![9u8, 98u8, 61u8] } // '\tb='
pub open spec fn sl_rsa() -> Seq<u8> { seq![114u8, 115u8, 97u8] } // 'rsa'
pub open spec fn sl_ed() -> Seq<u8> { seq![101u8, 100u8, 50u8, 53u8, 53u8, 49u8, 57u8] } // 'ed25519'
pub open spec fn sl_sha1() -> Seq<u8> { seq![115u8, 104u8, 97u8, 49u8] } // 'sha1'
pub open spec fn sl_sha256() -> Seq<u8> { seq![115u8, 104u8, 97u8, 50u8, 53u8, 54u8] } // 'sha256'
pub open spec fn sl_cont() -> Seq<u8> { seq![13u8, 10u8, 9u8, 32u8] } // '\r\n\t '
pub open spec fn sl_tabsp() -> Seq<u8> { seq![9u8, 32u8] } // '\t '
pub open spec fn sl_slash() -> Seq<u8> { seq![47u8] }
pub open spec fn sl_semi() -> Seq<u8> { seq![59u8] }
pub open spec fn sl_colon() -> Seq<u8> { seq![58u8] }
pub open spec fn opts_enum(o: DKIM_SignatoryOptions) -> bool { forall|i: int| 0 <= i < o.m_signatures.len() ==> 0 <= #[trigger] o.m_signatures[i].m_signatureAlgorithm <= 1 }
pub open spec fn sgn_wf(v: DKIM_Signatory) -> bool { ss_wf(v.m_file) && msg_wf(v.m_msg) && (v.m_msg.m_bodyOffset == -1 || 0 <= v.m_msg.m_bodyOffset <= v.m_file.d.len()) && (!v.m_msg.m_done ==> v.m_msg.m_bodyOffset == 0 && !v.m_file.fail) }
/// the message a signer works on: read now, or by an earlier call
pub open spec fn sgn_msg(v: DKIM_Signatory) -> DKIM_Message { if v.m_msg.m_done { v.m_msg } else { msg_run(v.m_msg, v.m_file) } }
/// the names asked for, lower-cased
pub open spec fn want_set(ns: Seq<Seq<u8>>, n: int) -> Set<Seq<u8>> decreases n { if n <= 0 || n > ns.len() { Set::<Seq<u8>>::empty() } else { want_set(ns, n - 1).insert(lower_seq(ns[n - 1])) } }
pub proof fn lemma_want(ns: Seq<Seq<u8>>, n: int) requires 0 <= n <= ns.len() ensures n > 0 ==> want_set(ns, n).contains(lower_seq(ns[0])), n == 0 ==> want_set(ns, n) =~= Set::<Seq<u8>>::empty() decreases n { if n > 1 { lemma_want(ns, n - 1); } }
pub proof fn lemma_want_empty(ns: Seq<Seq<u8>>) ensures want_set(ns, ns.len() as int) =~= Set::<Seq<u8>>::empty() <==> ns.len() == 0 { lemma_want(ns, ns.len() as int); }
/// the field is to be signed: it is named, and its name is asked for (or no names are asked for)
pub open spec fn picked(h: DKIM_Header, want: Seq<Seq<u8>>) -> bool { h.m_name.len() > 0 && (want.len() == 0 || want_set(want, want.len() as int).contains(lower_seq(h.m_name))) }
/// names, text and refusal of the signed fields from the last one down to number n
pub open spec fn sign_names(hs: Seq<Option<DKIM_Header>>, want: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases hs.len() - n {
    if n < 0 || n >= hs.len() { Seq::<Seq<u8>>::empty() } else if picked(hs[n]->0, want) { sign_names(hs, want, n + 1).push(lower_seq(hs[n]->0.m_name)) } else { sign_names(hs, want, n + 1) }
}
pub open spec fn sign_text(hs: Seq<Option<DKIM_Header>>, want: Seq<Seq<u8>>, mode: int, n: int) -> Seq<u8> decreases hs.len() - n {
    if n < 0 || n >= hs.len() { Seq::<u8>::empty() } else if picked(hs[n]->0, want) { sign_text(hs, want, mode, n + 1) + (canon_head(mode, hs[n]->0.m_header).t + crlf()) } else { sign_text(hs, want, mode, n + 1) }
}
pub open spec fn sign_text_bad(hs: Seq<Option<DKIM_Header>>, want: Seq<Seq<u8>>, mode: int, n: int) -> bool decreases hs.len() - n {
    0 <= n < hs.len() && (sign_text_bad(hs, want, mode, n + 1) || (picked(hs[n]->0, want) && canon_head(mode, hs[n]->0.m_header).bad))
}
pub proof fn lemma_sign_text_bad(hs: Seq<Option<DKIM_Header>>, want: Seq<Seq<u8>>, mode: int, n: int, k: int) requires 0 <= k <= n, sign_text_bad(hs, want, mode, n) ensures sign_text_bad(hs, want, mode, k) decreases n - k { if k < n { lemma_sign_text_bad(hs, want, mode, n, k + 1); } }
/// the first n texts lower-cased, the others as they are
pub open spec fn lower_first(l: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| if i < n { lower_seq(l[i]) } else { l[i] }) }
pub open spec fn lower_all(l: Seq<Seq<u8>>) -> Seq<Seq<u8>> { lower_first(l, l.len() as int) }
/// names in h=
pub open spec fn h_names(hs: Seq<Option<DKIM_Header>>, o: DKIM_SignatoryOptions) -> Seq<Seq<u8>> { sign_names(hs, o.m_headers, 0) + lower_all(o.m_oversignheaders) }
pub open spec fn alg_str(sa: int, da: int) -> Seq<u8> { (if sa == 0 { sl_rsa() } else { sl_ed() }) + seq![45u8] + (if da == 0 { sl_sha1() } else { sl_sha256() }) }
pub open spec fn mode_str(m: int) -> Seq<u8> { if m == 0 { s_simple() } else { s_relaxed() } }
pub open spec fn sign_ts(o: DKIM_SignatoryOptions, now: int) -> int { if o.m_timestampSign { if o.m_timestamp == -1 { now } else { o.m_timestamp } } else { -1 } }
pub open spec fn sign_exp(o: DKIM_SignatoryOptions, now: int) -> int { (if o.m_expirationAbsolute { 0 } else if sign_ts(o, now) == -1 { now } else { sign_ts(o, now) }) + o.m_expiration }
/// lines of h=: folded so that they stay within 80 characters
pub struct HList { pub done: Seq<u8>, pub line: Seq<u8> }
pub open spec fn h_list(ns: Seq<Seq<u8>>, n: int) -> HList decreases n {
    if n <= 0 || n > ns.len() { HList { done: Seq::<u8>::empty(), line: sl_h() } }
    else {
        let p = h_list(ns, n - 1); let i = ns[n - 1]; let colon = if n > 1 { sl_colon() } else { Seq::<u8>::empty() };
        if p.line.len() + i.len() + colon.len() > 80 { HList { done: p.done + (p.line + colon + crlf()), line: sl_tabsp() + i } } else { HList { done: p.done, line: p.line + (colon + i) } }
    }
}
/// first part: name and the tags v (or i), a, c
pub open spec fn sign_head1(o: DKIM_SignatoryOptions, s: DKIM_AdditionalSignaturesOptions) -> Seq<u8> {
    if o.m_arcInstance != 0 { sl_arc() + dec_str(o.m_arcInstance) + sl_a() + alg_str(s.m_signatureAlgorithm, o.m_digestAlgorithm) + sl_c() + mode_str(o.m_canonHead) + sl_slash() + mode_str(o.m_canonBody) + sl_semi() }
    else { sl_dkim() + alg_str(s.m_signatureAlgorithm, o.m_digestAlgorithm) + sl_c() + mode_str(o.m_canonHead) + sl_slash() + mode_str(o.m_canonBody) + sl_semi() }
}
pub open spec fn sign_head2(o: DKIM_SignatoryOptions, now: int) -> Seq<u8> { if o.m_timestampSign { sl_t() + dec_str(cast_u64(sign_ts(o, now))) + sl_semi() } else { Seq::<u8>::empty() } }
pub open spec fn sign_head3(o: DKIM_SignatoryOptions, now: int) -> Seq<u8> { if o.m_expirationSign { sl_x() + dec_str(cast_u64(sign_exp(o, now))) + sl_semi() } else { Seq::<u8>::empty() } }
pub open spec fn sign_ident(o: DKIM_SignatoryOptions) -> Seq<u8> { if o.m_arcInstance == 0 && o.m_identity.len() > 0 { sl_i() + qp_enc(o.m_identity, o.m_identity.len() as int) } else { Seq::<u8>::empty() } }
pub open spec fn sign_limit(o: DKIM_SignatoryOptions) -> Seq<u8> { if o.m_bodySignLength { sl_l() + dec_str(o.m_bodyLength) } else { Seq::<u8>::empty() } }
pub open spec fn sign_head4(o: DKIM_SignatoryOptions, s: DKIM_AdditionalSignaturesOptions) -> Seq<u8> { sl_d() + s.m_domain + sl_s() + s.m_selector + sign_ident(o) + sign_limit(o) + sl_end() }
pub open spec fn sign_headA(o: DKIM_SignatoryOptions, s: DKIM_AdditionalSignaturesOptions, now: int) -> Seq<u8> { sign_head1(o, s) + sign_head2(o, now) + sign_head3(o, now) + crlf() + sign_head4(o, s) }
pub proof fn lemma_qp_cstr(s: Seq<u8>) ensures cstr(qp_enc(s, s.len() as int)) == qp_enc(s, s.len() as int) {
    let e = qp_enc(s, s.len() as int); lemma_qp_roundtrip(s, s.len() as int, Seq::<u8>::empty());
    assert(no_nul(e)) by { assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 0 by { assert(0x21 <= e[i]); } }
    lemma_cstr(e);
}
/// the new field up to and including b=
pub open spec fn sign_head(o: DKIM_SignatoryOptions, s: DKIM_AdditionalSignaturesOptions, ns: Seq<Seq<u8>>, bh: Seq<u8>, now: int) -> Seq<u8> {
    sign_headA(o, s, now) + h_list(ns, ns.len() as int).done + (h_list(ns, ns.len() as int).line + sl_end()) + (sl_bh() + b64_enc(bh) + sl_end()) + sl_b()
}
/// the signature text in lines of 80 characters, of which the first k go on the current line
pub open spec fn sign_lines(t: Seq<u8>, k: int) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { t } else if k <= 0 || t.len() <= k { t } else { t.subrange(0, k) + sl_cont() + sign_lines(t.subrange(k, t.len() as int), 78) }
}
/// what the digests are taken of
pub struct Signing { pub o: DKIM_SignatoryOptions, pub hs: Seq<Option<DKIM_Header>>, pub body: Seq<u8>, pub now: int }
pub open spec fn sgn_body(v: DKIM_Signatory, o: DKIM_SignatoryOptions) -> Seq<u8> { canon_body(v.m_file.d, sgn_msg(v).m_bodyOffset, o.m_canonBody == 1) }
pub open spec fn signing(v: DKIM_Signatory, o: DKIM_SignatoryOptions, now: int) -> Signing { Signing { o: o, hs: sgn_msg(v).m_header, body: cut(sgn_body(v, o), o.m_bodySignLength, o.m_bodyLength), now: now } }
pub open spec fn g_nid(g: Signing) -> int { nid_of(g.o.m_digestAlgorithm) }
pub open spec fn g_head(g: Signing, k: int) -> Seq<u8> { sign_head(g.o, g.o.m_signatures[k], h_names(g.hs, g.o), digest(g_nid(g), g.body), g.now) }
pub open spec fn g_text(g: Signing, k: int) -> Seq<u8> { sign_text(g.hs, g.o.m_headers, g.o.m_canonHead, 0) + canon_head(g.o.m_canonHead, g_head(g, k)).t }
pub open spec fn g_digest(g: Signing, k: int) -> Seq<u8> { digest(g_nid(g), g_text(g, k)) }
/// the raw signature
pub open spec fn g_sig(g: Signing, k: int) -> Seq<u8> { let s = g.o.m_signatures[k]; if s.m_signatureAlgorithm == 0 { rsa_sign(s.m_privateKeyRSA, g_nid(g), g_digest(g, k)) } else { ed25519_sign(s.m_privateKeyED25519, g_digest(g, k)) } }
pub open spec fn g_key_bad(g: Signing, k: int) -> bool {
    let s = g.o.m_signatures[k];
    if s.m_signatureAlgorithm == 0 { s.m_privateKeyRSA == 0 || !rsa_sign_ok(s.m_privateKeyRSA, g_nid(g), g_digest(g, k)) } else { s.m_privateKeyED25519.len() != 64 || !ed25519_sign_ok(s.m_privateKeyED25519, g_digest(g, k)) }
}
/// signature field number k
pub open spec fn g_field(g: Signing, k: int) -> Seq<u8> { g_head(g, k) + sign_lines(b64_enc(g_sig(g, k)), 77) }
/// the last n signature fields, last first, joined by CRLF
pub open spec fn g_fields(g: Signing, n: int) -> Seq<u8> decreases n {
    if n <= 0 || n > g.o.m_signatures.len() { Seq::<u8>::empty() } else { let p = g_fields(g, n - 1); let f = g_field(g, g.o.m_signatures.len() - n); if p.len() > 0 { p + crlf() + f } else { p + f } }
}
pub open spec fn g_bad(g: Signing, n: int) -> bool decreases n {
    n > 0 && n <= g.o.m_signatures.len() && (g_bad(g, n - 1) || canon_head(g.o.m_canonHead, g_head(g, g.o.m_signatures.len() - n)).bad || g_key_bad(g, g.o.m_signatures.len() - n))
}
pub proof fn lemma_g_bad(g: Signing, k: int, n: int) requires 0 <= k <= n <= g.o.m_signatures.len(), g_bad(g, k) ensures g_bad(g, n) decreases n { if k < n { lemma_g_bad(g, k, n - 1); } }
pub open spec fn sign_bad(v: DKIM_Signatory, o: DKIM_SignatoryOptions, now: int) -> bool {
    let g = signing(v, o, now);
    (o.m_bodySignLength && o.m_bodyLength > sgn_body(v, o).len()) || sign_text_bad(g.hs, o.m_headers, o.m_canonHead, 0) || g_bad(g, o.m_signatures.len() as int)
}
