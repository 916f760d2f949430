// ---- signing, then verifying
/// what field number k of a signing run is written from
pub open spec fn g_wr(g: Signing, k: int) -> Wr { Wr { o: g.o, s: g.o.m_signatures[k], ns: h_names(g.hs, g.o), bh: digest(g_nid(g), g.body), now: g.now, bv: sign_lines(b64_enc(g_sig(g, k)), 77) } }
pub open spec fn g_own(g: Signing) -> Seq<u8> { if g.o.m_arcInstance != 0 { arc_sig_lit() } else { s_dkim_sig() } }
/// what a signing run must satisfy so that a verifier at time `now` takes field number k for well formed
pub open spec fn g_fit(g: Signing, k: int, now: int) -> bool {
    let s = g.o.m_signatures[k]; let o = g.o; let ns = h_names(g.hs, g.o);
    &&& ns.len() > 0 && ord_names(ns) && lists_from(ns, ns.len() as int)
    &&& token(s.m_domain) && token(s.m_selector)
    &&& 0 <= s.m_signatureAlgorithm <= 1 && 0 <= o.m_digestAlgorithm <= 1 && 0 <= o.m_canonHead <= 1 && 0 <= o.m_canonBody <= 1 && !(s.m_signatureAlgorithm == 1 && o.m_digestAlgorithm == 0)
    &&& 0 <= o.m_arcInstance <= 50
    &&& o.m_arcInstance == 0 && o.m_identity.len() > 0 ==> idx_from(o.m_identity, 64u8, 0) < o.m_identity.len() && within(mail_domain(o.m_identity), lower_seq(s.m_domain))
    &&& 0 <= o.m_bodyLength <= NPOS() && (o.m_bodySignLength ==> o.m_bodyLength <= 0x7fff_ffff_ffff_ffff)
    &&& o.m_expirationSign ==> now <= sign_exp(o, g.now) <= 0x7fff_ffff_ffff_ffff && 0 <= sign_exp(o, g.now)
    &&& over_ok(o, g_own(g))
}
/// the digests and signatures of the crypto library are not empty
pub open spec fn g_crypto(g: Signing) -> bool {
    &&& digest(g_nid(g), g.body).len() > 0
    &&& forall|k: int| 0 <= k < g.o.m_signatures.len() ==> (#[trigger] g_sig(g, k)).len() > 0
}
pub open spec fn g_all_fit(g: Signing, now: int) -> bool { g_crypto(g) && forall|k: int| 0 <= k < g.o.m_signatures.len() ==> #[trigger] g_fit(g, k, now) }
pub proof fn lemma_g_wr(g: Signing, k: int, now: int)
    requires 0 <= k < g.o.m_signatures.len(), g_all_fit(g, now)
    ensures rt_ok(g_wr(g, k), now), w_field(g_wr(g, k)) == g_field(g, k), g_head(g, k) + g_wr(g, k).bv == g_field(g, k)
{
    let w = g_wr(g, k); let t = b64_enc(g_sig(g, k)); assert(g_fit(g, k, now));
    thm_b64_inverse(g_sig(g, k)); lemma_b64_text(g_sig(g, k)); lemma_sign_lines(t, 77); lemma_lines_lf(t, 77);
    thm_text(w);
}
/// a run that was not refused has no field that was
pub proof fn lemma_g_none(g: Signing, n: int, k: int)
    requires 0 <= n <= g.o.m_signatures.len(), g.o.m_signatures.len() - n <= k < g.o.m_signatures.len(), !g_bad(g, n)
    ensures !canon_head(g.o.m_canonHead, g_head(g, k)).bad, !g_key_bad(g, k)
    decreases n
{ if n > 0 && k != g.o.m_signatures.len() - n { lemma_g_none(g, n - 1, k); } }
// ---- the message with the fields in front
pub open spec fn fresh_scan(d: Seq<u8>) -> MsgScan { msg_scan(d, 0, Seq::<Option<DKIM_Header>>::empty(), None) }
pub open spec fn g_pre(g: Signing, n: int) -> Seq<Option<DKIM_Header>> { Seq::new(n as nat, |i: int| Some(hdr_of(g_field(g, g.o.m_signatures.len() - 1 - i)))) }
pub open spec fn g_front(g: Signing, n: int, d: Seq<u8>) -> Seq<u8> { if n <= 0 { d } else { g_fields(g, n) + crlf() + d } }
pub open spec fn g_shapes(g: Signing) -> bool { forall|k: int| 0 <= k < g.o.m_signatures.len() ==> field_shape(#[trigger] g_field(g, k)) }
pub proof fn lemma_front(g: Signing, n: int, d: Seq<u8>)
    requires 0 <= n <= g.o.m_signatures.len(), g_shapes(g), d.len() > 0, !is_blank(d[0])
    ensures ({ let x = g_front(g, n, d); let m = fresh_scan(d); let y = fresh_scan(x); y.hs =~= g_pre(g, n) + m.hs && y.body == shifted(x.len() - d.len(), m.body) && (exists|a: Seq<u8>| x == #[trigger] (a + d)) })
    decreases n
{
    let x = g_front(g, n, d); let m = fresh_scan(d);
    if n == 0 { assert(x =~= nil() + d); assert(x == nil() + d); assert(g_pre(g, 0) + m.hs =~= m.hs); }
    else {
        let f = g_field(g, g.o.m_signatures.len() - n); assert(field_shape(f)); let d1 = f + crlf() + d; assert(d1[0] == f[0]);
        lemma_scan_front(f, d); lemma_front(g, n - 1, d1);
        let p = g_fields(g, n - 1);
        if n > 1 { lemma_g_fields_some(g, n - 1); assert(p + crlf() + d1 =~= p + crlf() + f + crlf() + d); assert(x == g_front(g, n - 1, d1)); } else { assert(p + f =~= f); assert(x =~= d1); assert(x == g_front(g, 0, d1)); }
        let y1 = fresh_scan(d1); assert(y1.hs == seq![Some(hdr_of(f))] + m.hs); assert(y1.body == shifted(f.len() as int + 2, m.body)); assert(fresh_scan(x).hs == g_pre(g, n - 1) + y1.hs); assert(fresh_scan(x).body == shifted(x.len() - d1.len(), y1.body));
        let h: Option<DKIM_Header> = Some(hdr_of(f));
        assert(g_pre(g, n) + m.hs =~= g_pre(g, n - 1) + (seq![h] + m.hs));
        lemma_scan_body(d, 0, Seq::<Option<DKIM_Header>>::empty(), None); assert(x == (g_fields(g, n) + crlf()) + d); let a = g_fields(g, n) + crlf(); assert(x == a + d);
    }
}
pub proof fn lemma_g_fields_some(g: Signing, n: int)
    requires 1 <= n <= g.o.m_signatures.len(), g_shapes(g)
    ensures g_fields(g, n).len() > 0
{ assert(field_shape(g_field(g, g.o.m_signatures.len() - n))); }
pub proof fn lemma_scan_body(d: Seq<u8>, p: int, hs: Seq<Option<DKIM_Header>>, cur: Option<DKIM_Header>)
    requires 0 <= p <= d.len() + 1
    ensures -1 <= msg_scan(d, p, hs, cur).body <= d.len()
    decreases d.len() - p + 1
{
    if p < d.len() {
        lemma_idx_from(d, 10u8, p); let e = idx_from(d, 10u8, p); let line = without_cr(d.subrange(p, e));
        if line.len() == 0 {} else if is_blank(line[0]) { lemma_scan_body(d, e + 1, hs, Some(hdr_of(add_line(if cur is Some { cur->0.m_header } else { Seq::<u8>::empty() }, line)))); } else { lemma_scan_body(d, e + 1, flush(hs, cur), Some(hdr_of(line))); }
    }
}
/// the signature fields of the message start with the new ones
pub proof fn lemma_sig_front(pre: Seq<Option<DKIM_Header>>, hs: Seq<Option<DKIM_Header>>, ty: int, n: int)
    requires 0 <= n <= pre.len() + hs.len(), forall|i: int| 0 <= i < pre.len() ==> is_sig_field((#[trigger] pre[i])->0, ty)
    ensures ({ let fs = sig_fields(pre + hs, ty, n); let m = if n < pre.len() { n } else { pre.len() as int }; fs.len() >= m && fs.subrange(0, m) =~= pre.subrange(0, m) && (n <= pre.len() ==> fs.len() == n) })
    decreases n
{ if n > 0 { lemma_sig_front(pre, hs, ty, n - 1); let all = pre + hs; let q = sig_fields(all, ty, n - 1); let fs = sig_fields(all, ty, n); let m = if n < pre.len() { n } else { pre.len() as int };
    let k = if n - 1 < pre.len() { n - 1 } else { pre.len() as int };
    assert forall|i: int| 0 <= i < k implies q[i] == pre[i] by { assert(q.subrange(0, k)[i] == pre.subrange(0, k)[i]); }
    if n <= pre.len() { assert(all[n - 1] == pre[n - 1]); assert(fs == q.push(all[n - 1])); } } }
/// a key that belongs to private key number k and permits its use
pub open spec fn key_pair(g: Signing, k: int, key: DKIM_PublicKey) -> bool {
    let s = g.o.m_signatures[k]; let m = g_digest(g, k); let x = g_sig(g, k);
    &&& key.m_digestAlgorithms.len() == 0 || key.m_digestAlgorithms.contains(g.o.m_digestAlgorithm)
    &&& key.m_signatureAlgorithm == s.m_signatureAlgorithm
    &&& g.o.m_arcInstance != 0 || !key.m_flags.contains(flag_s()) || g.o.m_identity.len() == 0 || mail_domain(g.o.m_identity) =~= lower_seq(s.m_domain)
    &&& if s.m_signatureAlgorithm == 0 { rsa_verify(key.m_publicKeyRSA, g_nid(g), m, x) } else { x.len() == 64 && ed25519_verify(key.m_publicKeyED25519, m, x) }
}
/// field number k verifies when hs are the fields of the message that was signed and come after fields `pre` of the signature's own kind
pub proof fn thm_field_valid(g: Signing, k: int, pre: Seq<Option<DKIM_Header>>, key: DKIM_PublicKey, now: int)
    requires 0 <= k < g.o.m_signatures.len(), g_all_fit(g, now), !g_bad(g, g.o.m_signatures.len() as int), !sign_text_bad(g.hs, g.o.m_headers, g.o.m_canonHead, 0), key_pair(g, k, key),
        forall|i: int| 0 <= i < pre.len() ==> lower_seq((#[trigger] pre[i])->0.m_name) == g_own(g)
    ensures sig_valid(pre + g.hs, w_sig(g_wr(g, k)), key, hdr_of(g_field(g, k)))
{
    hide(w_tags); hide(r_v); hide(sign_head); hide(wr_ok);
    let w = g_wr(g, k); let s = w_sig(w); let f = g_field(g, k); let head = g_head(g, k); let t = b64_enc(g_sig(g, k));
    lemma_g_wr(g, k, now); lemma_g_none(g, g.o.m_signatures.len() as int, k); assert(g_fit(g, k, now));
    assert(wr_ok(w));
    thm_own_field(w, head); thm_sig_is(w, now); lemma_same_fields(pre, g.hs, g.o, g_own(g));
    thm_b64_inverse(g_sig(g, k)); lemma_sign_lines(t, 77); assert(s.m_b == g_sig(g, k));
    assert(own_field(s, hdr_of(f)) == head);
    assert(signed_text(pre + g.hs, s, hdr_of(f)) == g_text(g, k));
}
/// C14
pub open spec fn signed_message(v: DKIM_Signatory, o: DKIM_SignatoryOptions, now: int) -> Seq<u8> { g_fields(signing(v, o, now), o.m_signatures.len() as int) + crlf() + v.m_file.d }
/// a signer whose message is (or will be) read from the start of its text
pub open spec fn sgn_reads(v: DKIM_Signatory) -> bool { sgn_wf(v) && sgn_msg(v).m_header == fresh_scan(v.m_file.d).hs && sgn_msg(v).m_bodyOffset == fresh_scan(v.m_file.d).body }
pub open spec fn sig_kind(o: DKIM_SignatoryOptions) -> int { if o.m_arcInstance != 0 { 1 } else { 0 } }
pub proof fn thm_round_trip(v: DKIM_Signatory, o: DKIM_SignatoryOptions, now1: int, now2: int, x: DKIM_Validatory, k: int, key: DKIM_PublicKey)
    requires
        // the message starts with a field; the signer reads it from its start and does not refuse it
        v.m_file.d.len() > 0, !is_blank(v.m_file.d[0]), sgn_reads(v), !sign_bad(v, o, now1), g_all_fit(signing(v, o, now1), now2), 0 <= k < o.m_signatures.len(),
        // the verifier reads the new fields, CRLF and the message, as the constructor of Validatory does
        x.m_file.d == signed_message(v, o, now1), x.m_msg.m_header == fresh_scan(x.m_file.d).hs, x.m_msg.m_bodyOffset == fresh_scan(x.m_file.d).body, x.m_dkimHeaders == sig_fields(x.m_msg.m_header, sig_kind(o), x.m_msg.m_header.len() as int),
        key_pair(signing(v, o, now1), k, key)
    ensures ({
        let g = signing(v, o, now1); let j = o.m_signatures.len() - 1 - k; let h = x.m_dkimHeaders[j]->0; let t = sig_tags(h, Map::<Seq<u8>, DKIM_TagListEntry>::empty()); let a = sig_arc(h, false); let s = sig_of(sig_new(), t.tags, a);
        &&& j < x.m_dkimHeaders.len() && x.m_dkimHeaders[j] is Some && h.m_header == g_field(g, k)
        // GetSignature (or Signature::Parse and CheckBodyHash) does not throw, and neither does CheckSignature
        &&& !t.bad && !sig_bad(t.tags, a, now2) && body_ok(x, s) && sig_valid(x.m_msg.m_header, s, key, h)
        &&& s.m_domain == lower_seq(o.m_signatures[k].m_domain) && s.m_selector == o.m_signatures[k].m_selector
    })
{
    hide(w_tags); hide(r_v); hide(sign_head); hide(wr_ok); hide(sig_bad); hide(sig_of); hide(canon_body);
    let g = signing(v, o, now1); let n = o.m_signatures.len() as int; let d = v.m_file.d; let d2 = x.m_file.d; let m = fresh_scan(d); let y = fresh_scan(d2); let w = g_wr(g, k); let f = g_field(g, k); let j = n - 1 - k; let pre = g_pre(g, n);
    assert forall|i: int| 0 <= i < n implies field_shape(#[trigger] g_field(g, i)) && lower_seq(hdr_of(g_field(g, i)).m_name) == g_own(g) by { lemma_g_wr(g, i, now2); assert(wr_ok(g_wr(g, i))) by { reveal(wr_ok); } thm_field(g_wr(g, i)); lemma_own_name(g.o); }
    assert(g_shapes(g));
    lemma_front(g, n, d); assert(d2 == g_front(g, n, d)); assert(y.hs == pre + g.hs);
    assert forall|i: int| 0 <= i < n implies lower_seq((#[trigger] pre[i])->0.m_name) == g_own(g) by { assert(pre[i] == Some(hdr_of(g_field(g, n - 1 - i)))); }
    lemma_sig_front(pre, g.hs, sig_kind(o), y.hs.len() as int);
    assert(pre.subrange(0, n) =~= pre); let fs = x.m_dkimHeaders; assert(fs.subrange(0, n)[j] == pre[j]); assert(fs[j] == pre[j]); assert(pre[j] == Some(hdr_of(g_field(g, k))));
    lemma_g_wr(g, k, now2); assert(wr_ok(w)) by { reveal(wr_ok); } thm_field(w); thm_read(w); lemma_own_name(g.o); thm_sig_ok(w, now2); thm_sig_is(w, now2); 
    let h = hdr_of(f); 
    assert(sig_arc(h, false) == w_arc(w));
    assert(sig_tags(h, Map::<Seq<u8>, DKIM_TagListEntry>::empty()).tags == w_tags(w));
    let s = w_sig(w);
    thm_field_valid(g, k, pre, key, now2);
    // the body
    lemma_scan_body(d, 0, Seq::<Option<DKIM_Header>>::empty(), None);
    let a = choose|a: Seq<u8>| d2 == #[trigger] (a + d); assert(d2.len() - d.len() == a.len());
    lemma_body_shift(a, d, m.body, s.m_body == 1);
    assert(body_text(x, s) == g.body);
}
/// a new signer reads its text from the start; one that has signed is in that state too (CreateSignature ensures m_msg == sgn_msg(before), same text)
pub proof fn thm_reads(v: DKIM_Signatory) requires sgn_wf(v), v.m_msg == msg_new(), v.m_file.pos == 0, v.m_file.eof ==> v.m_file.pos >= v.m_file.d.len(), !v.m_file.fail ensures sgn_reads(v)
{ lemma_msg_run(v.m_msg, v.m_file); }
pub proof fn thm_reads_again(v: DKIM_Signatory, u: DKIM_Signatory) requires sgn_reads(v), sgn_wf(u), u.m_file.d == v.m_file.d, u.m_msg == sgn_msg(v), u.m_msg.m_done ensures sgn_reads(u) {}
/// From is listed when a From field is signed
pub proof fn lemma_from_listed(hs: Seq<Option<DKIM_Header>>, o: DKIM_SignatoryOptions, i: int, n: int)
    requires 0 <= n <= i < hs.len(), picked(hs[i]->0, o.m_headers), lower_seq(hs[i]->0.m_name) == s_from()
    ensures sign_names(hs, o.m_headers, n).contains(s_from())
    decreases i - n
{
    let ns = sign_names(hs, o.m_headers, n);
    if n == i { assert(ns.last() == s_from()); assert(ns[ns.len() - 1] == s_from()); }
    else { lemma_from_listed(hs, o, i, n + 1); let ps = sign_names(hs, o.m_headers, n + 1); let q = choose|q: int| 0 <= q < ps.len() && ps[q] == s_from(); assert(ns[q] == s_from()); }
}
pub proof fn lemma_lists(ns: Seq<Seq<u8>>, n: int, j: int) requires 0 <= j < n <= ns.len(), ns[j] == s_from() ensures lists_from(ns, n) decreases n
{ if j == n - 1 { lemma_cstr(s_from()) ; assert(no_nul(s_from())); assert(lower_seq(s_from()) =~= s_from()); } else { lemma_lists(ns, n - 1, j); } }
pub proof fn thm_from(hs: Seq<Option<DKIM_Header>>, o: DKIM_SignatoryOptions, i: int)
    requires 0 <= i < hs.len(), picked(hs[i]->0, o.m_headers), lower_seq(hs[i]->0.m_name) == s_from()
    ensures lists_from(h_names(hs, o), h_names(hs, o).len() as int)
{
    lemma_from_listed(hs, o, i, 0); let ps = sign_names(hs, o.m_headers, 0); let q = choose|q: int| 0 <= q < ps.len() && ps[q] == s_from(); let ns = h_names(hs, o); assert(ns[q] == ps[q]); lemma_lists(ns, ns.len() as int, q);
}
