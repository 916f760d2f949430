// ---------------------------------------------------------------------------------------------
// C09, C10, C11, C23: verification
// ---------------------------------------------------------------------------------------------
pub open spec fn msg_new() -> DKIM_Message { DKIM_Message { m_header: Seq::<Option<DKIM_Header>>::empty(), m_tmpHeader: None, m_done: false, m_bodyOffset: 0 } }
pub open spec fn s_dkim_sig() -> Seq<u8> { seq![100u8, 107u8, 105u8, 109u8, 45u8, 115u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8] }
/// the field carries a signature of the kind asked for (0: DKIM, 1: ARC, 2: none)
pub open spec fn is_sig_field(h: DKIM_Header, ty: int) -> bool { (ty == 0 && lower_seq(h.m_name) =~= s_dkim_sig()) || (ty == 1 && lower_seq(h.m_name) =~= arc_sig_lit()) }
/// the signature fields among the first n fields, in order
pub open spec fn sig_fields(hs: Seq<Option<DKIM_Header>>, ty: int, n: int) -> Seq<Option<DKIM_Header>> decreases n {
    if n <= 0 || n > hs.len() { Seq::<Option<DKIM_Header>>::empty() } else { let r = sig_fields(hs, ty, n - 1); if is_sig_field(hs[n - 1]->0, ty) { r.push(hs[n - 1]) } else { r } }
}
pub proof fn lemma_sig_fields_none(hs: Seq<Option<DKIM_Header>>, n: int) requires 0 <= n <= hs.len() ensures sig_fields(hs, 2, n) =~= Seq::<Option<DKIM_Header>>::empty() decreases n { if n > 0 { lemma_sig_fields_none(hs, n - 1); } }
pub open spec fn nid_of(alg: int) -> int { if alg == 0 { 64 } else { 672 } }
pub open spec fn val_wf(v: DKIM_Validatory) -> bool { ss_wf(v.m_file) && hdrs_wf(v.m_msg.m_header) && (v.m_msg.m_bodyOffset == -1 || 0 <= v.m_msg.m_bodyOffset <= v.m_file.d.len()) }
pub open spec fn body_text(v: DKIM_Validatory, s: DKIM_Signature) -> Seq<u8> { cut(canon_body(v.m_file.d, v.m_msg.m_bodyOffset, s.m_body == 1), s.m_bodySizeLimit, s.m_bodySize) }
pub open spec fn body_ok(v: DKIM_Validatory, s: DKIM_Signature) -> bool { s.m_bh =~= digest(nid_of(s.m_digestAlgorithm), body_text(v, s)) }
// ---- key lookup
pub open spec fn key_name(s: DKIM_Signature) -> Seq<u8> { s.m_selector + seq![46u8, 95u8, 100u8, 111u8, 109u8, 97u8, 105u8, 110u8, 107u8, 101u8, 121u8, 46u8] + s.m_domain }
pub open spec fn key_reply(custom: bool, ok: bool, t: Seq<u8>, n: int, a: Seq<u8>, herr: int) -> Ans { if custom { Ans { ok: ok, text: t } } else { dns_result(n, a, herr, Seq::<u8>::empty()) } }
pub open spec fn key_text_bad(k: DKIM_PublicKey, t: Seq<u8>) -> bool { t.len() == 0 || tag_scan(t, 0, k.m_tagList.m_tags).bad || key_bad(k, tag_scan(t, 0, k.m_tagList.m_tags).tags) }
pub proof fn lemma_txt_len(d: Seq<u8>, p: int, left: int) requires 0 <= p, p + left <= d.len() ensures txt(d, p, left).len() <= (if left > 0 { left } else { 0 }) decreases left { if left > 0 && (d[p] as int) < left { lemma_txt_len(d, p + 1 + d[p] as int, left - 1 - d[p] as int); } }
pub proof fn lemma_ans_len(d: Seq<u8>, p: int, n: int, k: int, acc: Seq<u8>) requires 0 <= p, n <= d.len() ensures ans_scan(d, p, n, k, acc).text.len() <= acc.len() + (if n > p { n - p } else { 0 }) decreases k
{
    if k > 0 { let s = skip_len(d, p, n); let q = p + s; if s >= 0 && q + 10 <= n { let rd = be16(d, q + 8); if q + 10 + rd <= n { lemma_txt_len(d, q + 10, rd); lemma_ans_len(d, q + 10 + rd, n, k - 1, if be16(d, q) == 16 { acc + txt(d, q + 10, rd) } else { acc }); } } }
}
pub proof fn lemma_q_skip(d: Seq<u8>, p: int, n: int, k: int) requires 0 <= p ensures q_skip(d, p, n, k).p >= 0 decreases k { if k > 0 && skip_len(d, p, n) >= 0 { lemma_q_skip(d, p + skip_len(d, p, n) + 4, n, k - 1); } }
pub proof fn lemma_dns_len(n: int, d: Seq<u8>, herr: int) requires d.len() == 65536 ensures dns_result(n, d, herr, Seq::<u8>::empty()).text.len() <= 65536
{ if 0 <= n <= 65536 { lemma_q_skip(d, 12, n, be16(d, 4)); lemma_ans_len(d, q_skip(d, 12, n, be16(d, 4)).p, n, be16(d, 6), Seq::<u8>::empty()); } }
// ---- signed header data
pub open spec fn cache_get(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, k: Seq<u8>) -> Seq<Option<DKIM_Header>> { if m.dom().contains(k) { m[k] } else { Seq::<Option<DKIM_Header>>::empty() } }
/// the fields among the first n whose name is nm (any letter case), in order
pub open spec fn fields_named(hs: Seq<Option<DKIM_Header>>, n: int, nm: Seq<u8>) -> Seq<Option<DKIM_Header>> decreases n {
    if n <= 0 || n > hs.len() { Seq::<Option<DKIM_Header>>::empty() } else { let r = fields_named(hs, n - 1, nm); if lower_seq(hs[n - 1]->0.m_name) =~= nm { r.push(hs[n - 1]) } else { r } }
}
pub proof fn lemma_fields_named(hs: Seq<Option<DKIM_Header>>, n: int, nm: Seq<u8>) requires hdrs_wf(hs), 0 <= n <= hs.len() ensures hdrs_wf(fields_named(hs, n, nm)) decreases n
{ if n > 0 { lemma_fields_named(hs, n - 1, nm); let r = fields_named(hs, n - 1, nm); let q = fields_named(hs, n, nm); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && hdr_wf(q[i]->0) by { if i < r.len() { assert(q[i] == r[i]); } else { assert(q[i] == hs[n - 1]); } } } }
/// how often nm (any letter case) is among the first n names
pub open spec fn occ(ns: Seq<Seq<u8>>, n: int, nm: Seq<u8>) -> int decreases n { if n <= 0 || n > ns.len() { 0 } else { occ(ns, n - 1, nm) + (if lower_seq(ns[n - 1]) =~= nm { 1int } else { 0int }) } }
pub proof fn lemma_occ(ns: Seq<Seq<u8>>, n: int, nm: Seq<u8>) ensures 0 <= occ(ns, n, nm) decreases n { if n > 0 { lemma_occ(ns, n - 1, nm); } }
/// what is left of fs when its last k are used
pub open spec fn unused(fs: Seq<Option<DKIM_Header>>, k: int) -> Seq<Option<DKIM_Header>> { if k >= fs.len() { Seq::<Option<DKIM_Header>>::empty() } else { fs.subrange(0, fs.len() - k) } }
/// the fields still unused when name number n (from 0) comes up
pub open spec fn left_for(hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, n: int) -> Seq<Option<DKIM_Header>> { let nm = lower_seq(ns[n]); unused(fields_named(hs, hs.len() as int, nm), occ(ns, n, nm)) }
/// for each of the first n names the last field not used yet, canonicalized, and CRLF
pub open spec fn signed_head(hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, mode: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 || n > ns.len() { Seq::<u8>::empty() }
    else { let fs = left_for(hs, ns, n - 1); let p = signed_head(hs, ns, mode, n - 1); if fs.len() == 0 { p } else { p + (canon_head(mode, fs.last()->0.m_header).t + seq![13u8, 10u8]) } }
}
pub open spec fn signed_bad(hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, mode: int, n: int) -> bool decreases n {
    n > 0 && n <= ns.len() && (signed_bad(hs, ns, mode, n - 1) || (left_for(hs, ns, n - 1).len() > 0 && canon_head(mode, left_for(hs, ns, n - 1).last()->0.m_header).bad))
}
pub proof fn lemma_signed_bad(hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, mode: int, k: int, n: int) requires 0 <= k <= n <= ns.len(), signed_bad(hs, ns, mode, k) ensures signed_bad(hs, ns, mode, n) decreases n { if k < n { lemma_signed_bad(hs, ns, mode, k, n - 1); } }
// ---- removal of the b= value
pub open spec fn ws4_lit() -> Seq<u8> { seq![32u8, 9u8, 13u8, 10u8] }
/// start of the run of whitespace that ends at p
pub open spec fn ws_back(v: Seq<u8>, p: int) -> int decreases p { if 0 < p <= v.len() && is_ws4(v[p - 1]) { ws_back(v, p - 1) } else { p } }
pub open spec fn b_cut(v: Seq<u8>, off: int, len: int) -> Seq<u8> { v.subrange(0, ws_back(v, off)) + v.subrange(ws_end(v, off + len), v.len() as int) }
pub proof fn lemma_ws_back(v: Seq<u8>, p: int) requires 0 <= p <= v.len() < NPOS() ensures 0 <= ws_back(v, p) <= p, ws_back(v, p) == last_ok(v, p) decreases p { if 0 < p { lemma_in_ws4(v[p - 1]); if is_ws4(v[p - 1]) { lemma_ws_back(v, p - 1); } } }
pub open spec fn last_ok(v: Seq<u8>, p: int) -> int { let r = last_not_of(v, ws4_lit(), p); if r == NPOS() { 0 } else { r + 1 } }
pub open spec fn b_start(v: Seq<u8>, off: int) -> int { (str_find_last_not_of(v, ws4_lit(), off - 1) + 1) % 0x1_0000_0000_0000_0000 }
pub open spec fn b_end(v: Seq<u8>, p: int) -> int { str_find_first_not_of(v, ws4_lit(), p) }
pub proof fn lemma_in_ws4(c: u8) ensures in_set(ws4_lit(), c) == is_ws4(c) { let s = ws4_lit(); reveal_with_fuel(idx_from, 6); assert(s[0] == 32 && s[1] == 9 && s[2] == 13 && s[3] == 10); }
pub proof fn lemma_b_cut(v: Seq<u8>, off: int, p: int) requires 1 <= off <= p <= v.len() < NPOS()
    ensures b_start(v, off) == ws_back(v, off), 0 <= ws_back(v, off) <= off, p <= ws_end(v, p) <= v.len(), b_end(v, p) == (if ws_end(v, p) < v.len() { ws_end(v, p) } else { NPOS() })
{
    lemma_ws_back(v, off); lemma_ws_end(v, p); lemma_last_not_of(v, ws4_lit(), off); lemma_ws_fno(v, p);
}
pub proof fn lemma_ws_fno(v: Seq<u8>, p: int) requires 0 <= p <= v.len() < NPOS() ensures b_end(v, p) == (if ws_end(v, p) < v.len() { ws_end(v, p) } else { NPOS() }) decreases v.len() - p { if p < v.len() { lemma_in_ws4(v[p]); if is_ws4(v[p]) { lemma_ws_fno(v, p + 1); } } }
// ---- the decision
pub open spec fn header_value(h: DKIM_Header) -> Seq<u8> { h.m_header.subrange(h.m_valueOffset, h.m_header.len() as int) }
/// the signature was parsed from this field
pub open spec fn parsed_from(s: DKIM_Signature, h: DKIM_Header) -> bool { tag_in(s.m_tagList.m_tags, tag_b()) && tv(s.m_tagList.m_tags, tag_b()).len() > 0 && faithful(header_value(h), s.m_tagList.m_tags[tag_b()]) && s.m_b.len() < 0x8000_0000 }
pub open spec fn flag_s() -> Seq<u8> { seq![115u8] }
pub open spec fn sig_allowed(s: DKIM_Signature, k: DKIM_PublicKey) -> bool {
    &&& k.m_digestAlgorithms.len() == 0 || k.m_digestAlgorithms.contains(s.m_digestAlgorithm)
    &&& k.m_signatureAlgorithm == s.m_signatureAlgorithm
    &&& s.m_arc || !k.m_flags.contains(flag_s()) || s.m_domain =~= s.m_mailDomain
}
/// the signature field with the value of b= and the whitespace around it removed
pub open spec fn own_field(s: DKIM_Signature, h: DKIM_Header) -> Seq<u8> { let b = s.m_tagList.m_tags[tag_b()]; h.m_header.subrange(0, h.m_valueOffset) + b_cut(header_value(h), b.m_valueOffset, b.m_value.len() as int) }
pub open spec fn uncanonical(hs: Seq<Option<DKIM_Header>>, s: DKIM_Signature, h: DKIM_Header) -> bool { signed_bad(hs, s.m_headers, s.m_header, s.m_headers.len() as int) || canon_head(s.m_header, own_field(s, h)).bad }
pub open spec fn signed_text(hs: Seq<Option<DKIM_Header>>, s: DKIM_Signature, h: DKIM_Header) -> Seq<u8> { signed_head(hs, s.m_headers, s.m_header, s.m_headers.len() as int) + canon_head(s.m_header, own_field(s, h)).t }
pub open spec fn crypto_ok(s: DKIM_Signature, k: DKIM_PublicKey, text: Seq<u8>) -> bool {
    let d = digest(nid_of(s.m_digestAlgorithm), text);
    if s.m_signatureAlgorithm == 0 { rsa_verify(k.m_publicKeyRSA, nid_of(s.m_digestAlgorithm), d, s.m_b) } else { s.m_b.len() == 64 && ed25519_verify(k.m_publicKeyED25519, d, s.m_b) }
}
pub open spec fn sig_valid(hs: Seq<Option<DKIM_Header>>, s: DKIM_Signature, k: DKIM_PublicKey, h: DKIM_Header) -> bool { sig_allowed(s, k) && !uncanonical(hs, s, h) && crypto_ok(s, k, signed_text(hs, s, h)) }
pub proof fn lemma_sig_len(o: DKIM_Signature, m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool) requires tags_wf(m), tag_in(m, tag_b()) ensures sig_of(o, m, arc).m_b.len() < 0x8000_0000 { let v = tv(m, tag_b()); lemma_bio_len(str_without_space(v), true); lemma_space_len(v); }
pub proof fn lemma_space_len(s: Seq<u8>) ensures str_without_space(s).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_space_len(s.drop_last()); } }
/// m holds, per name, the fields of that name among the first n
pub open spec fn cache_is(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, n: int) -> bool { forall|k: Seq<u8>| (#[trigger] cache_get(m, k)) == fields_named(hs, n, k) }
pub proof fn lemma_cache_new(hs: Seq<Option<DKIM_Header>>) ensures cache_is(Map::<Seq<u8>, Seq<Option<DKIM_Header>>>::empty(), hs, 0) {}
pub proof fn lemma_cache_add(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, q: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, n: int)
    requires cache_is(m, hs, n), 0 <= n < hs.len(), forall|k: Seq<u8>| (#[trigger] cache_get(q, k)) == (if k == lower_seq(hs[n]->0.m_name) { cache_get(m, k).push(hs[n]) } else { cache_get(m, k) })
    ensures cache_is(q, hs, n + 1)
{ let nm = lower_seq(hs[n]->0.m_name); assert forall|k: Seq<u8>| (#[trigger] cache_get(q, k)) == fields_named(hs, n + 1, k) by { assert(cache_get(m, k) == fields_named(hs, n, k)); if k != nm { assert(!(nm =~= k)); } } }
/// m holds, per name, the fields not used by the first n names of h=
pub open spec fn cache_left(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, n: int) -> bool { forall|k: Seq<u8>| (#[trigger] cache_get(m, k)) == unused(fields_named(hs, hs.len() as int, k), occ(ns, n, k)) }
pub proof fn lemma_cache_start(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>) requires cache_is(m, hs, hs.len() as int) ensures cache_left(m, hs, ns, 0)
{ assert forall|k: Seq<u8>| (#[trigger] cache_get(m, k)) == unused(fields_named(hs, hs.len() as int, k), occ(ns, 0, k)) by { assert(cache_get(m, k) =~= unused(fields_named(hs, hs.len() as int, k), occ(ns, 0, k))); } }
/// one name more: the last unused field of that name is taken off
pub proof fn lemma_cache_step(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, n: int)
    requires hdrs_wf(hs), 0 <= n < ns.len(), cache_left(m, hs, ns, n)
    ensures cache_get(m, lower_seq(ns[n])) == left_for(hs, ns, n), hdrs_wf(left_for(hs, ns, n)), left_for(hs, ns, n).len() > 0 ==> left_for(hs, ns, n).last() is Some, left_for(hs, ns, n).len() == 0 ==> cache_left(m, hs, ns, n + 1),
{
    let nm = lower_seq(ns[n]); let l = left_for(hs, ns, n); let fs = fields_named(hs, hs.len() as int, nm);
    assert(cache_get(m, nm) =~= l); lemma_fields_named(hs, hs.len() as int, nm); lemma_occ(ns, n, nm);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is Some && hdr_wf(l[i]->0) by { assert(l[i] == fs[i]); }
    if l.len() > 0 { assert(l[l.len() - 1] is Some); }
    if l.len() == 0 { assert forall|k: Seq<u8>| (#[trigger] cache_get(m, k)) == unused(fields_named(hs, hs.len() as int, k), occ(ns, n + 1, k)) by { lemma_occ(ns, n, k); if k != nm { assert(!(nm =~= k)); assert(occ(ns, n + 1, k) == occ(ns, n, k)); } } }
}
pub proof fn lemma_cache_take(m: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, q: Map<Seq<u8>, Seq<Option<DKIM_Header>>>, hs: Seq<Option<DKIM_Header>>, ns: Seq<Seq<u8>>, n: int)
    requires 0 <= n < ns.len(), cache_left(m, hs, ns, n), left_for(hs, ns, n).len() > 0, forall|k: Seq<u8>| (#[trigger] cache_get(q, k)) == (if k == lower_seq(ns[n]) { cache_get(m, k).drop_last() } else { cache_get(m, k) })
    ensures cache_left(q, hs, ns, n + 1)
{
    let nm = lower_seq(ns[n]); 
    assert forall|k: Seq<u8>| (#[trigger] cache_get(q, k)) == unused(fields_named(hs, hs.len() as int, k), occ(ns, n + 1, k)) by {
        let u = unused(fields_named(hs, hs.len() as int, k), occ(ns, n, k)); assert(cache_get(m, k) == u); lemma_occ(ns, n, k);
        if k != nm { assert(!(nm =~= k)); assert(occ(ns, n + 1, k) == occ(ns, n, k)); } else { assert(occ(ns, n + 1, k) == occ(ns, n, k) + 1); assert(left_for(hs, ns, n) == u); assert(u.drop_last() =~= unused(fields_named(hs, hs.len() as int, k), occ(ns, n + 1, k))); } }
}
pub proof fn lemma_own_field(s: DKIM_Signature, h: DKIM_Header) requires hdr_wf(h), parsed_from(s, h), h.m_header.len() < NPOS()
    ensures ({ let v = header_value(h); let b = s.m_tagList.m_tags[tag_b()]; let l = str_find_last_not_of(v, ws4_lit(), u64_sub(cast_u64(b.m_valueOffset), 1)); let e = str_find_first_not_of(v, ws4_lit(), u64_add(cast_u64(b.m_valueOffset), b.m_value.len() as int));
        own_field(s, h) == str_substr(h.m_header, 0, h.m_valueOffset) + str_erase(v, u64_add(l, 1), if e == 18446744073709551615 { 18446744073709551615int } else { u64_sub(e, u64_add(l, 1)) }) })
{
    let v = header_value(h); let b = s.m_tagList.m_tags[tag_b()]; lemma_hdr_wf(h);
    lemma_b_cut(v, b.m_valueOffset, b.m_valueOffset + b.m_value.len());
    let l = str_find_last_not_of(v, ws4_lit(), u64_sub(cast_u64(b.m_valueOffset), 1)); let e = str_find_first_not_of(v, ws4_lit(), u64_add(cast_u64(b.m_valueOffset), b.m_value.len() as int));
    lemma_str_find_last_not_of(v, ws4_lit(), b.m_valueOffset - 1);
    assert(u64_add(l, 1) == ws_back(v, b.m_valueOffset));
    assert(own_field(s, h) =~= str_substr(h.m_header, 0, h.m_valueOffset) + str_erase(v, u64_add(l, 1), if e == 18446744073709551615 { 18446744073709551615int } else { u64_sub(e, u64_add(l, 1)) }));
}
