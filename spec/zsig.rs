// ---------------------------------------------------------------------------------------------
// C05, C06, C07: signature headers
// ---------------------------------------------------------------------------------------------
pub open spec fn arc_sig_lit() -> Seq<u8> { seq![97u8, 114u8, 99u8, 45u8, 109u8, 101u8, 115u8, 115u8, 97u8, 103u8, 101u8, 45u8, 115u8, 105u8, 103u8, 110u8, 97u8, 116u8, 117u8, 114u8, 101u8] }
pub open spec fn digits_lit() -> Seq<u8> { seq![48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub open spec fn digits_chk(n: int) -> bool decreases 256 - n { n >= 256 || ((idx_from(digits_lit(), n as u8, 0) < 10 <==> 48 <= n <= 57) && digits_chk(n + 1)) }
pub proof fn lemma_digits_chk(n: int, c: int) requires digits_chk(n), 0 <= n <= c < 256 ensures idx_from(digits_lit(), c as u8, 0) < 10 <==> 48 <= c <= 57 decreases 256 - n { if n < c { lemma_digits_chk(n + 1, c); } }
pub proof fn lemma_digits_set() ensures forall|c: u8| (#[trigger] idx_from(digits_lit(), c, 0)) < 10 <==> 48 <= c <= 57, digits_lit().len() == 10 {
    assert(digits_chk(0)) by(compute_only);
    assert forall|c: u8| (#[trigger] idx_from(digits_lit(), c, 0)) < 10 <==> 48 <= c <= 57 by { lemma_digits_chk(0, c as int); }
}
pub open spec fn all_digits(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> 48 <= #[trigger] v[i] <= 57 }
/// the number a string of decimal digits denotes
pub open spec fn dec_value(v: Seq<u8>) -> int { digits_val(v, 0, 10, 0) }
pub proof fn lemma_digits_val(v: Seq<u8>, i: int, acc: int)
    requires all_digits(v), 0 <= i <= v.len(), acc >= 0
    ensures digits_val(v, i, 10, acc) >= 0, digits_end(v, i, 10) == v.len()
    decreases v.len() - i
{ if i < v.len() { lemma_digits_val(v, i + 1, acc * 10 + digit_val(v[i])); } }
pub proof fn lemma_dec(v: Seq<u8>)
    requires all_digits(v), v.len() > 0
    ensures cstr(v) == v, num_stop(v, 10) == v.len(), strtoul_val(v, 10) == (if dec_value(v) > NPOS() { NPOS() } else { dec_value(v) }), strtoul_overflow(v, 10) == (dec_value(v) > NPOS()), dec_value(v) >= 0
{
    lemma_idx_from(v, 0u8, 0); if idx_from(v, 0u8, 0) < v.len() { assert(v[idx_from(v, 0u8, 0)] == 0); } assert(cstr(v) =~= v);
    assert(48 <= v[0] <= 57); lemma_digits_val(v, 0, 0);
}
pub proof fn lemma_cstr(v: Seq<u8>) requires no_nul(v) ensures cstr(v) == v { lemma_idx_from(v, 0u8, 0); assert(cstr(v) =~= v); }

pub open spec fn tag_in(m: Map<Seq<u8>, DKIM_TagListEntry>, n: Seq<u8>) -> bool { m.dom().contains(n) }
pub open spec fn tv(m: Map<Seq<u8>, DKIM_TagListEntry>, n: Seq<u8>) -> Seq<u8> { m[n].m_value }
pub open spec fn tag_v() -> Seq<u8> { seq![118u8] }
pub open spec fn tag_a() -> Seq<u8> { seq![97u8] }
pub open spec fn tag_b() -> Seq<u8> { seq![98u8] }
pub open spec fn tag_bh() -> Seq<u8> { seq![98u8, 104u8] }
pub open spec fn tag_c() -> Seq<u8> { seq![99u8] }
pub open spec fn tag_d() -> Seq<u8> { seq![100u8] }
pub open spec fn tag_h() -> Seq<u8> { seq![104u8] }
pub open spec fn tag_i() -> Seq<u8> { seq![105u8] }
pub open spec fn tag_l() -> Seq<u8> { seq![108u8] }
pub open spec fn tag_q() -> Seq<u8> { seq![113u8] }
pub open spec fn tag_s() -> Seq<u8> { seq![115u8] }
pub open spec fn tag_x() -> Seq<u8> { seq![120u8] }
pub open spec fn tag_k() -> Seq<u8> { seq![107u8] }
pub open spec fn tag_p() -> Seq<u8> { seq![112u8] }
pub open spec fn tag_t() -> Seq<u8> { seq![116u8] }
pub open spec fn rsa_sha256() -> Seq<u8> { seq![114u8, 115u8, 97u8, 45u8, 115u8, 104u8, 97u8, 50u8, 53u8, 54u8] }
pub open spec fn rsa_sha1() -> Seq<u8> { seq![114u8, 115u8, 97u8, 45u8, 115u8, 104u8, 97u8, 49u8] }
pub open spec fn ed25519_sha256() -> Seq<u8> { seq![101u8, 100u8, 50u8, 53u8, 53u8, 49u8, 57u8, 45u8, 115u8, 104u8, 97u8, 50u8, 53u8, 54u8] }
pub open spec fn s_relaxed() -> Seq<u8> { seq![114u8, 101u8, 108u8, 97u8, 120u8, 101u8, 100u8] }
pub open spec fn s_simple() -> Seq<u8> { seq![115u8, 105u8, 109u8, 112u8, 108u8, 101u8] }
pub open spec fn s_dnstxt() -> Seq<u8> { seq![100u8, 110u8, 115u8, 47u8, 116u8, 120u8, 116u8] }
pub open spec fn s_from() -> Seq<u8> { seq![102u8, 114u8, 111u8, 109u8] }
/// header part of c= (before the first '/') and body part (after it; simple when there is no '/')
pub open spec fn c_head(v: Seq<u8>) -> Seq<u8> { let k = idx_from(v, 47u8, 0); if k < v.len() { v.subrange(0, k) } else { v } }
pub open spec fn c_body(v: Seq<u8>) -> Seq<u8> { let k = idx_from(v, 47u8, 0); if k < v.len() { v.subrange(k + 1, v.len() as int) } else { s_simple() } }
pub open spec fn canon_name(v: Seq<u8>) -> bool { v =~= s_relaxed() || v =~= s_simple() }
pub open spec fn c_bad(v: Seq<u8>) -> bool { !canon_name(c_head(v)) || !canon_name(c_body(v)) }
pub open spec fn is_from(n: Seq<u8>) -> bool { lower_seq(n) =~= s_from() }
/// one of the first n names is From
pub open spec fn lists_from(hs: Seq<Seq<u8>>, n: int) -> bool decreases n { n > 0 && n <= hs.len() && (is_from(cstr(hs[n - 1])) || lists_from(hs, n - 1)) }
pub proof fn lemma_lists_from(hs: Seq<Seq<u8>>, k: int, n: int) requires 0 <= k <= n <= hs.len(), lists_from(hs, k) ensures lists_from(hs, n) decreases n { if k < n { lemma_lists_from(hs, k, n - 1); } }
pub open spec fn names(v: Seq<u8>) -> ListScan { list_scan(v, 0, Seq::<Seq<u8>>::empty()) }
pub open spec fn h_bad(v: Seq<u8>) -> bool { names(v).bad || !lists_from(names(v).items, names(v).items.len() as int) }
/// agent identity: decoded i=, split at the first '@'
pub open spec fn i_mail(v: Seq<u8>) -> Scan { qp_dec(v, 0, false, Seq::<u8>::empty()) }
pub open spec fn i_local(v: Seq<u8>) -> Seq<u8> { let m = i_mail(v).out; m.subrange(0, idx_from(m, 64u8, 0)) }
pub open spec fn i_domain(v: Seq<u8>) -> Seq<u8> { let m = i_mail(v).out; lower_seq(m.subrange(idx_from(m, 64u8, 0) + 1, m.len() as int)) }
/// x is d or ends with '.' followed by d
pub open spec fn within(x: Seq<u8>, d: Seq<u8>) -> bool { x =~= d || (x.len() > d.len() && x.subrange(x.len() - d.len() - 1, x.len() as int) =~= seq![46u8] + d) }
pub open spec fn i_bad(v: Seq<u8>, d: Seq<u8>) -> bool { i_mail(v).bad || idx_from(i_mail(v).out, 64u8, 0) >= i_mail(v).out.len() || !within(i_domain(v), d) }
pub open spec fn arc_i_bad(v: Seq<u8>) -> bool { !(1 <= strtoul_val(v, 10) <= 50) }
pub open spec fn l_bad(v: Seq<u8>) -> bool { v.len() > 76 || v.len() == 0 || !all_digits(v) || dec_value(v) > 0x7fff_ffff_ffff_ffff }
pub open spec fn a_ok(v: Seq<u8>) -> bool { v =~= rsa_sha256() || v =~= rsa_sha1() || v =~= ed25519_sha256() }
/// required and supported tags (C05), identity (C06), numeric tags; the expiration is strictly before now (C07)
pub open spec fn sig_bad05(m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool) -> bool {
    ||| !tag_in(m, tag_d())
    ||| !arc && (!tag_in(m, tag_v()) || !(tv(m, tag_v()) =~= seq![49u8]))
    ||| !tag_in(m, tag_a()) || !a_ok(tv(m, tag_a()))
    ||| !tag_in(m, tag_b()) || tv(m, tag_b()).len() == 0
    ||| !tag_in(m, tag_bh())
    ||| tag_in(m, tag_c()) && c_bad(tv(m, tag_c()))
    ||| !tag_in(m, tag_h()) || h_bad(tv(m, tag_h()))
    ||| tag_in(m, tag_q()) && !(tv(m, tag_q()) =~= s_dnstxt())
    ||| !tag_in(m, tag_s())
}
pub open spec fn sig_bad06(m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool) -> bool { !arc && tag_in(m, tag_i()) && i_bad(tv(m, tag_i()), lower_seq(tv(m, tag_d()))) }
pub open spec fn sig_bad07(m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool, now: int) -> bool {
    ||| arc && (!tag_in(m, tag_i()) || arc_i_bad(tv(m, tag_i())))
    ||| tag_in(m, tag_l()) && l_bad(tv(m, tag_l()))
    ||| tag_in(m, tag_x()) && strtol_val(tv(m, tag_x()), 10) < now
}
pub open spec fn sig_bad(m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool, now: int) -> bool { sig_bad05(m, arc) || sig_bad06(m, arc) || sig_bad07(m, arc, now) }
pub proof fn lemma_l_tag(m: Map<Seq<u8>, DKIM_TagListEntry>)
    ensures tag_in(m, tag_l()) && 0 < tv(m, tag_l()).len() < NPOS() ==> (str_find_first_not_of(tv(m, tag_l()), digits_lit(), 0) == NPOS() <==> all_digits(tv(m, tag_l()))),
        tag_in(m, tag_l()) && 0 < tv(m, tag_l()).len() && all_digits(tv(m, tag_l())) ==> ({ let v = tv(m, tag_l()); cstr(v) == v && num_stop(v, 10) == v.len() && strtoul_val(v, 10) == (if dec_value(v) > NPOS() { NPOS() } else { dec_value(v) }) && strtoul_overflow(v, 10) == (dec_value(v) > NPOS()) && dec_value(v) >= 0 })
{
    let v = tv(m, tag_l()); lemma_digits_set();
    if 0 < v.len() < NPOS() { lemma_str_find_first_not_of(v, digits_lit(), 0);
        let r = str_find_first_not_of(v, digits_lit(), 0);
        if r == NPOS() { assert forall|i: int| 0 <= i < v.len() implies 48 <= #[trigger] v[i] <= 57 by { assert(in_set(digits_lit(), v[i])); } } else if all_digits(v) { assert(48 <= v[r] <= 57); assert(in_set(digits_lit(), v[r])); } }
    if 0 < v.len() && all_digits(v) { lemma_dec(v); }
}
pub open spec fn sig_tags(h: DKIM_Header, m: Map<Seq<u8>, DKIM_TagListEntry>) -> TagScan { tag_scan(h.m_header.subrange(h.m_valueOffset, h.m_header.len() as int), 0, m) }
pub open spec fn sig_arc(h: DKIM_Header, arc: bool) -> bool { arc || lower_seq(h.m_name) =~= arc_sig_lit() }
/// attributes of an accepted signature; o is the signature before (attributes keep their value when the tag is absent)
pub open spec fn sig_of(o: DKIM_Signature, m: Map<Seq<u8>, DKIM_TagListEntry>, arc: bool) -> DKIM_Signature {
    let d = lower_seq(tv(m, tag_d()));
    DKIM_Signature {
        m_tagList: DKIM_TagList { m_tags: m },
        m_digestAlgorithm: if tv(m, tag_a()) =~= rsa_sha1() { 0 } else { 1 },
        m_signatureAlgorithm: if tv(m, tag_a()) =~= ed25519_sha256() { 1 } else { 0 },
        m_b: b64_dec(str_without_space(tv(m, tag_b()))), m_bh: b64_dec(str_without_space(tv(m, tag_bh()))),
        m_header: if !tag_in(m, tag_c()) { o.m_header } else if c_head(tv(m, tag_c())) =~= s_relaxed() { 1 } else { 0 },
        m_body: if !tag_in(m, tag_c()) { o.m_body } else if c_body(tv(m, tag_c())) =~= s_relaxed() { 1 } else { 0 },
        m_domain: d, m_headers: names(tv(m, tag_h())).items,
        m_mailLocalPart: if arc { o.m_mailLocalPart } else if tag_in(m, tag_i()) { i_local(tv(m, tag_i())) } else { Seq::<u8>::empty() },
        m_mailDomain: if arc { o.m_mailDomain } else if tag_in(m, tag_i()) { i_domain(tv(m, tag_i())) } else { d },
        m_bodySize: if tag_in(m, tag_l()) { dec_value(tv(m, tag_l())) } else { o.m_bodySize },
        m_bodySizeLimit: tag_in(m, tag_l()) || o.m_bodySizeLimit,
        m_queryType: if tag_in(m, tag_q()) { 0 } else { o.m_queryType },
        m_selector: tv(m, tag_s()), m_arc: arc,
        m_arcInstance: if arc { strtoul_val(tv(m, tag_i()), 10) } else { o.m_arcInstance },
    }
}
pub open spec fn sig_new() -> DKIM_Signature {
    DKIM_Signature { m_tagList: DKIM_TagList { m_tags: Map::<Seq<u8>, DKIM_TagListEntry>::empty() }, m_digestAlgorithm: 1, m_signatureAlgorithm: 0, m_b: Seq::<u8>::empty(), m_bh: Seq::<u8>::empty(), m_header: 0, m_body: 0, m_domain: Seq::<u8>::empty(),
        m_headers: Seq::<Seq<u8>>::empty(), m_mailLocalPart: Seq::<u8>::empty(), m_mailDomain: Seq::<u8>::empty(), m_bodySize: 0, m_bodySizeLimit: false, m_queryType: 0, m_selector: Seq::<u8>::empty(), m_arc: false, m_arcInstance: 0 }
}
