// ---------------------------------------------------------------------------------------------
// C08: key records
// ---------------------------------------------------------------------------------------------
pub open spec fn s_dkim1() -> Seq<u8> { seq![68u8, 75u8, 73u8, 77u8, 49u8] }
pub open spec fn s_sha256() -> Seq<u8> { seq![115u8, 104u8, 97u8, 50u8, 53u8, 54u8] }
pub open spec fn s_sha1() -> Seq<u8> { seq![115u8, 104u8, 97u8, 49u8] }
pub open spec fn s_rsa() -> Seq<u8> { seq![114u8, 115u8, 97u8] }
pub open spec fn s_ed25519() -> Seq<u8> { seq![101u8, 100u8, 50u8, 53u8, 53u8, 49u8, 57u8] }
pub open spec fn s_email() -> Seq<u8> { seq![101u8, 109u8, 97u8, 105u8, 108u8] }
pub open spec fn s_star() -> Seq<u8> { seq![42u8] }
/// the hash algorithms among the first n names, after acc
pub open spec fn hash_algs(acc: Seq<int>, ns: Seq<Seq<u8>>, n: int) -> Seq<int> decreases n {
    if n <= 0 || n > ns.len() { acc } else { let r = hash_algs(acc, ns, n - 1); if ns[n - 1] =~= s_sha256() { r.push(1int) } else if ns[n - 1] =~= s_sha1() { r.push(0int) } else { r } }
}
pub open spec fn emails(acc: Seq<int>, ns: Seq<Seq<u8>>, n: int) -> Seq<int> decreases n { if n <= 0 || n > ns.len() { acc } else { let r = emails(acc, ns, n - 1); if ns[n - 1] =~= s_email() { r.push(0int) } else { r } } }
pub open spec fn any_star(ns: Seq<Seq<u8>>, n: int) -> bool decreases n { n > 0 && n <= ns.len() && (ns[n - 1] =~= s_star() || any_star(ns, n - 1)) }
pub proof fn lemma_any_star(ns: Seq<Seq<u8>>, k: int, n: int) requires 0 <= k <= n <= ns.len(), any_star(ns, k) ensures any_star(ns, n) decreases n { if k < n { lemma_any_star(ns, k, n - 1); } }
pub open spec fn services(acc: Seq<int>, v: Seq<u8>) -> Seq<int> { let ns = names(v).items; if any_star(ns, ns.len() as int) { Seq::<int>::empty() } else { emails(acc, ns, ns.len() as int) } }
pub open spec fn key_type(o: int, m: Map<Seq<u8>, DKIM_TagListEntry>) -> int { if !tag_in(m, tag_k()) { o } else if tv(m, tag_k()) =~= s_rsa() { 0 } else { 1 } }
pub open spec fn key_data(m: Map<Seq<u8>, DKIM_TagListEntry>) -> Seq<u8> { b64_dec(str_without_space(tv(m, tag_p()))) }
pub open spec fn key_bad(o: DKIM_PublicKey, m: Map<Seq<u8>, DKIM_TagListEntry>) -> bool {
    ||| tag_in(m, tag_v()) && !(tv(m, tag_v()) =~= s_dkim1())
    ||| tag_in(m, tag_h()) && (tv(m, tag_h()).len() == 0 || names(tv(m, tag_h())).bad || hash_algs(o.m_digestAlgorithms, names(tv(m, tag_h())).items, names(tv(m, tag_h())).items.len() as int).len() == 0)
    ||| tag_in(m, tag_k()) && !(tv(m, tag_k()) =~= s_rsa()) && !(tv(m, tag_k()) =~= s_ed25519())
    ||| !tag_in(m, tag_p()) || tv(m, tag_p()).len() == 0
    ||| key_type(o.m_signatureAlgorithm, m) == 0 && (pubkey_of_der(key_data(m)) == 0 || (pkey_type(pubkey_of_der(key_data(m))) != 6 && pkey_type(pubkey_of_der(key_data(m))) != 19))
    ||| key_type(o.m_signatureAlgorithm, m) == 1 && key_data(m).len() != 32
    ||| tag_in(m, tag_s()) && (tv(m, tag_s()).len() == 0 || names(tv(m, tag_s())).bad || (!any_star(names(tv(m, tag_s())).items, names(tv(m, tag_s())).items.len() as int) && emails(o.m_serviceType, names(tv(m, tag_s())).items, names(tv(m, tag_s())).items.len() as int).len() == 0))
    ||| tag_in(m, tag_t()) && names(tv(m, tag_t())).bad
}
pub open spec fn key_of(o: DKIM_PublicKey, m: Map<Seq<u8>, DKIM_TagListEntry>) -> DKIM_PublicKey {
    let kt = key_type(o.m_signatureAlgorithm, m);
    DKIM_PublicKey {
        m_tagList: DKIM_TagList { m_tags: m },
        m_digestAlgorithms: if tag_in(m, tag_h()) { hash_algs(o.m_digestAlgorithms, names(tv(m, tag_h())).items, names(tv(m, tag_h())).items.len() as int) } else { o.m_digestAlgorithms },
        m_publicKeyRSA: if kt == 0 { rsa_of(pubkey_of_der(key_data(m))) } else { o.m_publicKeyRSA },
        m_publicKeyED25519: if kt == 1 { key_data(m) } else { o.m_publicKeyED25519 },
        m_signatureAlgorithm: kt,
        m_serviceType: if tag_in(m, tag_s()) { services(o.m_serviceType, tv(m, tag_s())) } else { o.m_serviceType },
        m_flags: if tag_in(m, tag_t()) { names(tv(m, tag_t())).items } else { o.m_flags },
    }
}
pub open spec fn key_new() -> DKIM_PublicKey {
    DKIM_PublicKey { m_tagList: DKIM_TagList { m_tags: Map::<Seq<u8>, DKIM_TagListEntry>::empty() }, m_digestAlgorithms: Seq::<int>::empty(), m_publicKeyRSA: 0, m_publicKeyED25519: Seq::<u8>::empty(), m_signatureAlgorithm: 0, m_serviceType: Seq::<int>::empty(), m_flags: Seq::<Seq<u8>>::empty() }
}
/// the key a verification needs is there
pub open spec fn key_usable(k: DKIM_PublicKey) -> bool { (k.m_signatureAlgorithm == 0 && k.m_publicKeyRSA != 0) || (k.m_signatureAlgorithm == 1 && k.m_publicKeyED25519.len() == 32) }
