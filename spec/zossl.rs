// ---------------------------------------------------------------------------------------------
// Contracts of OpenSSL and libsodium (trusted)
// ---------------------------------------------------------------------------------------------
/// digest of the data; alg is the NID (64 SHA-1, 672 SHA-256)
pub uninterp spec fn digest(alg: int, data: Seq<u8>) -> Seq<u8>;
pub open spec fn digest_len(alg: int) -> int { if alg == 64 { 20 } else { 32 } }
pub uninterp spec fn rsa_verify(key: int, nid: int, m: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn rsa_sign(key: int, nid: int, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn rsa_size(key: int) -> int;
/// whether the signing primitive succeeds
pub uninterp spec fn rsa_sign_ok(key: int, nid: int, m: Seq<u8>) -> bool;
pub uninterp spec fn ed25519_sign_ok(sk: Seq<u8>, m: Seq<u8>) -> bool;
pub uninterp spec fn ed25519_verify(pk: Seq<u8>, m: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn ed25519_sign(sk: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
/// the key a DER SubjectPublicKeyInfo holds (0 when it holds none), its type, its RSA key
pub uninterp spec fn pubkey_of_der(d: Seq<u8>) -> int;
pub uninterp spec fn pkey_type(k: int) -> int;
pub uninterp spec fn rsa_of(k: int) -> int;
/// the private key of a PEM text, the RSA key of a DER RSAPrivateKey (0 when there is none), the secret key of a seed
pub uninterp spec fn pem_pkey(t: Seq<u8>) -> int;
pub uninterp spec fn rsapriv_of_der(d: Seq<u8>) -> int;
pub uninterp spec fn ed25519_sk_of_seed(s: Seq<u8>) -> Seq<u8>;
pub open spec fn s_dashes() -> Seq<u8> { seq![45u8, 45u8, 45u8, 45u8, 45u8] }
pub open spec fn is_pem(t: Seq<u8>) -> bool { t.len() >= 5 && t.subrange(0, 5) == s_dashes() }
pub open spec fn private_rsa(t: Seq<u8>) -> int { if is_pem(t) { rsa_of(pem_pkey(t)) } else { rsapriv_of_der(b64_dec(t)) } }
pub open spec fn private_rsa_bad(t: Seq<u8>) -> bool { if is_pem(t) { pem_pkey(t) == 0 || (pkey_type(pem_pkey(t)) != 6 && pkey_type(pem_pkey(t)) != 19) } else { rsapriv_of_der(b64_dec(t)) == 0 } }
pub open spec fn ed25519_secret(t: Seq<u8>) -> Seq<u8> { if t.len() == 64 { t } else { ed25519_sk_of_seed(t) } }
pub open spec fn private_ed25519(t: Seq<u8>) -> Seq<u8> { if t.len() == 64 || t.len() == 32 { ed25519_secret(t) } else { ed25519_secret(b64_dec(t)) } }
pub open spec fn private_key_bad(alg: int, t: Seq<u8>) -> bool { if alg == 0 { private_rsa_bad(t) } else { t.len() != 64 && t.len() != 32 && b64_dec(t).len() != 64 && b64_dec(t).len() != 32 } }
// ---- C library
/// where strtol/strtoul stops reading
pub open spec fn digits_end(s: Seq<u8>, i: int, base: int) -> int decreases s.len() - i { if is_digit_in(s, i, base) { digits_end(s, i + 1, base) } else { i } }
pub open spec fn num_stop(s: Seq<u8>, base: int) -> int { if is_digit_in(s, num_start(s, base), base) { digits_end(s, num_start(s, base), base) } else { 0 } }
pub proof fn lemma_str_compare(a: Seq<u8>, b: Seq<u8>)
    ensures str_compare(a, b) == 0 <==> a =~= b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_str_compare(a.drop_first(), b.drop_first());
        if a.drop_first() =~= b.drop_first() { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); } } assert(a =~= b); }
    }
}
// ---------------------------------------------------------------------------------------------
// C16: Base64
// ---------------------------------------------------------------------------------------------
pub open spec fn b64_chr(v: int) -> u8 { if v < 26 { (65 + v) as u8 } else if v < 52 { (71 + v) as u8 } else if v < 62 { (v - 4) as u8 } else if v == 62 { 43 } else { 47 } }
pub open spec fn b64_val(c: u8) -> int { if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 71 } else if 48 <= c <= 57 { c + 4 } else if c == 43 { 62 } else if c == 47 { 63 } else { -1 } }
pub open spec fn b64_enc1(a: int) -> Seq<u8> { seq![b64_chr(a / 4), b64_chr(a % 4 * 16), 61u8, 61u8] }
pub open spec fn b64_enc2(a: int, b: int) -> Seq<u8> { seq![b64_chr(a / 4), b64_chr(a % 4 * 16 + b / 16), b64_chr(b % 16 * 4), 61u8] }
pub open spec fn b64_enc3(a: int, b: int, c: int) -> Seq<u8> { seq![b64_chr(a / 4), b64_chr(a % 4 * 16 + b / 16), b64_chr(b % 16 * 4 + c / 64), b64_chr(c % 64)] }
/// the one-line encoding with the standard alphabet
pub open spec fn b64_enc(d: Seq<u8>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else if d.len() == 1 { b64_enc1(d[0] as int) } else if d.len() == 2 { b64_enc2(d[0] as int, d[1] as int) }
    else { b64_enc3(d[0] as int, d[1] as int, d[2] as int) + b64_enc(d.subrange(3, d.len() as int)) }
}
/// decoding of one group of four
pub open spec fn b64_dec4(s: Seq<u8>, p: int) -> Seq<u8> {
    let v0 = b64_val(s[p]); let v1 = b64_val(s[p + 1]); let v2 = b64_val(s[p + 2]); let v3 = b64_val(s[p + 3]);
    if s[p + 2] == 61 { seq![(v0 * 4 + v1 / 16) as u8] } else if s[p + 3] == 61 { seq![(v0 * 4 + v1 / 16) as u8, (v1 % 16 * 16 + v2 / 4) as u8] }
    else { seq![(v0 * 4 + v1 / 16) as u8, (v1 % 16 * 16 + v2 / 4) as u8, (v2 % 4 * 64 + v3) as u8] }
}
/// p on: complete groups of alphabet characters, only the last one padded
pub open spec fn b64_ok(s: Seq<u8>, p: int) -> bool decreases s.len() - p {
    if p < 0 || p >= s.len() { p == s.len() }
    else { p + 4 <= s.len() && b64_val(s[p]) >= 0 && b64_val(s[p + 1]) >= 0 && (b64_val(s[p + 2]) >= 0 || (s[p + 2] == 61 && s[p + 3] == 61 && p + 4 == s.len()))
        && (b64_val(s[p + 3]) >= 0 || (s[p + 3] == 61 && p + 4 == s.len())) && b64_ok(s, p + 4) }
}
pub open spec fn b64_dec_from(s: Seq<u8>, p: int) -> Seq<u8> decreases s.len() - p { if p < 0 || p + 4 > s.len() { Seq::empty() } else { b64_dec4(s, p) + b64_dec_from(s, p + 4) } }
/// what the OpenSSL base64 BIO delivers: RFC 4648 for well-formed text, unspecified otherwise
pub uninterp spec fn bio_b64_dec_other(s: Seq<u8>, nonl: bool) -> Seq<u8>;
pub uninterp spec fn bio_b64_enc_lines(d: Seq<u8>) -> Seq<u8>;
pub open spec fn bio_b64_dec(s: Seq<u8>, nonl: bool) -> Seq<u8> { if nonl && b64_ok(s, 0) { b64_dec_from(s, 0) } else if bio_b64_dec_other(s, nonl).len() <= s.len() { bio_b64_dec_other(s, nonl) } else { Seq::empty() } }
pub proof fn lemma_b64_dec_len(s: Seq<u8>, p: int) requires 0 <= p <= s.len() ensures b64_dec_from(s, p).len() <= s.len() - p decreases s.len() - p { if p + 4 <= s.len() { lemma_b64_dec_len(s, p + 4); } }
pub proof fn lemma_bio_len(s: Seq<u8>, nonl: bool) ensures bio_b64_dec(s, nonl).len() <= s.len() { lemma_b64_dec_len(s, 0); }
pub open spec fn bio_b64_enc(d: Seq<u8>, nonl: bool) -> Seq<u8> { if nonl { b64_enc(d) } else { bio_b64_enc_lines(d) } }
pub open spec fn b64_dec(s: Seq<u8>) -> Seq<u8> { bio_b64_dec(s, true) }
pub open spec fn b64_char(c: u8) -> bool { b64_val(c) >= 0 || c == 61 }
pub proof fn lemma_b64_chr(v: int)
    requires 0 <= v < 64
    ensures b64_val(b64_chr(v)) == v, b64_chr(v) != 61, b64_chr(v) != 10
{}
pub proof fn lemma_b64_enc(d: Seq<u8>, pre: Seq<u8>)
    ensures b64_ok(pre + b64_enc(d), pre.len() as int), b64_dec_from(pre + b64_enc(d), pre.len() as int) =~= d, b64_enc(d).len() == (d.len() + 2) / 3 * 4,
        forall|i: int| 0 <= i < b64_enc(d).len() ==> b64_char(#[trigger] b64_enc(d)[i]) && b64_enc(d)[i] != 10,
    decreases d.len()
{
    let s = pre + b64_enc(d); let p = pre.len() as int; let e = b64_enc(d);
    if d.len() > 0 {
        let a = d[0] as int; let b = if d.len() > 1 { d[1] as int } else { 0 }; let c = if d.len() > 2 { d[2] as int } else { 0 };
        lemma_b64_chr(a / 4); lemma_b64_chr(a % 4 * 16 + b / 16); lemma_b64_chr(b % 16 * 4 + c / 64); lemma_b64_chr(c % 64); lemma_b64_chr(a % 4 * 16); lemma_b64_chr(b % 16 * 4);
        if d.len() >= 3 {
            let g = b64_enc3(a, b, c); let r = d.subrange(3, d.len() as int);
            lemma_b64_enc(r, pre + g);
            assert(pre + g + b64_enc(r) =~= s);
            assert(s[p] == g[0] && s[p + 1] == g[1] && s[p + 2] == g[2] && s[p + 3] == g[3]);
            assert(b64_dec4(s, p) =~= d.subrange(0, 3));
            assert(d =~= d.subrange(0, 3) + r);
            assert forall|i: int| 0 <= i < e.len() implies b64_char(#[trigger] e[i]) && e[i] != 10 by { if i < 4 { assert(e[i] == g[i]); } else { assert(e[i] == b64_enc(r)[i - 4]); } }
        } else {
            assert(e.len() == 4); assert(s[p] == e[0] && s[p + 1] == e[1] && s[p + 2] == e[2] && s[p + 3] == e[3]);
            assert(b64_dec4(s, p) =~= d); assert(b64_ok(s, p + 4)); assert(b64_dec_from(s, p + 4) =~= Seq::<u8>::empty());
        }
    }
}
/// decoding the encoding gives the data back
pub proof fn thm_b64_inverse(d: Seq<u8>)
    ensures b64_dec(b64_enc(d)) == d, b64_enc(d).len() == (d.len() + 2) / 3 * 4, forall|i: int| 0 <= i < b64_enc(d).len() ==> b64_char(#[trigger] b64_enc(d)[i]) && b64_enc(d)[i] != 10
{ lemma_b64_enc(d, Seq::empty()); assert(Seq::<u8>::empty() + b64_enc(d) =~= b64_enc(d)); }
