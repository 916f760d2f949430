// ---------------------------------------------------------------------------------------------
// strtol / strtoul
// ---------------------------------------------------------------------------------------------
pub open spec fn digit_val(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 90 { c - 55 } else if 97 <= c <= 122 { c - 87 } else { 99 } }
pub open spec fn is_digit_in(s: Seq<u8>, i: int, base: int) -> bool { 0 <= i < s.len() && digit_val(s[i]) < base }
/// value of the digits from i on, continuing acc
pub open spec fn digits_val(s: Seq<u8>, i: int, base: int, acc: int) -> int decreases s.len() - i {
    if is_digit_in(s, i, base) { digits_val(s, i + 1, base, acc * base + digit_val(s[i])) } else { acc }
}
pub open spec fn space_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && is_space_byte(s[i]) { space_end(s, i + 1) } else { i } }
pub open spec fn num_neg(s: Seq<u8>) -> bool { at(s, space_end(s, 0), 45) }
pub open spec fn num_start(s: Seq<u8>, base: int) -> int {
    let i = space_end(s, 0); let j = if at(s, i, 45) || at(s, i, 43) { i + 1 } else { i };
    if base == 16 && at(s, j, 48) && (at(s, j + 1, 120) || at(s, j + 1, 88)) && is_digit_in(s, j + 2, 16) { j + 2 } else { j }
}
pub open spec fn num_mag(s: Seq<u8>, base: int) -> int { digits_val(s, num_start(s, base), base, 0) }
pub open spec fn strtoul_overflow(s: Seq<u8>, base: int) -> bool { num_mag(s, base) > NPOS() }
pub open spec fn strtoul_val(s: Seq<u8>, base: int) -> int { if strtoul_overflow(s, base) { NPOS() } else if num_neg(s) && num_mag(s, base) > 0 { NPOS() + 1 - num_mag(s, base) } else { num_mag(s, base) } }
pub open spec fn strtol_signed(s: Seq<u8>, base: int) -> int { if num_neg(s) { -num_mag(s, base) } else { num_mag(s, base) } }
pub open spec fn strtol_overflow(s: Seq<u8>, base: int) -> bool { !(-0x8000_0000_0000_0000 <= strtol_signed(s, base) <= 0x7fff_ffff_ffff_ffff) }
pub open spec fn strtol_val(s: Seq<u8>, base: int) -> int { if strtol_signed(s, base) < -0x8000_0000_0000_0000 { -0x8000_0000_0000_0000 } else if strtol_signed(s, base) > 0x7fff_ffff_ffff_ffff { 0x7fff_ffff_ffff_ffff } else { strtol_signed(s, base) } }
// ---------------------------------------------------------------------------------------------
// C15: quoted-printable
// ---------------------------------------------------------------------------------------------
pub open spec fn is_hexu(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 }
pub open spec fn qp_safe(c: u8) -> bool { 0x21 <= c <= 0x7e && c != 0x3b && c != 0x3d }
pub open spec fn hex2(a: u8, b: u8) -> u8 { (digit_val(a) * 16 + digit_val(b)) as u8 }
pub struct Scan { pub out: Seq<u8>, pub bad: bool }
pub open spec fn qp_dec(d: Seq<u8>, p: int, word: bool, acc: Seq<u8>) -> Scan decreases d.len() - p {
    if p < 0 || p >= d.len() { Scan { out: acc, bad: false } }
    else if word && d[p] == 95 { qp_dec(d, p + 1, word, acc.push(32u8)) }
    else if d[p] == 61 { if p + 2 < d.len() && is_hexu(d[p + 1]) && is_hexu(d[p + 2]) { qp_dec(d, p + 3, word, acc.push(hex2(d[p + 1], d[p + 2]))) } else { Scan { out: acc, bad: true } } }
    else if qp_safe(d[p]) { qp_dec(d, p + 1, word, acc.push(d[p])) }
    else if !fws_throws(d, p) && p < fws_end(d, p) <= d.len() { qp_dec(d, fws_end(d, p), word, acc) }
    else { Scan { out: acc, bad: true } }
}
pub proof fn lemma_hex2(a: u8, b: u8)
    requires is_hexu(a), is_hexu(b)
    ensures strtol_val(seq![a].push(b), 16) == digit_val(a) * 16 + digit_val(b), strtol_val(cstr(seq![a].push(b)), 16) == digit_val(a) * 16 + digit_val(b), cstr(seq![a].push(b)) =~= seq![a, b]
{
    let s = seq![a].push(b); let t = cstr(s);
    assert(idx_from(s, 0u8, 2) == 2); assert(idx_from(s, 0u8, 1) == 2); assert(idx_from(s, 0u8, 0) == 2);
    assert(t =~= s);
    assert(space_end(s, 0) == 0); 
    assert(digits_val(s, 2, 16, digit_val(a) * 16 + digit_val(b)) == digit_val(a) * 16 + digit_val(b));
    assert(digits_val(s, 1, 16, digit_val(a)) == digits_val(s, 2, 16, digit_val(a) * 16 + digit_val(b)));
    assert(digits_val(s, 0, 16, 0) == digits_val(s, 1, 16, digit_val(a)));
}
pub open spec fn hexdig(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
/// encoding of one byte / of the first n bytes
pub open spec fn qp_enc1(c: u8) -> Seq<u8> { if qp_safe(c) { seq![c] } else { seq![61u8, hexdig(c as int / 16), hexdig(c as int % 16)] } }
pub open spec fn qp_enc(s: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { qp_enc(s, n - 1) + qp_enc1(s[n - 1]) } }
pub open spec fn qp_tab_chk(t: Seq<int>, n: int) -> bool decreases 256 - n { n >= 256 || ((t[n] == 1 <==> qp_safe(n as u8)) && qp_tab_chk(t, n + 1)) }
pub proof fn lemma_qp_tab(t: Seq<int>, n: int)
    requires qp_tab_chk(t, n), 0 <= n
    ensures forall|k: int| n <= k < 256 ==> (#[trigger] t[k] == 1 <==> qp_safe(k as u8))
    decreases 256 - n
{ if n < 256 { lemma_qp_tab(t, n + 1); } }
/// decoding the encoding gives the string back (text mode), and the encoding is safe text
pub proof fn lemma_qp_roundtrip(s: Seq<u8>, n: int, t: Seq<u8>)
    requires 0 <= n <= s.len()
    ensures qp_dec(qp_enc(s, n) + t, 0, false, Seq::empty()) == qp_dec(qp_enc(s, n) + t, qp_enc(s, n).len() as int, false, s.subrange(0, n)),
        forall|i: int| 0 <= i < qp_enc(s, n).len() ==> 0x21 <= #[trigger] qp_enc(s, n)[i] <= 0x7e && qp_enc(s, n)[i] != 0x3b,
    decreases n
{
    if n > 0 {
        let e = qp_enc1(s[n - 1]); let c = s[n - 1];
        lemma_qp_roundtrip(s, n - 1, e + t);
        assert(qp_enc(s, n) + t =~= qp_enc(s, n - 1) + (e + t));
        let d = qp_enc(s, n) + t; let p = qp_enc(s, n - 1).len() as int;
        assert(s.subrange(0, n) =~= s.subrange(0, n - 1).push(c));
        if qp_safe(c) { assert(d[p] == c); }
        else {
            assert(d[p] == 61u8 && d[p + 1] == hexdig(c as int / 16) && d[p + 2] == hexdig(c as int % 16));
            assert(hex2(d[p + 1], d[p + 2]) == c);
        }
    } else { assert(s.subrange(0, 0) =~= Seq::<u8>::empty()); }
}
pub proof fn thm_qp_inverse(s: Seq<u8>)
    ensures qp_dec(qp_enc(s, s.len() as int), 0, false, Seq::empty()) == (Scan { out: s, bad: false })
{
    let e = qp_enc(s, s.len() as int);
    lemma_qp_roundtrip(s, s.len() as int, Seq::empty());
    assert(e + Seq::<u8>::empty() =~= e); assert(s.subrange(0, s.len() as int) =~= s);
}
