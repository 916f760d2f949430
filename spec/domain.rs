// ---------------------------------------------------------------------------------------------
// C19: domains and selectors
// ---------------------------------------------------------------------------------------------
pub open spec fn is_alnum(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 }
pub open spec fn label_ok(s: Seq<u8>) -> bool {
    s.len() > 0 && is_alnum(s[0]) && is_alnum(s.last()) && forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) || s[i] == 45
}
/// the labels from p on, split at every '.'
pub open spec fn domain_ok(d: Seq<u8>, p: int) -> bool decreases d.len() - p {
    if p < 0 || p > d.len() { false }
    else if p <= idx_from(d, 46, p) < d.len() { label_ok(d.subrange(p, idx_from(d, 46, p))) && domain_ok(d, idx_from(d, 46, p) + 1) }
    else { label_ok(d.subrange(p, d.len() as int)) }
}
pub open spec fn alnum_lit() -> Seq<u8> { seq![97u8, 98u8, 99u8, 100u8, 101u8, 102u8, 103u8, 104u8, 105u8, 106u8, 107u8, 108u8, 109u8, 110u8, 111u8, 112u8, 113u8, 114u8, 115u8, 116u8, 117u8, 118u8, 119u8, 120u8, 121u8, 122u8, 65u8, 66u8, 67u8, 68u8, 69u8, 70u8, 71u8, 72u8, 73u8, 74u8, 75u8, 76u8, 77u8, 78u8, 79u8, 80u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub open spec fn alnum_dash_lit() -> Seq<u8> { alnum_lit().push(45u8) }
pub open spec fn alnum_chk(n: int) -> bool decreases 256 - n {
    n >= 256 || ((idx_from(alnum_lit(), n as u8, 0) < 62 <==> is_alnum(n as u8)) && (idx_from(alnum_dash_lit(), n as u8, 0) < 63 <==> is_alnum(n as u8) || n == 45) && alnum_chk(n + 1))
}
pub proof fn lemma_alnum_chk(n: int, c: int)
    requires alnum_chk(n), 0 <= n <= c < 256
    ensures idx_from(alnum_lit(), c as u8, 0) < 62 <==> is_alnum(c as u8), idx_from(alnum_dash_lit(), c as u8, 0) < 63 <==> is_alnum(c as u8) || c == 45,
    decreases 256 - n
{ if n < c { lemma_alnum_chk(n + 1, c); } }
pub proof fn lemma_alnum_set()
    ensures forall|c: u8| (#[trigger] idx_from(alnum_lit(), c, 0)) < 62 <==> is_alnum(c), alnum_lit().len() == 62,
        forall|c: u8| (#[trigger] idx_from(alnum_dash_lit(), c, 0)) < 63 <==> is_alnum(c) || c == 45, alnum_dash_lit().len() == 63,
{
    assert(alnum_chk(0)) by(compute_only);
    assert forall|c: u8| (#[trigger] idx_from(alnum_lit(), c, 0)) < 62 <==> is_alnum(c) by { lemma_alnum_chk(0, c as int); }
    assert forall|c: u8| (#[trigger] idx_from(alnum_dash_lit(), c, 0)) < 63 <==> is_alnum(c) || c == 45 by { lemma_alnum_chk(0, c as int); }
}
