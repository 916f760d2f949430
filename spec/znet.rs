// ---------------------------------------------------------------------------------------------
// C12: DNS answers
// ---------------------------------------------------------------------------------------------
pub open spec fn le16(d: Seq<u8>, p: int) -> int { d[p] as int + 256 * (d[p + 1] as int) }
pub open spec fn be16(d: Seq<u8>, p: int) -> int { 256 * (d[p] as int) + d[p + 1] as int }
pub open spec fn swap16(x: int) -> int { 256 * (x % 256) + (x / 256) % 256 }
pub proof fn lemma_be16(d: Seq<u8>, p: int) ensures swap16(le16(d, p)) == be16(d, p) { }
/// length of the compressed domain name at p in the packet of n bytes, or -1 (dn_skipname)
pub uninterp spec fn skip_name(d: Seq<u8>, p: int, n: int) -> int;
pub open spec fn skip_len(d: Seq<u8>, p: int, n: int) -> int { let r = skip_name(d, p, n); if r >= 0 && p + r <= n { r } else { -1 } }
pub struct QSkip { pub p: int, pub done: bool }
/// position after k question entries, or where a malformed name stops the skipping
pub open spec fn q_skip(d: Seq<u8>, p: int, n: int, k: int) -> QSkip decreases k {
    if k <= 0 { QSkip { p: p, done: true } } else { let s = skip_len(d, p, n); if s < 0 { QSkip { p: p, done: false } } else { q_skip(d, p + s + 4, n, k - 1) } }
}
/// character-strings of TXT data d[p..p+left); a string that does not fit ends the record
pub open spec fn txt(d: Seq<u8>, p: int, left: int) -> Seq<u8> decreases left {
    if left <= 0 || d[p] as int >= left { Seq::<u8>::empty() } else { d.subrange(p + 1, p + 1 + d[p] as int) + txt(d, p + 1 + d[p] as int, left - 1 - d[p] as int) }
}
pub struct Ans { pub ok: bool, pub text: Seq<u8> }
/// TXT text of k resource records from p on, after acc
pub open spec fn ans_scan(d: Seq<u8>, p: int, n: int, k: int, acc: Seq<u8>) -> Ans decreases k {
    if k <= 0 { Ans { ok: true, text: acc } } else {
        let s = skip_len(d, p, n); let q = p + s;
        if s < 0 { Ans { ok: true, text: acc } }
        else if q + 10 > n { Ans { ok: false, text: acc } }
        else {
            let rd = be16(d, q + 8);
            if q + 10 + rd > n { Ans { ok: false, text: acc } }
            else { ans_scan(d, q + 10 + rd, n, k - 1, if be16(d, q) == 16 { acc + txt(d, q + 10, rd) } else { acc }) }
        }
    }
}
/// what the resolver makes of an answer: n < 0 is a failed query with error code herr
pub open spec fn dns_result(n: int, d: Seq<u8>, herr: int, acc: Seq<u8>) -> Ans {
    if n < 0 { Ans { ok: herr == 1 || herr == 3 || herr == 4, text: acc } }
    else if n > 65536 { Ans { ok: false, text: acc } }
    else { let q = q_skip(d, 12, n, be16(d, 4)); if q.done { ans_scan(d, q.p, n, be16(d, 6), acc) } else { Ans { ok: true, text: acc } } }
}
