// ---------------------------------------------------------------------------------------------
// Model of the C++ standard library operations (trusted: these are the contracts of the library).
// ---------------------------------------------------------------------------------------------
pub open spec fn NPOS() -> int { 18446744073709551615 }
pub open spec fn s8(x: int) -> int { if x % 256 < 128 { x % 256 } else { x % 256 - 256 } }
pub open spec fn b8(x: int) -> u8 { (x % 256) as u8 }
pub open spec fn cast_i32(x: int) -> int { if x % 0x1_0000_0000 < 0x8000_0000 { x % 0x1_0000_0000 } else { x % 0x1_0000_0000 - 0x1_0000_0000 } }
pub open spec fn cast_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn cast_u16(x: int) -> int { x % 0x1_0000 }
pub open spec fn cast_u64(x: int) -> int { if 0 <= x <= NPOS() { x } else { x % 0x1_0000_0000_0000_0000 } }
pub open spec fn cast_i64(x: int) -> int { if -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 { x } else if x % 0x1_0000_0000_0000_0000 < 0x8000_0000_0000_0000 { x % 0x1_0000_0000_0000_0000 } else { x % 0x1_0000_0000_0000_0000 - 0x1_0000_0000_0000_0000 } }
pub open spec fn u64_add(a: int, b: int) -> int { if a + b > NPOS() { a + b - 0x1_0000_0000_0000_0000 } else { a + b } }
pub open spec fn u64_sub(a: int, b: int) -> int { if a - b < 0 { a - b + 0x1_0000_0000_0000_0000 } else { a - b } }
pub open spec fn u64_mul(a: int, b: int) -> int { (a * b) % 0x1_0000_0000_0000_0000 }
pub open spec fn u32_add(a: int, b: int) -> int { if a + b >= 0x1_0000_0000 { a + b - 0x1_0000_0000 } else { a + b } }
pub open spec fn u32_sub(a: int, b: int) -> int { if a - b < 0 { a - b + 0x1_0000_0000 } else { a - b } }
pub open spec fn u32_mul(a: int, b: int) -> int { (a * b) % 0x1_0000_0000 }
pub uninterp spec fn bit_and(a: int, b: int) -> int;
pub uninterp spec fn bit_or(a: int, b: int) -> int;
pub uninterp spec fn bit_xor(a: int, b: int) -> int;
pub uninterp spec fn bit_shl(a: int, b: int) -> int;
pub uninterp spec fn bit_shr(a: int, b: int) -> int;

// ---- C character classification in the "C" locale
pub open spec fn c_tolower(x: int) -> int { if 65 <= x <= 90 { x + 32 } else { x } }
pub open spec fn c_toupper(x: int) -> int { if 97 <= x <= 122 { x - 32 } else { x } }
pub open spec fn c_isdigit(x: int) -> int { if 48 <= x <= 57 { 1 } else { 0 } }
pub open spec fn c_isupper(x: int) -> int { if 65 <= x <= 90 { 1 } else { 0 } }
pub open spec fn c_islower(x: int) -> int { if 97 <= x <= 122 { 1 } else { 0 } }
pub open spec fn c_isalpha(x: int) -> int { if 65 <= x <= 90 || 97 <= x <= 122 { 1 } else { 0 } }
pub open spec fn c_isalnum(x: int) -> int { if 65 <= x <= 90 || 97 <= x <= 122 || 48 <= x <= 57 { 1 } else { 0 } }
pub open spec fn c_isspace(x: int) -> int { if 9 <= x <= 13 || x == 32 { 1 } else { 0 } }
pub open spec fn c_isxdigit(x: int) -> int { if 48 <= x <= 57 || 65 <= x <= 70 || 97 <= x <= 102 { 1 } else { 0 } }
pub open spec fn c_isprint(x: int) -> int { if 32 <= x <= 126 { 1 } else { 0 } }
pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn upper(c: u8) -> u8 { if 97 <= c <= 122 { (c - 32) as u8 } else { c } }
pub open spec fn lower_seq(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
pub open spec fn upper_seq(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| upper(s[i])) }
pub open spec fn map_range_tolower(s: Seq<u8>, a: int, b: int) -> Seq<u8> { Seq::new(s.len(), |i: int| if a <= i < b { lower(s[i]) } else { s[i] }) }
pub open spec fn map_range_toupper(s: Seq<u8>, a: int, b: int) -> Seq<u8> { Seq::new(s.len(), |i: int| if a <= i < b { upper(s[i]) } else { s[i] }) }

// ---- std::string
/// first index in [p, len) holding c, or len
pub open spec fn idx_from(s: Seq<u8>, c: u8, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { s.len() as int } else if s[p] == c { p } else { idx_from(s, c, p + 1) }
}
pub open spec fn find_idx(s: Seq<u8>, c: u8) -> int { idx_from(s, c, 0) }
pub open spec fn str_find_char(s: Seq<u8>, c: u8, p: int) -> int { if 0 <= p && idx_from(s, c, p) < s.len() { idx_from(s, c, p) } else { NPOS() } }
pub open spec fn in_set(set: Seq<u8>, c: u8) -> bool { idx_from(set, c, 0) < set.len() }
pub open spec fn not_of_from(s: Seq<u8>, set: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { NPOS() } else if !in_set(set, s[p]) { p } else { not_of_from(s, set, p + 1) }
}
pub open spec fn str_find_first_not_of(s: Seq<u8>, set: Seq<u8>, p: int) -> int { not_of_from(s, set, p) }
pub open spec fn of_from(s: Seq<u8>, set: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { NPOS() } else if in_set(set, s[p]) { p } else { of_from(s, set, p + 1) }
}
pub open spec fn str_find_first_of(s: Seq<u8>, set: Seq<u8>, p: int) -> int { of_from(s, set, p) }
/// last index <= p (and < len) holding a byte outside set, or npos
pub open spec fn last_not_of(s: Seq<u8>, set: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 || n > s.len() { NPOS() } else if !in_set(set, s[n - 1]) { n - 1 } else { last_not_of(s, set, n - 1) }
}
pub open spec fn str_find_last_not_of(s: Seq<u8>, set: Seq<u8>, p: int) -> int { last_not_of(s, set, if p + 1 <= s.len() { p + 1 } else { s.len() as int }) }
pub open spec fn last_of(s: Seq<u8>, set: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 || n > s.len() { NPOS() } else if in_set(set, s[n - 1]) { n - 1 } else { last_of(s, set, n - 1) }
}
pub open spec fn str_find_last_of(s: Seq<u8>, set: Seq<u8>, p: int) -> int { last_of(s, set, if p + 1 <= s.len() { p + 1 } else { s.len() as int }) }
pub open spec fn match_at(s: Seq<u8>, t: Seq<u8>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) =~= t }
pub open spec fn find_str_from(s: Seq<u8>, t: Seq<u8>, p: int) -> int decreases s.len() - p + 1 {
    if p < 0 || p > s.len() { NPOS() } else if match_at(s, t, p) { p } else { find_str_from(s, t, p + 1) }
}
pub open spec fn str_find(s: Seq<u8>, t: Seq<u8>, p: int) -> int { find_str_from(s, t, p) }
pub proof fn lemma_idx_from(s: Seq<u8>, c: u8, p: int)
    ensures 0 <= p <= s.len() ==> p <= idx_from(s, c, p) <= s.len(),
        0 <= idx_from(s, c, p) <= s.len(),
        idx_from(s, c, p) < s.len() ==> s[idx_from(s, c, p)] == c,
        forall|i: int| 0 <= p <= i < idx_from(s, c, p) ==> #[trigger] s[i] != c,
    decreases s.len() - p
{ if 0 <= p < s.len() && s[p] != c { lemma_idx_from(s, c, p + 1); } }
pub proof fn lemma_str_find_char(s: Seq<u8>, c: u8, p: int)
    requires s.len() < NPOS()
    ensures ({ let r = str_find_char(s, c, p); 
        &&& r == NPOS() || (0 <= p <= r < s.len() && s[r] == c)
        &&& r == NPOS() && p >= 0 ==> forall|i: int| p <= i < s.len() ==> #[trigger] s[i] != c
        &&& r != NPOS() ==> forall|i: int| p <= i < r ==> #[trigger] s[i] != c })
{ lemma_idx_from(s, c, p); }
pub proof fn lemma_str_find(s: Seq<u8>, t: Seq<u8>, p: int)
    requires s.len() < NPOS()
    ensures ({ let r = str_find(s, t, p); 
        &&& r == NPOS() || (0 <= p <= r && r + t.len() <= s.len() && match_at(s, t, r))
        &&& r == NPOS() && p >= 0 ==> forall|i: int| p <= i <= s.len() ==> !match_at(s, t, i)
        &&& r != NPOS() ==> forall|i: int| p <= i < r ==> !match_at(s, t, i) })
    decreases s.len() - p + 1
{ if 0 <= p <= s.len() && !match_at(s, t, p) { lemma_str_find(s, t, p + 1); } }
pub proof fn lemma_str_find_first_not_of(s: Seq<u8>, set: Seq<u8>, p: int)
    requires s.len() < NPOS()
    ensures ({ let r = str_find_first_not_of(s, set, p); 
        &&& r == NPOS() || (0 <= p <= r < s.len() && !in_set(set, s[r]))
        &&& r == NPOS() && p >= 0 ==> forall|i: int| p <= i < s.len() ==> in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| p <= i < r ==> in_set(set, #[trigger] s[i]) })
    decreases s.len() - p
{ if 0 <= p < s.len() && in_set(set, s[p]) { lemma_str_find_first_not_of(s, set, p + 1); } }
pub proof fn lemma_str_find_first_of(s: Seq<u8>, set: Seq<u8>, p: int)
    requires s.len() < NPOS()
    ensures ({ let r = str_find_first_of(s, set, p); 
        &&& r == NPOS() || (0 <= p <= r < s.len() && in_set(set, s[r]))
        &&& r == NPOS() && p >= 0 ==> forall|i: int| p <= i < s.len() ==> !in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| p <= i < r ==> !in_set(set, #[trigger] s[i]) })
    decreases s.len() - p
{ if 0 <= p < s.len() && !in_set(set, s[p]) { lemma_str_find_first_of(s, set, p + 1); } }
pub proof fn lemma_last_not_of(s: Seq<u8>, set: Seq<u8>, n: int)
    requires s.len() < NPOS()
    ensures ({ let r = last_not_of(s, set, n); 
        &&& r == NPOS() || (0 <= r < n <= s.len() && !in_set(set, s[r]))
        &&& r == NPOS() && n <= s.len() ==> forall|i: int| 0 <= i < n ==> in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| r < i < n ==> in_set(set, #[trigger] s[i]) })
    decreases n
{ if 0 < n <= s.len() && in_set(set, s[n - 1]) { lemma_last_not_of(s, set, n - 1); } }
pub proof fn lemma_str_find_last_not_of(s: Seq<u8>, set: Seq<u8>, p: int)
    requires s.len() < NPOS(), p >= 0
    ensures ({ let r = str_find_last_not_of(s, set, p); let n = if p + 1 <= s.len() { p + 1 } else { s.len() as int };
        &&& r == NPOS() || (0 <= r < n && !in_set(set, s[r]))
        &&& r == NPOS() ==> forall|i: int| 0 <= i < n ==> in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| r < i < n ==> in_set(set, #[trigger] s[i]) })
{ lemma_last_not_of(s, set, if p + 1 <= s.len() { p + 1 } else { s.len() as int }); }
pub proof fn lemma_last_of(s: Seq<u8>, set: Seq<u8>, n: int)
    requires s.len() < NPOS()
    ensures ({ let r = last_of(s, set, n); 
        &&& r == NPOS() || (0 <= r < n <= s.len() && in_set(set, s[r]))
        &&& r == NPOS() && n <= s.len() ==> forall|i: int| 0 <= i < n ==> !in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| r < i < n ==> !in_set(set, #[trigger] s[i]) })
    decreases n
{ if 0 < n <= s.len() && !in_set(set, s[n - 1]) { lemma_last_of(s, set, n - 1); } }
pub proof fn lemma_str_find_last_of(s: Seq<u8>, set: Seq<u8>, p: int)
    requires s.len() < NPOS(), p >= 0
    ensures ({ let r = str_find_last_of(s, set, p); let n = if p + 1 <= s.len() { p + 1 } else { s.len() as int };
        &&& r == NPOS() || (0 <= r < n && in_set(set, s[r]))
        &&& r == NPOS() ==> forall|i: int| 0 <= i < n ==> !in_set(set, #[trigger] s[i])
        &&& r != NPOS() ==> forall|i: int| r < i < n ==> !in_set(set, #[trigger] s[i]) })
{ lemma_last_of(s, set, if p + 1 <= s.len() { p + 1 } else { s.len() as int }); }
/// substr(p, n), 0 <= p <= len required
pub open spec fn str_substr(s: Seq<u8>, p: int, n: int) -> Seq<u8> { s.subrange(p, if n < s.len() - p { p + n } else { s.len() as int }) }
/// erase(p, n), 0 <= p <= len required
pub open spec fn str_erase(s: Seq<u8>, p: int, n: int) -> Seq<u8> { s.subrange(0, p) + s.subrange(if n < s.len() - p { p + n } else { s.len() as int }, s.len() as int) }
pub proof fn lemma_erase_tail(k: Seq<u8>, t: Seq<u8>) ensures str_erase(k + t, k.len() as int, (k + t).len() - k.len()) == k, str_erase(k + t, k.len() as int, NPOS()) == k || t.len() > NPOS() { assert(str_erase(k + t, k.len() as int, (k + t).len() - k.len()) =~= k); if t.len() <= NPOS() { assert(str_erase(k + t, k.len() as int, NPOS()) =~= k); } }
/// n bytes starting at c_str(), n <= len + 1 required
pub open spec fn str_read(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.subrange(0, n) } else { s.push(0u8) } }
pub proof fn lemma_str_read(s: Seq<u8>, n: int) ensures n == s.len() ==> str_read(s, n) == s, 0 <= n <= s.len() ==> str_read(s, n).len() == n { if n == s.len() { assert(s.subrange(0, n) =~= s); } }
/// the C string starting at c_str()
pub open spec fn cstr(s: Seq<u8>) -> Seq<u8> { s.subrange(0, idx_from(s, 0u8, 0)) }
/// what vsnprintf stores in a buffer of n bytes
pub open spec fn printed_in(t: Seq<u8>, n: int) -> Seq<u8> { if n <= 0 { Seq::<u8>::empty() } else if t.len() < n { t.push(0u8) } else { t.subrange(0, n - 1).push(0u8) } }
pub proof fn lemma_printed(b: Seq<u8>, o: int, t: Seq<u8>, n: int)
    requires 0 <= o, o + printed_in(t, n).len() <= b.len()
    ensures n > t.len() ==> cstr(buf_write(b, o, printed_in(t, n)).subrange(o, b.len() as int)) == cstr(t)
        && (o == 0 ==> cstr(buf_write(b, o, printed_in(t, n))) == cstr(t))
        && (idx_from(buf_write(b, o, printed_in(t, n)).subrange(o, b.len() as int), 0u8, 0) < b.len() - o)
{
    if n > t.len() {
        let w = printed_in(t, n); let c = buf_write(b, o, w); let s = c.subrange(o, b.len() as int); if o == 0 { assert(s =~= c); }
        assert(w == t.push(0u8)); assert(c.len() == b.len());
        assert(s.subrange(0, w.len() as int) =~= w);
        assert forall|i: int| 0 <= i < t.len() implies s[i] == t[i] by { assert(s.subrange(0, w.len() as int)[i] == w[i]); }
        assert(s[t.len() as int] == 0u8) by { assert(s.subrange(0, w.len() as int)[t.len() as int] == w[t.len() as int]); }
        lemma_idx_from(s, 0u8, 0); lemma_idx_from(t, 0u8, 0);
        let i = idx_from(s, 0u8, 0); let j = idx_from(t, 0u8, 0);
        if i < j { assert(t[i] != 0u8); } if j < i { if j < t.len() { assert(s[j] != 0u8); } else { assert(s[t.len() as int] != 0u8); } }
        assert(cstr(s) =~= cstr(t));
    }
}
pub open spec fn repeat_u8(c: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
pub open spec fn str_resize(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.subrange(0, n) } else { s + repeat_u8(0u8, n - s.len()) } }
pub open spec fn str_without(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == c { str_without(s.drop_last(), c) } else { str_without(s.drop_last(), c).push(s.last()) }
}
pub open spec fn is_space_byte(c: u8) -> bool { 9 <= c <= 13 || c == 32 }
pub open spec fn str_without_space(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if is_space_byte(s.last()) { str_without_space(s.drop_last()) } else { str_without_space(s.drop_last()).push(s.last()) }
}
pub open spec fn str_compare(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } } else if b.len() == 0 { 1 } else if a[0] < b[0] { -1 } else if a[0] > b[0] { 1 } else { str_compare(a.drop_first(), b.drop_first()) }
}
pub open spec fn seq_rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// n bytes written at p (unchanged elsewhere)
pub open spec fn buf_write(s: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if p <= i < p + b.len() { b[i - p] } else { s[i] }) }

// ---- containers
pub open spec fn seq_find<T>(s: Seq<T>, x: T) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == x { 0 } else { 1 + seq_find(s.drop_first(), x) }
}
pub proof fn lemma_seq_find<T>(s: Seq<T>, x: T)
    ensures 0 <= seq_find(s, x) <= s.len(), seq_find(s, x) < s.len() ==> s[seq_find(s, x)] == x,
        seq_find(s, x) == s.len() ==> !s.contains(x),
        s.contains(x) <==> seq_find(s, x) < s.len(),
        forall|i: int| 0 <= i < seq_find(s, x) ==> #[trigger] s[i] != x,
    decreases s.len()
{
    if s.len() > 0 && s[0] != x {
        lemma_seq_find(s.drop_first(), x);
        assert forall|i: int| 0 <= i < seq_find(s, x) implies #[trigger] s[i] != x by { if i > 0 { assert(s.drop_first()[i - 1] != x); } }
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(s.drop_first()[k - 1] == x); }
    }
}
pub open spec fn seq_remove_all<T>(s: Seq<T>, x: T) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == x { seq_remove_all(s.drop_last(), x) } else { seq_remove_all(s.drop_last(), x).push(s.last()) }
}
/// effect of operator[] on a map: default element inserted when the key is absent
pub open spec fn map_touch<T>(m: Map<Seq<u8>, T>, k: Seq<u8>, d: T) -> Map<Seq<u8>, T> { if m.dom().contains(k) { m } else { m.insert(k, d) } }

// ---- input streams over a seekable buffer without read errors
pub struct SS { pub d: Seq<u8>, pub pos: int, pub eof: bool, pub fail: bool }
pub open spec fn ss_wf(s: SS) -> bool { 0 <= s.pos <= s.d.len() && ((s.eof || s.fail) ==> s.pos == s.d.len()) && s.d.len() < 0x7fff_ffff_ffff_ffff }
pub open spec fn ss_new(d: Seq<u8>) -> SS { SS { d: d, pos: 0, eof: false, fail: false } }
pub open spec fn ss_at(s: SS, p: int) -> SS { SS { pos: p, ..s } }
/// next byte as int, or EOF
pub open spec fn ss_pk(s: SS) -> int { if s.eof || s.fail || s.pos >= s.d.len() || s.pos < 0 { -1 } else { s.d[s.pos] as int } }
pub open spec fn ss_peeked(s: SS) -> SS { if s.eof || s.fail { SS { fail: true, ..s } } else if s.pos >= s.d.len() { SS { eof: true, ..s } } else { s } }
pub open spec fn ss_get(s: SS) -> SS { if s.eof || s.fail { SS { fail: true, ..s } } else if s.pos >= s.d.len() { SS { eof: true, fail: true, ..s } } else { SS { pos: s.pos + 1, ..s } } }
pub open spec fn ss_tellg(s: SS) -> int { if s.eof || s.fail { -1 } else { s.pos } }
pub open spec fn ss_good(s: SS) -> bool { !s.eof && !s.fail }
pub open spec fn ss_clear(s: SS) -> SS { SS { eof: false, fail: false, ..s } }
pub open spec fn ss_putback(s: SS) -> SS { SS { pos: s.pos - 1, eof: false, ..s } }
pub open spec fn ss_seek(s: SS, p: int) -> SS { SS { pos: p, eof: false, ..s } }
/// number of bytes read(buf, n) delivers
pub open spec fn ss_avail(s: SS, n: int) -> int { if s.eof || s.fail { 0 } else if s.d.len() - s.pos < n { s.d.len() - s.pos } else { n } }
pub open spec fn ss_read(s: SS, n: int) -> SS {
    if s.eof || s.fail { SS { fail: true, ..s } } else if s.d.len() - s.pos < n { SS { pos: s.d.len() as int, eof: true, fail: true, ..s } } else { SS { pos: s.pos + n, ..s } }
}
/// std::getline: the line at the current position, without its LF
pub open spec fn ss_line(s: SS) -> Seq<u8> { if s.eof || s.fail { Seq::<u8>::empty() } else { s.d.subrange(s.pos, idx_from(s.d, 10u8, s.pos)) } }
pub open spec fn ss_line_ok(s: SS) -> bool { !s.eof && !s.fail && s.pos < s.d.len() }
pub open spec fn ss_getline(s: SS) -> SS {
    if s.eof || s.fail { SS { fail: true, ..s } }
    else if s.pos >= s.d.len() { SS { eof: true, fail: true, ..s } }
    else if idx_from(s.d, 10u8, s.pos) < s.d.len() { SS { pos: idx_from(s.d, 10u8, s.pos) + 1, ..s } }
    else { SS { pos: s.d.len() as int, eof: true, ..s } }
}
// ---- printf %lu / %ld
pub open spec fn dec_nat(n: int) -> Seq<u8> decreases n {
    if n < 10 { seq![(48 + n) as u8] } else { dec_nat(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn dec_str(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + dec_nat(-n) } else { dec_nat(n) } }
