// Text encodings: hex, c32, base58.
pub open spec fn hexv(c: u8) -> int {
    if 48 <= c <= 57 { c as int - 48 } else if 97 <= c <= 102 { c as int - 87 } else if 65 <= c <= 70 { c as int - 55 } else { -1 }
}
pub open spec fn hex_ok(b: Seq<u8>) -> bool { b.len() % 2 == 0 && forall|i: int| 0 <= i < b.len() ==> hexv(#[trigger] b[i]) >= 0 }
pub open spec fn unhex(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len() / 2, |i: int| (hexv(b[2 * i]) * 16 + hexv(b[2 * i + 1])) as u8) }
pub open spec fn hex(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |i: int| if i % 2 == 0 { hexd(b[i / 2] as int / 16) } else { hexd(b[i / 2] as int % 16) }) }

/// C08: hex decoding of the hex encoding gives the bytes back
pub proof fn theorem_hex_roundtrip(b: Seq<u8>) ensures hex_ok(sb(hex(b))), unhex(sb(hex(b))) =~= b {
    let s = hex(b);
    assert forall|i: int| 0 <= i < s.len() implies is_ascii_char(#[trigger] s[i]) by { lemma_hexd(b[i / 2] as int / 16); lemma_hexd(b[i / 2] as int % 16); }
    lemma_ascii_sb(s);
    assert forall|i: int| 0 <= i < s.len() implies hexv(#[trigger] sb(s)[i]) == (if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 }) by {
        lemma_hexd(b[i / 2] as int / 16); lemma_hexd(b[i / 2] as int % 16);
        assert(sb(s)[i] == s[i] as u8);
    }
    assert forall|i: int| 0 <= i < b.len() implies unhex(sb(s))[i] == b[i] by {
        assert(hexv(sb(s)[2 * i]) == b[i] as int / 16);
        assert(hexv(sb(s)[2 * i + 1]) == b[i] as int % 16);
    }
}
pub open spec fn is_ascii_char(c: char) -> bool { (c as u32) < 128 }
pub proof fn lemma_hexd(n: int) requires 0 <= n < 16 ensures is_ascii_char(hexd(n)), hexv(hexd(n) as u8) == n {
    let d = hexd(n);
    if n < 10 { assert(d as u32 == 48 + n); } else { assert(d as u32 == 87 + n); }
}
/// the UTF-8 bytes of ASCII text are its character codes
pub proof fn lemma_ascii_sb(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_ascii_char(#[trigger] s[i])
    ensures sb(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] sb(s)[i] == s[i] as u8, is_ascii_chars(s)
{
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
}

// ---- c32
/// digit value of a c32 character, -1 if it has none (either case; O is 0, I and L are 1)
pub open spec fn c32v(c: int) -> int {
    if 48 <= c <= 57 { c - 48 }
    else if 97 <= c <= 122 { c32u(c - 32) } else { c32u(c) }
}
pub open spec fn c32u(c: int) -> int {
    if 65 <= c <= 72 { c - 55 } else if c == 73 || c == 76 { 1 } else if c == 74 { 18 } else if c == 75 { 19 }
    else if c == 77 { 20 } else if c == 78 { 21 } else if c == 79 { 0 } else if 80 <= c <= 84 { c - 58 }
    else if 86 <= c <= 90 { c - 59 } else { -1 }
}
/// character of a c32 digit
pub open spec fn c32c(d: int) -> u8 {
    if d < 10 { (48 + d) as u8 } else if d < 18 { (55 + d) as u8 } else if d == 18 { 74 } else if d == 19 { 75 }
    else if d == 20 { 77 } else if d == 21 { 78 } else if d < 27 { (58 + d) as u8 } else { (59 + d) as u8 }
}
pub proof fn lemma_c32cv(d: int) requires 0 <= d < 32 ensures c32v(c32c(d) as int) == d, c32c(d) < 128 {}
pub open spec fn c32ds(b: Seq<u8>) -> Seq<int> { Seq::new(b.len(), |i: int| c32v(b[i] as int)) }
pub open spec fn c32_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> c32v(#[trigger] b[i] as int) >= 0 }
/// the c32 text of bytes: base-32 numeral with one '0' per leading zero byte
pub open spec fn c32_enc(b: Seq<u8>) -> Seq<u8> { let d = conv(256, 32, ints(b)); Seq::new(d.len(), |i: int| c32c(d[i])) }
pub open spec fn c32_dec(t: Seq<u8>) -> Seq<u8> { let d = conv(32, 256, c32ds(t)); Seq::new(d.len(), |i: int| d[i] as u8) }
pub proof fn lemma_c32ds(t: Seq<u8>) requires c32_ok(t) ensures digs(32, c32ds(t)) {
    assert forall|i: int| 0 <= i < c32ds(t).len() implies 0 <= #[trigger] c32ds(t)[i] < 32 by { assert(c32v(t[i] as int) >= 0); }
}
/// C05: decoding an encoding gives the bytes back; the encoding is over the alphabet
pub proof fn theorem_c32_roundtrip(b: Seq<u8>) ensures c32_ok(c32_enc(b)), c32_dec(c32_enc(b)) =~= b, forall|i: int| 0 <= i < c32_enc(b).len() ==> #[trigger] c32_enc(b)[i] < 128 {
    lemma_ints_digs(b);
    let d = conv(256, 32, ints(b));
    lemma_conv(256, 32, ints(b));
    let t = c32_enc(b);
    assert forall|i: int| 0 <= i < t.len() implies c32v(#[trigger] t[i] as int) == d[i] && t[i] < 128 by { assert(0 <= d[i] < 32); lemma_c32cv(d[i]); }
    assert(c32ds(t) =~= d);
    let r = conv(32, 256, d);
    assert(r =~= ints(b));
    assert(c32_dec(t) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies c32_dec(t)[i] == b[i] by { assert(r[i] == b[i] as int); } }
}
pub proof fn lemma_c32_dec(t: Seq<u8>) requires c32_ok(t) ensures ints(c32_dec(t)) =~= conv(32, 256, c32ds(t)) {
    lemma_c32ds(t); lemma_conv(32, 256, c32ds(t));
    let d = conv(32, 256, c32ds(t));
    assert forall|i: int| 0 <= i < d.len() implies ints(c32_dec(t))[i] == d[i] by { assert(0 <= d[i] < 256); }
}
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
/// ASCII bytes are valid UTF-8
pub proof fn lemma_ascii_valid(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 ensures valid_utf8(b), sb(chars_of(b)) =~= b {
    let s = chars_of(b);
    assert forall|i: int| 0 <= i < s.len() implies is_ascii_char(#[trigger] s[i]) by { assert(b[i] < 128); }
    lemma_ascii_sb(s);
    assert forall|i: int| 0 <= i < b.len() implies sb(s)[i] == b[i] by { assert(b[i] < 128); assert(sb(s)[i] == s[i] as u8); }
    assert(sb(s) =~= b);
    encode_utf8_valid_utf8(s);
}
// repacking of bits: digits of base 2^p, least significant first, into digits of base 2^q
pub proof fn lemma_pwpw(p: nat, n: nat) ensures pw(pw(2, p), n) == pw(2, p * n) decreases n {
    if n == 0 { assert(p * 0 == 0); } else {
        lemma_pwpw(p, (n - 1) as nat);
        assert(p * n == p + p * (n - 1)) by (nonlinear_arith);
        lemma_pw_add(2, p, (p * (n - 1)) as nat);
    }
}
pub proof fn lemma_pw2()
    ensures pw(2, 0) == 1, pw(2, 1) == 2, pw(2, 2) == 4, pw(2, 3) == 8, pw(2, 4) == 16, pw(2, 5) == 32, pw(2, 6) == 64, pw(2, 7) == 128, pw(2, 8) == 256,
        pw(2, 9) == 512, pw(2, 10) == 1024, pw(2, 11) == 2048, pw(2, 12) == 4096, pw(2, 13) == 8192
{ reveal_with_fuel(pw, 15); }
/// the digits s read so far (n of them), the digits e written so far, and `bits` pending bits of value `buff`
pub open spec fn packed(p: nat, q: nat, s: Seq<int>, n: int, e: Seq<int>, buff: int, bits: int) -> bool {
    &&& 0 <= n <= s.len() && bits >= 0 && p * n == q * e.len() + bits
    &&& 0 <= buff < pw(2, bits as nat)
    &&& lev(pw(2, p), s.take(n)) == lev(pw(2, q), e) + buff * pw(pw(2, q), e.len())
    &&& digs(pw(2, q), e)
}
pub proof fn lemma_packed_init(p: nat, q: nat, s: Seq<int>) ensures packed(p, q, s, 0, seq![], 0, 0) {
    assert(s.take(0) =~= Seq::<int>::empty()); assert(p * 0 == 0); assert(q * 0 == 0);
    assert(0 * pw(pw(2, q), 0) == 0);
    assert(lev(pw(2, p), s.take(0)) == 0);
}
pub proof fn lemma_packed_read(p: nat, q: nat, s: Seq<int>, n: int, e: Seq<int>, buff: int, bits: int)
    requires packed(p, q, s, n, e, buff, bits), n < s.len(), digs(pw(2, p), s)
    ensures packed(p, q, s, n + 1, e, buff + s[n] * pw(2, bits as nat), bits + p)
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    lemma_lev_push(pw(2, p), s.take(n), s[n]);
    lemma_pwpw(p, n as nat); lemma_pwpw(q, e.len());
    lemma_pw_add(2, (q * e.len()) as nat, bits as nat);
    let (x, d, w) = (s[n], pw(2, bits as nat), pw(2, (q * e.len()) as nat));
    assert(x * (w * d) + buff * w == (buff + x * d) * w) by (nonlinear_arith);
    lemma_pw_add(2, bits as nat, p);
    let c = pw(2, p);
    assert(0 <= x < c);
    lemma_pw_pos(2, bits as nat);
    assert(0 <= buff + x * d < d * c) by (nonlinear_arith) requires 0 <= buff < d, 0 <= x < c;
    assert(p * (n + 1) == p * n + p) by (nonlinear_arith);
}
pub proof fn lemma_packed_write(p: nat, q: nat, s: Seq<int>, n: int, e: Seq<int>, buff: int, bits: int)
    requires packed(p, q, s, n, e, buff, bits), bits >= q
    ensures packed(p, q, s, n, e.push(buff % pw(2, q)), buff / pw(2, q), bits - q)
{
    let c = pw(2, q); let x = buff % c; let y = buff / c; let w = pw(c, e.len());
    lemma_pw_pos(2, q);
    assert(buff == c * y + x && 0 <= x < c && 0 <= y) by (nonlinear_arith) requires buff >= 0, c > 0, x == buff % c, y == buff / c;
    lemma_lev_push(c, e, x);
    assert(x * w + y * (c * w) == (c * y + x) * w) by (nonlinear_arith);
    assert(pw(c, (e.len() + 1) as nat) == c * w);
    let d = pw(2, (bits - q) as nat);
    lemma_pw_add(2, q, (bits - q) as nat);
    assert(y < d) by (nonlinear_arith) requires c * y + x < c * d, x >= 0, c > 0;
    let f = e.push(x);
    assert(q * f.len() == q * e.len() + q) by (nonlinear_arith) requires f.len() == e.len() + 1;
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < c by { if i < e.len() { assert(f[i] == e[i]); } }
}
/// at the end the pending bits are the last digit
pub proof fn lemma_packed_end(p: nat, q: nat, s: Seq<int>, e: Seq<int>, buff: int, bits: int)
    requires packed(p, q, s, s.len() as int, e, buff, bits), bits < q
    ensures 0 <= buff < pw(2, q), bits == 0 ==> buff == 0, lev(pw(2, p), s) == lev(pw(2, q), e) + buff * pw(pw(2, q), e.len()), lev(pw(2, q), e.push(buff)) == lev(pw(2, p), s), digs(pw(2, q), e.push(buff)),
        bits == 0 ==> lev(pw(2, q), e) == lev(pw(2, p), s)
{
    assert(s.take(s.len() as int) =~= s);
    lemma_lev_push(pw(2, q), e, buff);
    lemma_pw_add(2, bits as nat, (q - bits) as nat);
    lemma_pw_pos(2, bits as nat); lemma_pw_pos(2, (q - bits) as nat);
    let (c, d) = (pw(2, bits as nat), pw(2, (q - bits) as nat));
    assert(c <= c * d) by (nonlinear_arith) requires c > 0, d > 0;
    if bits == 0 { assert(pw(2, 0) == 1); assert(0 * pw(pw(2, q), e.len()) == 0); }
    let f = e.push(buff);
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < pw(2, q) by { if i < e.len() { assert(f[i] == e[i]); } }
}
/// dropping a most significant zero keeps the value
pub proof fn lemma_lev_drop0(b: int, s: Seq<int>) requires s.len() > 0, s.last() == 0 ensures lev(b, s.drop_last()) == lev(b, s) {
    assert(s =~= s.drop_last().push(0));
    lemma_lev_push(b, s.drop_last(), 0);
    assert(0 * pw(b, s.drop_last().len()) == 0);
}
/// canonical c32 characters
pub open spec fn c32_can(c: u8) -> bool { 0 <= c32v(c as int) < 32 && c == c32c(c32v(c as int)) && c < 128 }
pub open spec fn c32_txt(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> c32_can(#[trigger] b[i]) }
pub proof fn lemma_c32_push(b: Seq<u8>, d: int) requires c32_txt(b), 0 <= d < 32 ensures c32_txt(b.push(c32c(d))), c32ds(b.push(c32c(d))) == c32ds(b).push(d) {
    lemma_c32cv(d);
    assert(c32ds(b.push(c32c(d))) =~= c32ds(b).push(d));
}
pub open spec fn rep(c: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| c) }
/// the written digits, reversed, with the leading zeros, are the encoding
pub proof fn lemma_c32_result(b: Seq<u8>, base: Seq<u8>, out: Seq<u8>)
    requires c32_txt(base), lev(32, c32ds(base)) == bev(256, ints(b)), base.len() > 0 ==> c32ds(base).last() != 0, out == rev(base + rep(48, lz(ints(b))))
    ensures out =~= c32_enc(b), valid_utf8(out)
{
    let e = c32ds(base);
    assert(digs(32, e)) by { assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] e[i] < 32 by { assert(c32_can(base[i])); } }
    lemma_led_lev(32, e);
    let d = conv(256, 32, ints(b));
    let k = lz(ints(b));
    assert(d == zeros(k) + rev(e));
    assert(out.len() == d.len());
    assert forall|i: int| 0 <= i < out.len() implies out[i] == c32c(d[i]) && out[i] < 128 by {
        if i < k { assert(out[i] == 48); assert(d[i] == 0); } else {
            let j = base.len() - 1 - (i - k);
            assert(out[i] == base[j]); assert(d[i] == e[j]); assert(c32_can(base[j]));
        }
    }
    lemma_ascii_valid(out);
}
/// text whose bytes are all below 128 is ASCII, and its characters are those bytes
pub proof fn lemma_bytes_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < sb(s).len() ==> #[trigger] sb(s)[i] < 128
    ensures s =~= chars_of(sb(s)), is_ascii_chars(s), s.len() == sb(s).len()
{
    let b = sb(s);
    lemma_ascii_valid(b);
    encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(chars_of(b));
    let c = chars_of(b);
    assert forall|i: int| 0 <= i < c.len() implies is_ascii_char(#[trigger] c[i]) by { assert(b[i] < 128); }
    lemma_ascii_sb(c);
}
pub open spec fn below128(t: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]) < 128 }
/// a text is ASCII exactly when its bytes are all below 128
pub proof fn lemma_ascii_iff(s: Seq<char>) ensures is_ascii_chars(s) <==> below128(sb(s)) {
    if below128(sb(s)) { lemma_bytes_ascii(s); }
    if is_ascii_chars(s) { is_ascii_chars_encode_utf8(s); }
}
/// and such bytes are always a text
pub proof fn lemma_ascii_text(b: Seq<u8>)
    ensures forall|i: int, j: int| 0 <= i <= j <= b.len() ==> (below128(#[trigger] b.subrange(i, j)) <==> valid_utf8(b.subrange(i, j)) && is_ascii_chars(decode_utf8(b.subrange(i, j))))
{
    assert forall|i: int, j: int| 0 <= i <= j <= b.len() implies (below128(#[trigger] b.subrange(i, j)) <==> valid_utf8(b.subrange(i, j)) && is_ascii_chars(decode_utf8(b.subrange(i, j)))) by {
        let t = b.subrange(i, j);
        if below128(t) { lemma_ascii_valid(t); }
        if valid_utf8(t) { decode_utf8_encode_utf8(t); lemma_ascii_iff(decode_utf8(t)); }
    }
}
pub proof fn lemma_sb_inj(s: Seq<char>, t: Seq<char>) requires sb(s) == sb(t) ensures s == t { encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(t); }
pub proof fn lemma_c32_result2(t: Seq<u8>, base: Seq<u8>, out: Seq<u8>)
    requires c32_ok(t), lev(256, ints(base)) == bev(32, c32ds(t)), base.len() > 0 ==> base.last() != 0, out == rev(base + rep(0, lz(c32ds(t))))
    ensures out =~= c32_dec(t)
{
    let e = ints(base);
    lemma_ints_digs(base);
    if e.len() > 0 { assert(e.last() == base.last() as int); }
    lemma_led_lev(256, e);
    let d = conv(32, 256, c32ds(t));
    let k = lz(c32ds(t));
    assert(d == zeros(k) + rev(e));
    assert(out.len() == d.len());
    assert forall|i: int| 0 <= i < out.len() implies out[i] == d[i] as u8 by {
        if i < k { assert(out[i] == 0); assert(d[i] == 0); } else {
            let j = base.len() - 1 - (i - k);
            assert(out[i] == base[j]); assert(d[i] == e[j]);
        }
    }
}
pub proof fn lemma_c32_one(c: u8) requires c32v(c as int) >= 0 ensures c32_dec(seq![c]) =~= seq![c32v(c as int) as u8] {
    let t = seq![c]; let v = c32v(c as int); let s = c32ds(t);
    assert(s =~= seq![v]);
    assert(rev(s) =~= s);
    reveal_with_fuel(lev, 2); reveal_with_fuel(lz, 2); reveal_with_fuel(led, 3);
    assert(s.drop_first() =~= seq![]);
    assert(bev(32, s) == v);
    if v == 0 { assert(conv(32, 256, s) =~= seq![0int]); } else {
        assert(v % 256 == v && v / 256 == 0);
        assert(led(256, v) =~= seq![v]);
        assert(conv(32, 256, s) =~= seq![v]);
    }
}
/// after a leading ASCII byte and at both ends there are character boundaries
pub proof fn lemma_boundary1(s: Seq<char>) requires sb(s).len() > 0, sb(s)[0] < 128 ensures is_char_boundary(sb(s), 0), is_char_boundary(sb(s), 1), is_char_boundary(sb(s), sb(s).len() as int) {
    let t = sb(s);
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(t);
    reveal_with_fuel(is_char_boundary, 3);
    if t.len() > 1 { is_char_boundary_iff_is_leading_byte(t, 1); }
}
pub proof fn lemma_first_char(s: Seq<char>) requires s.len() > 0, sb(s).len() > 0, sb(s)[0] < 128 ensures s[0] == sb(s)[0] as char {
    let t = sb(s);
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
    let c = t[0]; assert(c < 128 ==> c & 0x7f == c) by (bit_vector);
    assert(decode_utf8(t)[0] == t[0] as char);
}

// ---- base58
pub open spec fn b58v(c: int) -> int {
    if 49 <= c <= 57 { c - 49 } else if 65 <= c <= 72 { c - 56 } else if 74 <= c <= 78 { c - 57 } else if 80 <= c <= 90 { c - 58 }
    else if 97 <= c <= 107 { c - 64 } else if 109 <= c <= 122 { c - 65 } else { -1 }
}
pub open spec fn b58c(d: int) -> u8 {
    (if d < 9 { d + 49 } else if d < 17 { d + 56 } else if d < 22 { d + 57 } else if d < 33 { d + 58 } else if d < 44 { d + 64 } else { d + 65 }) as u8
}
pub proof fn lemma_b58cv(d: int) requires 0 <= d < 58 ensures b58v(b58c(d) as int) == d, b58c(d) < 128 {}
pub open spec fn b58ds(s: Seq<char>) -> Seq<int> { Seq::new(s.len(), |i: int| b58v(s[i] as int)) }
pub open spec fn b58_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> b58v(#[trigger] s[i] as int) >= 0 }
/// base-58 numeral with one '1' per leading zero byte
pub open spec fn b58_enc(b: Seq<u8>) -> Seq<char> { let d = conv(256, 58, ints(b)); Seq::new(d.len(), |i: int| b58c(d[i]) as char) }
pub open spec fn b58_dec(s: Seq<char>) -> Seq<u8> { let d = conv(58, 256, b58ds(s)); Seq::new(d.len(), |i: int| d[i] as u8) }
pub proof fn lemma_b58ds(s: Seq<char>) requires b58_ok(s) ensures digs(58, b58ds(s)) {
    assert forall|i: int| 0 <= i < b58ds(s).len() implies 0 <= #[trigger] b58ds(s)[i] < 58 by { assert(b58v(s[i] as int) >= 0); }
}
/// C07: decoding an encoding gives the bytes back
pub proof fn theorem_b58_roundtrip(b: Seq<u8>) ensures b58_ok(b58_enc(b)), b58_dec(b58_enc(b)) =~= b {
    lemma_ints_digs(b);
    let d = conv(256, 58, ints(b));
    lemma_conv(256, 58, ints(b));
    let t = b58_enc(b);
    assert forall|i: int| 0 <= i < t.len() implies b58v(#[trigger] t[i] as int) == d[i] by { assert(0 <= d[i] < 58); lemma_b58cv(d[i]); }
    assert(b58ds(t) =~= d);
    let r = conv(58, 256, d);
    assert(r =~= ints(b));
    assert(b58_dec(t) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies b58_dec(t)[i] == b[i] by { assert(r[i] == b[i] as int); } }
}
pub open spec fn fits58(r: nat) -> bool { pw(58, r) <= pw(256, (r * 733 / 1000 + 1) as nat) }
pub open spec fn fits58_all(r: nat) -> bool decreases r { fits58(r) && (r == 0 || fits58_all((r - 1) as nat)) }
pub proof fn lemma_fits_small(r: nat) requires r <= 70 ensures fits58(r) {
    assert(fits58_all(70)) by (compute);
    lemma_fits_get(70, r);
}
proof fn lemma_fits_get(n: nat, r: nat) requires fits58_all(n), r <= n ensures fits58(r) decreases n { if r < n { lemma_fits_get((n - 1) as nat, r); } }
/// n base-58 digits fit in n*733/1000+1 bytes
pub proof fn lemma_fits(n: nat) ensures pw(58, n) <= pw(256, (n * 733 / 1000 + 1) as nat) decreases n {
    if n <= 70 { lemma_fits_small(n); } else {
        let m = (n - 71) as nat;
        lemma_fits(m);
        assert(pw(58, 71) <= pw(256, 52)) by (compute);
        lemma_pw_add(58, m, 71);
        let k = (m * 733 / 1000 + 1) as nat;
        lemma_pw_add(256, k, 52);
        lemma_pw_pos(58, 71); lemma_pw_pos(58, m);
        let (a, b, c, d) = (pw(58, m), pw(58, 71), pw(256, k), pw(256, 52));
        assert(a * b <= c * d) by (nonlinear_arith) requires 0 < a <= c, 0 < b <= d;
        let e = (n * 733 / 1000 + 1) as nat;
        assert(k + 52 <= e);
        lemma_pw_le(256, k + 52, e);
    }
}
pub proof fn lemma_pw_le(b: int, m: nat, n: nat) requires b >= 1, m <= n ensures pw(b, m) <= pw(b, n) {
    lemma_pw_add(b, m, (n - m) as nat); lemma_pw_pos(b, m); lemma_pw_pos(b, (n - m) as nat);
    let (x, y) = (pw(b, m), pw(b, (n - m) as nat));
    assert(x <= x * y) by (nonlinear_arith) requires x > 0, y > 0;
}
/// every character takes at least one byte
pub proof fn lemma_sb_len(s: Seq<char>) ensures s.len() <= sb(s).len(), s.len() == 0 <==> sb(s).len() == 0 decreases s.len() {
    if s.len() > 0 {
        let (a, r) = (seq![s[0]], s.skip(1));
        assert(s =~= a + r);
        encode_utf8_concat(a, r);
        lemma_sb_len(r);
        if sb(a).len() == 0 { encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(seq![]); assert(sb(a) =~= sb(seq![])); }
    }
}
