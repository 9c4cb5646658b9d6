@default C01 C02 C03 C04
@raw cv
/// abstract Clarity values
pub enum V {
    Int(int), UInt(int), Buf(Seq<u8>), True, False, Std(Seq<char>), Con(Seq<char>, Seq<char>),
    Ok(Box<V>), Err(Box<V>), Some(Box<V>), None, List(Seq<V>), Tup(Seq<(Seq<char>, V)>), Ascii(Seq<char>), Utf8(Seq<char>),
    Name(Seq<char>), Args(Seq<V>),
}
/// 1-byte length and the text
pub open spec fn lps(n: Seq<char>) -> Seq<u8> { seq![sb(n).len() as u8] + sb(n) }
/// SIP-005 consensus bytes
pub open spec fn ser(v: V) -> Seq<u8> decreases v {
    match v {
        V::Int(x) => seq![0u8] + be(twos128(x), 16),
        V::UInt(x) => seq![1u8] + be(x, 16),
        V::Buf(b) => seq![2u8] + be(b.len() as int, 4) + b,
        V::True => seq![3u8],
        V::False => seq![4u8],
        V::Std(a) => seq![5u8] + seq![addr_ver(sb(a))] + addr_hash(sb(a)),
        V::Con(a, n) => seq![6u8] + seq![addr_ver(sb(a))] + addr_hash(sb(a)) + lps(n),
        V::Ok(x) => seq![7u8] + ser(*x),
        V::Err(x) => seq![8u8] + ser(*x),
        V::None => seq![9u8],
        V::Some(x) => seq![10u8] + ser(*x),
        V::List(s) => seq![11u8] + be(s.len() as int, 4) + ser_l(s),
        V::Tup(s) => seq![12u8] + be(s.len() as int, 4) + ser_t(s),
        V::Ascii(s) => seq![13u8] + be(sb(s).len() as int, 4) + sb(s),
        V::Utf8(s) => seq![14u8] + be(sb(s).len() as int, 4) + sb(s),
        V::Name(s) => lps(s),
        V::Args(s) => be(s.len() as int, 4) + ser_l(s),
    }
}
pub open spec fn ser_l(s: Seq<V>) -> Seq<u8> decreases s { if s.len() == 0 { seq![] } else { ser_l(s.drop_last()) + ser(s.last()) } }
pub open spec fn ser_t(s: Seq<(Seq<char>, V)>) -> Seq<u8> decreases s { if s.len() == 0 { seq![] } else { ser_t(s.drop_last()) + lps(s.last().0) + ser(s.last().1) } }
/// values that have a consensus encoding
pub open spec fn enc_ok(v: V) -> bool decreases v {
    match v {
        V::Int(x) => -0x8000_0000_0000_0000_0000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
        V::UInt(x) => 0 <= x <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
        V::Buf(b) => b.len() < 0x1_0000_0000,
        V::True => true, V::False => true, V::None => true,
        V::Std(a) => addr_ok(sb(a)),
        V::Con(a, n) => addr_ok(sb(a)) && sb(n).len() <= 128,
        V::Ok(x) => enc_ok(*x), V::Err(x) => enc_ok(*x), V::Some(x) => enc_ok(*x),
        V::List(s) => s.len() < 0x1_0000_0000 && enc_l(s),
        V::Tup(s) => s.len() < 0x1_0000_0000 && enc_t(s),
        V::Ascii(s) => is_ascii_chars(s) && sb(s).len() < 0x1_0000_0000,
        V::Utf8(s) => sb(s).len() < 0x1_0000_0000,
        V::Name(s) => sb(s).len() <= 128,
        V::Args(s) => s.len() < 0x1_0000_0000 && enc_l(s),
    }
}
pub open spec fn enc_l(s: Seq<V>) -> bool decreases s { if s.len() == 0 { true } else { enc_l(s.drop_last()) && enc_ok(s.last()) } }
pub open spec fn enc_t(s: Seq<(Seq<char>, V)>) -> bool decreases s { if s.len() == 0 { true } else { enc_t(s.drop_last()) && sb(s.last().0).len() <= 128 && enc_ok(s.last().1) } }
/// consensus values proper: no untagged component inside
pub open spec fn proper(v: V) -> bool decreases v {
    match v {
        V::Ok(x) => proper(*x), V::Err(x) => proper(*x), V::Some(x) => proper(*x),
        V::List(s) => proper_l(s), V::Tup(s) => proper_t(s), V::Name(_) => false, V::Args(_) => false, _ => true,
    }
}
pub open spec fn proper_l(s: Seq<V>) -> bool decreases s { if s.len() == 0 { true } else { proper_l(s.drop_last()) && proper(s.last()) } }
pub open spec fn proper_t(s: Seq<(Seq<char>, V)>) -> bool decreases s { if s.len() == 0 { true } else { proper_t(s.drop_last()) && proper(s.last().1) } }
/// the canonical spelling of an address
pub open spec fn addr_text(h: Seq<u8>, v: u8) -> Seq<char> { decode_utf8(addr_enc(h, v)) }
pub open spec fn canon_a(a: Seq<char>) -> Seq<char> { addr_text(addr_hash(sb(a)), addr_ver(sb(a))) }
pub open spec fn canon(v: V) -> V decreases v {
    match v {
        V::Std(a) => V::Std(canon_a(a)),
        V::Con(a, n) => V::Con(canon_a(a), n),
        V::Ok(x) => V::Ok(Box::new(canon(*x))), V::Err(x) => V::Err(Box::new(canon(*x))), V::Some(x) => V::Some(Box::new(canon(*x))),
        V::List(s) => V::List(canon_l(s)), V::Tup(s) => V::Tup(canon_t(s)), V::Args(s) => V::Args(canon_l(s)),
        _ => v,
    }
}
pub open spec fn canon_l(s: Seq<V>) -> Seq<V> decreases s { if s.len() == 0 { seq![] } else { canon_l(s.drop_last()).push(canon(s.last())) } }
pub open spec fn canon_t(s: Seq<(Seq<char>, V)>) -> Seq<(Seq<char>, V)> decreases s { if s.len() == 0 { seq![] } else { canon_t(s.drop_last()).push((s.last().0, canon(s.last().1))) } }
/// reading a value from the front of a byte string: the value and the number of bytes it takes
pub open spec fn untwos(x: int) -> int { if x >= 0x8000_0000_0000_0000_0000_0000_0000_0000 { x - 0x1_0000_0000_0000_0000_0000_0000_0000_0000 } else { x } }
pub open spec fn u32at(b: Seq<u8>, k: int) -> int { bv256(b.subrange(k, k + 4)) }
pub open spec fn pname(b: Seq<u8>) -> Option<(Seq<char>, nat)> {
    if b.len() >= 1 && b[0] <= 128 && b.len() >= 1 + b[0] && valid_utf8(b.subrange(1, 1 + b[0])) { Some((decode_utf8(b.subrange(1, 1 + b[0])), (1 + b[0]) as nat)) } else { None }
}
pub open spec fn parse(b: Seq<u8>) -> Option<(V, nat)> decreases b.len(), 0int {
    if b.len() == 0 { None }
    else if b[0] == 0 { if b.len() >= 17 { Some((V::Int(untwos(bv256(b.subrange(1, 17)))), 17)) } else { None } }
    else if b[0] == 1 { if b.len() >= 17 { Some((V::UInt(bv256(b.subrange(1, 17))), 17)) } else { None } }
    else if b[0] == 2 { if b.len() >= 5 && b.len() >= 5 + u32at(b, 1) { Some((V::Buf(b.subrange(5, 5 + u32at(b, 1))), (5 + u32at(b, 1)) as nat)) } else { None } }
    else if b[0] == 3 { Some((V::True, 1)) }
    else if b[0] == 4 { Some((V::False, 1)) }
    else if b[0] == 5 { if b.len() >= 22 && addr_version(b[1]) { Some((V::Std(addr_text(b.subrange(2, 22), b[1])), 22)) } else { None } }
    else if b[0] == 6 { if b.len() >= 22 && addr_version(b[1]) { match pname(b.skip(22)) { Some((n, k)) => Some((V::Con(addr_text(b.subrange(2, 22), b[1]), n), 22 + k)), None => None } } else { None } }
    else if b[0] == 7 { match parse(b.skip(1)) { Some((v, n)) => Some((V::Ok(Box::new(v)), n + 1)), None => None } }
    else if b[0] == 8 { match parse(b.skip(1)) { Some((v, n)) => Some((V::Err(Box::new(v)), n + 1)), None => None } }
    else if b[0] == 9 { Some((V::None, 1)) }
    else if b[0] == 10 { match parse(b.skip(1)) { Some((v, n)) => Some((V::Some(Box::new(v)), n + 1)), None => None } }
    else if b[0] == 11 { if b.len() >= 5 { match parse_l(b.skip(5), u32at(b, 1) as nat) { Some((s, n)) => Some((V::List(s), n + 5)), None => None } } else { None } }
    else if b[0] == 12 { if b.len() >= 5 { match parse_t(b.skip(5), u32at(b, 1) as nat) { Some((s, n)) => Some((V::Tup(s), n + 5)), None => None } } else { None } }
    else if b[0] == 13 { match ptext(b) { Some(s) => if is_ascii_chars(s) { Some((V::Ascii(s), (5 + u32at(b, 1)) as nat)) } else { None }, None => None } }
    else if b[0] == 14 { match ptext(b) { Some(s) => Some((V::Utf8(s), (5 + u32at(b, 1)) as nat)), None => None } }
    else { None }
}
pub open spec fn ptext(b: Seq<u8>) -> Option<Seq<char>> {
    if b.len() >= 5 && b.len() >= 5 + u32at(b, 1) && valid_utf8(b.subrange(5, 5 + u32at(b, 1))) { Some(decode_utf8(b.subrange(5, 5 + u32at(b, 1)))) } else { None }
}
/// n values in a row
pub open spec fn parse_l(b: Seq<u8>, n: nat) -> Option<(Seq<V>, nat)> decreases b.len(), 1 + n {
    if n == 0 { Some((seq![], 0)) } else {
        match parse_l(b, (n - 1) as nat) {
            Some((s, k)) => if k <= b.len() { match parse(b.skip(k as int)) { Some((v, j)) => Some((s.push(v), k + j)), None => None } } else { None },
            None => None,
        }
    }
}
/// n names and values in a row
pub open spec fn parse_t(b: Seq<u8>, n: nat) -> Option<(Seq<(Seq<char>, V)>, nat)> decreases b.len(), 1 + n {
    if n == 0 { Some((seq![], 0)) } else {
        match parse_t(b, (n - 1) as nat) {
            Some((s, k)) => if k <= b.len() { match pname(b.skip(k as int)) {
                Some((m, i)) => if k + i <= b.len() { match parse(b.skip((k + i) as int)) { Some((v, j)) => Some((s.push((m, v)), k + i + j)), None => None } } else { None },
                None => None } } else { None },
            None => None,
        }
    }
}
pub open spec fn parse_args(b: Seq<u8>) -> Option<(V, nat)> {
    if b.len() >= 4 { match parse_l(b.skip(4), u32at(b, 0) as nat) { Some((s, n)) => Some((V::Args(s), n + 4)), None => None } } else { None }
}
@default C02 C03
@raw cv
pub proof fn lemma_be4(x: int) requires 0 <= x < 0x1_0000_0000 ensures be(x, 4).len() == 4, bv256(be(x, 4)) == x {
    assert(p256(4) == 0x1_0000_0000) by (compute);
    lemma_be_val(x, 4);
}
pub proof fn lemma_be16(x: int) requires 0 <= x < 0x1_0000_0000_0000_0000_0000_0000_0000_0000 ensures be(x, 16).len() == 16, bv256(be(x, 16)) == x {
    assert(p256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
    lemma_be_val(x, 16);
}
pub proof fn lemma_u32at(b: Seq<u8>, k: int) requires 0 <= k, k + 4 <= b.len() ensures 0 <= u32at(b, k) < 0x1_0000_0000, be(u32at(b, k), 4) == b.subrange(k, k + 4) {
    assert(p256(4) == 0x1_0000_0000) by (compute);
    lemma_val_be(b.subrange(k, k + 4));
}
pub proof fn lemma_u128at(b: Seq<u8>) requires b.len() >= 17 ensures 0 <= bv256(b.subrange(1, 17)) < 0x1_0000_0000_0000_0000_0000_0000_0000_0000, be(bv256(b.subrange(1, 17)), 16) == b.subrange(1, 17) {
    assert(p256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
    lemma_val_be(b.subrange(1, 17));
}
/// the canonical text of an address
pub proof fn lemma_addr_text(h: Seq<u8>, v: u8) requires h.len() == 20, addr_version(v)
    ensures sb(addr_text(h, v)) == addr_enc(h, v), addr_ok(sb(addr_text(h, v))), addr_hash(sb(addr_text(h, v))) == h, addr_ver(sb(addr_text(h, v))) == v
{
    theorem_address_roundtrip(h, v);
    let t = addr_enc(h, v); let u = t.skip(1);
    assert(c32_ok(u));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 128 by { if i > 0 { assert(u[i - 1] == t[i]); assert(c32v(u[i - 1] as int) >= 0); } }
    lemma_ascii_valid(t);
    decode_utf8_encode_utf8(t);
}
pub proof fn lemma_pname(b: Seq<u8>) ensures match pname(b) { Some((n, k)) => 0 < k <= b.len() && lps(n) == b.take(k as int) && sb(n).len() <= 128, None => true } {
    if pname(b).is_some() {
        let (n, k) = pname(b).unwrap();
        let t = b.subrange(1, 1 + b[0]);
        decode_utf8_encode_utf8(t);
        assert(lps(n) =~= b.take(k as int));
    }
}
pub proof fn lemma_pname_of(n: Seq<char>, rest: Seq<u8>) requires sb(n).len() <= 128 ensures pname(lps(n) + rest) == Some((n, lps(n).len())) {
    let b = lps(n) + rest;
    assert(b.subrange(1, 1 + b[0]) =~= sb(n));
    encode_utf8_valid_utf8(n); encode_utf8_decode_utf8(n);
}
/// C03: what is read re-encodes to the bytes that were read
pub open spec fn reads(b: Seq<u8>, r: Option<(V, nat)>) -> bool { match r { Some((v, n)) => 0 < n <= b.len() && ser(v) == b.take(n as int) && enc_ok(v) && proper(v), None => true } }
proof fn lemma_parse_i(b: Seq<u8>) requires b.len() > 0, b[0] < 2 ensures reads(b, parse(b)) {
    if b.len() >= 17 {
        lemma_u128at(b);
        let x = bv256(b.subrange(1, 17));
        assert(seq![b[0]] + b.subrange(1, 17) =~= b.take(17));
        assert(twos128(untwos(x)) == x);
    }
}
proof fn lemma_parse_b(b: Seq<u8>) requires b.len() > 0, b[0] == 2 ensures reads(b, parse(b)) {
    if b.len() >= 5 {
        lemma_u32at(b, 1); let k = u32at(b, 1);
        if b.len() >= 5 + k { assert(seq![2u8] + b.subrange(1, 5) + b.subrange(5, 5 + k) =~= b.take(5 + k)); }
    }
}
proof fn lemma_parse_u(b: Seq<u8>) requires b.len() > 0, b[0] == 3 || b[0] == 4 || b[0] == 9 ensures reads(b, parse(b)) { assert(seq![b[0]] =~= b.take(1)); }
proof fn lemma_parse_s(b: Seq<u8>) requires b.len() > 0, b[0] == 5 ensures reads(b, parse(b)) {
    if b.len() >= 22 && addr_version(b[1]) {
        lemma_addr_text(b.subrange(2, 22), b[1]);
        assert(seq![5u8] + seq![b[1]] + b.subrange(2, 22) =~= b.take(22));
    }
}
proof fn lemma_parse_c(b: Seq<u8>) requires b.len() > 0, b[0] == 6 ensures reads(b, parse(b)) {
    if b.len() >= 22 && addr_version(b[1]) {
        lemma_addr_text(b.subrange(2, 22), b[1]); lemma_pname(b.skip(22));
        assert(seq![6u8] + seq![b[1]] + b.subrange(2, 22) =~= b.take(22));
        if let Some((m, k)) = pname(b.skip(22)) { assert(b.take(22) + b.skip(22).take(k as int) =~= b.take(22 + k as int)); }
    }
}
proof fn lemma_parse_w(b: Seq<u8>) requires b.len() > 0, b[0] == 7 || b[0] == 8 || b[0] == 10, reads(b.skip(1), parse(b.skip(1))) ensures reads(b, parse(b)) {
    if let Some((w, k)) = parse(b.skip(1)) {
        assert(b.take(1) + b.skip(1).take(k as int) =~= b.take(1 + k as int));
        assert(b.take(1) =~= seq![b[0]]);
    }
}
pub open spec fn reads_l(b: Seq<u8>, n: nat, r: Option<(Seq<V>, nat)>) -> bool { match r { Some((s, k)) => k <= b.len() && s.len() == n && ser_l(s) == b.take(k as int) && enc_l(s) && proper_l(s), None => true } }
pub open spec fn reads_t(b: Seq<u8>, n: nat, r: Option<(Seq<(Seq<char>, V)>, nat)>) -> bool { match r { Some((s, k)) => k <= b.len() && s.len() == n && ser_t(s) == b.take(k as int) && enc_t(s) && proper_t(s), None => true } }
proof fn lemma_parse_ll(b: Seq<u8>) requires b.len() > 0, b[0] == 11, b.len() >= 5 ==> reads_l(b.skip(5), u32at(b, 1) as nat, parse_l(b.skip(5), u32at(b, 1) as nat)) ensures reads(b, parse(b)) {
    if b.len() >= 5 {
        lemma_u32at(b, 1);
        if let Some((s, k)) = parse_l(b.skip(5), u32at(b, 1) as nat) {
            assert(b.take(5) + b.skip(5).take(k as int) =~= b.take(5 + k as int));
            assert(b.take(5) =~= seq![11u8] + be(u32at(b, 1), 4));
        }
    }
}
proof fn lemma_parse_tt(b: Seq<u8>) requires b.len() > 0, b[0] == 12, b.len() >= 5 ==> reads_t(b.skip(5), u32at(b, 1) as nat, parse_t(b.skip(5), u32at(b, 1) as nat)) ensures reads(b, parse(b)) {
    if b.len() >= 5 {
        lemma_u32at(b, 1);
        if let Some((s, k)) = parse_t(b.skip(5), u32at(b, 1) as nat) {
            assert(b.take(5) + b.skip(5).take(k as int) =~= b.take(5 + k as int));
            assert(b.take(5) =~= seq![12u8] + be(u32at(b, 1), 4));
        }
    }
}
proof fn lemma_parse_x(b: Seq<u8>) requires b.len() > 0, b[0] == 13 || b[0] == 14 ensures reads(b, parse(b)) {
    if let Some(s) = ptext(b) {
        lemma_u32at(b, 1); let k = u32at(b, 1);
        decode_utf8_encode_utf8(b.subrange(5, 5 + k));
        assert(seq![b[0]] + b.subrange(1, 5) + b.subrange(5, 5 + k) =~= b.take(5 + k));
    }
}
pub proof fn lemma_parse(b: Seq<u8>) ensures reads(b, parse(b)) decreases b.len(), 0int
{
    if b.len() == 0 || b[0] > 14 { }
    else if b[0] < 2 { lemma_parse_i(b); }
    else if b[0] == 2 { lemma_parse_b(b); }
    else if b[0] == 3 || b[0] == 4 || b[0] == 9 { lemma_parse_u(b); }
    else if b[0] == 5 { lemma_parse_s(b); }
    else if b[0] == 6 { lemma_parse_c(b); }
    else if b[0] == 7 || b[0] == 8 || b[0] == 10 { lemma_parse(b.skip(1)); lemma_parse_w(b); }
    else if b[0] == 11 { if b.len() >= 5 { lemma_parse_l(b.skip(5), u32at(b, 1) as nat); } lemma_parse_ll(b); }
    else if b[0] == 12 { if b.len() >= 5 { lemma_parse_t(b.skip(5), u32at(b, 1) as nat); } lemma_parse_tt(b); }
    else { lemma_parse_x(b); }
}
pub proof fn lemma_parse_l(b: Seq<u8>, n: nat)
    ensures reads_l(b, n, parse_l(b, n))
    decreases b.len(), 1 + n
{
    if parse_l(b, n).is_some() {
        if n == 0 { assert(b.take(0) =~= seq![]); } else {
            lemma_parse_l(b, (n - 1) as nat);
            let (s, k) = parse_l(b, (n - 1) as nat).unwrap();
            lemma_parse(b.skip(k as int));
            let (v, j) = parse(b.skip(k as int)).unwrap();
            assert(s.push(v).drop_last() =~= s);
            assert(b.take(k as int) + b.skip(k as int).take(j as int) =~= b.take((k + j) as int));
        }
    }
}
pub proof fn lemma_parse_t(b: Seq<u8>, n: nat)
    ensures reads_t(b, n, parse_t(b, n))
    decreases b.len(), 1 + n
{
    if parse_t(b, n).is_some() {
        if n == 0 { assert(b.take(0) =~= seq![]); } else {
            lemma_parse_t(b, (n - 1) as nat);
            let (s, k) = parse_t(b, (n - 1) as nat).unwrap();
            lemma_pname(b.skip(k as int));
            let (m, i) = pname(b.skip(k as int)).unwrap();
            lemma_parse(b.skip((k + i) as int));
            let (v, j) = parse(b.skip((k + i) as int)).unwrap();
            assert(s.push((m, v)).drop_last() =~= s);
            assert(b.take(k as int) + b.skip(k as int).take(i as int) =~= b.take((k + i) as int));
            assert(b.take((k + i) as int) + b.skip((k + i) as int).take(j as int) =~= b.take((k + i + j) as int));
        }
    }
}
/// reading fewer values succeeds where reading more does
pub proof fn lemma_parse_l_mono(b: Seq<u8>, m: nat, n: nat) requires m <= n, parse_l(b, n).is_some() ensures parse_l(b, m).is_some() decreases n { if m < n { lemma_parse_l_mono(b, m, (n - 1) as nat); } }
pub proof fn lemma_parse_t_mono(b: Seq<u8>, m: nat, n: nat) requires m <= n, parse_t(b, n).is_some() ensures parse_t(b, m).is_some() decreases n { if m < n { lemma_parse_t_mono(b, m, (n - 1) as nat); } }
/// C02: an encoded value reads back, whatever follows it
pub open spec fn back(v: V, rest: Seq<u8>) -> bool { parse(ser(v) + rest) == Some((canon(v), ser(v).len())) }
proof fn lemma_back_i(v: V, rest: Seq<u8>) requires enc_ok(v), v is Int || v is UInt ensures back(v, rest) {
    let b = ser(v) + rest; let y = match v { V::Int(x) => twos128(x), V::UInt(x) => x, _ => 0 };
    lemma_be16(y); assert(b.subrange(1, 17) =~= be(y, 16));
}
proof fn lemma_back_b(d: Seq<u8>, rest: Seq<u8>) requires enc_ok(V::Buf(d)) ensures back(V::Buf(d), rest) {
    let b = ser(V::Buf(d)) + rest;
    lemma_be4(d.len() as int); assert(b.subrange(1, 5) =~= be(d.len() as int, 4)); assert(b.subrange(5, 5 + d.len() as int) =~= d);
}
proof fn lemma_back_u(v: V, rest: Seq<u8>) requires v is True || v is False || v is None ensures back(v, rest) { assert((ser(v) + rest)[0] == ser(v)[0]); }
proof fn lemma_back_s(a: Seq<char>, rest: Seq<u8>) requires enc_ok(V::Std(a)) ensures back(V::Std(a), rest) {
    let b = ser(V::Std(a)) + rest;
    lemma_addr_parts(sb(a)); assert(b.subrange(2, 22) =~= addr_hash(sb(a)));
}
proof fn lemma_back_c(a: Seq<char>, n: Seq<char>, rest: Seq<u8>) requires enc_ok(V::Con(a, n)) ensures back(V::Con(a, n), rest) {
    let b = ser(V::Con(a, n)) + rest;
    lemma_addr_parts(sb(a)); lemma_pname_of(n, rest);
    assert(b.subrange(2, 22) =~= addr_hash(sb(a)));
    assert(b.skip(22) =~= lps(n) + rest);
}
proof fn lemma_back_w(v: V, x: V, rest: Seq<u8>) requires v == V::Ok(Box::new(x)) || v == V::Err(Box::new(x)) || v == V::Some(Box::new(x)), back(x, rest) ensures back(v, rest) {
    let b = ser(v) + rest;
    assert(b.skip(1) =~= ser(x) + rest);
}
proof fn lemma_back_l(s: Seq<V>, rest: Seq<u8>) requires enc_ok(V::List(s)), parse_l(ser_l(s) + rest, s.len()) == Some((canon_l(s), ser_l(s).len())) ensures back(V::List(s), rest) {
    let b = ser(V::List(s)) + rest;
    lemma_be4(s.len() as int); assert(b.subrange(1, 5) =~= be(s.len() as int, 4));
    assert(b.skip(5) =~= ser_l(s) + rest);
}
proof fn lemma_back_t(s: Seq<(Seq<char>, V)>, rest: Seq<u8>) requires enc_ok(V::Tup(s)), parse_t(ser_t(s) + rest, s.len()) == Some((canon_t(s), ser_t(s).len())) ensures back(V::Tup(s), rest) {
    let b = ser(V::Tup(s)) + rest;
    lemma_be4(s.len() as int); assert(b.subrange(1, 5) =~= be(s.len() as int, 4));
    assert(b.skip(5) =~= ser_t(s) + rest);
}
proof fn lemma_back_x(v: V, s: Seq<char>, rest: Seq<u8>) requires enc_ok(v), v == V::Ascii(s) || v == V::Utf8(s) ensures back(v, rest) {
    let b = ser(v) + rest;
    lemma_be4(sb(s).len() as int); assert(b.subrange(1, 5) =~= be(sb(s).len() as int, 4)); assert(b.subrange(5, 5 + sb(s).len() as int) =~= sb(s)); encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s);
}
pub proof fn theorem_parse_ser(v: V, rest: Seq<u8>) requires enc_ok(v), proper(v) ensures back(v, rest) decreases v
{
    match v {
        V::Int(x) => lemma_back_i(v, rest), V::UInt(x) => lemma_back_i(v, rest), V::Buf(d) => lemma_back_b(d, rest),
        V::Std(a) => lemma_back_s(a, rest), V::Con(a, n) => lemma_back_c(a, n, rest),
        V::Ok(x) => { theorem_parse_ser(*x, rest); lemma_back_w(v, *x, rest); }
        V::Err(x) => { theorem_parse_ser(*x, rest); lemma_back_w(v, *x, rest); }
        V::Some(x) => { theorem_parse_ser(*x, rest); lemma_back_w(v, *x, rest); }
        V::List(s) => { theorem_parse_l_ser(s, rest); lemma_back_l(s, rest); }
        V::Tup(s) => { theorem_parse_t_ser(s, rest); lemma_back_t(s, rest); }
        V::Ascii(s) => lemma_back_x(v, s, rest), V::Utf8(s) => lemma_back_x(v, s, rest),
        V::True => lemma_back_u(v, rest), V::False => lemma_back_u(v, rest), V::None => lemma_back_u(v, rest),
        _ => {}
    }
}
pub proof fn lemma_addr_parts(t: Seq<u8>) requires addr_ok(t) ensures addr_hash(t).len() == 20, addr_version(addr_ver(t)) {}
pub proof fn theorem_parse_l_ser(s: Seq<V>, rest: Seq<u8>)
    requires enc_l(s), proper_l(s)
    ensures parse_l(ser_l(s) + rest, s.len()) == Some((canon_l(s), ser_l(s).len()))
    decreases s
{
    if s.len() > 0 {
        let r2 = ser(s.last()) + rest;
        theorem_parse_l_ser(s.drop_last(), r2);
        theorem_parse_ser(s.last(), rest);
        assert(ser_l(s) + rest =~= ser_l(s.drop_last()) + r2);
        assert((ser_l(s) + rest).skip(ser_l(s.drop_last()).len() as int) =~= r2);
    }
}
pub proof fn theorem_parse_t_ser(s: Seq<(Seq<char>, V)>, rest: Seq<u8>)
    requires enc_t(s), proper_t(s)
    ensures parse_t(ser_t(s) + rest, s.len()) == Some((canon_t(s), ser_t(s).len()))
    decreases s
{
    if s.len() > 0 {
        let (k, v) = s.last();
        let r2 = lps(k) + ser(v) + rest; let r3 = ser(v) + rest;
        theorem_parse_t_ser(s.drop_last(), r2);
        assert(s.last().1 == v);
        theorem_parse_ser(s.last().1, rest);
        lemma_pname_of(k, r3);
        let b = ser_t(s) + rest; let j = ser_t(s.drop_last()).len() as int;
        assert(b =~= ser_t(s.drop_last()) + r2);
        assert(b.skip(j) =~= lps(k) + r3);
        assert(b.skip(j + lps(k).len()) =~= r3);
    }
}
/// C02 for argument lists and names
pub proof fn theorem_parse_args_ser(s: Seq<V>, rest: Seq<u8>) requires enc_ok(V::Args(s)), proper_l(s)
    ensures parse_args(ser(V::Args(s)) + rest) == Some((V::Args(canon_l(s)), ser(V::Args(s)).len()))
{
    let b = ser(V::Args(s)) + rest;
    lemma_be4(s.len() as int); assert(b.subrange(0, 4) =~= be(s.len() as int, 4));
    assert(b.skip(4) =~= ser_l(s) + rest);
    theorem_parse_l_ser(s, rest);
}
/// a canonically spelled value reads back as itself
pub open spec fn is_canon_a(a: Seq<char>) -> bool { sb(a) == addr_enc(addr_hash(sb(a)), addr_ver(sb(a))) }
pub proof fn theorem_canon_text(a: Seq<char>) requires addr_ok(sb(a)), is_canon_a(a) ensures canon_a(a) == a { encode_utf8_decode_utf8(a); }
/// big-endian words in the code and in the theory
pub proof fn lemma_u32_word(x: u32, s: Seq<u8>) requires x.bes() == s ensures bv256(s) == x, s.len() == 4 { lemma_be4(x as int); }
pub broadcast proof fn lemma_bes4(x: u32) ensures (#[trigger] x.bes()).len() == 4, bv256(x.bes()) == x { lemma_be4(x as int); }
pub broadcast proof fn lemma_bes16(x: u128) ensures (#[trigger] x.bes()).len() == 16, bv256(x.bes()) == x { lemma_be16(x as int); }
pub broadcast proof fn lemma_bes16i(x: i128) ensures (#[trigger] x.bes()).len() == 16, bv256(x.bes()) == twos128(x as int) { lemma_be16(twos128(x as int)); }
pub broadcast proof fn lemma_bes1(x: u8) ensures #[trigger] x.bes() == seq![x] { assert(be(x as int / 256, 0) =~= seq![]); assert(x.bes() =~= seq![x]); }
pub broadcast proof fn lemma_bes2(x: u16) ensures (#[trigger] x.bes()).len() == 2, bv256(x.bes()) == x { assert(p256(2) == 0x1_0000) by (compute); lemma_be_val(x as int, 2); }
pub broadcast proof fn lemma_bes8(x: u64) ensures (#[trigger] x.bes()).len() == 8, bv256(x.bes()) == x { assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute); lemma_be_val(x as int, 8); }
pub broadcast group group_words { lemma_bes4, lemma_bes16, lemma_bes16i, lemma_bes1, lemma_bes2, lemma_bes8 }
@default C01 C02 C03 C04
@raw clarity
/// closed world: Box<dyn Clarity> holds one of the types that implement Clarity
// excluded from the closed world: PostConditions
pub enum DynClarity { Int(Int), UInt(UInt), Buffer(Buffer), True(True), False(False), PrincipalStandard(PrincipalStandard), PrincipalContract(PrincipalContract), ResponseOk(ResponseOk), ResponseErr(ResponseErr), OptionalSome(OptionalSome), OptionalNone(OptionalNone), List(List), Tuple(Tuple), StringAscii(StringAscii), StringUtf8(StringUtf8), LengthPrefixedStr(LengthPrefixedStr), FnArguments(FnArguments) }
/// the abstract value of a value
pub open spec fn dv(d: DynClarity) -> V decreases d {
    match d {
        DynClarity::Int(x) => V::Int(x.__value as int),
        DynClarity::UInt(x) => V::UInt(x.__value as int),
        DynClarity::Buffer(x) => V::Buf(x.__value@),
        DynClarity::True(x) => V::True,
        DynClarity::False(x) => V::False,
        DynClarity::PrincipalStandard(x) => V::Std(x.__value@),
        DynClarity::PrincipalContract(x) => V::Con(x.__value.0@, x.__value.1@),
        DynClarity::ResponseOk(x) => V::Ok(Box::new(dv(*x.__value))),
        DynClarity::ResponseErr(x) => V::Err(Box::new(dv(*x.__value))),
        DynClarity::OptionalSome(x) => V::Some(Box::new(dv(*x.__value))),
        DynClarity::OptionalNone(x) => V::None,
        DynClarity::List(x) => V::List(dvs(x.__value)),
        DynClarity::Tuple(x) => V::Tup(dvt(x.__value)),
        DynClarity::StringAscii(x) => V::Ascii(x.__value@),
        DynClarity::StringUtf8(x) => V::Utf8(x.__value@),
        DynClarity::LengthPrefixedStr(x) => V::Name(x.__value@),
        DynClarity::FnArguments(x) => V::Args(dvs(x.__value)),
    }
}
pub open spec fn dvs(v: Vec<Box<DynClarity>>) -> Seq<V> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { dv(*v@[i]) } else { arbitrary() }) }
pub open spec fn dvt(v: Vec<(String, Box<DynClarity>)>) -> Seq<(Seq<char>, V)> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { (v@[i].0@, dv(*v@[i].1)) } else { arbitrary() }) }
pub open spec fn dvq(v: Seq<Box<DynClarity>>) -> Seq<V> { Seq::new(v.len(), |i: int| dv(*v[i])) }
pub open spec fn dvtq(v: Seq<(String, Box<DynClarity>)>) -> Seq<(Seq<char>, V)> { Seq::new(v.len(), |i: int| (v[i].0@, dv(*v[i].1))) }
pub proof fn lemma_dvs(v: Vec<Box<DynClarity>>) ensures dvs(v) == dvq(v@) { assert(dvs(v) =~= dvq(v@)); }
pub proof fn lemma_dvt(v: Vec<(String, Box<DynClarity>)>) ensures dvt(v) == dvtq(v@) { assert(dvt(v) =~= dvtq(v@)); }
pub open spec fn parse_as(b: Seq<u8>, tag: u8) -> Option<(V, nat)> { if b.len() > 0 && b[0] == tag { parse(b) } else { None } }
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome OptionalNone List Tuple StringAscii StringUtf8 LengthPrefixedStr FnArguments
@raw clarity
impl $X { pub fn into_dyn(self) -> (r: DynClarity) ensures r == DynClarity::$X(self) { DynClarity::$X(self) } }
@end
@raw clarity
impl DynClarity {
    pub fn into_dyn(self) -> (r: DynClarity) ensures r == self { self }
    /// dynamic dispatch of Codec::encode
    pub fn encode(&self) -> (ret: Result<Vec<u8>, Error>)
        ensures match ret { Ok(b) => enc_ok(dv(*self)) && b@ == ser(dv(*self)), Err(_) => !enc_ok(dv(*self)) },
        decreases *self
    {
        match self {
            DynClarity::Int(x) => x.encode(), DynClarity::UInt(x) => x.encode(), DynClarity::Buffer(x) => x.encode(), DynClarity::True(x) => x.encode(), DynClarity::False(x) => x.encode(),
            DynClarity::PrincipalStandard(x) => x.encode(), DynClarity::PrincipalContract(x) => x.encode(), DynClarity::ResponseOk(x) => x.encode(), DynClarity::ResponseErr(x) => x.encode(),
            DynClarity::OptionalSome(x) => x.encode(), DynClarity::OptionalNone(x) => x.encode(), DynClarity::List(x) => x.encode(), DynClarity::Tuple(x) => x.encode(),
            DynClarity::StringAscii(x) => x.encode(), DynClarity::StringUtf8(x) => x.encode(), DynClarity::LengthPrefixedStr(x) => x.encode(), DynClarity::FnArguments(x) => x.encode(),
        }
    }
}
@for X,T in Int|0 UInt|1 Buffer|2 True|3 False|4 PrincipalStandard|5 PrincipalContract|6 ResponseOk|7 ResponseErr|8 OptionalNone|9 OptionalSome|10 List|11 Tuple|12 StringAscii|13 StringUtf8|14
@fn clarity::$X::id
@spec
    ensures ret == $T,
@end
@for X in Int UInt Buffer PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome List Tuple StringAscii StringUtf8 LengthPrefixedStr FnArguments
@fn clarity::$X::new
@props C01 C02 C03 C04 C21
@spec
    ensures ret.__value == __value,
@end
@for X,V in True|true False|false OptionalNone|None
@fn clarity::$X::new
@props C01 C02 C03 C04 C21
@spec
    ensures ret.__value == $V,
@end
@fn clarity::check_len
@spec
    ensures ret.is_ok() == (bytes@.len() >= len),
@default C01
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract OptionalNone StringAscii StringUtf8 LengthPrefixedStr
@fn clarity::$X::encode
@spec
    ensures match ret { Ok(b) => enc_ok(dv(DynClarity::$X(*self))) && b@ == ser(dv(DynClarity::$X(*self))), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
@end
@for X in ResponseOk ResponseErr OptionalSome
@fn clarity::$X::encode
@spec
    ensures match ret { Ok(b) => enc_ok(dv(DynClarity::$X(*self))) && b@ == ser(dv(DynClarity::$X(*self))), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
    decreases *self
@end
@for X,P in List|seq![11u8]~+~ FnArguments|
@fn clarity::$X::encode
@spec
    ensures match ret { Ok(b) => enc_ok(dv(DynClarity::$X(*self))) && b@ == ser(dv(DynClarity::$X(*self))), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
    decreases *self
@at start
    let ghost q = dvs(self.__value);
    proof { lemma_dvs(self.__value); }
@at pre 0
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant buff@ =~= $Pbe(q.len() as int, 4) + ser_l(q.take(__i0 as int)), enc_l(q.take(__i0 as int)),
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1));
        assert(q.take(__i0 as int).last() == dv(*__v0@[__i0 - 1]));
        if !enc_ok(dv(*__v0@[__i0 - 1])) { lemma_enc_l_part(q, __i0 as int); }
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@end
@fn clarity::Tuple::encode
@spec
    ensures match ret { Ok(b) => enc_ok(dv(DynClarity::Tuple(*self))) && b@ == ser(dv(DynClarity::Tuple(*self))), Err(_) => !enc_ok(dv(DynClarity::Tuple(*self))) },
    decreases *self
@at start
    let ghost q = dvt(self.__value);
    proof { lemma_dvt(self.__value); }
@at pre 0
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant buff@ =~= seq![12u8] + be(q.len() as int, 4) + ser_t(q.take(__i0 as int)), enc_t(q.take(__i0 as int)),
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1));
        assert(q.take(__i0 as int).last() == (__v0@[__i0 - 1].0@, dv(*__v0@[__i0 - 1].1)));
        if !enc_t(q.take(__i0 as int)) { lemma_enc_t_part(q, __i0 as int); }
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@raw clarity
pub proof fn lemma_enc_l_part(q: Seq<V>, n: int) requires 0 <= n <= q.len(), !enc_l(q.take(n)) ensures !enc_l(q) decreases q.len() - n {
    if n < q.len() { assert(q.take(n + 1).drop_last() =~= q.take(n)); lemma_enc_l_part(q, n + 1); } else { assert(q.take(n) =~= q); }
}
pub proof fn lemma_enc_t_part(q: Seq<(Seq<char>, V)>, n: int) requires 0 <= n <= q.len(), !enc_t(q.take(n)) ensures !enc_t(q) decreases q.len() - n {
    if n < q.len() { assert(q.take(n + 1).drop_last() =~= q.take(n)); lemma_enc_t_part(q, n + 1); } else { assert(q.take(n) =~= q); }
}
@for X in DynClarity
@fn clarity::$X::len
@spec
    ensures match ret { Ok(n) => enc_ok(dv(*self)) && n == ser(dv(*self)).len(), Err(_) => !enc_ok(dv(*self)) },
@fn clarity::$X::is_empty
@spec
    ensures match ret { Ok(e) => enc_ok(dv(*self)) && e == (ser(dv(*self)).len() == 0), Err(_) => !enc_ok(dv(*self)) },
@fn clarity::$X::hex
@spec
    ensures match ret { Ok(s) => enc_ok(dv(*self)) && s@ == hex(ser(dv(*self))), Err(_) => !enc_ok(dv(*self)) },
@fn clarity::$X::hex_prefixed
@spec
    ensures match ret { Ok(s) => enc_ok(dv(*self)) && s@ == "0x"@ + hex(ser(dv(*self))), Err(_) => !enc_ok(dv(*self)) },
@end
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome OptionalNone List Tuple StringAscii StringUtf8 LengthPrefixedStr FnArguments
@fn clarity::$X::len
@spec
    ensures match ret { Ok(n) => enc_ok(dv(DynClarity::$X(*self))) && n == ser(dv(DynClarity::$X(*self))).len(), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
@fn clarity::$X::is_empty
@spec
    ensures match ret { Ok(e) => enc_ok(dv(DynClarity::$X(*self))) && e == (ser(dv(DynClarity::$X(*self))).len() == 0), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
@fn clarity::$X::hex
@spec
    ensures match ret { Ok(s) => enc_ok(dv(DynClarity::$X(*self))) && s@ == hex(ser(dv(DynClarity::$X(*self)))), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
@fn clarity::$X::hex_prefixed
@spec
    ensures match ret { Ok(s) => enc_ok(dv(DynClarity::$X(*self))) && s@ == "0x"@ + hex(ser(dv(DynClarity::$X(*self)))), Err(_) => !enc_ok(dv(DynClarity::$X(*self))) },
@end
@default C02 C03 C04
@for X,T,L in Int|0| UInt|1| PrincipalStandard|5| PrincipalContract|6| StringAscii|13|lemma_ascii_text(bytes@); StringUtf8|14|
@fn clarity::$X::decode
@spec
    ensures
        parse_as(bytes@, $T).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, $T).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, $T).is_some() ==> dv(DynClarity::$X(ret->Ok_0)) == parse_as(bytes@, $T).unwrap().0, // #C02 #C03
@at start
    proof { lemma_decode_facts(bytes@); $L }
@end
@for X,T,W in True|3|true False|4|false OptionalNone|9|None
@fn clarity::$X::decode
@props C02 C03 C04 C21
@spec
    ensures
        parse_as(bytes@, $T).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, $T).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, $T).is_some() ==> dv(DynClarity::$X(ret->Ok_0)) == parse_as(bytes@, $T).unwrap().0, // #C02 #C03
        ret.is_ok() ==> (ret->Ok_0).__value == $W, // #C21
@at start
    proof { lemma_decode_facts(bytes@); }
@end
@fn clarity::Buffer::decode
@spec
    ensures
        parse_as(bytes@, 2).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, 2).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, 2).is_some() ==> dv(DynClarity::Buffer(ret->Ok_0)) == parse_as(bytes@, 2).unwrap().0, // #C02 #C03
@at start
    proof { lemma_decode_facts(bytes@); }
@loop 0
    invariant offset == 5 + __i0, buff@ =~= bytes@.subrange(5, 5 + __i0),
@for X,T in ResponseOk|7 ResponseErr|8 OptionalSome|10
@fn clarity::$X::decode
@spec
    ensures
        parse_as(bytes@, $T).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, $T).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, $T).is_some() ==> dv(DynClarity::$X(ret->Ok_0)) == parse_as(bytes@, $T).unwrap().0, // #C02 #C03
    decreases bytes@.len(), 0int
@end
@fn clarity::decode_clarity_type
@spec
    ensures
        parse(bytes@).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse(bytes@).is_some(), // #C03
        ret.is_ok() && parse(bytes@).is_some() ==> dv(*ret->Ok_0) == parse(bytes@).unwrap().0, // #C02 #C03
    decreases bytes@.len(), 1int
@raw clarity
pub proof fn lemma_decode_facts(b: Seq<u8>)
    ensures b.len() >= 5 ==> b.subrange(1, 5) =~= seq![b[1], b[2], b[3], b[4]] && 0 <= u32at(b, 1) < 0x1_0000_0000,
        b.len() >= 17 ==> untwos(bv256(b.subrange(1, 17))) == untwos(bv256(b.subrange(1, 17))),
        b.len() >= 22 && addr_version(b[1]) ==> sb(addr_text(b.subrange(2, 22), b[1])) == addr_enc(b.subrange(2, 22), b[1]),
        forall|s: Seq<char>| decode_utf8(#[trigger] sb(s)) == s,
{
    if b.len() >= 5 { lemma_u32at(b, 1); }
    if b.len() >= 22 && addr_version(b[1]) { lemma_addr_text(b.subrange(2, 22), b[1]); }
    assert forall|s: Seq<char>| decode_utf8(#[trigger] sb(s)) == s by { encode_utf8_decode_utf8(s); }
}
@fn clarity::List::decode
@spec
    ensures
        parse_as(bytes@, 11).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, 11).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, 11).is_some() ==> dv(DynClarity::List(ret->Ok_0)) == parse_as(bytes@, 11).unwrap().0, // #C02 #C03
    decreases bytes@.len(), 0int
@at start
    let ghost b = bytes@; let ghost b5 = b.skip(5);
    proof { lemma_decode_facts(bytes@); }
@at pre 0
    assert(dvq(values@) =~= seq![]);
@loop 0
    invariant 5 <= offset <= b.len(), len == u32at(b, 1), parse_l(b5, __i0 as nat) == Some((dvq(values@), (offset - 5) as nat)),
@at top 0
    let ghost v0 = values@;
    proof {
        lemma_parse(b.skip(offset as int));
        assert(b5.skip(offset - 5) =~= b.skip(offset as int));
        if parse(b.skip(offset as int)).is_none() && parse_l(b5, len as nat).is_some() { lemma_parse_l_mono(b5, __i0 as nat, len as nat); }
    }
@at bot 0
    assert(dvq(values@) =~= dvq(v0).push(dv(*values@.last())));
@at tail
    proof { lemma_dvs(values); }
@fn clarity::Tuple::decode
@spec
    ensures
        parse_as(bytes@, 12).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_as(bytes@, 12).is_some(), // #C03
        ret.is_ok() && parse_as(bytes@, 12).is_some() ==> dv(DynClarity::Tuple(ret->Ok_0)) == parse_as(bytes@, 12).unwrap().0, // #C02 #C03
    decreases bytes@.len(), 0int
@at start
    let ghost b = bytes@; let ghost b5 = b.skip(5);
    proof { lemma_decode_facts(bytes@); }
@at pre 0
    assert(dvtq(values@) =~= seq![]);
@loop 0
    invariant 5 <= offset <= b.len(), len == u32at(b, 1), parse_t(b5, __i0 as nat) == Some((dvtq(values@), (offset - 5) as nat)),
@at top 0
    let ghost v0 = values@;
    proof {
        let r = b.skip(offset as int);
        lemma_pname(r);
        assert(b5.skip(offset - 5) =~= r);
        if pname(r).is_none() { if parse_t(b5, len as nat).is_some() { lemma_parse_t_mono(b5, __i0 as nat, len as nat); } }
        else {
            let k = pname(r).unwrap().1 as int; let o = offset as int;
            assert(b5.skip(o - 5 + k) =~= b.skip(o + k));
            lemma_parse(b.skip(o + k));
            if parse(b.skip(o + k)).is_none() && parse_t(b5, len as nat).is_some() { lemma_parse_t_mono(b5, __i0 as nat, len as nat); }
        }
    }
@at bot 0
    assert(dvtq(values@) =~= dvtq(v0).push((values@.last().0@, dv(*values@.last().1))));
@at tail
    proof { lemma_dvt(values); }
@fn clarity::LengthPrefixedStr::decode
@spec
    ensures
        pname(bytes@).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> pname(bytes@).is_some(), // #C03
        ret.is_ok() && pname(bytes@).is_some() ==> ret->Ok_0.__value@ == pname(bytes@).unwrap().0, // #C02 #C03
@at start
    proof { lemma_decode_facts(bytes@); }
@fn clarity::FnArguments::decode
@spec
    ensures
        parse_args(bytes@).is_some() ==> ret.is_ok(), // #C02
        ret.is_ok() ==> parse_args(bytes@).is_some(), // #C03
        ret.is_ok() && parse_args(bytes@).is_some() ==> dv(DynClarity::FnArguments(ret->Ok_0)) == parse_args(bytes@).unwrap().0, // #C02 #C03
@at start
    let ghost b = bytes@; let ghost b4 = b.skip(4);
    proof { if b.len() >= 4 { lemma_u32at(b, 0); } }
@at pre 0
    assert(dvq(__value@) =~= seq![]);
@loop 0
    invariant b.len() >= 4, remainder@.len() <= b4.len(), remainder@ =~= b4.skip(b4.len() - remainder@.len()), num == u32at(b, 0), parse_l(b4, __i0 as nat) == Some((dvq(__value@), (b4.len() - remainder@.len()) as nat)),
@at top 0
    let ghost v0 = __value@; let ghost r0 = remainder@;
    proof {
        lemma_parse(r0);
        if parse(r0).is_none() && parse_l(b4, num as nat).is_some() { lemma_parse_l_mono(b4, __i0 as nat, num as nat); }
    }
@at bot 0
    assert(dvq(__value@) =~= dvq(v0).push(dv(*__value@.last())));
@at tail
    proof { lemma_dvs(__value); }
@default C18
@raw clarity
pub open spec fn uniq(q: Seq<(Seq<char>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i].0 != #[trigger] q[j].0 }
pub open spec fn at_key(q: Seq<(Seq<char>, V)>, key: Seq<char>, i: int) -> bool { 0 <= i < q.len() && q[i].0 == key }
pub open spec fn no_key(q: Seq<(Seq<char>, V)>, key: Seq<char>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 != key }
@fn clarity::Tuple::get
@spec
    ensures
        forall|i: int| uniq(dvtq(self.__value@)) && #[trigger] at_key(dvtq(self.__value@), key@, i) ==> ret.is_some() && dv(*ret.unwrap()) == dvtq(self.__value@)[i].1 && bq(*ret.unwrap()) == bq(*self.__value@[i].1),
        no_key(dvtq(self.__value@), key@) ==> ret.is_none(),
@at start
    let ghost q = dvtq(self.__value@);
@loop 0
    invariant_except_break __r0 == None::<&(String, Box<DynClarity>)>, forall|i: int| 0 <= i < __i0 ==> (#[trigger] q[i]).0 != key@,
    ensures match __r0 { Some(p) => at_key(q, key@, __i0 as int) && *p == self.__value@[__i0 as int], None => no_key(q, key@) },
@at after 0
    assert(match __r0 { Some(p) => at_key(q, key@, __i0 as int), None => no_key(q, key@) });
    assert(match __r0 { Some(p) => !no_key(q, key@), None => no_key(q, key@) });
@fn clarity::Tuple::remove
@spec
    ensures
        forall|i: int| uniq(dvtq(old(self).__value@)) && #[trigger] at_key(dvtq(old(self).__value@), key@, i) ==> ret.is_some() && dv(*ret.unwrap()) == dvtq(old(self).__value@)[i].1 && dvtq(final(self).__value@) =~= dvtq(old(self).__value@).remove(i),
        no_key(dvtq(old(self).__value@), key@) ==> ret.is_none() && dvtq(final(self).__value@) == dvtq(old(self).__value@),
@at start
    let ghost q = dvtq(self.__value@);
@loop 0
    invariant_except_break __r0 == None::<usize>, forall|i: int| 0 <= i < __i0 ==> (#[trigger] q[i]).0 != key@,
    ensures match __r0 { Some(p) => at_key(q, key@, p as int), None => no_key(q, key@) },
@at after 0
    assert(match __r0 { Some(p) => at_key(q, key@, p as int) && !no_key(q, key@), None => no_key(q, key@) });
@fn clarity::Tuple::insert
@spec
    ensures
        forall|i: int| uniq(dvtq(old(self).__value@)) && #[trigger] at_key(dvtq(old(self).__value@), key@, i) ==> dvtq(final(self).__value@) =~= dvtq(old(self).__value@).update(i, (key@, dv(value))),
        no_key(dvtq(old(self).__value@), key@) ==> dvtq(final(self).__value@) =~= dvtq(old(self).__value@).push((key@, dv(value))),
@at start
    let ghost q = dvtq(self.__value@);
@loop 0
    invariant_except_break __r0 == None::<usize>, forall|i: int| 0 <= i < __i0 ==> (#[trigger] q[i]).0 != key@,
    ensures match __r0 { Some(p) => at_key(q, key@, p as int), None => no_key(q, key@) },
@at after 0
    assert(match __r0 { Some(p) => at_key(q, key@, p as int) && !no_key(q, key@), None => no_key(q, key@) });
@fn clarity::Tuple::get_mut
@spec
    ensures
        forall|i: int| uniq(dvtq(old(self).__value@)) && #[trigger] at_key(dvtq(old(self).__value@), key@, i) ==> ret.is_some() && dv(**ret.unwrap()) == dvtq(old(self).__value@)[i].1 && dvtq(final(self).__value@) =~= dvtq(old(self).__value@).update(i, (key@, dv(**final(ret.unwrap())))),
        no_key(dvtq(old(self).__value@), key@) ==> ret.is_none() && dvtq(final(self).__value@) == dvtq(old(self).__value@),
@at start
    let ghost q = dvtq(self.__value@);
@loop 0
    invariant_except_break __r0 == None::<usize>, forall|i: int| 0 <= i < __i0 ==> (#[trigger] q[i]).0 != key@,
    ensures match __r0 { Some(p) => at_key(q, key@, p as int), None => no_key(q, key@) },
@at after 0
    assert(match __r0 { Some(p) => at_key(q, key@, p as int) && !no_key(q, key@), None => no_key(q, key@) });
@raw clarity
pub open spec fn keys_are(r: Seq<&String>, q: Seq<(Seq<char>, V)>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i])@ == q[i].0 }
pub open spec fn values_are(r: Seq<&Box<DynClarity>>, q: Seq<(Seq<char>, V)>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> dv(**(#[trigger] r[i])) == q[i].1 }
@fn clarity::Tuple::keys
@spec
    ensures keys_are(ret@, dvtq(self.__value@), self.__value@.len() as int),
@loop 0
    invariant keys_are(__r0@, dvtq(self.__value@), __i0 as int),
@fn clarity::Tuple::values
@spec
    ensures values_are(ret@, dvtq(self.__value@), self.__value@.len() as int),
@loop 0
    invariant values_are(__r0@, dvtq(self.__value@), __i0 as int),
@raw clarity
/// C18 over any history: the contracts above imply that the keys stay distinct
pub proof fn theorem_tuple_map(q: Seq<(Seq<char>, V)>, k: Seq<char>, v: V, i: int)
    requires uniq(q)
    ensures at_key(q, k, i) ==> uniq(q.update(i, (k, v))) && at_key(q.update(i, (k, v)), k, i) && uniq(q.remove(i)) && no_key(q.remove(i), k),
        no_key(q, k) ==> uniq(q.push((k, v))) && at_key(q.push((k, v)), k, q.len() as int),
{
    if at_key(q, k, i) {
        let u = q.update(i, (k, v)); let r = q.remove(i);
        assert forall|a: int, b: int| 0 <= a < b < u.len() implies #[trigger] u[a].0 != #[trigger] u[b].0 by { assert(q[a].0 != q[b].0); }
        assert forall|a: int, b: int| 0 <= a < b < r.len() implies #[trigger] r[a].0 != #[trigger] r[b].0 by { assert(q[if a < i { a } else { a + 1 }].0 != q[if b < i { b } else { b + 1 }].0); }
        assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]).0 != k by { if a < i { assert(q[a].0 != q[i].0); } else { assert(q[i].0 != q[a + 1].0); } }
    }
    if no_key(q, k) {
        let u = q.push((k, v));
        assert forall|a: int, b: int| 0 <= a < b < u.len() implies #[trigger] u[a].0 != #[trigger] u[b].0 by { assert(u[a] == q[a]); if b < q.len() { assert(u[b] == q[b]); } }
    }
}
@default C15 C18 C21
@raw clarity
/// the content of a boolean value; its constructors (under contract) make it the constant of its type
pub open spec fn bq(d: DynClarity) -> Option<bool> { match d { DynClarity::True(x) => Some(x.__value), DynClarity::False(x) => Some(x.__value), _ => None } }
/// dynamic dispatch of Clone: clone_dyn is verified against the contract, by dispatch to the clones
/// below; clone_v is the same function (the verifier does not tie recursive knots through trait impls)
impl DynClarity {
    pub fn clone_dyn(&self) -> (r: DynClarity) ensures dv(r) == dv(*self), bq(r) == bq(*self)
    { match self { DynClarity::Int(x) => DynClarity::Int(x.clone_v()), DynClarity::UInt(x) => DynClarity::UInt(x.clone_v()), DynClarity::Buffer(x) => DynClarity::Buffer(x.clone_v()), DynClarity::True(x) => DynClarity::True(x.clone_v()), DynClarity::False(x) => DynClarity::False(x.clone_v()), DynClarity::PrincipalStandard(x) => DynClarity::PrincipalStandard(x.clone_v()), DynClarity::PrincipalContract(x) => DynClarity::PrincipalContract(x.clone_v()), DynClarity::ResponseOk(x) => DynClarity::ResponseOk(x.clone_v()), DynClarity::ResponseErr(x) => DynClarity::ResponseErr(x.clone_v()), DynClarity::OptionalSome(x) => DynClarity::OptionalSome(x.clone_v()), DynClarity::OptionalNone(x) => DynClarity::OptionalNone(x.clone_v()), DynClarity::List(x) => DynClarity::List(x.clone_v()), DynClarity::Tuple(x) => DynClarity::Tuple(x.clone_v()), DynClarity::StringAscii(x) => DynClarity::StringAscii(x.clone_v()), DynClarity::StringUtf8(x) => DynClarity::StringUtf8(x.clone_v()), DynClarity::LengthPrefixedStr(x) => DynClarity::LengthPrefixedStr(x.clone_v()), DynClarity::FnArguments(x) => DynClarity::FnArguments(x.clone_v()) } }
}
impl CloneV for DynClarity { open spec fn ceq(&self, r: &DynClarity) -> bool { dv(*r) == dv(*self) && bq(*r) == bq(*self) } #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
@fn clarity::Buffer::clone
@name clone_v
@wrap impl CloneV for Buffer { open spec fn ceq(&self, r: &Buffer) -> bool { dv(DynClarity::Buffer(*r)) == dv(DynClarity::Buffer(*self)) }
@at tail
    proof { assert forall|r: Vec<u8>| self.__value.ceq(&r) implies r@ == self.__value@ by { assert forall|i: int| 0 <= i < r@.len() implies r@[i] == self.__value@[i] by { assert(self.__value@[i].ceq(&r@[i])); } assert(r@ =~= self.__value@); } }
@for X in PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome StringAscii StringUtf8 LengthPrefixedStr
@fn clarity::$X::clone
@name clone_v
@wrap impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { dv(DynClarity::$X(*r)) == dv(DynClarity::$X(*self)) }
@end
@for X in List FnArguments
@fn clarity::$X::clone
@name clone_v
@wrap impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { dv(DynClarity::$X(*r)) == dv(DynClarity::$X(*self)) }
@at tail
    proof { assert forall|r: Vec<Box<DynClarity>>| self.__value.ceq(&r) implies dvs(r) == dvs(self.__value) by { assert forall|i: int| 0 <= i < r@.len() implies dv(*r@[i]) == dv(*self.__value@[i]) by { assert(self.__value@[i].ceq(&r@[i])); } assert(dvs(r) =~= dvs(self.__value)); } }
@end
@fn clarity::Tuple::clone
@name clone_v
@wrap impl CloneV for Tuple { open spec fn ceq(&self, r: &Tuple) -> bool { dv(DynClarity::Tuple(*r)) == dv(DynClarity::Tuple(*self)) }
@at tail
    proof { assert forall|r: Vec<(String, Box<DynClarity>)>| self.__value.ceq(&r) implies dvt(r) == dvt(self.__value) by { assert forall|i: int| 0 <= i < r@.len() implies dv(*r@[i].1) == dv(*self.__value@[i].1) && r@[i].0@ == self.__value@[i].0@ by { assert(self.__value@[i].ceq(&r@[i])); } assert(dvt(r) =~= dvt(self.__value)); } }
@for X in True False
@fn clarity::$X::clone
@name clone_v
@wrap impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { r.__value == self.__value }
@end
@for X in Int UInt OptionalNone
@fn clarity::$X::clone
@name clone_v
@wrap impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { dv(DynClarity::$X(*r)) == dv(DynClarity::$X(*self)) }
@end
@default C21
@raw clarity
/// std::any::Any on the closed world: a downcast succeeds exactly on values of the requested type
pub trait ClarityT: Sized {
    spec fn inj(self) -> DynClarity;
    /// the dynamic type is this one
    spec fn of(d: DynClarity) -> bool;
    fn down_ref(d: &DynClarity) -> (r: Option<&Self>) ensures match r { Some(t) => t.inj() == *d && Self::of(*d), None => !Self::of(*d) };
    fn down(d: DynClarity) -> (r: Result<Box<Self>, DynClarity>) ensures match r { Ok(t) => (*t).inj() == d, Err(e) => e == d && !Self::of(d) };
}
@for X in Int UInt Buffer True False PrincipalStandard PrincipalContract ResponseOk ResponseErr OptionalSome OptionalNone List Tuple StringAscii StringUtf8 LengthPrefixedStr FnArguments
@raw clarity
impl ClarityT for $X {
    open spec fn inj(self) -> DynClarity { DynClarity::$X(self) }
    open spec fn of(d: DynClarity) -> bool { d is $X }
    fn down_ref(d: &DynClarity) -> (r: Option<&Self>) { match d { DynClarity::$X(x) => Some(x), _ => None } }
    fn down(d: DynClarity) -> (r: Result<Box<Self>, DynClarity>) { match d { DynClarity::$X(x) => Ok(Box::new(x)), e => Err(e) } }
}
@fn clarity::$X::value
@spec
    ensures *ret == self.__value,
@fn clarity::$X::into_value
@spec
    ensures ret == self.__value,
@fn clarity::$X::as_any
@retty &Self
@spec
    ensures *ret == *self,
@fn clarity::$X::into_any
@retty Box<Self>
@spec
    ensures *ret == *self,
@end
@raw clarity
impl DynClarity {
    /// dynamic dispatch of Any: every as_any and into_any above returns the value itself
    pub fn as_any(&self) -> (r: &DynClarity) ensures *r == *self { self }
    pub fn into_any(self) -> (r: DynClarity) ensures r == self { self }
    pub fn downcast_ref<T: ClarityT>(&self) -> (r: Option<&T>) ensures match r { Some(t) => t.inj() == *self, None => !T::of(*self) } { T::down_ref(self) }
    pub fn downcast<T: ClarityT>(self) -> (r: Result<Box<T>, DynClarity>) ensures match r { Ok(t) => (*t).inj() == self, Err(e) => e == self && !T::of(self) } { T::down(self) }
}
@fn clarity::DynClarity::boxed_cast
@name cast
@spec
    ensures match ret { Ok(t) => t.inj() == self, Err(_) => !T::of(self) },
@fn clarity::DynClarity::boxed_cast_as
@name cast_as
@props C11 C21
@spec
    ensures match ret { Ok(t) => t.inj() == *self, Err(_) => !T::of(*self) },
@for X in ResponseOk ResponseErr OptionalSome
@fn clarity::$X::cast
@spec
    ensures match ret { Ok(t) => t.inj() == *self.__value, Err(_) => !T::of(*self.__value) },
@fn clarity::$X::cast_as
@spec
    ensures match ret { Ok(t) => t.inj() == *self.__value, Err(_) => !T::of(*self.__value) },
@end
@for X,V in True|true False|false OptionalNone|None
@fn clarity::$X::default
@spec
    ensures ret.__value == $V,
@end
@for X,T in Buffer|u8 List|Box<DynClarity> FnArguments|Box<DynClarity> Tuple|(String,Box<DynClarity>)
@fn clarity::$X::into_iter
@name into_iter_v
@retty Vec<$T>
@wrap impl IntoIterV for $X { type T = $T; open spec fn items(self) -> Vec<$T> { self.__value }
@end
@for X in LengthPrefixedStr FnArguments
@fn clarity::$X::id
@spec
    ensures ret == 255,
@end
@for X,T in Int|i128 UInt|u128
@fn clarity::<From<$T> for $X>::from
@name from_$T
@spec
    ensures ret.__value == int_v,
@fn clarity::<From<$X> for $T>::from
@free
@name from_$X
@retty $T
@spec
    ensures ret == int_v.__value,
@end
@fn clarity::<From<Vec<u8>> for Buffer>::from
@name from_vec
@spec
    ensures ret.__value == bytes,
@fn clarity::<From<&[u8]> for Buffer>::from
@name from_slice
@spec
    ensures ret.__value@ == bytes@,
@fn clarity::<From<Buffer> for Vec>::from
@free
@name from_Buffer
@retty Vec<u8>
@spec
    ensures ret == buf.__value,
@fn clarity::<From<&str> for PrincipalStandard>::from
@name from_str
@spec
    ensures ret.__value@ == addr@,
@fn clarity::<From<String> for PrincipalStandard>::from
@name from_string
@spec
    ensures ret.__value == addr,
@fn clarity::<From<PrincipalStandard> for String>::from
@free
@name from_PrincipalStandard
@retty String
@spec
    ensures ret == principal.__value,
@fn clarity::<From<(String,String)> for PrincipalContract>::from
@name from_strings
@args __p : (String, String)
@at start
    let (addr, name) = __p;
@spec
    ensures ret.__value == __p,
@fn clarity::<From<(&str,&str)> for PrincipalContract>::from
@name from_strs
@args __p : (&str, &str)
@at start
    let (addr, name) = __p;
@spec
    ensures ret.__value.0@ == __p.0@, ret.__value.1@ == __p.1@,
