@default C05
@raw c32
/// the tables are those of the c32 alphabet
pub proof fn lemma_c32_tables()
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] C32_ALPHABET@[i] == c32c(i),
            forall|i: int| 0 <= i < 128 ==> #[trigger] C32_BYTE_MAP@[i] as int == c32v(i)
{
    assert(C32_ALPHABET@.len() == 32);
}
@fn c32::c32_encode
@spec
    ensures match ret { Ok(s) => sb(s@) =~= c32_enc(slice.bv()), Err(_) => false },
@at start
    proof { lemma_c32_tables(); lemma_pw2(); }
    let ghost s = rev(ints(slice.bv()));
    let ghost nn = lev(256, s); let ghost mut base: Seq<u8> = seq![];
@at pre 0
    proof { lemma_packed_init(8, 5, s); assert(c32ds(encoded@) =~= seq![]); lemma_ints_digs(slice.bv()); lemma_digs_rev(256, ints(slice.bv())); }
@loop 0
    invariant
        0 <= bits < 5, packed(8, 5, s, __i0 as int, c32ds(encoded@), buff as int, bits as int), c32_txt(encoded@),
@at top 0
    proof {
        lemma_packed_read(8, 5, s, __i0 - 1, c32ds(encoded@), buff as int, bits as int);
        assert(s[__i0 - 1] == byte as int);
        let (x, k) = (byte as u32, bits as u32);
        assert(k < 5 && buff < 1u32 << k && x < 256 ==> (buff | (x << k)) == buff + x * (1u32 << k) && (x << k) == x * (1u32 << k)) by (bit_vector);
        assert(k < 5 ==> 1u32 << 0u32 == 1 && 1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16) by (bit_vector);
    }
@loop 1
    invariant
        0 <= bits < 13, packed(8, 5, s, __i0 as int, c32ds(encoded@), buff as int, bits as int), c32_txt(encoded@),
    decreases bits,
@at top 1
    proof {
        lemma_packed_write(8, 5, s, __i0 as int, c32ds(encoded@), buff as int, bits as int);
        assert(buff & 0x1F == buff % 32 && buff >> 5 == buff / 32) by (bit_vector);
        lemma_c32_push(encoded@, buff as int % 32);
    }
@at after 0
    proof {
        lemma_packed_end(8, 5, s, c32ds(encoded@), buff as int, bits as int);
        assert(s.len() == __n0);
        assert(buff < 32 ==> buff & 0x1F == buff) by (bit_vector);
        lemma_c32_push(encoded@, buff as int);
    }
@at pre 2
    assert(lev(32, c32ds(encoded@)) == nn);
@loop 2
    invariant
        c32_txt(encoded@), lev(32, c32ds(encoded@)) == nn, 
    invariant_except_break e0 == encoded@,
    ensures c32_txt(encoded@), lev(32, c32ds(encoded@)) == nn, encoded@.len() > 0 ==> c32ds(encoded@).last() != 0,
    decreases encoded@.len(),
@at pre 2
    let ghost mut e0 = encoded@;
@at top 2
    proof {
        assert(c32_can(e0.last()));
        assert(encoded@ =~= e0.drop_last() && encoded@.push(i) =~= e0);
        assert(c32ds(e0).drop_last() =~= c32ds(encoded@));
        assert(c32ds(e0).last() == c32v(i as int));
        assert(C32_ALPHABET@[0] == c32c(0));
        if i == c32c(0) { lemma_lev_drop0(32, c32ds(e0)); } else { assert(c32v(i as int) != 0); }
    }
@at bot 2
    proof { e0 = encoded@; }
@at after 2
    proof { base = encoded@; }
@at pre 3
    proof { lemma_lz(ints(data@)); }
@loop 3
    invariant_except_break encoded@ =~= base + rep(48, __i3 as nat), __i3 <= lz(ints(data@)),
    ensures encoded@ =~= base + rep(48, lz(ints(data@))),
@at top 3
    proof { lemma_lz(ints(data@)); assert(ints(data@)[__i3 - 1] == *i as int); assert(C32_ALPHABET@[0] == 48); }
@at tail
    proof { lemma_c32_result(slice.bv(), base, encoded@); }
@raw c32
pub open spec fn are32(b: Seq<u8>, s: Seq<int>) -> bool { b.len() <= s.len() && forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] as int == s[k] && 0 <= s[k] < 32 }
pub proof fn lemma_are32_push(b: Seq<u8>, s: Seq<int>, x: int) requires are32(b, s), b.len() < s.len(), s[b.len() as int] == x, 0 <= x < 32 ensures are32(b.push(x as u8), s) {
    let c = b.push(x as u8);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] as int == s[k] && 0 <= s[k] < 32 by { if k < b.len() { assert(c[k] == b[k]); } }
}
@fn c32::c32_decode
@spec
    ensures match ret { Ok(v) => c32_ok(sb(str.iv())) && v@ =~= c32_dec(sb(str.iv())), Err(_) => !c32_ok(sb(str.iv())) },
@at start
    let ghost t = sb(str.iv());
    let ghost s = rev(c32ds(t));
    let ghost nn = lev(32, s); let ghost mut base: Seq<u8> = seq![];
    proof {
        lemma_c32_tables(); lemma_pw2();
        if c32_ok(t) {
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 128 by { assert(c32v(t[i] as int) >= 0); }
            lemma_bytes_ascii(str.iv());
        }
    }
@loop 0
    invariant
        __v0@ == t, buff@.len() == __i0,
        are32(buff@, s),
@at bot 0
    proof { lemma_are32_push(b0, s, c32v(__v0@[__n0 - __i0] as int)); assert(buff@ =~= b0.push(c32v(__v0@[__n0 - __i0] as int) as u8)); }
@at top 0
    let ghost b0 = buff@;
    proof { assert(*i == t[__n0 - __i0]); assert(s[__i0 - 1] == c32v(*i as int)); 
        if *i < 128 { assert(C32_BYTE_MAP@[*i as int] as int == c32v(*i as int)); } }
@at after 0
    proof {
        assert(c32_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies c32v(#[trigger] t[i] as int) >= 0 by { assert(s[t.len() - 1 - i] == c32v(t[i] as int)); assert(buff@[t.len() - 1 - i] as int == s[t.len() - 1 - i]); } }
        assert(ints(buff@) =~= s);
        assert(digs(32, s)) by { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < 32 by { assert(buff@[i] as int == s[i]); } }
    }
@at pre 1
    proof { lemma_packed_init(5, 8, s); assert(ints(decoded@) =~= seq![]); }
@loop 1
    invariant
        0 <= carry_bits < 8, packed(5, 8, s, __i1 as int, ints(decoded@), carry as int, carry_bits as int),
@at top 1
    proof {
        lemma_packed_read(5, 8, s, __i1 - 1, ints(decoded@), carry as int, carry_bits as int);
        assert(s[__i1 - 1] == *bits as int && *bits < 32) by { assert(ints(buff@)[__i1 - 1] == s[__i1 - 1]); }
        let (x, k) = (*bits as u16, carry_bits as u16);
        assert(k < 8 && carry < 1u16 << k && x < 32 ==> (carry | (x << k)) == carry + x * (1u16 << k) && (x << k) == x * (1u16 << k)) by (bit_vector);
        assert(1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16 && 1u16 << 5u16 == 32 && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128) by (bit_vector);
    }
@loop 2
    invariant
        0 <= carry_bits < 13, packed(5, 8, s, __i1 as int, ints(decoded@), carry as int, carry_bits as int),
    decreases carry_bits,
@at top 2
    proof {
        lemma_packed_write(5, 8, s, __i1 as int, ints(decoded@), carry as int, carry_bits as int);
        assert(carry & 0xFF == carry % 256 && carry >> 8 == carry / 256) by (bit_vector);
        assert(ints(decoded@.push((carry % 256) as u8)) =~= ints(decoded@).push(carry as int % 256));
    }
@at after 1
    proof {
        lemma_packed_end(5, 8, s, ints(decoded@), carry as int, carry_bits as int);
        assert(ints(decoded@.push(carry as u8)) =~= ints(decoded@).push(carry as int));
    }
@at pre 3
    assert(lev(256, ints(decoded@)) == nn);
    let ghost mut e0 = decoded@;
@loop 3
    invariant_except_break e0 == decoded@,
    invariant lev(256, ints(decoded@)) == nn,
    ensures decoded@.len() > 0 ==> decoded@.last() != 0,
    decreases decoded@.len(),
@at top 3
    proof {
        assert(decoded@ =~= e0.drop_last() && decoded@.push(i) =~= e0);
        assert(ints(e0).drop_last() =~= ints(decoded@));
        if i == 0 { lemma_lev_drop0(256, ints(e0)); }
    }
@at bot 3
    proof { e0 = decoded@; }
@at after 3
    proof { base = decoded@; }
@at pre 4
    proof { lemma_lz(c32ds(t)); }
@loop 4
    invariant_except_break decoded@ =~= base + rep(0, __i4 as nat), __i4 <= lz(c32ds(t)),
    ensures decoded@ =~= base + rep(0, lz(c32ds(t))),
@at top 4
    proof { lemma_lz(c32ds(t)); assert(c32ds(t)[__i4 - 1] == *i as int) by { assert(ints(buff@)[__n4 - __i4] == s[__n4 - __i4]); } }
@at tail
    proof { lemma_c32_result2(t, base, decoded@); }
@default C06
@raw c32
/// check-encoded data: version digit, then c32 of the data and its 4-byte checksum
pub open spec fn check4(h: Seq<u8>, v: u8) -> Seq<u8> { dsha256(seq![v] + h).take(4) }
pub open spec fn c32check_enc(h: Seq<u8>, v: u8) -> Seq<u8> { seq![c32c(v as int)] + c32_enc(h + check4(h, v)) }
pub open spec fn c32check_body(t: Seq<u8>) -> Seq<u8> { c32_dec(t.skip(1)) }
pub open spec fn c32check_ver(t: Seq<u8>) -> u8 { c32v(t[0] as int) as u8 }
pub open spec fn c32check_data(t: Seq<u8>) -> Seq<u8> { let d = c32check_body(t); d.take(d.len() - 4) }
pub open spec fn c32check_ok(t: Seq<u8>) -> bool {
    &&& t.len() > 0 && c32_ok(t) && c32check_body(t).len() >= 4
    &&& c32check_body(t).skip(c32check_body(t).len() - 4) == check4(c32check_data(t), c32check_ver(t))
}
pub open spec fn addr_version(v: u8) -> bool { v == 22 || v == 26 || v == 20 || v == 21 }
/// the address text of a hash
pub open spec fn addr_enc(h: Seq<u8>, v: u8) -> Seq<u8> { seq![83u8] + c32check_enc(h, v) }
pub open spec fn addr_ok(t: Seq<u8>) -> bool {
    t.len() > 0 && t[0] == 83 && c32check_ok(t.skip(1)) && addr_version(c32check_ver(t.skip(1))) && c32check_data(t.skip(1)).len() == 20
}
pub open spec fn addr_hash(t: Seq<u8>) -> Seq<u8> { c32check_data(t.skip(1)) }
pub open spec fn addr_ver(t: Seq<u8>) -> u8 { c32check_ver(t.skip(1)) }
pub proof fn lemma_check4(h: Seq<u8>, v: u8) ensures check4(h, v).len() == 4 {}
/// C06: check-encoded data of any length and version 0-31 decodes to itself
pub proof fn theorem_c32check_roundtrip(h: Seq<u8>, v: u8) requires v < 32
    ensures c32check_ok(c32check_enc(h, v)), c32check_data(c32check_enc(h, v)) =~= h, c32check_ver(c32check_enc(h, v)) == v
{
    let t = c32check_enc(h, v); let d = h + check4(h, v);
    theorem_c32_roundtrip(d); lemma_c32cv(v as int); lemma_check4(h, v);
    assert(t.skip(1) =~= c32_enc(d));
    assert(c32check_body(t) == d);
    assert(d.take(d.len() - 4) =~= h); assert(d.skip(d.len() - 4) =~= check4(h, v));
    assert(c32_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies c32v(#[trigger] t[i] as int) >= 0 by { if i > 0 { assert(t[i] == c32_enc(d)[i - 1]); } } }
}
/// C06: formatting and parsing an address gives back its hash and version
pub proof fn theorem_address_roundtrip(h: Seq<u8>, v: u8) requires h.len() == 20, addr_version(v)
    ensures addr_ok(addr_enc(h, v)), addr_hash(addr_enc(h, v)) =~= h, addr_ver(addr_enc(h, v)) == v
{
    theorem_c32check_roundtrip(h, v);
    assert(addr_enc(h, v).skip(1) =~= c32check_enc(h, v));
}
/// the text "S"
pub proof fn lemma_concat_s() ensures forall|s: Seq<char>| #[trigger] sb("S"@ + s) == seq![83u8] + sb(s), forall|s: Seq<char>| #![trigger sb(s)] (s.len() > 0 && s[0] == 'S') == (sb(s).len() > 0 && sb(s)[0] == 83)
{
    reveal_strlit("S");
    let one = seq!['S'];
    assert("S"@ =~= one);
    assert(is_ascii_char('S'));
    lemma_ascii_sb(one);
    assert(sb(one) =~= seq![83u8]);
    assert forall|s: Seq<char>| #[trigger] sb("S"@ + s) == seq![83u8] + sb(s) by { encode_utf8_concat("S"@, s); }
    assert forall|s: Seq<char>| #![trigger sb(s)] (s.len() > 0 && s[0] == 'S') == (sb(s).len() > 0 && sb(s)[0] == 83) by {
        if s.len() > 0 {
            let (a, r) = (seq![s[0]], s.skip(1));
            assert(s =~= a + r);
            encode_utf8_concat(a, r);
            if s[0] == 'S' { assert(a =~= one); } 
            else if sb(s).len() > 0 && sb(s)[0] == 83 { lemma_first_char(s); }
        } else { assert(s =~= seq![]); }
    }
}
/// decoded data is shorter than its text
pub proof fn lemma_c32_len(t: Seq<u8>) requires t.len() > 0, c32_ok(t) ensures c32check_body(t).len() < t.len() {
    let u = t.skip(1);
    assert forall|i: int| 0 <= i < u.len() implies c32v(#[trigger] u[i] as int) >= 0 by { assert(u[i] == t[i + 1]); }
    lemma_c32ds(u); lemma_conv_len(32, 256, c32ds(u));
}
/// c32 text is ASCII
pub proof fn lemma_c32_ascii(s: Seq<char>) requires c32_ok(sb(s)) ensures is_ascii_chars(s), s.len() == sb(s).len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == sb(s)[i] as char {
    assert forall|i: int| 0 <= i < sb(s).len() implies #[trigger] sb(s)[i] < 128 by { assert(c32v(sb(s)[i] as int) >= 0); }
    lemma_bytes_ascii(s);
}
pub proof fn lemma_c32_text(s: Seq<char>)
    ensures c32_ok(sb(s)) ==> is_ascii_chars(s), is_ascii_chars(s) ==> sb(s).len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] sb(s)[i] == s[i] as u8 && s[i] as u32 == sb(s)[i] && sb(s)[i] < 128),
        sb(s).len() > 0 ==> sb(s).subrange(0, 1) == seq![sb(s)[0]] && c32_ok(sb(s)) == (c32_ok(seq![sb(s)[0]]) && c32_ok(sb(s).skip(1))),
        sb(s).len() > 0 && c32_ok(seq![sb(s)[0]]) ==> c32_dec(seq![sb(s)[0]]) == seq![c32check_ver(sb(s))],
{
    let t = sb(s);
    if c32_ok(t) { lemma_c32_ascii(s); }
    if is_ascii_chars(s) {
        assert forall|i: int| 0 <= i < s.len() implies is_ascii_char(#[trigger] s[i]) by { }
        lemma_ascii_sb(s);
    }
    if t.len() > 0 {
        assert(t.subrange(0, 1) =~= seq![t[0]]);
        let a = seq![t[0]];
        if c32_ok(t) { assert(c32v(t[0] as int) >= 0); assert forall|i: int| 0 <= i < t.skip(1).len() implies c32v(#[trigger] t.skip(1)[i] as int) >= 0 by { assert(t.skip(1)[i] == t[i + 1]); } }
        if c32_ok(a) { assert(a[0] == t[0]); lemma_c32_one(t[0]); }
        if c32_ok(a) && c32_ok(t.skip(1)) { assert forall|i: int| 0 <= i < t.len() implies c32v(#[trigger] t[i] as int) >= 0 by { if i > 0 { assert(t.skip(1)[i - 1] == t[i]); } else { assert(a[0] == t[0]); } } }
    }
}
@fn c32::c32check_encode
@spec
    ensures match ret { Ok(s) => version < 32 && sb(s@) =~= c32check_enc(hash.bv(), version), Err(_) => version >= 32 },
@at start
    proof { lemma_c32_tables(); 
      theorem_c32_roundtrip(hash.bv() + check4(hash.bv(), version)); if version < 32 { lemma_c32cv(version as int); lemma_ascii_valid(c32check_enc(hash.bv(), version)); } }
@at tail
    assert(C32_ALPHABET@[version as int] == c32c(version as int));
    assert(check@ =~= seq![version] + hash@);
    assert(buff@ =~= hash@ + check4(hash@, version));
    assert(encoded@ =~= c32check_enc(hash@, version));
@fn c32::c32check_decode
@spec
    ensures match ret { Ok((b, v)) => c32check_ok(sb(str.iv())) && b@ =~= c32check_data(sb(str.iv())) && v == c32check_ver(sb(str.iv())), Err(_) => !c32check_ok(sb(str.iv())) },
@at start
    let ghost t = sb(str.iv());
    proof {
        lemma_c32_text(str.iv());
        if is_ascii_chars(str.iv()) && t.len() > 0 {
            lemma_boundary1(str.iv());
        }
    }
@at tail
    assert(comp_checksum@ == exp_checksum@);
@fn c32::c32_address
@spec
    ensures match ret { Ok(s) => addr_version(version) && sb(s@) =~= addr_enc(hash.bv(), version), Err(_) => !addr_version(version) },
@at start
    proof { lemma_concat_s(); assert(seq![22u8, 26, 20, 21].contains(version) == addr_version(version)) by { let q = seq![22u8, 26, 20, 21]; assert(q[0] == 22 && q[1] == 26 && q[2] == 20 && q[3] == 21); } }
@fn c32::c32_address_decode
@at start
    let ghost t = sb(str.iv());
    proof {
        lemma_concat_s();
        if str.iv().len() > 0 && str.iv()[0] == 'S' { lemma_boundary1(str.iv()); }
        let q = seq![22u8, 26, 20, 21]; assert(q[0] == 22 && q[1] == 26 && q[2] == 20 && q[3] == 21);
        if addr_ok(t) { lemma_c32_len(t.skip(1)); }
    }
@spec
    ensures match ret { Ok((b, v)) => addr_ok(sb(str.iv())) && b@ =~= addr_hash(sb(str.iv())) && v == addr_ver(sb(str.iv())), Err(_) => !addr_ok(sb(str.iv())) },
@fn c32::Address::new
@spec
    ensures ret.hash == hash, ret.version == version
@fn c32::Address::from_str
@retty Result<Address, Error>
@spec
    ensures match ret { Ok(a) => addr_ok(sb(str@)) && a.hash.0@ =~= addr_hash(sb(str@)) && a.version == addr_ver(sb(str@)), Err(_) => !addr_ok(sb(str@)) },
@default C09
@raw c32
/// the pushes of the compressed keys
pub open spec fn key_pushes(k: Seq<PublicKey>) -> Seq<u8> decreases k.len() { if k.len() == 0 { seq![] } else { key_pushes(k.drop_last()) + seq![33u8] + k.last()@ } }
pub open spec fn multi_script(m: u8, k: Seq<PublicKey>) -> Seq<u8> { seq![(m + 80) as u8] + key_pushes(k) + seq![(k.len() + 80) as u8, 174u8] }
pub open spec fn p2wpkh(k: Seq<u8>) -> Seq<u8> { hash160(seq![0u8, 20u8] + hash160(k)) }
pub open spec fn p2sh(m: u8, k: Seq<PublicKey>) -> Seq<u8> { hash160(multi_script(m, k)) }
pub open spec fn p2wsh(m: u8, k: Seq<PublicKey>) -> Seq<u8> { hash160(seq![0u8, 32u8] + sha256(multi_script(m, k))) }
@fn c32::hash_p2pkh
@spec
    ensures ret.0@ =~= hash160(input@)
@fn c32::hash_p2wpkh
@spec
    ensures ret.0@ =~= p2wpkh(input@)
@at tail
    assert(buff@ =~= seq![0u8, 20u8] + hash160(input@));
@fn c32::hash_p2sh
@spec
    requires sigs <= 175, keys@.len() <= 175,
    ensures ret.0@ =~= p2sh(sigs, keys@)
@loop 0
    invariant buff@ =~= seq![(sigs + 80) as u8] + key_pushes(keys@.take(__i0 as int)),
@at pre 0
    assert(keys@.take(0) =~= seq![]);
@at bot 0
    assert(keys@.take(__i0 as int).drop_last() =~= keys@.take(__i0 - 1));
@at after 0
    assert(keys@.take(keys@.len() as int) =~= keys@);
@at tail
    assert(buff@ =~= multi_script(sigs, keys@));
@fn c32::hash_p2wsh
@spec
    requires sigs <= 175, keys@.len() <= 175,
    ensures ret.0@ =~= p2wsh(sigs, keys@)
@loop 0
    invariant script@ =~= seq![(sigs + 80) as u8] + key_pushes(keys@.take(__i0 as int)),
@at pre 0
    assert(keys@.take(0) =~= seq![]);
@at bot 0
    assert(keys@.take(__i0 as int).drop_last() =~= keys@.take(__i0 - 1));
@at after 0
    assert(keys@.take(keys@.len() as int) =~= keys@);
@at tail
    assert(script@ =~= multi_script(sigs, keys@));
    assert(buff@ =~= seq![0u8, 32u8] + sha256(script@));
