@default C07
@raw b58
pub open spec fn are58(r: Seq<char>, d: Seq<int>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] r[i] == b58c(d[i]) as char && 0 <= d[i] < 58 }
pub proof fn lemma_are58_push(r: Seq<char>, d: Seq<int>, x: int) requires are58(r, d), 0 <= x < 58 ensures are58(r.push(b58c(x) as char), d.push(x)) {
    let r2 = r.push(b58c(x) as char); let d2 = d.push(x);
    assert forall|i: int| 0 <= i < d2.len() implies #[trigger] r2[i] == b58c(d2[i]) as char && 0 <= d2[i] < 58 by { if i < d.len() { assert(r2[i] == r[i]); assert(d2[i] == d[i]); } }
}
pub proof fn lemma_b58_tables()
    ensures forall|i: int| 0 <= i < 58 ==> #[trigger] B58_ALPHABET@[i] == b58c(i),
            forall|i: int| 0 <= i < 256 ==> #[trigger] B58_BYTE_MAP@[i] as int == b58v(i)
{
}
/// longest input for which the capacity computations do not overflow (far beyond addressable memory)
pub open spec fn len_ok(n: nat) -> bool { n < 0x10_0000_0000_0000 }
@fn b58::b58_encode
@spec
    requires len_ok(slice.bv().len()),
    ensures ret@ =~= b58_enc(slice.bv()),
@at start
    let ghost s = ints(slice.bv()); let ghost nn = bev(256, s); let ghost mut base: Seq<char> = seq![];
    let ghost mut rr: Seq<int> = seq![];
    proof { lemma_b58_tables(); lemma_ints_digs(slice.bv()); lemma_lz(s); lemma_bev_bound(256, s); }
@loop 0
    invariant zeros <= lz(s), data@ == slice.bv(),
    decreases data@.len() - zeros,
@at top 0
    proof { assert(s[zeros as int] == data@[zeros as int] as int); }
@at after 0
    proof { if zeros < lz(s) { assert(s[zeros as int] == data@[zeros as int] as int); } }
@at pre 1
    proof {
        assert(zeros == lz(s));
        assert(ints(buff@) =~= s.skip(zeros as int)); lemma_bev_strip(256, s);
        assert(rr + led(58, nn) =~= led(58, nn));
        if buff@.len() > 0 { assert(buff@[0] as int == s[zeros as int]); }
    }
@loop 1
    invariant
        buff@.len() > 0 ==> buff@[0] != 0,
        led(58, nn) =~= rr + led(58, bev(256, ints(buff@))),
        are58(result@, rr),
    decreases bev(256, ints(buff@)),
@at top 1
    let ghost v = bev(256, ints(buff@)); let ghost rs0 = result@; let ghost rr0 = rr;
    proof { lemma_ints_digs(buff@); lemma_bev_pos(256, ints(buff@)); lemma_bev_bound(256, ints(buff@)); }
@at pre 2
    proof { assert(ints(temp@) =~= seq![]); lemma_bev_empty(256, ints(temp@)); lemma_bev_empty(256, ints(buff@).take(0)); assert(58 * 0 == 0); }
@loop 2
    invariant
        rem < 58, temp@.len() > 0 ==> temp@[0] != 0,
        bev(256, ints(buff@).take(__i2 as int)) == 58 * bev(256, ints(temp@)) + rem,
@at top 2
    let ghost t0 = temp@; let ghost r0 = rem as int;
    proof {
        let k = __i2 - 1;
        assert(ints(buff@).take(__i2 as int) =~= ints(buff@).take(k).push(*b as int));
        lemma_bev_push(256, ints(buff@).take(k), *b as int);
        let q = rem;
        assert(q < 58 ==> q << 8 == q * 256) by (bit_vector);
    }
@at bot 2
    proof {
        lemma_bev_push(256, ints(t0), div as int);
        assert(ints(t0.push(div as u8)) =~= ints(t0).push(div as int));
        if t0.len() == 0 { lemma_bev_empty(256, ints(t0)); }
        assert(temp@ == t0.push(div as u8) || (t0.len() == 0 && div == 0 && temp@ == t0));
    }
@at after 2
    proof {
        assert(ints(buff@).take(__n2 as int) =~= ints(buff@));
        let w = bev(256, ints(temp@));
        lemma_ints_digs(temp@); lemma_bev_bound(256, ints(temp@));
        assert(v == 58 * w + rem);
        assert(v / 58 == w && v % 58 == rem) by (nonlinear_arith) requires v == 58 * w + rem, 0 <= rem < 58;
        assert(led(58, v) =~= seq![v % 58] + led(58, v / 58));
        rr = rr.push(rem as int);
        assert(B58_ALPHABET@[rem as int] == b58c(rem as int));
    }
@at bot 1
    proof { lemma_are58_push(rs0, rr0, rem as int); assert(result@ =~= rs0.push(b58c(rem as int) as char)); }
@at after 1
    proof {
        lemma_bev_empty(256, ints(buff@)); assert(led(58, 0) =~= seq![]); assert(rr =~= led(58, nn));
        base = result@;
    }
@loop 3
    invariant result@ =~= base + Seq::new(__i3 as nat, |i: int| 49u8 as char),
@at top 3
    proof { assert(B58_ALPHABET@[0] == 49); }
@at tail
    proof {
        let d = conv(256, 58, s);
        assert(d =~= crate::num::zeros(lz(s)) + rev(rr));
        assert forall|i: int| 0 <= i < d.len() implies result@[i] == b58c(d[i]) as char by {
            if i >= lz(s) { let j = rr.len() - 1 - (i - lz(s)); assert(result@[i] == base[j]); assert(d[i] == rr[j]); } else { assert(d[i] == 0); assert(result@[i] == 49u8 as char); }
        }
    }
@fn b58::b58_decode
@spec
    requires len_ok(sb(str.iv()).len()),
    ensures match ret { Ok(v) => b58_ok(str.iv()) && v@ =~= b58_dec(str.iv()), Err(_) => !b58_ok(str.iv()) },
@at start
    let ghost cs = str.iv(); let ghost t = sb(cs); let ghost ds = b58ds(cs); let ghost nn = bev(58, ds);
    proof {
        lemma_b58_tables(); lemma_lz(ds);
        if b58_ok(cs) {
            assert forall|i: int| 0 <= i < cs.len() implies is_ascii_char(#[trigger] cs[i]) by { assert(b58v(cs[i] as int) >= 0); }
            lemma_ascii_sb(cs);
            lemma_b58ds(cs); lemma_bev_bound(58, ds);
        }
        if cs.len() == 0 { assert(b58_dec(cs) =~= seq![]) by { assert(ds =~= seq![]); lemma_bev_empty(58, ds); } }
        lemma_sb_len(cs);
    }
@loop 0
    invariant zeros <= t.len(), str@ == cs, b58_ok(cs) ==> zeros <= lz(ds),
    decreases t.len() - zeros,
@at top 0
    proof { if b58_ok(cs) { assert(t[zeros as int] == cs[zeros as int] as u8); assert(b58v(cs[zeros as int] as int) == ds[zeros as int]); } }
@at after 0
    proof { if b58_ok(cs) && zeros < lz(ds) { assert(t[zeros as int] == cs[zeros as int] as u8); assert(ds[zeros as int] == 0); } }
@at pre 1
    proof {
        assert(ints(buff@) =~= crate::num::zeros(buff@.len())); assert(rev(ints(buff@)) =~= crate::num::zeros(buff@.len())); lemma_lev_zeros(256, buff@.len());
        lemma_bev_empty(58, ds.take(0));
    }
@loop 1
    invariant
        buff@.len() == t.len() * 733 / 1000 + 1,
        forall|k: int| 0 <= k < __i1 ==> 0 <= #[trigger] ds[k] < 58,
        bev(256, ints(buff@)) == bev(58, ds.take(__i1 as int)),
@at top 1
    let ghost old = buff@;
    proof {
        assert(ds[__i1 - 1] == b58v(c as int));
        if (c as usize) < 256 { assert(B58_BYTE_MAP@[c as int] as int == b58v(c as int)); }
        assert(cs[__i1 - 1] == c);
    }
@at pre 2
    let ghost o = rev(ints(old)); let ghost mut b0 = buff@; let ghost mut c0 = carry;
    proof { assert(rev(ints(buff@)).take(0) =~= seq![]); assert(o.take(0) =~= seq![]); reveal_with_fuel(pw, 1); assert(58 * 0 == 0); assert(carry as int * 1 == carry); }
@loop 2
    invariant
        buff@.len() == old.len(), carry <= 58, __n2 == old.len(),
        forall|k: int| 0 <= k < __n2 - __i2 ==> #[trigger] buff@[k] == old[k],
        b0 == buff@, c0 == carry,
        lev(256, rev(ints(buff@)).take(__i2 as int)) + carry as int * pw(256, __i2 as nat) == 58 * lev(256, o.take(__i2 as int)) + index as int,
@at top 2
    proof { let x = carry; }
@at bot 2
    proof {
        let k = __i2 - 1; let j = __n2 - 1 - k;
        let y = b0[j] as int; let cc = c0 as int + y * 58;
        assert(b0[j] == old[j]);
        let z = cc as u32;
        assert(z & 0xFF == z % 256 && z >> 8 == z / 256) by (bit_vector);
        assert(buff@ =~= b0.update(j, (cc % 256) as u8));
        assert(carry as int == cc / 256);
        let (a, b) = (rev(ints(buff@)), rev(ints(b0)));
        assert(a.take(k) =~= b.take(k));
        assert(a.take(k + 1) =~= a.take(k).push(cc % 256));
        assert(o.take(k + 1) =~= o.take(k).push(y));
        lemma_lev_push(256, a.take(k), cc % 256); lemma_lev_push(256, o.take(k), y);
        let p = pw(256, k as nat);
        assert(pw(256, (k + 1) as nat) == 256 * p);
        let (q, r) = (cc / 256, cc % 256);
        assert(r * p + q * (256 * p) == (256 * q + r) * p) by (nonlinear_arith);
        assert((c0 as int + y * 58) * p == c0 as int * p + 58 * (y * p)) by (nonlinear_arith);
        assert(58 * (lev(256, o.take(k)) + y * p) == 58 * lev(256, o.take(k)) + 58 * (y * p)) by (nonlinear_arith);
        b0 = buff@; c0 = carry;
    }
@at after 2
    proof {
        let n = __n2 as int;
        assert(rev(ints(buff@)).take(n) =~= rev(ints(buff@))); assert(o.take(n) =~= o);
        assert(ds.take(__i1 as int) =~= ds.take(__i1 - 1).push(index as int));
        lemma_bev_push(58, ds.take(__i1 - 1), index as int);
        let m = ds.take(__i1 as int);
        assert(digs(58, m)) by { assert forall|i: int| 0 <= i < m.len() implies 0 <= #[trigger] m[i] < 58 by { assert(m[i] == ds[i]); } }
        lemma_bev_bound(58, m);
        lemma_fits(t.len()); lemma_pw_le(58, m.len(), t.len());
        lemma_ints_digs(buff@); lemma_bev_bound(256, ints(buff@));
        let (w, p, x) = (carry as int, pw(256, n as nat), bev(58, m));
        assert(w == 0) by (nonlinear_arith) requires bev(256, ints(buff@)) + w * p == x, x < p, bev(256, ints(buff@)) >= 0, w >= 0, p > 0;
        assert(0 * p == 0);
        assert(bev(256, ints(buff@)) == x);
    }
@at after 1
    proof {
        assert(b58_ok(cs)) by { assert forall|i: int| 0 <= i < cs.len() implies b58v(#[trigger] cs[i] as int) >= 0 by { assert(ds[i] >= 0); } }
        assert(ds.take(ds.len() as int) =~= ds);
    }
@loop 3
    invariant bev(256, ints(buff@)) == nn,
        b1 == buff@,
    decreases buff@.len(),
@at pre 3
    let ghost mut b1 = buff@;
@at bot 3
    proof {
        assert(buff@ =~= b1.skip(1));
        let (a, b) = (rev(ints(b1)), rev(ints(buff@)));
        assert(a.drop_last() =~= b); assert(a.last() == 0);
        lemma_lev_drop0(256, a);
        b1 = buff@;
    }
@at tail
    proof {
        let e = rev(ints(buff@));
        lemma_ints_digs(buff@); lemma_digs_rev(256, ints(buff@));
        if e.len() > 0 { assert(e.last() == buff@[0] as int); }
        lemma_led_lev(256, e);
        let d = conv(58, 256, ds);
        assert(zeros == lz(ds));
        assert(d == crate::num::zeros(lz(ds)) + rev(e));
        assert(ints(result@) =~= d);
        assert forall|i: int| 0 <= i < d.len() implies b58_dec(cs)[i] == result@[i] by { assert(ints(result@)[i] == d[i]); }
    }
@raw b58
pub open spec fn b58check4(h: Seq<u8>, v: u8) -> Seq<u8> { dsha256(seq![v] + h).take(4) }
pub open spec fn b58check_enc(h: Seq<u8>, v: u8) -> Seq<char> { b58_enc(seq![v] + h + b58check4(h, v)) }
pub open spec fn b58check_data(s: Seq<char>) -> Seq<u8> { b58_dec(s).subrange(1, b58_dec(s).len() - 4) }
pub open spec fn b58check_ok(s: Seq<char>) -> bool {
    b58_ok(s) && b58_dec(s).len() >= 5 && b58_dec(s).skip(b58_dec(s).len() - 4) == b58check4(b58check_data(s), b58_dec(s)[0])
}
/// C07: Base58Check text decodes to its version and payload
pub proof fn theorem_b58check_roundtrip(h: Seq<u8>, v: u8)
    ensures b58check_ok(b58check_enc(h, v)), b58check_data(b58check_enc(h, v)) =~= h, b58_dec(b58check_enc(h, v))[0] == v
{
    let d = seq![v] + h + b58check4(h, v);
    theorem_b58_roundtrip(d);
    assert(d.skip(d.len() - 4) =~= b58check4(h, v));
    assert(d.subrange(1, d.len() - 4) =~= h);
}
@fn b58::base58check_encode
@spec
    requires len_ok(hash.bv().len() + 5),
    ensures ret@ =~= b58check_enc(hash.bv(), version)
@at tail
    assert(data@ =~= seq![version] + hash@ + b58check4(hash@, version));
@fn b58::base58check_decode
@spec
    requires len_ok(sb(str.iv()).len()),
    ensures match ret { Ok((d, v)) => b58check_ok(str.iv()) && d@ =~= b58check_data(str.iv()) && v == b58_dec(str.iv())[0], Err(_) => !b58check_ok(str.iv()) }
@at pre 0
    let ghost want = b58check4(b58check_data(str.iv()), b58_dec(str.iv())[0]);
    proof { let q = b58_dec(cs0); let m = q.len() - 4; assert(seq![q[0]] + q.subrange(1, m) =~= q.subrange(0, m)); assert(checksum@ =~= q.skip(m)); assert(bytes@.take(4) =~= want); }
@at start
    let ghost cs0 = str.iv();
    proof { let q = b58_dec(cs0); let m = q.len() - 4; if m >= 1 { assert(seq![q[0]] + q.subrange(1, m) =~= q.subrange(0, m)); assert(q.skip(m) =~= q.subrange(m, q.len() as int)); let d = dsha256(q.subrange(0, m)); assert(d.take(4) =~= d.subrange(0, 4)); } }
@loop 0
    invariant forall|k: int| 0 <= k < __i0 ==> checksum@[k] == want[k],
@at after 0
    assert(checksum@ =~= want);
