@default C10 C11 C12 C13 C14 C15 C16
@raw transaction
/// closed world: boxed payloads, post-conditions, spending conditions and networks
pub enum DynPayload { TokenTransferPayload(TokenTransferPayload), ContractCallPayload(ContractCallPayload) }
pub enum DynCondition { STXPostCondition(STXPostCondition), FungiblePostCondition(FungiblePostCondition), NonFungiblePostCondition(NonFungiblePostCondition) }
pub enum DynSpendingCondition { SpendingConditionStandard(SpendingConditionStandard), SpendingConditionMultiSig(SpendingConditionMultiSig) }
pub enum DynNetwork { StacksMainnet(StacksMainnet), StacksTestnet(StacksTestnet), StacksMocknet(StacksMocknet) }
/// abstract payloads, post-conditions, spending conditions, transactions
pub enum P { Transfer(V, u64, Seq<char>), Call(u8, Seq<u8>, Seq<char>, Seq<char>, Seq<V>) }
pub struct Asset { pub address: Seq<char>, pub name: Seq<char>, pub asset: Seq<char> }
pub enum K { Stx(V, u64, ConditionCode), Ft(V, u64, ConditionCode, Asset), Nft(V, V, ConditionCode, Asset) }
pub enum F { Key(PublicKey), Sig(Seq<u8>) }
pub enum SC { One { mode: Mode, fee: u64, nonce: u64, signer: Seq<u8>, sig: Seq<u8> }, Multi { mode: Mode, fee: u64, nonce: u64, signer: Seq<u8>, fields: Seq<F>, required: u8 } }
pub enum AU { Std(SC), Spon(SC, SC) }
pub struct TX { pub version: TransactionVersion, pub chain: ChainID, pub auth: AU, pub anchor: AnchorMode, pub pcm: PostConditionMode, pub pcs: Seq<K>, pub pay: P }
pub open spec fn pv(p: DynPayload) -> P {
    match p {
        DynPayload::TokenTransferPayload(x) => P::Transfer(dv(*x.address), x.amount, x.memo@),
        DynPayload::ContractCallPayload(x) => P::Call(x.address.version, x.address.hash.0@, x.contract.__value@, x.name.__value@, dvs(x.args.__value)),
    }
}
pub open spec fn asv(i: AssetInfo) -> Asset { Asset { address: i.address.__value@, name: i.name.__value@, asset: i.asset.__value@ } }
pub open spec fn kv(c: DynCondition) -> K {
    match c {
        DynCondition::STXPostCondition(x) => K::Stx(dv(*x.address), x.amount, x.code),
        DynCondition::FungiblePostCondition(x) => K::Ft(dv(*x.address), x.amount, x.code, asv(x.info)),
        DynCondition::NonFungiblePostCondition(x) => K::Nft(dv(*x.address), dv(*x.name), x.code, asv(x.info)),
    }
}
pub open spec fn kvs(v: Seq<Box<DynCondition>>) -> Seq<K> { Seq::new(v.len(), |i: int| kv(*v[i])) }
pub open spec fn fv(f: AuthField) -> F { match f { AuthField::PK(k) => F::Key(k), AuthField::MSG(m) => F::Sig(m.0@) } }
pub open spec fn fvs(v: Seq<AuthField>) -> Seq<F> { Seq::new(v.len(), |i: int| fv(v[i])) }
pub open spec fn sv1(x: SpendingConditionStandard) -> SC { SC::One { mode: x.mode, fee: x.fee, nonce: x.nonce, signer: x.signer.0@, sig: x.signature.0@ } }
pub open spec fn sv2(x: SpendingConditionMultiSig) -> SC { SC::Multi { mode: x.mode, fee: x.fee, nonce: x.nonce, signer: x.signer.0@, fields: fvs(x.fields@), required: x.required } }
pub open spec fn sv(c: DynSpendingCondition) -> SC { match c { DynSpendingCondition::SpendingConditionStandard(x) => sv1(x), DynSpendingCondition::SpendingConditionMultiSig(x) => sv2(x) } }
pub open spec fn av(a: Auth) -> AU { match a { Auth::Standard(o) => AU::Std(sv(*o)), Auth::Sponsored(o, s) => AU::Spon(sv(*o), sv(*s)) } }
pub open spec fn txv(t: Transaction) -> TX { TX { version: t.version, chain: t.chain_id, auth: av(t.auth), anchor: t.anchor_mode, pcm: t.post_condition_mode, pcs: kvs(t.post_conditions.__value@), pay: pv(*t.payload) } }
/// SIP-005 wire bytes
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn memo_ser(m: Seq<char>) -> Seq<u8> { sb(m) + zeros((34 - sb(m).len()) as nat) }
pub open spec fn pay_ser(p: P) -> Seq<u8> {
    match p {
        P::Transfer(a, n, m) => seq![0u8] + ser(a) + be(n as int, 8) + memo_ser(m),
        P::Call(v, h, c, f, args) => seq![2u8] + seq![v] + h + lps(c) + lps(f) + ser(V::Args(args)),
    }
}
pub open spec fn pay_ok(p: P) -> bool {
    match p { P::Transfer(a, n, m) => enc_ok(a) && sb(m).len() <= 34, P::Call(v, h, c, f, args) => sb(c).len() <= 128 && sb(f).len() <= 128 && enc_ok(V::Args(args)) }
}
pub open spec fn code_byte(c: ConditionCode) -> u8 { match c { ConditionCode::EQ => 1, ConditionCode::GT => 2, ConditionCode::GTE => 3, ConditionCode::LT => 4, ConditionCode::LTE => 5, ConditionCode::HasNot => 16, ConditionCode::Has => 17 } }
pub open spec fn is_principal(v: V) -> bool { v is Std || v is Con }
/// principal type and principal
pub open spec fn prin_ser(v: V) -> Seq<u8> { match v { V::Std(a) => seq![2u8] + seq![addr_ver(sb(a))] + addr_hash(sb(a)), V::Con(a, n) => seq![3u8] + seq![addr_ver(sb(a))] + addr_hash(sb(a)) + lps(n), _ => seq![] } }
#[verifier::opaque] pub open spec fn asset_ser(i: Asset) -> Seq<u8> { seq![addr_ver(sb(i.address))] + addr_hash(sb(i.address)) + lps(i.name) + lps(i.asset) }
pub open spec fn asset_ok(i: Asset) -> bool { addr_ok(sb(i.address)) && sb(i.name).len() <= 128 && sb(i.asset).len() <= 128 }
pub open spec fn k_ser(k: K) -> Seq<u8> {
    match k {
        K::Stx(a, n, c) => seq![0u8] + prin_ser(a) + seq![code_byte(c)] + be(n as int, 8),
        K::Ft(a, n, c, i) => seq![1u8] + prin_ser(a) + asset_ser(i) + seq![code_byte(c)] + be(n as int, 8),
        K::Nft(a, v, c, i) => seq![2u8] + prin_ser(a) + asset_ser(i) + ser(v) + seq![code_byte(c)],
    }
}
pub open spec fn k_ok(k: K) -> bool {
    match k {
        K::Stx(a, n, c) => is_principal(a) && enc_ok(a),
        K::Ft(a, n, c, i) => is_principal(a) && enc_ok(a) && asset_ok(i),
        K::Nft(a, v, c, i) => is_principal(a) && enc_ok(a) && asset_ok(i) && enc_ok(v),
    }
}
pub open spec fn ks_ser(q: Seq<K>) -> Seq<u8> decreases q.len() { if q.len() == 0 { seq![] } else { ks_ser(q.drop_last()) + k_ser(q.last()) } }
pub open spec fn ks_ok(q: Seq<K>) -> bool { forall|i: int| 0 <= i < q.len() ==> k_ok(#[trigger] q[i]) }
pub open spec fn pcs_ser(q: Seq<K>) -> Seq<u8> { be(q.len() as int, 4) + ks_ser(q) }
pub open spec fn pcs_ok(q: Seq<K>) -> bool { q.len() < 0x1_0000_0000 && ks_ok(q) }
pub open spec fn mode_byte(m: Mode) -> u8 { match m { Mode::P2PKH => 0, Mode::P2SH => 1, Mode::P2WPKH => 2, Mode::P2WSH => 3 } }
pub open spec fn f_ser(f: F) -> Seq<u8> { match f { F::Key(k) => seq![0u8] + k@, F::Sig(s) => seq![2u8] + s } }
pub open spec fn fs_ser(q: Seq<F>) -> Seq<u8> decreases q.len() { if q.len() == 0 { seq![] } else { fs_ser(q.drop_last()) + f_ser(q.last()) } }
pub open spec fn sc_ser(c: SC) -> Seq<u8> {
    match c {
        SC::One { mode, fee, nonce, signer, sig } => seq![mode_byte(mode)] + signer + be(nonce as int, 8) + be(fee as int, 8) + seq![0u8] + sig,
        SC::Multi { mode, fee, nonce, signer, fields, required } => seq![mode_byte(mode)] + signer + be(nonce as int, 8) + be(fee as int, 8) + be(fields.len() as int, 4) + fs_ser(fields) + be(required as int, 2),
    }
}
pub open spec fn sc_ok(c: SC) -> bool { match c { SC::One { .. } => true, SC::Multi { fields, .. } => fields.len() < 0x1_0000_0000 } }
pub open spec fn au_ser(a: AU) -> Seq<u8> { match a { AU::Std(o) => seq![4u8] + sc_ser(o), AU::Spon(o, s) => seq![5u8] + sc_ser(o) + sc_ser(s) } }
pub open spec fn au_ok(a: AU) -> bool { match a { AU::Std(o) => sc_ok(o), AU::Spon(o, s) => sc_ok(o) && sc_ok(s) } }
pub open spec fn ver_byte(v: TransactionVersion) -> u8 { match v { TransactionVersion::Mainnet => 0, TransactionVersion::Testnet => 0x80 } }
pub open spec fn chain_word(c: ChainID) -> int { match c { ChainID::Mainnet => 1, ChainID::Testnet => 0x8000_0000 } }
pub open spec fn anchor_byte(a: AnchorMode) -> u8 { match a { AnchorMode::Strict => 1, AnchorMode::Micro => 2, AnchorMode::Any => 3 } }
pub open spec fn pcm_byte(m: PostConditionMode) -> u8 { match m { PostConditionMode::Allow => 1, PostConditionMode::Deny => 2 } }
pub open spec fn tx_ser(t: TX) -> Seq<u8> { seq![ver_byte(t.version)] + be(chain_word(t.chain), 4) + au_ser(t.auth) + seq![anchor_byte(t.anchor)] + seq![pcm_byte(t.pcm)] + pcs_ser(t.pcs) + pay_ser(t.pay) }
pub open spec fn tx_ok(t: TX) -> bool { au_ok(t.auth) && pcs_ok(t.pcs) && pay_ok(t.pay) }
/// the text of a zero-padded memo
pub open spec fn memo_text(m: Seq<char>) -> Seq<char> { m + Seq::new((34 - sb(m).len()) as nat, |i: int| '\0') }
@raw transaction
@for X in TokenTransferPayload ContractCallPayload
impl $X { pub fn into_dyn(self) -> (r: DynPayload) ensures r == DynPayload::$X(self) { DynPayload::$X(self) } }
@end
@for X in STXPostCondition FungiblePostCondition NonFungiblePostCondition
impl $X { pub fn into_dyn(self) -> (r: DynCondition) ensures r == DynCondition::$X(self) { DynCondition::$X(self) } }
@end
@for X in SpendingConditionStandard SpendingConditionMultiSig
impl $X { pub fn into_dyn(self) -> (r: DynSpendingCondition) ensures r == DynSpendingCondition::$X(self) { DynSpendingCondition::$X(self) } }
@end
impl DynPayload {
    pub fn encode(&self) -> (ret: Result<Vec<u8>, clarity::Error>) ensures match ret { Ok(b) => pay_ok(pv(*self)) && b@ == pay_ser(pv(*self)), Err(_) => !pay_ok(pv(*self)) }
    { match self { DynPayload::TokenTransferPayload(x) => x.encode(), DynPayload::ContractCallPayload(x) => x.encode() } }
}
impl DynCondition {
    pub fn encode(&self) -> (ret: Result<Vec<u8>, clarity::Error>) ensures match ret { Ok(b) => k_ok(kv(*self)) && b@ == k_ser(kv(*self)), Err(_) => !k_ok(kv(*self)) }
    { match self { DynCondition::STXPostCondition(x) => x.encode(), DynCondition::FungiblePostCondition(x) => x.encode(), DynCondition::NonFungiblePostCondition(x) => x.encode() } }
}
@default C10 C12
@fn transaction::TokenTransferPayload::encode
@spec
    ensures match ret { Ok(b) => pay_ok(pv(DynPayload::TokenTransferPayload(*self))) && b@ =~= pay_ser(pv(DynPayload::TokenTransferPayload(*self))), Err(_) => !pay_ok(pv(DynPayload::TokenTransferPayload(*self))) },
@loop 0
    invariant memo_bytes@ =~= sb(self.memo@).take(__i0 as int) + zeros((34 - __i0) as nat), sb(self.memo@).len() <= 34, __v0@ == sb(self.memo@),
@at after 0
    assert(sb(self.memo@).take(sb(self.memo@).len() as int) =~= sb(self.memo@));
@fn transaction::ContractCallPayload::encode
@spec
    ensures match ret { Ok(b) => pay_ok(pv(DynPayload::ContractCallPayload(*self))) && b@ =~= pay_ser(pv(DynPayload::ContractCallPayload(*self))), Err(_) => !pay_ok(pv(DynPayload::ContractCallPayload(*self))) },
@default C11
@for X in STXPostCondition FungiblePostCondition NonFungiblePostCondition
@fn transaction::$X::encode
@spec
    ensures match ret { Ok(b) => k_ok(kv(DynCondition::$X(*self))) && b@ =~= k_ser(kv(DynCondition::$X(*self))), Err(_) => !k_ok(kv(DynCondition::$X(*self))) },
@end
@fn transaction::AssetInfo::encode
@spec
    ensures match ret { Ok(b) => asset_ok(asv(*self)) && b@ =~= asset_ser(asv(*self)), Err(_) => !asset_ok(asv(*self)) },
@at start
    proof { reveal(asset_ser); }
@fn transaction::PostConditions::encode
@spec
    ensures match ret { Ok(b) => pcs_ok(kvs(self.__value@)) && b@ =~= pcs_ser(kvs(self.__value@)), Err(_) => !pcs_ok(kvs(self.__value@)) },
@at start
    let ghost q = kvs(self.__value@);
@at pre 0
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant buff@ =~= be(q.len() as int, 4) + ks_ser(q.take(__i0 as int)), ks_ok(q.take(__i0 as int)),
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1));
        assert(q.take(__i0 as int).last() == kv(*__v0@[__i0 - 1]));
        assert(q[__i0 - 1] == kv(*__v0@[__i0 - 1]));
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@for X,A,E in STXPostCondition|address|K::Stx(dv(address),~amount,~code) FungiblePostCondition|address|K::Ft(dv(address),~amount,~code,~asv(info)) NonFungiblePostCondition|address|K::Nft(dv(address),~dv(name),~code,~asv(info))
@fn transaction::$X::new
@spec
    ensures kv(DynCondition::$X(ret)) == $E,
@end
@fn transaction::AssetInfo::new
@spec
    ensures asv(ret) == (Asset { address: address.iv(), name: name.iv(), asset: asset.iv() }),
@fn transaction::PostConditions::new
@spec
    ensures ret.__value == __value,
@fn transaction::PostConditions::default
@spec
    ensures ret.__value@.len() == 0,
@default C12
@raw transaction
/// C12: what a payload decoder reads, and how many bytes
pub open spec fn ppay_t(b: Seq<u8>) -> Option<(P, nat)> {
    match parse(b.skip(1)) {
        Some((v, k)) => if b.len() >= 43 + k && valid_utf8(b.subrange(9 + k as int, 43 + k as int)) { Some((P::Transfer(v, bv256(b.subrange(1 + k as int, 9 + k as int)) as u64, decode_utf8(b.subrange(9 + k as int, 43 + k as int))), 43 + k)) } else { None },
        None => None }
}
pub open spec fn ppay_c(b: Seq<u8>) -> Option<(P, nat)> {
    if b.len() >= 22 { match pname(b.skip(22)) {
        Some((c, i)) => match pname(b.skip(22 + i as int)) {
            Some((f, j)) => match parse_args(b.skip(22 + i as int + j as int)) { Some((V::Args(s), k)) => Some((P::Call(b[1], b.subrange(2, 22), c, f, s), 22 + i + j + k)), _ => None },
            None => None },
        None => None } }
    else { None }
}
pub open spec fn ppay(b: Seq<u8>) -> Option<(P, nat)> { if b.len() == 0 { None } else if b[0] == 0 { ppay_t(b) } else if b[0] == 2 { ppay_c(b) } else { None } }
pub open spec fn ppay_as(b: Seq<u8>, tag: u8) -> Option<(P, nat)> { if b.len() > 0 && b[0] == tag { ppay(b) } else { None } }
/// C12: whenever decoding succeeds, re-encoding gives the consumed prefix
pub open spec fn preads(b: Seq<u8>, r: Option<(P, nat)>) -> bool { match r { Some((p, n)) => 0 < n <= b.len() && pay_ser(p) == b.take(n as int) && pay_ok(p), None => true } }
pub proof fn lemma_args(b: Seq<u8>) ensures match parse_args(b) { Some((v, n)) => v is Args && 0 < n <= b.len() && ser(v) == b.take(n as int) && enc_ok(v), None => true } {
    if parse_args(b).is_some() {
        lemma_u32at(b, 0); lemma_parse_l(b.skip(4), u32at(b, 0) as nat);
        let (s, n) = parse_l(b.skip(4), u32at(b, 0) as nat).unwrap();
        assert(b.take(n as int + 4) =~= b.subrange(0, 4) + b.skip(4).take(n as int));
    }
}
proof fn lemma_memo_of(m: Seq<u8>) requires valid_utf8(m), m.len() == 34 ensures memo_ser(decode_utf8(m)) == m, sb(decode_utf8(m)).len() == 34 {
    hide(valid_utf8); hide(decode_utf8); hide(encode_utf8);
    decode_utf8_encode_utf8(m);
    assert(zeros(0) =~= seq![]);
    assert(m + zeros(0) =~= m);
}
proof fn lemma_word8(w: Seq<u8>) requires w.len() == 8 ensures be((bv256(w) as u64) as int, 8) == w {
    assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_val_be(w);
}
proof fn lemma_reads_t(b: Seq<u8>) requires b.len() > 0, b[0] == 0 ensures preads(b, ppay_t(b)) {
        hide(parse); hide(ser); hide(enc_ok); hide(proper); hide(bv256); hide(be); hide(valid_utf8); hide(decode_utf8); hide(encode_utf8); hide(memo_ser);
    if ppay_t(b).is_some() {
        let (p, n) = ppay_t(b).unwrap();
        lemma_parse(b.skip(1));
        let (v, k) = parse(b.skip(1)).unwrap();
        let m = b.subrange(9 + k as int, 43 + k as int); let w = b.subrange(1 + k as int, 9 + k as int);
        lemma_memo_of(m); lemma_word8(w);
        lemma_cat_t(b, k as int, ser(v), w, m);
    }
}
proof fn lemma_cat_t(b: Seq<u8>, k: int, x: Seq<u8>, w: Seq<u8>, m: Seq<u8>) requires 0 <= k, b.len() >= 43 + k, b[0] == 0, x == b.skip(1).take(k), w == b.subrange(1 + k, 9 + k), m == b.subrange(9 + k, 43 + k) ensures seq![0u8] + x + w + m == b.take(43 + k) { assert(seq![0u8] + x + w + m =~= b.take(43 + k)); }
pub proof fn lemma_cut(b: Seq<u8>, i: int, n: int) requires 0 <= i, 0 <= n, i + n <= b.len() ensures b.take(i) + b.subrange(i, i + n) == b.take(i + n), b.skip(i).take(n) == b.subrange(i, i + n) {
    assert(b.take(i) + b.subrange(i, i + n) =~= b.take(i + n)); assert(b.skip(i).take(n) =~= b.subrange(i, i + n));
}
proof fn lemma_reads_c(b: Seq<u8>) requires b.len() > 0, b[0] == 2 ensures preads(b, ppay_c(b)) {
    if ppay_c(b).is_some() {
        let (p, n) = ppay_c(b).unwrap();
        lemma_pname(b.skip(22));
        let (c, i) = pname(b.skip(22)).unwrap();
        lemma_pname(b.skip(22 + i as int));
        let (f, j) = pname(b.skip(22 + i as int)).unwrap();
        let o = 22 + i as int + j as int;
        lemma_args(b.skip(o));
        let (a, k) = parse_args(b.skip(o)).unwrap();
        assert(seq![2u8] + seq![b[1]] + b.subrange(2, 22) =~= b.take(22));
        lemma_cut(b, 22, i as int); lemma_cut(b, 22 + i as int, j as int); lemma_cut(b, o, k as int);
    }
}
pub proof fn theorem_payload_reads(b: Seq<u8>) ensures preads(b, ppay(b)) { if b.len() > 0 && b[0] == 0 { lemma_reads_t(b); } if b.len() > 0 && b[0] == 2 { lemma_reads_c(b); } }
/// what the decoders need to know about the bytes ahead
pub proof fn lemma_pay_facts(b: Seq<u8>)
    ensures
        b.len() > 0 ==> reads(b.skip(1), parse(b.skip(1))),
        b.len() >= 22 ==> match pname(b.skip(22)) { Some((c, i)) => 0 < i <= b.len() - 22 && lps(c).len() == i && match pname(b.skip(22 + i as int)) { Some((f, j)) => 0 < j <= b.len() - 22 - i && lps(f).len() == j, None => true }, None => true },
{
    if b.len() > 0 { lemma_parse(b.skip(1)); }
    if b.len() >= 22 { lemma_pname(b.skip(22)); if pname(b.skip(22)).is_some() { lemma_pname(b.skip(22 + pname(b.skip(22)).unwrap().1 as int)); } }
}
/// a payload the decoder can spell
pub open spec fn pay_proper(p: P) -> bool { match p { P::Transfer(a, n, m) => proper(a), P::Call(v, h, c, f, args) => h.len() == 20 && proper_l(args) } }
pub open spec fn pay_canon(p: P) -> P { match p { P::Transfer(a, n, m) => P::Transfer(canon(a), n, memo_text(m)), P::Call(v, h, c, f, args) => P::Call(v, h, c, f, canon_l(args)) } }
pub proof fn lemma_memo(m: Seq<char>) requires sb(m).len() <= 34 ensures valid_utf8(memo_ser(m)), decode_utf8(memo_ser(m)) == memo_text(m), memo_ser(m).len() == 34 {
    let n = (34 - sb(m).len()) as nat; let z = zeros(n);
    lemma_ascii_valid(z);
    decode_utf8_encode_utf8(z);
    let t = decode_utf8(z);
    lemma_zero_text(n);
    encode_utf8_concat(m, Seq::new(n, |i: int| '\0'));
    encode_utf8_valid_utf8(memo_text(m)); encode_utf8_decode_utf8(memo_text(m));
}
pub proof fn lemma_zero_text(n: nat) ensures sb(Seq::new(n, |i: int| '\0')) == zeros(n) {
    lemma_ascii_sb(Seq::new(n, |i: int| '\0'));
    assert(sb(Seq::new(n, |i: int| '\0')) =~= zeros(n));
}
proof fn lemma_back_pt(a: V, n: u64, m: Seq<char>, rest: Seq<u8>) requires pay_ok(P::Transfer(a, n, m)), proper(a) ensures ppay(pay_ser(P::Transfer(a, n, m)) + rest) == Some((pay_canon(P::Transfer(a, n, m)), pay_ser(P::Transfer(a, n, m)).len())) {
    let b = pay_ser(P::Transfer(a, n, m)) + rest;
    let t = be(n as int, 8) + memo_ser(m) + rest;
    assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_be_val(n as int, 8); lemma_memo(m);
    theorem_parse_ser(a, t);
    let k = ser(a).len() as int;
    let x = be(n as int, 8); let y = memo_ser(m); let s = ser(a);
    assert(b == seq![0u8] + s + x + y + rest);
    assert(b.skip(1) =~= s + (x + y + rest));
    assert(b.subrange(1 + k, 9 + k) =~= x);
    assert(b.subrange(9 + k, 43 + k) =~= y);
}
proof fn lemma_back_pc(v: u8, h: Seq<u8>, c: Seq<char>, f: Seq<char>, args: Seq<V>, rest: Seq<u8>) requires pay_ok(P::Call(v, h, c, f, args)), h.len() == 20, proper_l(args) ensures ppay(pay_ser(P::Call(v, h, c, f, args)) + rest) == Some((pay_canon(P::Call(v, h, c, f, args)), pay_ser(P::Call(v, h, c, f, args)).len())) {
    hide(lps); hide(ser); hide(pname); hide(parse_args); hide(parse_l); hide(canon_l);
    let b = pay_ser(P::Call(v, h, c, f, args)) + rest;
    let r1 = lps(f) + ser(V::Args(args)) + rest; let r2 = ser(V::Args(args)) + rest;
    lemma_pname_of(c, r1); lemma_pname_of(f, r2); theorem_parse_args_ser(args, rest);
    let x = lps(c); let y = lps(f); let z = ser(V::Args(args));
    let i = x.len() as int; let j = y.len() as int;
    assert(b == seq![2u8] + seq![v] + h + x + y + z + rest);
    assert(b.subrange(2, 22) =~= h);
    assert(b.skip(22) =~= x + (y + z + rest));
    assert(b.skip(22 + i) =~= y + (z + rest));
    assert(b.skip(22 + i + j) =~= z + rest);
    assert(b[0] == 2 && b[1] == v);
}
/// C12: every payload reads back
pub proof fn theorem_payload_roundtrip(p: P, rest: Seq<u8>) requires pay_ok(p), pay_proper(p) ensures ppay(pay_ser(p) + rest) == Some((pay_canon(p), pay_ser(p).len())) {
    match p { P::Transfer(a, n, m) => lemma_back_pt(a, n, m, rest), P::Call(v, h, c, f, args) => lemma_back_pc(v, h, c, f, args, rest) }
}
@for X,T in TokenTransferPayload|0 ContractCallPayload|2
@fn transaction::$X::decode
@props C12 C04
@spec
    ensures
        ppay_as(bytes@, $T).is_some() ==> ret.is_ok(), // #C12
        ret.is_ok() ==> ppay_as(bytes@, $T).is_some(), // #C12
        ret.is_ok() && ppay_as(bytes@, $T).is_some() ==> pv(DynPayload::$X(ret->Ok_0)) == ppay_as(bytes@, $T).unwrap().0, // #C12
@at start
    proof { lemma_decode_facts(bytes@); lemma_pay_facts(bytes@); }
@end
@fn transaction::DynPayload::boxed_decode
@props C12 C04
@spec
    ensures
        ppay(bytes@).is_some() ==> ret.is_ok(), // #C12
        ret.is_ok() ==> ppay(bytes@).is_some(), // #C12
        ret.is_ok() && ppay(bytes@).is_some() ==> pv(*ret->Ok_0) == ppay(bytes@).unwrap().0, // #C12
@fn transaction::DynPayload::boxed_encode
@props C12 C10
@spec
    ensures match ret { Ok(b) => pay_ok(pv(**this)) && b@ == pay_ser(pv(**this)), Err(_) => !pay_ok(pv(**this)) },
@default C13 C14
@raw transaction
/// spending conditions as the constructors make them
pub open spec fn sc_wf(c: SC) -> bool {
    match c {
        SC::One { mode, signer, sig, .. } => (mode == Mode::P2PKH || mode == Mode::P2WPKH) && signer.len() == 20 && sig.len() == 65,
        SC::Multi { mode, signer, .. } => (mode == Mode::P2SH || mode == Mode::P2WSH) && signer.len() == 20,
    }
}
/// sizes the scripts can express
pub open spec fn sc_small(c: SC) -> bool { match c { SC::One { .. } => true, SC::Multi { fields, required, .. } => fields.len() <= 175 && required <= 175 } }
pub open spec fn sc_fields(c: SC) -> nat { match c { SC::One { .. } => 0, SC::Multi { fields, .. } => fields.len() } }
pub open spec fn sc_fee(c: SC) -> u64 { match c { SC::One { fee, .. } => fee, SC::Multi { fee, .. } => fee } }
pub open spec fn sc_nonce(c: SC) -> u64 { match c { SC::One { nonce, .. } => nonce, SC::Multi { nonce, .. } => nonce } }
pub open spec fn sc_mode(c: SC) -> Mode { match c { SC::One { mode, .. } => mode, SC::Multi { mode, .. } => mode } }
pub open spec fn with_fee(c: SC, x: u64) -> SC { match c { SC::One { mode, fee, nonce, signer, sig } => SC::One { mode, fee: x, nonce, signer, sig }, SC::Multi { mode, fee, nonce, signer, fields, required } => SC::Multi { mode, fee: x, nonce, signer, fields, required } } }
pub open spec fn with_nonce(c: SC, x: u64) -> SC { match c { SC::One { mode, fee, nonce, signer, sig } => SC::One { mode, fee, nonce: x, signer, sig }, SC::Multi { mode, fee, nonce, signer, fields, required } => SC::Multi { mode, fee, nonce: x, signer, fields, required } } }
/// fee, nonce and signatures cleared
pub open spec fn sc_reset(c: SC) -> SC { match c { SC::One { mode, signer, .. } => SC::One { mode, fee: 0, nonce: 0, signer, sig: zeros(65) }, SC::Multi { mode, signer, required, .. } => SC::Multi { mode, fee: 0, nonce: 0, signer, fields: seq![], required } } }
pub open spec fn sc_sentinel() -> SC { SC::One { mode: Mode::P2PKH, fee: 0, nonce: 0, signer: zeros(20), sig: zeros(65) } }
pub open spec fn count_sigs(q: Seq<F>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { count_sigs(q.drop_last()) + if q.last() is Sig { 1nat } else { 0 } } }
pub open spec fn nsigs(c: SC) -> nat { match c { SC::One { sig, .. } => if sig == zeros(65) { 0 } else { 1 }, SC::Multi { fields, .. } => count_sigs(fields) } }
pub open spec fn req_sigs(c: SC) -> nat { match c { SC::One { .. } => 1, SC::Multi { required, .. } => required as nat } }
pub proof fn lemma_count(q: Seq<F>, i: int) requires 0 <= i <= q.len() ensures count_sigs(q.take(i)) <= i decreases i { if i > 0 { lemma_count(q, i - 1); assert(q.take(i).drop_last() =~= q.take(i - 1)); } else { assert(q.take(0).len() == 0); } }
/// the keys and the hash after the fields, when every signature recovers a key over its hash
pub open spec fn chain(q: Seq<F>, h: Seq<u8>, typ: u8, fee: u64, nonce: u64) -> Option<(Seq<PublicKey>, Seq<u8>)> decreases q.len() {
    if q.len() == 0 { Some((seq![], h)) } else {
        match chain(q.drop_last(), h, typ, fee, nonce) {
            None => None,
            Some((ks, g)) => match q.last() {
                F::Key(k) => Some((ks.push(k), g)),
                F::Sig(s) => match recovers(presign(g, typ, fee, nonce), s) { Some(k) => Some((ks.push(k), postsign(presign(g, typ, fee, nonce), s))), None => None },
            },
        }
    }
}
pub proof fn lemma_chain_prefix(q: Seq<F>, i: int, h: Seq<u8>, typ: u8, fee: u64, nonce: u64) requires 0 <= i <= q.len(), chain(q.take(i), h, typ, fee, nonce).is_none() ensures chain(q, h, typ, fee, nonce).is_none() decreases q.len() - i {
    if i < q.len() { assert(q.take(i + 1).drop_last() =~= q.take(i)); lemma_chain_prefix(q, i + 1, h, typ, fee, nonce); } else { assert(q.take(i) =~= q); }
}
pub open spec fn key_hash(mode: Mode, k: PublicKey) -> Seq<u8> { if mode == Mode::P2PKH { hash160(k@) } else { p2wpkh(k@) } }
pub open spec fn script_hash(mode: Mode, m: u8, ks: Seq<PublicKey>) -> Seq<u8> { if mode == Mode::P2SH { p2sh(m, ks) } else { p2wsh(m, ks) } }
/// C13, C14: the condition is authorized over hash h; the value is the hash that follows
pub open spec fn verified(c: SC, h: Seq<u8>, typ: u8) -> Option<Seq<u8>> {
    match c {
        SC::One { mode, fee, nonce, signer, sig } => match recovers(presign(h, typ, fee, nonce), sig) { Some(k) => if key_hash(mode, k) == signer { Some(postsign(presign(h, typ, fee, nonce), sig)) } else { None }, None => None },
        SC::Multi { mode, fee, nonce, signer, fields, required } => match chain(fields, h, typ, fee, nonce) { Some((ks, g)) => if count_sigs(fields) >= required && script_hash(mode, required, ks) == signer { Some(g) } else { None }, None => None },
    }
}
/// the effect of a modification, if the condition allows it
pub open spec fn modified(c: SC, m: Modification) -> Option<SC> {
    match c {
        SC::One { mode, fee, nonce, signer, sig } => match m { Modification::SetSignature(s) => Some(SC::One { mode, fee, nonce, signer, sig: s.0@ }), _ => None },
        SC::Multi { mode, fee, nonce, signer, fields, required } => match m {
            Modification::AddSignature(s) => Some(SC::Multi { mode, fee, nonce, signer, fields: fields.push(F::Sig(s.0@)), required }),
            Modification::AddPublicKey(k) => Some(SC::Multi { mode, fee, nonce, signer, fields: fields.push(F::Key(k)), required }),
            _ => None },
    }
}
pub proof fn lemma_fvs_push(v: Seq<AuthField>, f: AuthField) ensures fvs(v.push(f)) == fvs(v).push(fv(f)) { assert(fvs(v.push(f)) =~= fvs(v).push(fv(f))); }
pub proof fn lemma_fvs_all() ensures forall|v: Seq<AuthField>, f: AuthField| #[trigger] fvs(v.push(f)) == fvs(v).push(fv(f)), fvs(seq![]) == Seq::<F>::empty() { assert forall|v: Seq<AuthField>, f: AuthField| #[trigger] fvs(v.push(f)) == fvs(v).push(fv(f)) by { lemma_fvs_push(v, f); } assert(fvs(seq![]) =~= Seq::<F>::empty()); }
pub proof fn lemma_zeros_sig() ensures forall|s: MessageSignature| (forall|i: int| 0 <= i < s.0@.len() ==> s.0@[i] == 0) ==> #[trigger] s.0@ == zeros(65) { assert forall|s: MessageSignature| (forall|i: int| 0 <= i < s.0@.len() ==> s.0@[i] == 0) implies #[trigger] s.0@ == zeros(65) by { assert(s.0@ =~= zeros(65)); } }
@default C16
@fn transaction::SpendingConditionStandard::new
@props C13 C16
@spec
    requires mode == Mode::P2PKH || mode == Mode::P2WPKH
    ensures sv1(ret) == (SC::One { mode, fee, nonce, signer: key_hash(mode, pk), sig: zeros(65) }),
@at start
    proof { lemma_zeros_sig(); }
@fn transaction::SpendingConditionStandard::default
@props C13
@spec
    ensures sv1(ret) == sc_sentinel(),
@at start
    proof { lemma_zeros_sig(); }
@at tail
    assert forall|x: [u8; 20]| (forall|i: int| 0 <= i < 20 ==> x@[i] == 0) implies #[trigger] x@ == zeros(20) by { assert(x@ =~= zeros(20)); }
@fn transaction::SpendingConditionMultiSig::new
@props C13
@args pks: &[PublicKey], fee: u64, nonce: u64, required: u8, mode: Mode
@spec
    requires mode == Mode::P2SH || mode == Mode::P2WSH, required <= 175, pks@.len() <= 175
    ensures sv2(ret) == (SC::Multi { mode, fee, nonce, signer: script_hash(mode, required, pks@), fields: seq![], required }),
@at start
    proof { lemma_fvs_all(); }
@default C10
@fn transaction::SpendingConditionStandard::encode
@spec
    ensures match ret { Ok(b) => b@ =~= sc_ser(sv1(*self)), Err(_) => false },
@fn transaction::SpendingConditionMultiSig::encode
@spec
    ensures match ret { Ok(b) => sc_ok(sv2(*self)) && b@ =~= sc_ser(sv2(*self)), Err(_) => !sc_ok(sv2(*self)) },
@at start
    let ghost q = fvs(self.fields@);
@at pre 0
    let ghost b0 = buff@;
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant buff@ =~= b0 + fs_ser(q.take(__i0 as int)),
@at top 0
    proof { assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1)); assert(q.take(__i0 as int).last() == fv(__v0@[__i0 - 1])); }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@default C13 C14
@fn transaction::SpendingConditionStandard::verify
@spec
    requires sc_wf(sv1(*self))
    ensures
        ret.is_ok() ==> verified(sv1(*self), hash.0@, typ).is_some(), // #C14
        verified(sv1(*self), hash.0@, typ).is_some() ==> ret.is_ok(), // #C13
        ret.is_ok() && verified(sv1(*self), hash.0@, typ).is_some() ==> ret->Ok_0.0@ == verified(sv1(*self), hash.0@, typ).unwrap(), // #C13 #C14
@fn transaction::SpendingConditionMultiSig::verify
@spec
    requires sc_wf(sv2(*self)), sc_small(sv2(*self))
    ensures
        ret.is_ok() ==> verified(sv2(*self), hash.0@, typ).is_some(), // #C14
        verified(sv2(*self), hash.0@, typ).is_some() ==> ret.is_ok(), // #C13
        ret.is_ok() && verified(sv2(*self), hash.0@, typ).is_some() ==> ret->Ok_0.0@ == verified(sv2(*self), hash.0@, typ).unwrap(), // #C13 #C14
@at start
    let ghost q = fvs(self.fields@); let ghost h = hash.0@;
@at pre 0
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant
        chain(q.take(__i0 as int), h, typ, self.fee, self.nonce) == Some((public_keys@, next.0@)),
        count == count_sigs(q.take(__i0 as int)), public_keys@.len() == __i0,
@at top 0
    proof {
        assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1)); assert(q.take(__i0 as int).last() == fv(__v0@[__i0 - 1]));
        lemma_count(q, __i0 - 1);
        if chain(q.take(__i0 as int), h, typ, self.fee, self.nonce).is_none() { lemma_chain_prefix(q, __i0 as int, h, typ, self.fee, self.nonce); }
    }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@default C15
@fn transaction::SpendingConditionStandard::modify
@props C13 C15
@spec
    ensures match ret { Ok(_) => modified(sv1(*old(self)), cmd) == Some(sv1(*final(self))), Err(_) => modified(sv1(*old(self)), cmd) is None && sv1(*final(self)) == sv1(*old(self)) },
@fn transaction::SpendingConditionMultiSig::modify
@props C13 C15
@spec
    ensures match ret { Ok(_) => modified(sv2(*old(self)), cmd) == Some(sv2(*final(self))), Err(_) => modified(sv2(*old(self)), cmd) is None && sv2(*final(self)) == sv2(*old(self)) },
@at start
    proof { lemma_fvs_all(); }
@for X,S in SpendingConditionStandard|sv1 SpendingConditionMultiSig|sv2
@fn transaction::$X::reset
@props C13
@spec
    ensures $S(*final(self)) == sc_reset($S(*old(self))),
@at start
    proof { lemma_zeros_sig(); lemma_fvs_all(); }
@fn transaction::$X::req_signatures
@spec
    ensures ret == req_sigs($S(*self)),
@fn transaction::$X::fee
@props C13
@spec
    ensures ret == sc_fee($S(*self)),
@fn transaction::$X::nonce
@props C13
@spec
    ensures ret == sc_nonce($S(*self)),
@fn transaction::$X::mode
@props C13
@spec
    ensures ret == sc_mode($S(*self)),
@fn transaction::$X::set_fee
@props C16
@spec
    ensures $S(*final(self)) == with_fee($S(*old(self)), fee),
@fn transaction::$X::set_nonce
@props C16
@spec
    ensures $S(*final(self)) == with_nonce($S(*old(self)), nonce),
@end
@fn transaction::SpendingConditionStandard::signatures
@spec
    ensures ret == nsigs(sv1(*self)),
@at start
    proof { lemma_zeros_sig(); }
@fn transaction::SpendingConditionMultiSig::signatures
@spec
    requires sc_fields(sv2(*self)) <= 65535
    ensures ret == nsigs(sv2(*self)),
@at start
    let ghost q = fvs(self.fields@);
@at pre 0
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant count == count_sigs(q.take(__i0 as int)),
@at top 0
    proof { assert(q.take(__i0 as int).drop_last() =~= q.take(__i0 - 1)); assert(q.take(__i0 as int).last() == fv(__v0@[__i0 - 1])); lemma_count(q, __i0 - 1); }
@at after 0
    assert(q.take(q.len() as int) =~= q);
@raw transaction
/// dynamic dispatch of spending conditions (verified)
impl DynSpendingCondition {
    pub fn encode(&self) -> (ret: Result<Vec<u8>, clarity::Error>) ensures match ret { Ok(b) => sc_ok(sv(*self)) && b@ == sc_ser(sv(*self)), Err(_) => !sc_ok(sv(*self)) }
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.encode(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.encode() } }
    pub fn verify(&self, hash: SignatureHash, typ: u8) -> (ret: Result<SignatureHash, Error>) requires sc_wf(sv(*self)), sc_small(sv(*self))
        ensures match ret { Ok(n) => verified(sv(*self), hash.0@, typ) == Some(n.0@), Err(_) => verified(sv(*self), hash.0@, typ) is None }
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.verify(hash, typ), DynSpendingCondition::SpendingConditionMultiSig(x) => x.verify(hash, typ) } }
    pub fn modify(&mut self, cmd: Modification) -> (ret: Result<(), Error>)
        ensures match ret { Ok(_) => modified(sv(*old(self)), cmd) == Some(sv(*final(self))), Err(_) => modified(sv(*old(self)), cmd) is None && sv(*final(self)) == sv(*old(self)) }
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.modify(cmd), DynSpendingCondition::SpendingConditionMultiSig(x) => x.modify(cmd) } }
    pub fn reset(&mut self) ensures sv(*final(self)) == sc_reset(sv(*old(self)))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.reset(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.reset() } }
    pub fn signatures(&self) -> (ret: u16) requires sc_fields(sv(*self)) <= 65535 ensures ret == nsigs(sv(*self))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.signatures(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.signatures() } }
    pub fn req_signatures(&self) -> (ret: u16) ensures ret == req_sigs(sv(*self))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.req_signatures(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.req_signatures() } }
    pub fn fee(&self) -> (ret: u64) ensures ret == sc_fee(sv(*self))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.fee(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.fee() } }
    pub fn nonce(&self) -> (ret: u64) ensures ret == sc_nonce(sv(*self))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.nonce(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.nonce() } }
    pub fn mode(&self) -> (ret: Mode) ensures ret == sc_mode(sv(*self))
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.mode(), DynSpendingCondition::SpendingConditionMultiSig(x) => x.mode() } }
    pub fn set_fee(&mut self, fee: u64) ensures sv(*final(self)) == with_fee(sv(*old(self)), fee)
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.set_fee(fee), DynSpendingCondition::SpendingConditionMultiSig(x) => x.set_fee(fee) } }
    pub fn set_nonce(&mut self, nonce: u64) ensures sv(*final(self)) == with_nonce(sv(*old(self)), nonce)
    { match self { DynSpendingCondition::SpendingConditionStandard(x) => x.set_nonce(nonce), DynSpendingCondition::SpendingConditionMultiSig(x) => x.set_nonce(nonce) } }
}
@default C13 C15
@raw transaction
/// Clone of boxed parts (derived clones are expanded field by field)
impl CloneV for AssetInfo { open spec fn ceq(&self, r: &AssetInfo) -> bool { asv(*r) == asv(*self) } fn clone_v(&self) -> (r: Self) __derived_clone!(AssetInfo) }
@for X in STXPostCondition FungiblePostCondition NonFungiblePostCondition
impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { kv(DynCondition::$X(*r)) == kv(DynCondition::$X(*self)) } fn clone_v(&self) -> (r: Self) __derived_clone!($X) }
@end
@for X in TokenTransferPayload ContractCallPayload
impl CloneV for $X { open spec fn ceq(&self, r: &$X) -> bool { pv(DynPayload::$X(*r)) == pv(DynPayload::$X(*self)) } fn clone_v(&self) -> (r: Self) __derived_clone!($X) }
@end
impl CloneV for SpendingConditionMultiSig { open spec fn ceq(&self, r: &SpendingConditionMultiSig) -> bool { sv2(*r) == sv2(*self) } fn clone_v(&self) -> (r: Self) {
    proof { assert forall|v: Vec<AuthField>| self.fields.ceq(&v) implies #[trigger] fvs(v@) == fvs(self.fields@) by { assert forall|i: int| 0 <= i < v@.len() implies v@[i] == self.fields@[i] by { assert(self.fields@[i].ceq(&v@[i])); } assert(fvs(v@) =~= fvs(self.fields@)); } }
    __derived_clone!(SpendingConditionMultiSig) } }
impl CloneV for DynCondition { open spec fn ceq(&self, r: &DynCondition) -> bool { kv(*r) == kv(*self) } fn clone_v(&self) -> (r: Self) { match self { DynCondition::STXPostCondition(x) => DynCondition::STXPostCondition(x.clone_v()), DynCondition::FungiblePostCondition(x) => DynCondition::FungiblePostCondition(x.clone_v()), DynCondition::NonFungiblePostCondition(x) => DynCondition::NonFungiblePostCondition(x.clone_v()) } } }
impl CloneV for DynPayload { open spec fn ceq(&self, r: &DynPayload) -> bool { pv(*r) == pv(*self) } fn clone_v(&self) -> (r: Self) { match self { DynPayload::TokenTransferPayload(x) => DynPayload::TokenTransferPayload(x.clone_v()), DynPayload::ContractCallPayload(x) => DynPayload::ContractCallPayload(x.clone_v()) } } }
impl CloneV for DynSpendingCondition { open spec fn ceq(&self, r: &DynSpendingCondition) -> bool { sv(*r) == sv(*self) } fn clone_v(&self) -> (r: Self) { match self { DynSpendingCondition::SpendingConditionStandard(x) => DynSpendingCondition::SpendingConditionStandard(x.clone_v()), DynSpendingCondition::SpendingConditionMultiSig(x) => DynSpendingCondition::SpendingConditionMultiSig(x.clone_v()) } } }
impl CloneV for Auth { open spec fn ceq(&self, r: &Auth) -> bool { av(*r) == av(*self) } fn clone_v(&self) -> (r: Self) __derived_clone!(Auth) }
impl CloneV for Transaction { open spec fn ceq(&self, r: &Transaction) -> bool { txv(*r) == txv(*self) } fn clone_v(&self) -> (r: Self) __derived_clone!(Transaction) }
@fn transaction::PostConditions::clone
@name clone_v
@wrap impl CloneV for PostConditions { open spec fn ceq(&self, r: &PostConditions) -> bool { kvs(r.__value@) == kvs(self.__value@) }
@at tail
    proof { assert forall|v: Vec<Box<DynCondition>>| self.__value.ceq(&v) implies #[trigger] kvs(v@) == kvs(self.__value@) by { assert forall|i: int| 0 <= i < v@.len() implies kv(*v@[i]) == kv(*self.__value@[i]) by { assert(self.__value@[i].ceq(&v@[i])); } assert(kvs(v@) =~= kvs(self.__value@)); } }
@raw transaction
pub open spec fn au_origin(a: AU) -> SC { match a { AU::Std(o) => o, AU::Spon(o, s) => o } }
pub open spec fn au_sponsor(a: AU) -> SC { match a { AU::Std(o) => o, AU::Spon(o, s) => s } }
pub open spec fn set_origin(a: AU, n: SC) -> AU { match a { AU::Std(o) => AU::Std(n), AU::Spon(o, s) => AU::Spon(n, s) } }
pub open spec fn set_spon(a: AU, n: SC) -> AU { match a { AU::Std(o) => AU::Std(o), AU::Spon(o, s) => AU::Spon(o, n) } }
pub open spec fn au_reset(a: AU) -> AU { match a { AU::Std(o) => AU::Std(sc_reset(o)), AU::Spon(o, s) => AU::Spon(sc_reset(o), sc_sentinel()) } }
pub open spec fn au_wf(a: AU) -> bool { sc_wf(au_origin(a)) && sc_wf(au_sponsor(a)) }
pub open spec fn au_small(a: AU) -> bool { sc_small(au_origin(a)) && sc_small(au_sponsor(a)) }
/// C14: every condition is authorized, the sponsor over the hash the origin ends with
pub open spec fn au_verified(a: AU, h: Seq<u8>) -> bool { match verified(au_origin(a), h, 4) { Some(g) => a is Std || verified(au_sponsor(a), g, 5).is_some(), None => false } }
pub open spec fn tx_auth(t: TX, a: AU) -> TX { TX { version: t.version, chain: t.chain, auth: a, anchor: t.anchor, pcm: t.pcm, pcs: t.pcs, pay: t.pay } }
/// the transaction whose hash starts the signature chain
pub open spec fn tx_init(t: TX) -> TX { tx_auth(t, au_reset(t.auth)) }
pub open spec fn tx_hash(t: TX) -> Seq<u8> { sha512_256(tx_ser(t)) }
/// the signature a signing step added to a condition
pub open spec fn added(n: SC) -> Seq<u8> { match n { SC::One { sig, .. } => sig, SC::Multi { fields, .. } => match fields.last() { F::Sig(s) => s, F::Key(k) => seq![] } } }
pub open spec fn with_sig(o: SC, s: Seq<u8>) -> SC { match o { SC::One { mode, fee, nonce, signer, sig } => SC::One { mode, fee, nonce, signer, sig: s }, SC::Multi { mode, fee, nonce, signer, fields, required } => SC::Multi { mode, fee, nonce, signer, fields: fields.push(F::Sig(s)), required } } }
pub open spec fn with_key(o: SC, k: PublicKey) -> SC { match o { SC::One { .. } => o, SC::Multi { mode, fee, nonce, signer, fields, required } => SC::Multi { mode, fee, nonce, signer, fields: fields.push(F::Key(k)), required } } }
/// n is o with one signature of the key over hash h
pub open spec fn signed(o: SC, n: SC, h: Seq<u8>, typ: u8, key: SecretKey) -> bool {
    n == with_sig(o, added(n)) && recovers(presign(h, typ, sc_fee(o), sc_nonce(o)), added(n)) == Some(crate::ext::secp256k1::pk_of(key))
}
pub open spec fn next_hash(n: SC, h: Seq<u8>, typ: u8) -> Seq<u8> { postsign(presign(h, typ, sc_fee(n), sc_nonce(n)), added(n)) }
@fn transaction::Auth::verify
@props C13 C14
@spec
    requires au_wf(av(*self)), au_small(av(*self))
    ensures
        ret.is_ok() ==> au_verified(av(*self), hash.0@), // #C14
        au_verified(av(*self), hash.0@) ==> ret.is_ok(), // #C13
@fn transaction::Auth::verify_origin
@props C13 C14 C15
@spec
    requires au_wf(av(*self)), sc_small(au_origin(av(*self)))
    ensures
        ret.is_ok() ==> verified(au_origin(av(*self)), hash.0@, 4).is_some(), // #C14 #C15
        verified(au_origin(av(*self)), hash.0@, 4).is_some() ==> ret.is_ok(), // #C13
        ret.is_ok() && verified(au_origin(av(*self)), hash.0@, 4).is_some() ==> ret->Ok_0.0@ == verified(au_origin(av(*self)), hash.0@, 4).unwrap(), // #C13 #C14
@fn transaction::Auth::reset
@props C13
@spec
    ensures av(ret) == au_reset(av(self)),
@fn transaction::Auth::origin
@props C15
@spec
    ensures sv(*ret) == au_origin(av(*self)),
@fn transaction::Auth::origin_mut
@props C13 C15
@spec
    ensures sv(*ret) == au_origin(av(*old(self))), av(*final(self)) == set_origin(av(*old(self)), sv(*final(ret))),
@fn transaction::Auth::sponsor
@props C15
@spec
    ensures match ret { Ok(s) => av(*self) is Spon && sv(*s) == au_sponsor(av(*self)), Err(_) => av(*self) is Std },
@fn transaction::Auth::sponsor_mut
@props C13 C15
@spec
    ensures match ret { Ok(s) => av(*old(self)) is Spon && sv(*s) == au_sponsor(av(*old(self))) && av(*final(self)) == set_spon(av(*old(self)), sv(*final(s))), Err(_) => av(*old(self)) is Std && av(*final(self)) == av(*old(self)) },
@fn transaction::Auth::set_fee
@props C16
@spec
    ensures av(*final(self)) == set_origin(av(*old(self)), with_fee(au_origin(av(*old(self))), other)),
@fn transaction::Auth::set_nonce
@props C16
@spec
    ensures av(*final(self)) == set_origin(av(*old(self)), with_nonce(au_origin(av(*old(self))), nonce)),
@fn transaction::Auth::set_sponsor
@props C15
@spec
    ensures match ret { Ok(_) => av(*old(self)) is Spon && av(*final(self)) == set_spon(av(*old(self)), sv(*sponsor)), Err(_) => av(*old(self)) is Std && av(*final(self)) == av(*old(self)) },
@fn transaction::Auth::is_standard
@props C15
@spec
    ensures ret == (av(*self) is Std),
@fn transaction::Auth::is_sponsored
@props C15
@spec
    ensures ret == (av(*self) is Spon),
@fn transaction::Auth::encode
@props C10
@spec
    ensures match ret { Ok(b) => au_ok(av(*self)) && b@ =~= au_ser(av(*self)), Err(_) => !au_ok(av(*self)) },
@fn transaction::Transaction::new
@props C10 C16
@spec
    ensures txv(ret) == (TX { version, chain: chain_id, auth: av(auth), anchor: anchor_mode, pcm: post_condition_mode, pcs: kvs(post_conditions.__value@), pay: pv(*payload) }),
@fn transaction::Transaction::encode
@props C10
@spec
    ensures match ret { Ok(b) => tx_ok(txv(*self)) && b@ =~= tx_ser(txv(*self)), Err(_) => !tx_ok(txv(*self)) },
@fn transaction::Transaction::hash
@props C13
@spec
    ensures match ret { Ok(h) => tx_ok(txv(*self)) && h.0@ == tx_hash(txv(*self)), Err(_) => !tx_ok(txv(*self)) },
@fn transaction::Transaction::initial_hash
@props C13
@spec
    ensures match ret { Ok(h) => tx_ok(tx_init(txv(*self))) && h.0@ == tx_hash(tx_init(txv(*self))), Err(_) => !tx_ok(tx_init(txv(*self))) },
@fn transaction::Transaction::set_fee
@props C16
@spec
    ensures txv(*final(self)) == tx_auth(txv(*old(self)), set_origin(txv(*old(self)).auth, with_fee(au_origin(txv(*old(self)).auth), fee))),
@fn transaction::Transaction::set_nonce
@props C16
@spec
    ensures txv(*final(self)) == tx_auth(txv(*old(self)), set_origin(txv(*old(self)).auth, with_nonce(au_origin(txv(*old(self)).auth), nonce))),
@fn transaction::Transaction::verify_origin
@props C13 C14 C15
@spec
    requires au_wf(txv(*self).auth), sc_small(au_origin(txv(*self).auth))
    ensures
        ret.is_ok() ==> tx_ok(tx_init(txv(*self))) && verified(au_origin(txv(*self).auth), tx_hash(tx_init(txv(*self))), 4).is_some(), // #C14 #C15
        tx_ok(tx_init(txv(*self))) && verified(au_origin(txv(*self).auth), tx_hash(tx_init(txv(*self))), 4).is_some() ==> ret.is_ok(), // #C13
        ret.is_ok() && verified(au_origin(txv(*self).auth), tx_hash(tx_init(txv(*self))), 4).is_some() ==> ret->Ok_0.0@ == verified(au_origin(txv(*self).auth), tx_hash(tx_init(txv(*self))), 4).unwrap(), // #C13 #C14
@fn transaction::Transaction::sign_and_append
@props C13 C15
@spec
    requires sc_wf(sv(*old(condition)))
    ensures
        ret.is_ok(), // #C13 #C15
        ret.is_ok() ==> signed(sv(*old(condition)), sv(*final(condition)), hash.0@, auth, pk) && ret->Ok_0.0@ == next_hash(sv(*final(condition)), hash.0@, auth), // #C13
        sv(*final(condition)) == with_sig(sv(*old(condition)), added(sv(*final(condition)))), // #C13 #C15
@fn transaction::Transaction::sign_next_origin
@props C13 C15
@spec
    requires au_wf(txv(*old(self)).auth)
    ensures
        ret.is_ok(), // #C13 #C15
        ret.is_ok() ==> signed(au_origin(txv(*old(self)).auth), au_origin(txv(*final(self)).auth), hash.0@, 4, pk) && ret->Ok_0.0@ == next_hash(au_origin(txv(*final(self)).auth), hash.0@, 4), // #C13
        txv(*final(self)) == tx_auth(txv(*old(self)), set_origin(txv(*old(self)).auth, with_sig(au_origin(txv(*old(self)).auth), added(au_origin(txv(*final(self)).auth))))), // #C13 #C15
@fn transaction::Transaction::sign_next_sponsor
@props C13 C15
@spec
    requires au_wf(txv(*old(self)).auth)
    ensures
        ret.is_ok() == (txv(*old(self)).auth is Spon), // #C13 #C15
        ret.is_ok() ==> signed(au_sponsor(txv(*old(self)).auth), au_sponsor(txv(*final(self)).auth), hash.0@, 5, pk) && ret->Ok_0.0@ == next_hash(au_sponsor(txv(*final(self)).auth), hash.0@, 5), // #C13
        ret.is_ok() ==> txv(*final(self)) == tx_auth(txv(*old(self)), set_spon(txv(*old(self)).auth, with_sig(au_sponsor(txv(*old(self)).auth), added(au_sponsor(txv(*final(self)).auth))))), // #C13 #C15
        ret.is_err() ==> txv(*final(self)) == txv(*old(self)), // #C15
@fn transaction::Transaction::append_next_origin
@props C13 C15
@spec
    requires au_wf(txv(*old(self)).auth)
    ensures
        ret.is_ok() == (au_origin(txv(*old(self)).auth) is Multi), // #C13 #C15
        ret.is_ok() ==> txv(*final(self)) == tx_auth(txv(*old(self)), set_origin(txv(*old(self)).auth, with_key(au_origin(txv(*old(self)).auth), pk))), // #C13 #C15
        ret.is_err() ==> txv(*final(self)) == txv(*old(self)), // #C15
@raw transaction
pub open spec fn gv(s: TransactionSigner) -> SG { SG { tx: txv(s.tx), hash: s.hash.0@, done: s.origin_signed, oversign: s.verify_oversign, overlap: s.verify_overlap } }
/// a signing session
pub struct SG { pub tx: TX, pub hash: Seq<u8>, pub done: bool, pub oversign: bool, pub overlap: bool }
pub open spec fn no_origin(s: SG) -> bool { (s.overlap && s.done) || (s.oversign && nsigs(au_origin(s.tx.auth)) >= req_sigs(au_origin(s.tx.auth))) }
pub open spec fn no_sponsor(s: SG) -> bool { s.tx.auth is Std || (s.oversign && nsigs(au_sponsor(s.tx.auth)) >= req_sigs(au_sponsor(s.tx.auth))) }
pub open spec fn no_append(s: SG) -> bool { (s.overlap && s.done) || !(au_origin(s.tx.auth) is Multi) }
pub open spec fn sg_wf(s: SG) -> bool { au_wf(s.tx.auth) && sc_fields(au_origin(s.tx.auth)) <= 65535 && sc_fields(au_sponsor(s.tx.auth)) <= 65535 }
@fn transaction::TransactionSigner::new
@props C13 C15
@spec
    ensures match ret { Ok(s) => tx_ok(tx_init(txv(tx))) && gv(s) == (SG { tx: txv(tx), hash: tx_hash(tx_init(txv(tx))), done: false, oversign: true, overlap: true }), Err(_) => !tx_ok(tx_init(txv(tx))) },
@fn transaction::TransactionSigner::new_sponser
@props C13 C15
@spec
    requires au_wf(txv(*tx).auth), sc_wf(sv(*sponsor)), sc_small(au_origin(txv(*tx).auth))
    ensures
        ret.is_ok() ==> txv(*tx).auth is Spon && verified(au_origin(txv(*tx).auth), tx_hash(tx_init(txv(*tx))), 4).is_some(), // #C15
        txv(*tx).auth is Spon && tx_ok(tx_init(txv(*tx))) && verified(au_origin(txv(*tx).auth), tx_hash(tx_init(txv(*tx))), 4).is_some() ==> ret.is_ok(), // #C13 #C15
        ret.is_ok() && verified(au_origin(txv(*tx).auth), tx_hash(tx_init(txv(*tx))), 4).is_some() ==> gv(ret->Ok_0) == (SG { tx: tx_auth(txv(*tx), set_spon(txv(*tx).auth, sv(*sponsor))), hash: verified(au_origin(txv(*tx).auth), tx_hash(tx_init(txv(*tx))), 4).unwrap(), done: true, oversign: true, overlap: true }), // #C13 #C15
@fn transaction::TransactionSigner::sign_origin
@props C13 C15
@spec
    requires sg_wf(gv(*old(self)))
    ensures
        no_origin(gv(*old(self))) == ret.is_err(), // #C15
        ret.is_err() ==> gv(*final(self)) == gv(*old(self)), // #C15
        ret.is_ok() ==> ({ let o = au_origin(gv(*old(self)).tx.auth); let n = au_origin(gv(*final(self)).tx.auth); let s = gv(*old(self)); gv(*final(self)) == (SG { tx: tx_auth(s.tx, set_origin(s.tx.auth, with_sig(o, added(n)))), hash: gv(*final(self)).hash, done: s.done, oversign: s.oversign, overlap: s.overlap }) }), // #C15
        ret.is_ok() ==> ({ let o = au_origin(gv(*old(self)).tx.auth); let n = au_origin(gv(*final(self)).tx.auth); let s = gv(*old(self)); signed(o, n, s.hash, 4, key) && gv(*final(self)).hash == next_hash(n, s.hash, 4) }), // #C13
@fn transaction::TransactionSigner::sign_sponsor
@props C13 C15
@spec
    requires sg_wf(gv(*old(self)))
    ensures
        no_sponsor(gv(*old(self))) == ret.is_err(), // #C15
        ret.is_err() ==> gv(*final(self)) == gv(*old(self)), // #C15
        ret.is_ok() ==> ({ let o = au_sponsor(gv(*old(self)).tx.auth); let n = au_sponsor(gv(*final(self)).tx.auth); let s = gv(*old(self)); gv(*final(self)) == (SG { tx: tx_auth(s.tx, set_spon(s.tx.auth, with_sig(o, added(n)))), hash: gv(*final(self)).hash, done: true, oversign: s.oversign, overlap: s.overlap }) }), // #C15
        ret.is_ok() ==> ({ let o = au_sponsor(gv(*old(self)).tx.auth); let n = au_sponsor(gv(*final(self)).tx.auth); let s = gv(*old(self)); signed(o, n, s.hash, 5, key) && gv(*final(self)).hash == next_hash(n, s.hash, 5) }), // #C13
@fn transaction::TransactionSigner::append_origin
@props C13 C15
@spec
    requires sg_wf(gv(*old(self)))
    ensures
        no_append(gv(*old(self))) == ret.is_err(), // #C15
        ret.is_err() ==> gv(*final(self)) == gv(*old(self)), // #C15
        ret.is_ok() ==> ({ let s = gv(*old(self)); gv(*final(self)) == (SG { tx: tx_auth(s.tx, set_origin(s.tx.auth, with_key(au_origin(s.tx.auth), key))), hash: s.hash, done: s.done, oversign: s.oversign, overlap: s.overlap }) }), // #C13 #C15
@fn transaction::TransactionSigner::transaction
@props C13 C15
@spec
    ensures txv(ret) == gv(self).tx,
@fn transaction::Transaction::sign
@props C13 C15
@spec
    requires au_wf(txv(self).auth), sc_fields(au_origin(txv(self).auth)) <= 65535, sc_fields(au_sponsor(txv(self).auth)) <= 65535
    ensures
        ret.is_ok() == (tx_ok(tx_init(txv(self))) && nsigs(au_origin(txv(self).auth)) < req_sigs(au_origin(txv(self).auth))), // #C13 #C15
        ret.is_ok() ==> txv(ret->Ok_0) == tx_auth(txv(self), set_origin(txv(self).auth, with_sig(au_origin(txv(self).auth), added(au_origin(txv(ret->Ok_0).auth))))), // #C13 #C15
        ret.is_ok() ==> signed(au_origin(txv(self).auth), au_origin(txv(ret->Ok_0).auth), tx_hash(tx_init(txv(self))), 4, key), // #C13
@default C13
@raw transaction
/// C13: the initial hash does not depend on fees, nonces, signatures and the sponsor
pub proof fn theorem_init(t: TX, n: SC, s: SC, k: PublicKey, sg: Seq<u8>)
    requires n == with_sig(au_origin(t.auth), sg) || n == with_key(au_origin(t.auth), k)
    ensures tx_init(tx_auth(t, set_origin(t.auth, n))) == tx_init(t), tx_init(tx_auth(t, set_spon(t.auth, s))) == tx_init(t)
{}
/// C13: a signing step extends the chain, a key leaves its hash
pub proof fn theorem_chain_sign(o: SC, n: SC, h0: Seq<u8>, h: Seq<u8>, typ: u8, key: SecretKey, ks: Seq<PublicKey>)
    requires o is Multi, signed(o, n, h, typ, key), chain(o->fields, h0, typ, sc_fee(o), sc_nonce(o)) == Some((ks, h))
    ensures n is Multi, chain(n->fields, h0, typ, sc_fee(n), sc_nonce(n)) == Some((ks.push(crate::ext::secp256k1::pk_of(key)), next_hash(n, h, typ))), nsigs(n) == nsigs(o) + 1
{
    assert(n->fields.drop_last() =~= o->fields);
}
pub proof fn theorem_chain_key(o: SC, k: PublicKey, h0: Seq<u8>, h: Seq<u8>, typ: u8, ks: Seq<PublicKey>)
    requires o is Multi, chain(o->fields, h0, typ, sc_fee(o), sc_nonce(o)) == Some((ks, h))
    ensures chain(with_key(o, k)->fields, h0, typ, sc_fee(o), sc_nonce(o)) == Some((ks.push(k), h)), nsigs(with_key(o, k)) == nsigs(o)
{
    assert(with_key(o, k)->fields.drop_last() =~= o->fields);
}
/// C13: an unsigned condition starts the chain; enough signatures by keys that hash to the signer verify
pub proof fn theorem_signed_verifies(o: SC, n: SC, h0: Seq<u8>, h: Seq<u8>, typ: u8, key: SecretKey, ks: Seq<PublicKey>)
    ensures
        o is One && signed(o, n, h0, typ, key) && key_hash(o->One_mode, crate::ext::secp256k1::pk_of(key)) == o->One_signer ==> verified(n, h0, typ) == Some(next_hash(n, h0, typ)),
        o is Multi && o->fields == Seq::<F>::empty() ==> chain(o->fields, h0, typ, sc_fee(o), sc_nonce(o)) == Some((Seq::<PublicKey>::empty(), h0)),
        o is Multi && chain(o->fields, h0, typ, sc_fee(o), sc_nonce(o)) == Some((ks, h)) && nsigs(o) >= req_sigs(o) && script_hash(o->Multi_mode, o->required, ks) == o->Multi_signer ==> verified(o, h0, typ) == Some(h),
{}
@default C15
@raw transaction
/// C15: no condition ever holds more signatures than it requires
pub open spec fn within(a: AU) -> bool { nsigs(au_origin(a)) <= req_sigs(au_origin(a)) && nsigs(au_sponsor(a)) <= req_sigs(au_sponsor(a)) }
pub proof fn theorem_within(s: SG, n: SC, k: PublicKey, sg: Seq<u8>)
    requires within(s.tx.auth), s.oversign
    ensures
        !no_origin(s) && n == with_sig(au_origin(s.tx.auth), sg) ==> within(set_origin(s.tx.auth, n)),
        !no_sponsor(s) && n == with_sig(au_sponsor(s.tx.auth), sg) ==> within(set_spon(s.tx.auth, n)),
        !no_append(s) && n == with_key(au_origin(s.tx.auth), k) ==> within(set_origin(s.tx.auth, n)),
        s.overlap && s.done ==> no_origin(s) && no_append(s),
{
    let o = au_origin(s.tx.auth); let p = au_sponsor(s.tx.auth);
    if o is Multi { assert(o->fields.push(F::Sig(sg)).drop_last() =~= o->fields); assert(o->fields.push(F::Key(k)).drop_last() =~= o->fields); }
    if p is Multi { assert(p->fields.push(F::Sig(sg)).drop_last() =~= p->fields); }
}
/// a step adds exactly one signature (a recoverable signature is never all zero)
pub proof fn theorem_one_more(o: SC, n: SC, h: Seq<u8>, typ: u8, key: SecretKey)
    requires signed(o, n, h, typ, key), sc_wf(o), nsigs(o) < req_sigs(o)
    ensures nsigs(n) == nsigs(o) + 1
{
    match o {
        SC::One { .. } => { crate::ext::secp256k1::axiom_zero_signature(presign(h, typ, sc_fee(o), sc_nonce(o)), added(n)[0] as int, added(n).skip(1)); }
        SC::Multi { fields, .. } => { assert(fields.push(F::Sig(added(n))).drop_last() =~= fields); }
    }
}
@default C16
@raw transaction
pub open spec fn net_ok(n: DynNetwork) -> bool { match n { DynNetwork::StacksMainnet(x) => x.version == TransactionVersion::Mainnet && x.chain_id == ChainID::Mainnet, DynNetwork::StacksTestnet(x) => x.version == TransactionVersion::Testnet && x.chain_id == ChainID::Testnet, DynNetwork::StacksMocknet(x) => x.version == TransactionVersion::Testnet && x.chain_id == ChainID::Testnet } }
pub open spec fn net_version(n: DynNetwork) -> TransactionVersion { if n is StacksMainnet { TransactionVersion::Mainnet } else { TransactionVersion::Testnet } }
pub open spec fn net_chain(n: DynNetwork) -> ChainID { if n is StacksMainnet { ChainID::Mainnet } else { ChainID::Testnet } }
pub open spec fn net_url(n: DynNetwork) -> Seq<char> { match n { DynNetwork::StacksMainnet(_) => "https://api.mainnet.hiro.so"@, DynNetwork::StacksTestnet(_) => "https://api.testnet.hiro.so"@, DynNetwork::StacksMocknet(_) => "http://localhost:3999"@ } }
impl DynNetwork {
    pub fn version(&self) -> (ret: TransactionVersion) requires net_ok(*self) ensures ret == net_version(*self) { match self { DynNetwork::StacksMainnet(x) => x.version(), DynNetwork::StacksTestnet(x) => x.version(), DynNetwork::StacksMocknet(x) => x.version() } }
    pub fn chain_id(&self) -> (ret: ChainID) requires net_ok(*self) ensures ret == net_chain(*self) { match self { DynNetwork::StacksMainnet(x) => x.chain_id(), DynNetwork::StacksTestnet(x) => x.chain_id(), DynNetwork::StacksMocknet(x) => x.chain_id() } }
}
@for X in StacksMainnet StacksTestnet StacksMocknet
@fn transaction::$X::new
@spec
    ensures net_ok(DynNetwork::$X(ret)),
@fn transaction::$X::default
@spec
    ensures net_ok(DynNetwork::$X(ret)),
@fn transaction::$X::version
@spec
    requires net_ok(DynNetwork::$X(*self))
    ensures ret == net_version(DynNetwork::$X(*self)),
@fn transaction::$X::chain_id
@spec
    requires net_ok(DynNetwork::$X(*self))
    ensures ret == net_chain(DynNetwork::$X(*self)),
@fn transaction::$X::base_url
@spec
    ensures ret@ == net_url(DynNetwork::$X(*self)),
@fn transaction::<AsRef<$X> for $X>::as_ref
@name as_ref_self
@spec
    ensures ret == self,
@end
@fn clarity::<From<String> for LengthPrefixedStr>::from
@props C16
@name from_string_v
@spec
    ensures ret.__value@ == value@,
@fn clarity::<From<&str> for LengthPrefixedStr>::from
@props C16
@name from_str_v
@spec
    ensures ret.__value@ == value@,
@raw clarity
impl Chars for LengthPrefixedStr { open spec fn cs(&self) -> Seq<char> { self.__value@ } }
impl IntoV<LengthPrefixedStr> for LengthPrefixedStr { open spec fn iv(&self) -> Seq<char> { self.__value@ } fn into_v(self) -> (r: LengthPrefixedStr) { self } }
impl IntoV<LengthPrefixedStr> for String { open spec fn iv(&self) -> Seq<char> { self@ } fn into_v(self) -> (r: LengthPrefixedStr) { LengthPrefixedStr::from_string_v(self) } }
impl<'a> IntoV<LengthPrefixedStr> for &'a str { open spec fn iv(&self) -> Seq<char> { (**self)@ } fn into_v(self) -> (r: LengthPrefixedStr) { LengthPrefixedStr::from_str_v(self) } }
@fn transaction::TokenTransferPayload::new
@props C12 C16
@spec
    ensures pv(DynPayload::TokenTransferPayload(ret)) == P::Transfer(dv(address), amount, memo.iv()),
@fn transaction::ContractCallPayload::new
@props C12 C16
@spec
    ensures pv(DynPayload::ContractCallPayload(ret)) == P::Call(address.version, address.hash.0@, contract.iv(), name.iv(), dvs(args.__value)),
@raw transaction
/// an unsigned standard single-signature authorization by a key
pub open spec fn fresh(k: PublicKey, fee: u64, nonce: u64) -> AU { AU::Std(SC::One { mode: Mode::P2PKH, fee, nonce, signer: hash160(k@), sig: zeros(65) }) }
@fn transaction::STXTokenTransfer::transaction
@spec
    requires !self.sponsored, net_ok(self.network)
    ensures txv(ret) == (TX { version: net_version(self.network), chain: net_chain(self.network), auth: fresh(crate::ext::secp256k1::pk_of(self.sender), self.fee, self.nonce), anchor: self.anchor_mode, pcm: self.post_condition_mode, pcs: kvs(self.post_conditions.__value@), pay: P::Transfer(dv(self.recipient), self.amount, self.memo@) }),
@fn transaction::STXContractCall::transaction
@spec
    requires !self.sponsored, net_ok(self.network)
    ensures
        ret.is_ok() == addr_ok(sb(self.address@)),
        ret.is_ok() ==> txv(ret->Ok_0) == (TX { version: net_version(self.network), chain: net_chain(self.network), auth: fresh(crate::ext::secp256k1::pk_of(self.sender), self.fee, self.nonce), anchor: self.anchor_mode, pcm: self.post_condition_mode, pcs: kvs(self.post_conditions.__value@), pay: P::Call(addr_ver(sb(self.address@)), addr_hash(sb(self.address@)), self.contract@, self.fn_name@, dvs(self.fn_args.__value)) }),
@for X in STXTokenTransfer STXContractCall
@fn transaction::__default_$X_fee
@spec
    ensures ret == 0,
@fn transaction::__default_$X_nonce
@spec
    ensures ret == 0,
@fn transaction::__default_$X_anchor_mode
@spec
    ensures ret == AnchorMode::Any,
@fn transaction::__default_$X_post_condition_mode
@spec
    ensures ret == PostConditionMode::Allow,
@fn transaction::__default_$X_post_conditions
@spec
    ensures ret.__value@.len() == 0,
@fn transaction::__default_$X_sponsored
@spec
    ensures !ret,
@end
@fn transaction::__default_STXTokenTransfer_memo
@spec
    ensures ret@.len() == 0,
@c ---- length and hex of everything that has an encoding (default methods of Codec)
@default C10
@for X,O,S in TokenTransferPayload|pay_ok(pv(DynPayload::TokenTransferPayload(*self)))|pay_ser(pv(DynPayload::TokenTransferPayload(*self))) ContractCallPayload|pay_ok(pv(DynPayload::ContractCallPayload(*self)))|pay_ser(pv(DynPayload::ContractCallPayload(*self))) DynPayload|pay_ok(pv(*self))|pay_ser(pv(*self)) Auth|au_ok(av(*self))|au_ser(av(*self)) Transaction|tx_ok(txv(*self))|tx_ser(txv(*self)) SpendingConditionStandard|true|sc_ser(sv1(*self)) SpendingConditionMultiSig|sc_ok(sv2(*self))|sc_ser(sv2(*self)) DynSpendingCondition|sc_ok(sv(*self))|sc_ser(sv(*self)) 
@fn transaction::$X::len
@retty Result<usize, crate::clarity::Error>
@spec
    ensures match ret { Ok(n) => $O && n == $S.len(), Err(_) => !($O) },
@fn transaction::$X::is_empty
@retty Result<bool, crate::clarity::Error>
@spec
    ensures match ret { Ok(e) => $O && e == ($S.len() == 0), Err(_) => !($O) },
@fn transaction::$X::hex
@retty Result<String, crate::clarity::Error>
@spec
    ensures match ret { Ok(s) => $O && s@ == hex($S), Err(_) => !($O) },
@fn transaction::$X::hex_prefixed
@retty Result<String, crate::clarity::Error>
@spec
    ensures match ret { Ok(s) => $O && s@ == "0x"@ + hex($S), Err(_) => !($O) },
@end
@default C11
@for X,O,S in STXPostCondition|k_ok(kv(DynCondition::STXPostCondition(*self)))|k_ser(kv(DynCondition::STXPostCondition(*self))) FungiblePostCondition|k_ok(kv(DynCondition::FungiblePostCondition(*self)))|k_ser(kv(DynCondition::FungiblePostCondition(*self))) NonFungiblePostCondition|k_ok(kv(DynCondition::NonFungiblePostCondition(*self)))|k_ser(kv(DynCondition::NonFungiblePostCondition(*self))) DynCondition|k_ok(kv(*self))|k_ser(kv(*self)) AssetInfo|asset_ok(asv(*self))|asset_ser(asv(*self)) PostConditions|pcs_ok(kvs(self.__value@))|pcs_ser(kvs(self.__value@))
@fn transaction::$X::len
@retty Result<usize, crate::clarity::Error>
@spec
    ensures match ret { Ok(n) => $O && n == $S.len(), Err(_) => !($O) },
@fn transaction::$X::is_empty
@retty Result<bool, crate::clarity::Error>
@spec
    ensures match ret { Ok(e) => $O && e == ($S.len() == 0), Err(_) => !($O) },
@fn transaction::$X::hex
@retty Result<String, crate::clarity::Error>
@spec
    ensures match ret { Ok(s) => $O && s@ == hex($S), Err(_) => !($O) },
@fn transaction::$X::hex_prefixed
@retty Result<String, crate::clarity::Error>
@spec
    ensures match ret { Ok(s) => $O && s@ == "0x"@ + hex($S), Err(_) => !($O) },
@end
@c ---- what a list of conditions holds, and its equality
@default C11
@fn transaction::PostConditions::value
@spec
    ensures ret == &self.__value,
@fn transaction::PostConditions::into_value
@spec
    ensures ret == self.__value,
@fn transaction::PostConditions::into_iter
@name into_iter_v
@retty Vec<Box<DynCondition>>
@wrap impl IntoIterV for PostConditions { type T = Box<DynCondition>; open spec fn items(self) -> Vec<Box<DynCondition>> { self.__value }
@fn transaction::PostConditions::id
@spec
    ensures ret == 255,
