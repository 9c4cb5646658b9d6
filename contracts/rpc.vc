@default C20
@raw rpc
/// percent-encoding of a path segment: unreserved characters (RFC 3986) stay, every other byte becomes %XX
pub open spec fn unreserved(b: u8) -> bool { 97 <= b <= 122 || 65 <= b <= 90 || 48 <= b <= 57 || b == 45 || b == 46 || b == 95 || b == 126 }
pub open spec fn pct1(b: u8) -> Seq<char> { if unreserved(b) { seq![b as char] } else { seq!['%', hexdu(b as int / 16), hexdu(b as int % 16)] } }
pub open spec fn pct(s: Seq<u8>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { pct(s.drop_last()) + pct1(s.last()) } }
pub open spec fn get_of(url: Seq<char>) -> Rq { Rq { post: false, url: url, headers: seq![] } }
pub open spec fn post_of(url: Seq<char>) -> Rq { Rq { post: true, url: url, headers: seq![] } }
/// exactly one exchange more, with this request and body
pub open spec fn sent(o: Seq<Ex>, n: Seq<Ex>, req: Rq, body: Body) -> bool { n.len() == o.len() + 1 && n.drop_last() =~= o && n.last().req == req && n.last().body == body }
/// the JSON texts of the encodings of values
pub open spec fn hexes(q: Seq<V>) -> J { J::Arr(Seq::new(q.len(), |i: int| J::Str(hex(ser(q[i]))))) }
impl ShowV for BroadcastErr { open spec fn shown(&self) -> Seq<char> { "message: "@ + self.error@ + ", reason: "@ + self.reason@ } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
@fn rpc::<Display for BroadcastErr>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + self.shown() && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@fn rpc::<Display for BroadcastResponse>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + (match *self { BroadcastResponse::Ok(s) => s@, BroadcastResponse::Err(e) => e.shown() }) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@fn rpc::encode_segment
@spec
    ensures ret@ == pct(sb(segment@)),
@at pre 0
    proof { assert(sb(segment@).take(0) =~= seq![]); }
@loop 0
    invariant buff@ =~= pct(sb(segment@).take(__i0 as int)), __v0@ == sb(segment@),
@at top 0
    proof { reveal_strlit("%"); assert(sb(segment@).take(__i0 as int).drop_last() =~= sb(segment@).take(__i0 - 1)); assert("%"@ =~= seq!['%']); }
@at after 0
    assert(sb(segment@).take(__n0 as int) =~= sb(segment@));
@fn rpc::StacksRPC::new
@spec
    ensures ret.__url@ == url.iv(),
@fn rpc::StacksRPC::info
@args &self, net: &mut Net
@spec
    ensures
        sent(old(net)@, final(net)@, get_of(self.__url@ + "/v2/info"@), Body::Empty),
        match final(net)@.last().res { Ok(r) => match json_of::<NodeInfoResponse>(r) { Some(i) => ret == Ok::<NodeInfoResponse, Error>(i), None => ret is Err }, Err(_) => ret is Err },
@fn rpc::StacksRPC::address
@args &self, addr: T, net: &mut Net
@spec
    ensures
        sent(old(net)@, final(net)@, get_of(self.__url@ + "/v2/accounts/"@ + pct(sb(addr.iv()))), Body::Empty),
        match final(net)@.last().res { Ok(r) => match json_of::<AddressInfoResponse>(r) { Some(i) => ret == Ok::<AddressInfoResponse, Error>(i), None => ret is Err }, Err(_) => ret is Err },
@fn rpc::StacksRPC::estimate_fee
@args &self, transaction: &Transaction, net: &mut Net
@spec
    ensures
        !tx_ok(txv(*transaction)) ==> ret is Err && final(net)@ == old(net)@,
        tx_ok(txv(*transaction)) ==> {
            &&& sent(old(net)@, final(net)@, post_of(self.__url@ + "/v2/fees/transaction"@), Body::Json(J::Obj(Map::empty().insert("transaction_payload"@, J::Str(hex(pay_ser(pv(*transaction.payload))))).insert("estimated_len"@, J::Num(tx_ser(txv(*transaction)).len() as int)))))
            &&& match final(net)@.last().res {
                Ok(r) => match json_of::<FeeOk>(r) { Some(i) => ret == Ok::<EstimateFeeResponse, Error>(EstimateFeeResponse::Ok(i)), None => ret is Err },
                Err(ureq::Error::Status(_, r)) => match text_of(r) { Some(t) => ret is Ok && ret->Ok_0 is Err && ret->Ok_0->Err_0@ == t, None => ret is Err },
                Err(_) => ret is Err,
            }
        },
@fn rpc::StacksRPC::broadcast
@args &self, transaction: &Transaction, net: &mut Net
@spec
    ensures
        !tx_ok(txv(*transaction)) ==> ret is Err && final(net)@ == old(net)@,
        tx_ok(txv(*transaction)) ==> {
            &&& sent(old(net)@, final(net)@, Rq { post: true, url: self.__url@ + "/v2/transactions"@, headers: seq![("Content-Type"@, "application/octet-stream"@)] }, Body::Bytes(tx_ser(txv(*transaction))))
            &&& match final(net)@.last().res {
                Ok(r) => match text_of(r) { Some(t) => ret is Ok && ret->Ok_0 is Ok && ret->Ok_0->Ok_0@ == t, None => ret is Err },
                Err(ureq::Error::Status(_, r)) => match json_of::<BroadcastErr>(r) { Some(i) => ret == Ok::<BroadcastResponse, Error>(BroadcastResponse::Err(i)), None => ret is Err },
                Err(_) => ret is Err,
            }
        },
@fn rpc::StacksRPC::read_only
@args &self, contract_addr: &str, contract_name: &str, fn_name: &str, fn_args: FnArguments, sender: &str, net: &mut Net
@spec
    ensures
        !enc_l(dvs(fn_args.__value)) ==> ret is Err && final(net)@ == old(net)@,
        enc_l(dvs(fn_args.__value)) ==> {
            &&& sent(old(net)@, final(net)@, post_of(self.__url@ + "/v2/contracts/call-read/"@ + pct(sb(contract_addr@)) + "/"@ + pct(sb(contract_name@)) + "/"@ + pct(sb(fn_name@))), Body::Json(J::Obj(Map::empty().insert("sender"@, J::Str(sender@)).insert("arguments"@, hexes(dvs(fn_args.__value))))))
            &&& match final(net)@.last().res {
                Ok(r) => match json_of::<ReadOnlyResponse>(r) { Some(i) => ret == Ok::<ReadOnlyResponse, Error>(i), None => ret is Err },
                Err(_) => ret is Err,
            }
        },
@at pre 0
    let ghost q = dvs(fn_args.__value);
    assert(q.take(0) =~= seq![]);
@loop 0
    invariant
        q == dvs(fn_args.__value), __n0 == q.len(), __v0@.len() == q.len(), forall|k: int| 0 <= k < q.len() ==> dv(*#[trigger] __v0@[k]) == q[k],
        __i0 <= __n0,
        __e0 is None ==> __r0@.len() == __i0 && enc_l(q.take(__i0 as int)) && forall|k: int| 0 <= k < __i0 ==> (#[trigger] __r0@[k])@ == hex(ser(q[k])),
        __e0 is Some ==> !enc_l(q),
@at top 0
    let ghost h = __i0 as int;
    proof { assert(q.take(h + 1).drop_last() =~= q.take(h)); if !enc_ok(q[h]) { lemma_enc_l_part(q, h + 1); } }
@at after 0
    proof { assert(q.take(q.len() as int) =~= q); if __e0 is None { assert(__r0.jv()->Arr_0 =~= hexes(q)->Arr_0); } }
