@default C19
@raw derive
/// the value under a key
pub open spec fn look(q: Seq<(Seq<char>, V)>, key: Seq<char>) -> Option<V> { if exists|i: int| at_key(q, key, i) { Some(q[choose|i: int| at_key(q, key, i)].1) } else { None } }
pub proof fn lemma_look(q: Seq<(Seq<char>, V)>, key: Seq<char>)
    ensures match look(q, key) { Some(v) => exists|i: int| #[trigger] at_key(q, key, i) && q[i].1 == v, None => no_key(q, key) }
{
    if exists|i: int| at_key(q, key, i) { let i = choose|i: int| at_key(q, key, i); assert(at_key(q, key, i)); }
    else { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 != key by { assert(!at_key(q, key, i)); } }
}
pub broadcast proof fn b_dvt(v: Vec<(String, Box<DynClarity>)>) ensures #[trigger] dvt(v) == dvtq(v@) { lemma_dvt(v); }
pub broadcast proof fn b_dvs(v: Vec<Box<DynClarity>>) ensures #[trigger] dvs(v) == dvq(v@) { lemma_dvs(v); }
/// the content of the boolean values is the constant of their type (private field; the constructors are under contract in C21)
pub open spec fn bools(v: Seq<(String, Box<DynClarity>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> match *(#[trigger] v[i]).1 { DynClarity::True(x) => x.__value, DynClarity::False(x) => !x.__value, _ => true } }
/// what a field of each kind receives from the tuple; None: the conversion fails
pub open spec fn fi(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<int> { match look(q, k) { Some(V::Int(i)) => Some(i), _ => None } }
pub open spec fn fu(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<int> { match look(q, k) { Some(V::UInt(i)) => Some(i), _ => None } }
pub open spec fn fb(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<bool> { match look(q, k) { Some(V::True) => Some(true), Some(V::False) => Some(false), _ => None } }
pub open spec fn ft(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Seq<char>> { match look(q, k) { Some(v) => Some(show(v)), _ => None } }
pub open spec fn fy(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Seq<u8>> { match look(q, k) { Some(V::Buf(b)) => Some(b), _ => None } }
pub open spec fn fl(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Seq<V>> { match look(q, k) { Some(V::List(b)) => Some(b), _ => None } }
pub open spec fn fki(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<int> { match look(q, k) { Some(V::Ok(b)) => match *b { V::Int(i) => Some(i), _ => None }, _ => None } }
pub open spec fn fku(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<int> { match look(q, k) { Some(V::Ok(b)) => match *b { V::UInt(i) => Some(i), _ => None }, _ => None } }
pub open spec fn foi(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Option<int>> { match look(q, k) { Some(V::Some(b)) => match *b { V::Int(i) => Some(Some(i)), _ => Some(None) }, Some(_) => Some(None), None => None } }
pub open spec fn fou(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Option<int>> { match look(q, k) { Some(V::Some(b)) => match *b { V::UInt(i) => Some(Some(i)), _ => Some(None) }, Some(_) => Some(None), None => None } }
pub open spec fn fot(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Option<Seq<char>>> { match look(q, k) { Some(V::Some(b)) => Some(Some(show(*b))), _ => Some(None) } }
pub open spec fn ftup(q: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<Seq<(Seq<char>, V)>> { match look(q, k) { Some(V::Tup(t)) => Some(t), _ => None } }
pub open spec fn oi(x: Option<i128>) -> Option<int> { match x { Some(i) => Some(i as int), None => None } }
pub open spec fn ou(x: Option<u128>) -> Option<int> { match x { Some(i) => Some(i as int), None => None } }
pub open spec fn ot(x: Option<String>) -> Option<Seq<char>> { match x { Some(i) => Some(i@), None => None } }
pub open spec fn texts(r: Seq<String>, l: Seq<V>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i])@ == show(l[i]) }
/// the error names the key, and says whether it is missing or holds another type
pub open spec fn bad(e: Error, q: Seq<(Seq<char>, V)>, k: Seq<char>) -> bool { match e { Error::Extract(x, _) => x@ == k && look(q, k) is None, Error::Cast(x, _, _) => x@ == k && look(q, k) is Some, Error::Match(x, _) => x@ == k && look(q, k) is Some } }
impl ToStrV for DynClarity { open spec fn tcs(&self) -> Seq<char> { show(dv(*self)) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl DynClarity { pub fn is<T: ClarityT>(&self) -> (r: bool) ensures r == T::of(*self) { T::down_ref(self).is_some() } }
pub open spec fn r_one(q: Seq<(Seq<char>, V)>, r: Result<OneInt, Error>) -> bool { match r { Ok(s) => fi(q, "some-int"@) == Some(s.a as int), Err(e) => fi(q, "some-int"@) is None && bad(e, q, "some-int"@) } }
pub open spec fn r_plain(q: Seq<(Seq<char>, V)>, r: Result<PlainInts, Error>) -> bool { match r { Ok(s) => fi(q, "x"@) == Some(s.a as int) && fu(q, "y"@) == Some(s.b as int), Err(e) => fi(q, "x"@) is None && bad(e, q, "x"@) || fu(q, "y"@) is None && bad(e, q, "y"@) } }
pub open spec fn r_middle(q: Seq<(Seq<char>, V)>, r: Result<Middle, Error>) -> bool { match r {
    Ok(s) => (match ftup(q, "y"@) { Some(t) => uniq(t) ==> r_plain(t, Ok(s.b)), None => false }) && (match ftup(q, "x"@) { Some(t) => uniq(t) ==> r_plain(t, Ok(s.a)), None => false }),
    Err(e) => (match ftup(q, "y"@) { Some(t) => uniq(t) ==> r_plain(t, Err(e)), None => bad(e, q, "y"@) }) || (match ftup(q, "x"@) { Some(t) => uniq(t) ==> r_plain(t, Err(e)), None => bad(e, q, "x"@) }) } }
@for S,K,F,G,B in OneInt|"some-int"@|fi|s.a~as~int| OneUInt|"some-uint"@|fu|s.a~as~int| OneBool|"flag"@|fb|s.a|~&&~bools(tuple.__value@) OneText|"text"@|ft|s.a@| OneBytes|"bytes"@|fy|s.a@| OneOptInt|"opt-int"@|foi|oi(s.a)| OneOptUInt|"opt-uint"@|fou|ou(s.a)| OneOptText|"opt-text"@|fot|ot(s.a)| OneOkInt|"ok-int"@|fki|s.a~as~int| OneOkUInt|"ok-uint"@|fku|s.a~as~int|
@fn derive::<TryFrom<Tuple> for $S>::try_from
@spec
    ensures uniq(dvt(tuple.__value))$B ==> match ret { Ok(s) => $F(dvt(tuple.__value), $K) == Some($G), Err(e) => $F(dvt(tuple.__value), $K) is None && bad(e, dvt(tuple.__value), $K) },
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); lemma_look(dvt(tuple.__value), $K); }
@end
@fn derive::<TryFrom<Tuple> for OneList>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> match ret { Ok(s) => fl(dvt(tuple.__value), "list"@) is Some && texts(s.a@, fl(dvt(tuple.__value), "list"@)->Some_0, fl(dvt(tuple.__value), "list"@)->Some_0.len() as int), Err(e) => fl(dvt(tuple.__value), "list"@) is None && bad(e, dvt(tuple.__value), "list"@) },
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); lemma_look(dvt(tuple.__value), "list"@); }
@loop 0
    invariant __v0@.len() == __n0, texts(__r0@, dvs(__v0), __i0 as int),
@fn derive::<TryFrom<Tuple> for PlainInts>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> r_plain(dvt(tuple.__value), ret),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); lemma_look(dvt(tuple.__value), "x"@); lemma_look(dvt(tuple.__value), "y"@); }
@fn derive::<TryFrom<Tuple> for Swapped>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fi(q, "b"@) == Some(s.a as int) && fi(q, "a"@) == Some(s.b as int) && fy(q, "d"@) == Some(s.c@) && foi(q, "c"@) == Some(oi(s.d)),
        Err(e) => fi(q, "b"@) is None && bad(e, q, "b"@) || fi(q, "a"@) is None && bad(e, q, "a"@) || fy(q, "d"@) is None && bad(e, q, "d"@) || foi(q, "c"@) is None && bad(e, q, "c"@) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "a"@); lemma_look(q, "b"@); lemma_look(q, "c"@); lemma_look(q, "d"@); }
@fn derive::<TryFrom<Tuple> for Many>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) && bools(tuple.__value@) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fi(q, "k1"@) == Some(s.f1 as int) && fku(q, "k2"@) == Some(s.f2 as int) && fb(q, "k3"@) == Some(s.f3) && ft(q, "k4"@) == Some(s.f4@) && fy(q, "k5"@) == Some(s.f5@) && fou(q, "k6"@) == Some(ou(s.f6))
            && fot(q, "k7"@) == Some(ot(s.f7)) && fu(q, "k8"@) == Some(s.f8 as int) && fki(q, "k9"@) == Some(s.f9 as int) && foi(q, "k10"@) == Some(oi(s.f10)),
        Err(e) => fi(q, "k1"@) is None && bad(e, q, "k1"@) || fku(q, "k2"@) is None && bad(e, q, "k2"@) || fb(q, "k3"@) is None && bad(e, q, "k3"@) || ft(q, "k4"@) is None && bad(e, q, "k4"@) || fy(q, "k5"@) is None && bad(e, q, "k5"@)
            || fou(q, "k6"@) is None && bad(e, q, "k6"@) || fu(q, "k8"@) is None && bad(e, q, "k8"@) || fki(q, "k9"@) is None && bad(e, q, "k9"@) || foi(q, "k10"@) is None && bad(e, q, "k10"@) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "k1"@); lemma_look(q, "k2"@); lemma_look(q, "k3"@); lemma_look(q, "k4"@); lemma_look(q, "k5"@); lemma_look(q, "k6"@); lemma_look(q, "k7"@); lemma_look(q, "k8"@); lemma_look(q, "k9"@); lemma_look(q, "k10"@); }
@fn derive::<TryFrom<Tuple> for Nested>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fi(q, "some-int"@) == Some(s.c as int)
            && (match ftup(q, "inner"@) { Some(t) => uniq(t) ==> r_one(t, Ok(s.a)), None => false })
            && (match ftup(q, "other"@) { Some(t) => uniq(t) ==> r_plain(t, Ok(s.b)), None => false }),
        Err(e) => fi(q, "some-int"@) is None && bad(e, q, "some-int"@)
            || (match ftup(q, "inner"@) { Some(t) => uniq(t) ==> r_one(t, Err(e)), None => bad(e, q, "inner"@) })
            || (match ftup(q, "other"@) { Some(t) => uniq(t) ==> r_plain(t, Err(e)), None => bad(e, q, "other"@) }) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "inner"@); lemma_look(q, "other"@); lemma_look(q, "some-int"@); }
@fn derive::<TryFrom<Tuple> for OddKeys>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) && bools(tuple.__value@) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fu(q, "tokenId"@) == Some(s.a as int) && fi(q, ""@) == Some(s.b as int) && fy(q, "Schlüssel \"x\\y\" {}"@) == Some(s.c@) && fou(q, " lead_under-score!? "@) == Some(ou(s.d)) && fb(q, "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"@) == Some(s.e),
        Err(e) => fu(q, "tokenId"@) is None && bad(e, q, "tokenId"@) || fi(q, ""@) is None && bad(e, q, ""@) || fy(q, "Schlüssel \"x\\y\" {}"@) is None && bad(e, q, "Schlüssel \"x\\y\" {}"@) || fou(q, " lead_under-score!? "@) is None && bad(e, q, " lead_under-score!? "@) || fb(q, "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"@) is None && bad(e, q, "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"@) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "tokenId"@); lemma_look(q, ""@); lemma_look(q, "Schlüssel \"x\\y\" {}"@); lemma_look(q, " lead_under-score!? "@); lemma_look(q, "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"@); }
@fn derive::<TryFrom<Tuple> for Mixed>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) && bools(tuple.__value@) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fot(q, "k2"@) == Some(ot(s.opt)) && ft(q, "k4"@) == Some(s.text@) && fki(q, "k5"@) == Some(s.ok as int) && fy(q, "k6"@) == Some(s.bytes@) && fku(q, "k7"@) == Some(s.ok2 as int) && fi(q, "k8"@) == Some(s.num as int) && fb(q, "k9"@) == Some(s.flag) && fl(q, "k3"@) is Some && texts(s.texts@, fl(q, "k3"@)->Some_0, fl(q, "k3"@)->Some_0.len() as int) && (match ftup(q, "k1"@) { Some(t) => uniq(t) ==> r_plain(t, Ok(s.inner)), None => false }),
        Err(e) => ft(q, "k4"@) is None && bad(e, q, "k4"@) || fki(q, "k5"@) is None && bad(e, q, "k5"@) || fy(q, "k6"@) is None && bad(e, q, "k6"@) || fku(q, "k7"@) is None && bad(e, q, "k7"@) || fi(q, "k8"@) is None && bad(e, q, "k8"@) || fb(q, "k9"@) is None && bad(e, q, "k9"@) || fl(q, "k3"@) is None && bad(e, q, "k3"@) || (match ftup(q, "k1"@) { Some(t) => uniq(t) ==> r_plain(t, Err(e)), None => bad(e, q, "k1"@) }) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "k2"@); lemma_look(q, "k4"@); lemma_look(q, "k5"@); lemma_look(q, "k6"@); lemma_look(q, "k7"@); lemma_look(q, "k8"@); lemma_look(q, "k9"@); lemma_look(q, "k3"@); lemma_look(q, "k1"@); }
@loop 0
    invariant __v0@.len() == __n0, texts(__r0@, dvs(__v0), __i0 as int),
@fn derive::<TryFrom<Tuple> for Middle>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> r_middle(dvt(tuple.__value), ret),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "x"@); lemma_look(q, "y"@); }
@fn derive::<TryFrom<Tuple> for Deep>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fu(q, "y"@) == Some(s.b as int) && (match ftup(q, "x"@) { Some(t) => uniq(t) ==> r_middle(t, Ok(s.a)), None => false }),
        Err(e) => fu(q, "y"@) is None && bad(e, q, "y"@) || (match ftup(q, "x"@) { Some(t) => uniq(t) ==> r_middle(t, Err(e)), None => bad(e, q, "x"@) }) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "x"@); lemma_look(q, "y"@); }
@fn derive::<TryFrom<Tuple> for SharedKey>::try_from
@spec
    ensures uniq(dvt(tuple.__value)) ==> ({ let q = dvt(tuple.__value); match ret {
        Ok(s) => fu(q, "tokenId"@) == Some(s.a as int) && ft(q, "tokenId"@) == Some(s.r#type@),
        Err(e) => fu(q, "tokenId"@) is None && bad(e, q, "tokenId"@) } }),
@at start
    broadcast use {b_dvt, b_dvs};
    proof { reveal_with_fuel(dv, 3); let q = dvt(tuple.__value); lemma_look(q, "tokenId"@); }
