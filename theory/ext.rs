// Assumed contracts of the external crates: ring, ripemd, secp256k1, bip32, bip39. Cryptographic functions
// are uninterpreted; the only facts assumed are output lengths, serialization round trips and that
// recovering the key from a signature by sk over m gives the public key of sk.
pub mod ring { pub mod digest {
use vstd::prelude::*; verus! {
pub struct Algorithm { pub id: u8 }
pub const SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: 0 };
pub const SHA256: Algorithm = Algorithm { id: 1 };
pub const SHA512_256: Algorithm = Algorithm { id: 2 };
pub const SHA512: Algorithm = Algorithm { id: 3 };
pub const SHA384: Algorithm = Algorithm { id: 4 };
pub uninterp spec fn dig(id: u8, m: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_dig_len(m: Seq<u8>) ensures (#[trigger] dig(1, m)).len() == 32;
/// the digest depends on the bytes of the message only (has the solver compare two digested messages by content)
pub broadcast proof fn lemma_dig_ext(k: u8, a: Seq<u8>, b: Seq<u8>) ensures a =~= b ==> #[trigger] dig(k, a) == #[trigger] dig(k, b) {}
pub broadcast axiom fn axiom_dig_len2(m: Seq<u8>) ensures (#[trigger] dig(2, m)).len() == 32;
#[verifier::external_body]
pub struct Context { x: u8 }
impl Context {
    pub uninterp spec fn alg(&self) -> u8;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(a: &'static Algorithm) -> (r: Context) ensures r.alg() == a.id, r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).alg() == old(self).alg(), final(self).data() == old(self).data() + d@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Digest) ensures r@ == dig(self.alg(), self.data()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Digest { x: u8 }
impl View for Digest { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Digest { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn digest(a: &'static Algorithm, d: &[u8]) -> (r: Digest) ensures r@ == dig(a.id, d@) { unimplemented!() }
} } }
pub mod ripemd {
use vstd::prelude::*; use crate::prelude::*; verus! {
pub uninterp spec fn rmd160(m: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_rmd_len(m: Seq<u8>) ensures (#[trigger] rmd160(m)).len() == 20;
pub struct Ripemd160 { x: u8 }
#[verifier::external_body]
pub struct RmdOut { x: u8 }
impl View for RmdOut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl RmdOut { #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl Ripemd160 { #[verifier::external_body] pub fn digest<T: BytesRef>(b: T) -> (r: RmdOut) ensures r@ == rmd160(b.bv()) { unimplemented!() } }
} }
pub mod secp256k1 {
use vstd::prelude::*; use crate::prelude::*; verus! {
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SecretKey { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PublicKey { x: u8 }
/// the 33-byte compressed form
impl View for PublicKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub broadcast axiom fn axiom_pk_len(k: PublicKey) ensures (#[trigger] k@).len() == 33;
pub uninterp spec fn pk_of(k: SecretKey) -> PublicKey;
pub struct Message { pub d: [u8; 32] }
pub struct Secp256k1 { pub x: u8 }
pub use ecdsa::*;
/// the key recovered from (recovery id, compact signature) over a 32-byte digest
pub uninterp spec fn recovered(m: Seq<u8>, id: int, sig: Seq<u8>) -> Option<PublicKey>;
/// a signature with r = s = 0 recovers no key
pub axiom fn axiom_zero_signature(m: Seq<u8>, id: int, sig: Seq<u8>) requires recovered(m, id, sig).is_some() ensures exists|i: int| 0 <= i < sig.len() && #[trigger] sig[i] != 0;
impl Message {
    #[verifier::external_body] pub fn from_digest_slice(d: &[u8]) -> (r: Result<Message, Error>) ensures match r { Ok(m) => d@.len() == 32 && m.d@ == d@, Err(_) => d@.len() != 32 } { unimplemented!() }
    #[verifier::external_body] pub fn from_digest(d: [u8; 32]) -> (r: Message) ensures r.d@ == d@ { unimplemented!() }
}
impl Secp256k1 {
    #[verifier::external_body] pub fn new() -> Secp256k1 { unimplemented!() }
    #[verifier::external_body] pub fn sign_ecdsa_recoverable(&self, m: &Message, k: &SecretKey) -> (r: RecoverableSignature)
        ensures recovered(m.d@, r.id(), r.rs()) == Some(pk_of(*k)) { unimplemented!() }
    #[verifier::external_body] pub fn recover_ecdsa(&self, m: &Message, s: &RecoverableSignature) -> (r: Result<PublicKey, Error>)
        ensures match r { Ok(k) => recovered(m.d@, s.id(), s.rs()) == Some(k), Err(_) => recovered(m.d@, s.id(), s.rs()) is None } { unimplemented!() }
}
impl PublicKey {
    #[verifier::external_body] pub fn from_secret_key(c: &Secp256k1, k: &SecretKey) -> (r: PublicKey) ensures r == pk_of(*k) { unimplemented!() }
    #[verifier::external_body] pub fn serialize(&self) -> (r: [u8; 33]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from_slice(d: &[u8]) -> (r: Result<PublicKey, Error>) ensures match r { Ok(k) => pk_parse(d@) == Some(k), Err(_) => pk_parse(d@) is None } { unimplemented!() }
}
/// the key a byte string denotes; 33-byte keys are their own compressed form
pub uninterp spec fn pk_parse(b: Seq<u8>) -> Option<PublicKey>;
pub axiom fn axiom_pk_parse(b: Seq<u8>) requires b.len() == 33, pk_parse(b) is Some ensures pk_parse(b).unwrap()@ == b;
pub uninterp spec fn sk_parse(b: Seq<u8>) -> Option<SecretKey>;
impl SecretKey {
    #[verifier::external_body] pub fn from_slice(d: &[u8]) -> (r: Result<SecretKey, Error>) ensures match r { Ok(k) => sk_parse(d@) == Some(k), Err(_) => sk_parse(d@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn public_key(&self, c: &Secp256k1) -> (r: PublicKey) ensures r == pk_of(*self) { unimplemented!() }
}
}
pub mod ecdsa { use vstd::prelude::*; verus! {
/// compact signatures that parse (r and s in range)
pub uninterp spec fn rs_ok(b: Seq<u8>) -> bool;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RecoverableSignature { x: u8 }
impl RecoverableSignature {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn rs(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn serialize_compact(&self) -> (r: (RecoveryId, [u8; 64]))
        ensures r.0.v() == self.id(), r.1@ == self.rs(), 0 <= self.id() < 4, rs_ok(self.rs()) { unimplemented!() }
    #[verifier::external_body] pub fn from_compact(b: &[u8], id: RecoveryId) -> (r: Result<RecoverableSignature, super::Error>)
        ensures match r { Ok(s) => b@.len() == 64 && rs_ok(b@) && s.id() == id.v() && s.rs() == b@, Err(_) => !(b@.len() == 64 && rs_ok(b@)) } { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RecoveryId { x: u8 }
impl RecoveryId {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body] pub fn to_i32(self) -> (r: i32) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn from_i32(i: i32) -> (r: Result<RecoveryId, super::Error>) ensures match r { Ok(x) => 0 <= i < 4 && x.v() == i, Err(_) => !(0 <= i < 4) } { unimplemented!() }
}
} }
}
pub mod bip32 {
use vstd::prelude::*; use crate::prelude::*; verus! {
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external_body]
pub struct DerivationPath { x: u8 }
#[derive(Clone, Copy)]
pub struct ChildNumber(pub u32);
impl From<u32> for ChildNumber { fn from(n: u32) -> (r: ChildNumber) { ChildNumber(n) } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for ChildNumber { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(n: u32) -> ChildNumber { ChildNumber(n) } }
/// extended private keys
#[verifier::external_body]
pub struct XPrv { x: u8 }
#[verifier::external_body]
pub struct XPub { x: u8 }
#[verifier::external_body]
pub struct SigningKey { x: u8 }
/// the child of an extended key at an index (hardened from 2^31)
pub uninterp spec fn child(x: XPrv, i: u32) -> Option<XPrv>;
pub uninterp spec fn master(seed: Seq<u8>) -> Option<XPrv>;
pub uninterp spec fn path_of(s: Seq<char>) -> Option<DerivationPath>;
/// the key at a path below the key of a seed
pub uninterp spec fn at_path(seed: Seq<u8>, p: DerivationPath) -> Option<XPrv>;
/// its 33-byte public and 32-byte private key
pub uninterp spec fn xpub(x: XPrv) -> Seq<u8>;
pub uninterp spec fn xsec(x: XPrv) -> Seq<u8>;
impl View for XPub { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for SigningKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CloneV for XPrv { open spec fn ceq(&self, r: &Self) -> bool { *r == *self } #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl XPrv {
    #[verifier::external_body] pub fn new<S: BytesRef>(seed: S) -> (r: Result<XPrv, Error>) ensures match r { Ok(x) => master(seed.bv()) == Some(x), Err(_) => master(seed.bv()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn derive_from_path<S: BytesRef>(seed: S, path: &DerivationPath) -> (r: Result<XPrv, Error>) ensures match r { Ok(x) => at_path(seed.bv(), *path) == Some(x), Err(_) => at_path(seed.bv(), *path) is None } { unimplemented!() }
    #[verifier::external_body] pub fn derive_child(&self, c: ChildNumber) -> (r: Result<XPrv, Error>) ensures match r { Ok(x) => child(*self, c.0) == Some(x), Err(_) => child(*self, c.0) is None } { unimplemented!() }
    #[verifier::external_body] pub fn private_key(&self) -> (r: &SigningKey) ensures r@ == xsec(*self) { unimplemented!() }
    #[verifier::external_body] pub fn public_key(&self) -> (r: XPub) ensures r@ == xpub(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == xsec(*self) { unimplemented!() }
}
impl XPub { #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 33]) ensures r@ == self@ { unimplemented!() } }
impl SigningKey { #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() } }
impl DerivationPath { #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<DerivationPath, Error>) ensures match r { Ok(p) => path_of(s@) == Some(p), Err(_) => path_of(s@) is None } { unimplemented!() } }
} }
pub mod bip39 {
use vstd::prelude::*; use crate::prelude::*; verus! {
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external_body]
pub struct Mnemonic { x: u8 }
pub uninterp spec fn phrase(s: Seq<char>) -> Option<Mnemonic>;
pub uninterp spec fn seed(m: Mnemonic, pass: Seq<char>) -> Seq<u8>;
impl Mnemonic {
    #[verifier::external_body] pub fn parse<S: IntoV<String>>(s: S) -> (r: Result<Mnemonic, Error>) ensures match r { Ok(m) => phrase(s.iv()) == Some(m), Err(_) => phrase(s.iv()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_seed_normalized(&self, p: &str) -> (r: [u8; 64]) ensures r@ == seed(*self, p@) { unimplemented!() }
    #[verifier::external_body] pub fn to_seed(&self, p: &str) -> (r: [u8; 64]) ensures p@.len() == 0 ==> r@ == seed(*self, p@) { unimplemented!() }
}
} }
pub mod collections {
use vstd::prelude::*; use crate::prelude::*; verus! {
/// std's maps over integer keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub type BTreeMap<K, V> = HashMap<K, V>;
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    pub fn entry(&mut self, key: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(key) && e.k == key && *e.m == *old(self) && *final(e.m) == *final(self),
            Entry::Vacant(e) => !old(self)@.contains_key(key) && e.k == key && *e.m == *old(self) && *final(e.m) == *final(self),
        }
    { if self.contains_key(&key) { Entry::Occupied(OccupiedEntry { m: self, k: key }) } else { Entry::Vacant(VacantEntry { m: self, k: key }) } }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body] pub fn get(&self) -> (r: &V) requires (*self.m)@.contains_key(self.k) ensures *r == (*old(self.m))@[self.k] { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, (*final(self.m))@ == (*old(self.m))@.insert(self.k, *final(r)) { unimplemented!() }
}
} }

pub mod ureq {
use vstd::prelude::*; use crate::prelude::*; verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
/// JSON values
pub enum J { Str(Seq<char>), Num(int), Bool(bool), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }
/// a request: method, URL and the headers set by the caller
pub struct Rq { pub post: bool, pub url: Seq<char>, pub headers: Seq<(Seq<char>, Seq<char>)> }
pub enum Body { Empty, Json(J), Bytes(Seq<u8>), Text(Seq<char>) }
/// an exchange with the network: what was sent and what came back
pub struct Ex { pub req: Rq, pub body: Body, pub res: Result<Response, Error> }
#[verifier::external_body]
pub struct Net { x: u8 }
impl View for Net { type V = Seq<Ex>; uninterp spec fn view(&self) -> Seq<Ex>; }
#[verifier::external_body]
pub struct Response { x: u8 }
#[verifier::external_body]
pub struct Transport { x: u8 }
pub enum Error { Status(u16, Response), Transport(Transport) }
/// the body of a response read as text, or as JSON of the given type
pub uninterp spec fn text_of(r: Response) -> Option<Seq<char>>;
pub uninterp spec fn json_of<T>(r: Response) -> Option<T>;
impl Response {
    #[verifier::external_body] pub fn into_json<T>(self) -> (r: Result<T, std::io::Error>) ensures match r { Ok(t) => json_of::<T>(self) == Some(t), Err(_) => json_of::<T>(self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn into_string(self) -> (r: Result<String, std::io::Error>) ensures match r { Ok(t) => text_of(self) == Some(t@), Err(_) => text_of(self) is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct Request { x: u8 }
impl View for Request { type V = Rq; uninterp spec fn view(&self) -> Rq; }
#[verifier::external_body] pub fn get(url: &str) -> (r: Request) ensures r@ == (Rq { post: false, url: url@, headers: seq![] }) { unimplemented!() }
#[verifier::external_body] pub fn post(url: &str) -> (r: Request) ensures r@ == (Rq { post: true, url: url@, headers: seq![] }) { unimplemented!() }
impl Request {
    #[verifier::external_body] pub fn set(self, k: &str, v: &str) -> (r: Request) ensures r@ == (Rq { post: self@.post, url: self@.url, headers: self@.headers.push((k@, v@)) }) { unimplemented!() }
    #[verifier::external_body] pub fn call(self, net: &mut Net) -> (r: Result<Response, Error>) ensures final(net)@ == old(net)@.push(Ex { req: self@, body: Body::Empty, res: r }) { unimplemented!() }
    #[verifier::external_body] pub fn send_json(self, j: Json, net: &mut Net) -> (r: Result<Response, Error>) ensures final(net)@ == old(net)@.push(Ex { req: self@, body: Body::Json(j@), res: r }) { unimplemented!() }
    #[verifier::external_body] pub fn send_bytes(self, b: &[u8], net: &mut Net) -> (r: Result<Response, Error>) ensures final(net)@ == old(net)@.push(Ex { req: self@, body: Body::Bytes(b@), res: r }) { unimplemented!() }
    #[verifier::external_body] pub fn send_string(self, b: &str, net: &mut Net) -> (r: Result<Response, Error>) ensures final(net)@ == old(net)@.push(Ex { req: self@, body: Body::Text(b@), res: r }) { unimplemented!() }
}
#[verifier::external_body]
pub struct Json { x: u8 }
impl View for Json { type V = J; uninterp spec fn view(&self) -> J; }
impl Json {
    #[verifier::external_body] pub fn obj() -> (r: Json) ensures r@ == J::Obj(Map::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn field(self, k: &str, v: Json) -> (r: Json) ensures self@ is Obj ==> r@ == J::Obj(self@->Obj_0.insert(k@, v@)) { unimplemented!() }
    #[verifier::external_body] pub fn arr() -> (r: Json) ensures r@ == J::Arr(seq![]) { unimplemented!() }
    #[verifier::external_body] pub fn item(self, v: Json) -> (r: Json) ensures self@ is Arr ==> r@ == J::Arr(self@->Arr_0.push(v@)) { unimplemented!() }
}
pub trait JsonV { spec fn jv(&self) -> J; fn json_v(&self) -> (r: Json) ensures r@ == self.jv(); }
impl JsonV for str { open spec fn jv(&self) -> J { J::Str(self@) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl JsonV for String { open spec fn jv(&self) -> J { J::Str(self@) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl JsonV for usize { open spec fn jv(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl JsonV for u64 { open spec fn jv(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl JsonV for u32 { open spec fn jv(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl JsonV for bool { open spec fn jv(&self) -> J { J::Bool(*self) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl<T: JsonV> JsonV for Vec<T> { open spec fn jv(&self) -> J { J::Arr(Seq::new(self@.len(), |i: int| self@[i].jv())) } #[verifier::external_body] fn json_v(&self) -> (r: Json) { unimplemented!() } }
impl<'a, T: JsonV + ?Sized> JsonV for &'a T { open spec fn jv(&self) -> J { (**self).jv() } fn json_v(&self) -> (r: Json) { (**self).json_v() } }
} }
