@default C09
@raw hash
pub open spec fn sha256(m: Seq<u8>) -> Seq<u8> { crate::ext::ring::digest::dig(1, m) }
pub open spec fn sha512_256(m: Seq<u8>) -> Seq<u8> { crate::ext::ring::digest::dig(2, m) }
pub open spec fn hash160(m: Seq<u8>) -> Seq<u8> { crate::ext::ripemd::rmd160(sha256(m)) }
pub open spec fn dsha256(m: Seq<u8>) -> Seq<u8> { sha256(sha256(m)) }
/// the 65-byte form of a recoverable signature
pub open spec fn recov_bytes(id: int, rs: Seq<u8>) -> Seq<u8> { seq![id as u8] + rs }
pub open spec fn presign(h: Seq<u8>, typ: u8, fee: u64, nonce: u64) -> Seq<u8> { sha512_256(h + seq![typ] + be(fee as int, 8) + be(nonce as int, 8)) }
pub open spec fn postsign(h: Seq<u8>, sig: Seq<u8>) -> Seq<u8> { sha512_256(h + seq![0u8] + sig) }
/// the key recovered from a 65-byte signature over a digest
pub open spec fn recovers(m: Seq<u8>, sig: Seq<u8>) -> Option<PublicKey> {
    if sig.len() == 65 && sig[0] < 4 && crate::ext::secp256k1::ecdsa::rs_ok(sig.skip(1)) { crate::ext::secp256k1::recovered(m, sig[0] as int, sig.skip(1)) } else { None }
}
pub proof fn lemma_recov_bytes() ensures forall|id: int, rs: Seq<u8>| rs.len() == 64 ==> #[trigger] recov_bytes(id, rs).skip(1) == rs
{ assert forall|id: int, rs: Seq<u8>| rs.len() == 64 implies #[trigger] recov_bytes(id, rs).skip(1) == rs by { assert(recov_bytes(id, rs).skip(1) =~= rs); } }
@for T,N in Sha256Hash|SHA256 DSha256Hash|SHA256 Sha512_256Hash|SHA256 Hash160|HASH160 MessageSignature|MESSAGE SignatureHash|SHA256
@fn hash::$T::as_bytes
@spec
    ensures ret@ == self.0@, *ret == self.0
@fn hash::$T::into_bytes
@spec
    ensures ret == self.0
@fn hash::$T::hex
@spec
    ensures ret@ == hex(self.0@)
@fn hash::$T::default
@spec
    ensures forall|i: int| 0 <= i < ret.0@.len() ==> ret.0@[i] == 0
@fn hash::<From<[u8;$N_ENCODED_SIZE]> for $T>::from
@name from_array_v
@spec
    ensures ret.0 == bytes
@fn hash::<AsRef<[u8]> for $T>::as_ref
@wrap impl BytesRef for $T { open spec fn bv(&self) -> Seq<u8> { self.0@ }
@name as_ref_v
@fn hash::<AsRef<[u8;$N_ENCODED_SIZE]> for $T>::as_ref
@name as_ref_array
@spec
    ensures *ret == self.0
@fn hash::<AsMut<[u8;$N_ENCODED_SIZE]> for $T>::as_mut
@name as_mut_array
@spec
    ensures *ret == old(self).0, final(self).0 == *final(ret)
@fn hash::<AsMut<[u8]> for $T>::as_mut
@name as_mut_slice
@spec
    ensures ret@ == old(self).0@, final(self).0@ == final(ret)@
@fn hash::<From<$T> for Vec>::from
@free
@name vec_from_$T
@spec
    ensures ret@ == hash.0@
@fn hash::<Debug for $T>::fmt
@spec
    ensures ret.is_ok() ==> final(f)@ =~= old(f)@ + hex(self.0@) && final(f).refused() == old(f).refused(), ret.is_err() ==> final(f).refused(),
@at pre 0
    proof { assert(hex(self.0@.take(0)) =~= Seq::<char>::empty()); }
@loop 0
    invariant data == self.0, __v0@ == self.0@, f@ =~= old(f)@ + hex(self.0@.take(__i0 as int)), f.refused() == old(f).refused(),
@at top 0
    proof { let t = self.0@; assert(hex(t.take(__i0 as int)) =~= hex(t.take(__i0 - 1)) + seq![hexd(t[__i0 - 1] as int / 16), hexd(t[__i0 - 1] as int % 16)]); }
@at after 0
    assert(self.0@.take(__n0 as int) =~= self.0@);
@raw hash
impl vstd::std_specs::cmp::PartialEqSpecImpl for $T { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$T) -> bool { self.0@ == o.0@ } }
impl PartialEq for $T { #[verifier::external_body] fn eq(&self, o: &$T) -> (r: bool) { unimplemented!() } }
impl Eq for $T {}
@end
@for T,F in Sha256Hash|sha256 DSha256Hash|dsha256 Sha512_256Hash|sha512_256 Hash160|hash160 SignatureHash|sha512_256
@fn hash::$T::from_slice
@spec
    ensures ret.0@ =~= $F(bytes.bv())
@end
@for T in Sha256Hash DSha256Hash Sha512_256Hash Hash160
@fn hash::$T::checksum
@spec
    ensures ret@ =~= self.0@.take(4)
@end
@fn hash::Hash160::new
@spec
    requires bytes.bv().len() == 20
    ensures ret.0@ =~= bytes.bv()
@fn hash::MessageSignature::new
@spec
    requires bytes.bv().len() == 65
    ensures ret.0@ =~= bytes.bv()
@fn hash::MessageSignature::from_slice
@spec
    ensures match ret { Ok(s) => s.0@ =~= bytes.bv(), Err(_) => bytes.bv().len() != 65 }
@fn hash::MessageSignature::from_recov
@spec
    ensures match ret { Ok(s) => s.0@ =~= recov_bytes(recov.id(), recov.rs()) && 0 <= recov.id() < 4 && recov.rs().len() == 64 && crate::ext::secp256k1::ecdsa::rs_ok(recov.rs()), Err(_) => false }
@fn hash::MessageSignature::into_recov
@spec
    ensures match ret {
        Ok(r) => self.0@[0] < 4 && crate::ext::secp256k1::ecdsa::rs_ok(self.0@.skip(1)) && r.id() == self.0@[0] && r.rs() =~= self.0@.skip(1),
        Err(_) => !(self.0@[0] < 4 &&  crate::ext::secp256k1::ecdsa::rs_ok(self.0@.skip(1))),
    }
@fn hash::SignatureHash::make_presign_hash
@props C13
@spec
    ensures ret.0@ =~= presign(hash.0@, typ, fee, nonce)
@fn hash::SignatureHash::make_postsign_hash
@props C13
@spec
    ensures ret.0@ =~= postsign(hash.0@, sig.0@)
@fn hash::SignatureHash::next_signature
@props C13
@spec
    ensures match ret {
        Ok((s, h)) => recovers(presign(hash.0@, typ, fee, nonce), s.0@) == Some(crate::ext::secp256k1::pk_of(pk)) && h.0@ =~= postsign(presign(hash.0@, typ, fee, nonce), s.0@),
        Err(_) => false,
    }
@at start
    proof { lemma_recov_bytes(); }
@fn hash::SignatureHash::next_verify
@props C13 C14
@spec
    ensures match ret {
        Ok((k, h)) => recovers(presign(hash.0@, typ, fee, nonce), signature.0@) == Some(k) && h.0@ =~= postsign(presign(hash.0@, typ, fee, nonce), signature.0@),
        Err(_) => recovers(presign(hash.0@, typ, fee, nonce), signature.0@) is None,
    }
