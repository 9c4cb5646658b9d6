// Contract-carrying stand-ins for library traits and functions. Everything marked external_body or
// assume_specification here is trusted (listed in every evidence file by a mechanical scan).
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

/// AsRef<[u8]>
pub trait BytesRef { spec fn bv(&self) -> Seq<u8>; fn as_ref_v(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
impl BytesRef for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_ref_v(&self) -> (r: &[u8]) { self } }
impl BytesRef for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_ref_v(&self) -> (r: &[u8]) { self.as_slice() } }
impl<const N: usize> BytesRef for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_ref_v(&self) -> (r: &[u8]) { self.as_slice() } }
impl<'a, T: BytesRef + ?Sized> BytesRef for &'a T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } fn as_ref_v(&self) -> (r: &[u8]) { (**self).as_ref_v() } }
impl BytesRef for String { open spec fn bv(&self) -> Seq<u8> { sb(self@) } #[verifier::external_body] fn as_ref_v(&self) -> (r: &[u8]) { self.as_bytes() } }
impl BytesRef for str { open spec fn bv(&self) -> Seq<u8> { sb(self@) } #[verifier::external_body] fn as_ref_v(&self) -> (r: &[u8]) { self.as_bytes() } }

/// Into<String>, Into<LengthPrefixedStr>
pub trait Chars { spec fn cs(&self) -> Seq<char>; }
impl Chars for String { open spec fn cs(&self) -> Seq<char> { self@ } }
pub trait IntoV<X: Chars>: Sized { spec fn iv(&self) -> Seq<char>; fn into_v(self) -> (r: X) ensures r.cs() == self.iv(); }
impl IntoV<String> for String { open spec fn iv(&self) -> Seq<char> { self@ } fn into_v(self) -> (r: String) { self } }
impl<'a> IntoV<String> for &'a str { open spec fn iv(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn into_v(self) -> (r: String) { self.to_string() } }
impl<'a> IntoV<String> for &'a String { open spec fn iv(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn into_v(self) -> (r: String) { self.clone() } }

/// by-reference iteration source
pub trait AsSeq { type T; spec fn sq(&self) -> Seq<Self::T>; fn as_seq(&self) -> (r: &[Self::T]) ensures r@ == self.sq(); }
impl<T> AsSeq for Vec<T> { type T = T; open spec fn sq(&self) -> Seq<T> { self@ } fn as_seq(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> AsSeq for [T] { type T = T; open spec fn sq(&self) -> Seq<T> { self@ } fn as_seq(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> AsSeq for [T; N] { type T = T; open spec fn sq(&self) -> Seq<T> { self@ } fn as_seq(&self) -> (r: &[T]) { self.as_slice() } }
impl<'a, S: AsSeq + ?Sized> AsSeq for &'a S { type T = S::T; open spec fn sq(&self) -> Seq<S::T> { (**self).sq() } fn as_seq(&self) -> (r: &[S::T]) { (**self).as_seq() } }
pub fn __seq<S: AsSeq + ?Sized>(s: &S) -> (r: &[S::T]) ensures r@ == s.sq() { s.as_seq() }
/// a number of elements asked of the allocator while decoding an input of the given length
pub fn __cap(n: usize, len: usize) -> (r: usize) requires n <= 64 * len + 4096 ensures r == n { n }
pub fn __same<T>(a: T, b: T) -> (r: T) ensures r == a { a }
#[verifier::external_body]
pub fn __chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub fn __contains<const N: usize>(a: &[u8; N], x: &u8) -> (r: bool) ensures r == a@.contains(*x) {
    let mut i: usize = 0;
    while i < N invariant i <= N, forall|k: int| 0 <= k < i ==> a@[k] != *x decreases N - i {
        if a[i] == *x { return true; }
        i += 1;
    }
    false
}
#[verifier::external_body]
pub fn __concat(p: &str, s: &str) -> (r: String) ensures r@ == p@ + s@ { format!("{p}{s}") }
#[verifier::external_body]
pub fn __opaque_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn __collect_string(v: &Vec<char>) -> (r: String) ensures r@ == v@ { v.iter().collect() }
#[verifier::external_body]
pub fn __collect_string_rev(v: &Vec<char>) -> (r: String) ensures r@ == v@.reverse() { v.iter().rev().collect() }
#[verifier::external_body]
pub fn __panic() -> ! requires false { panic!() }
pub open spec fn hexd(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
#[verifier::external_body]
pub fn __write_hex02(s: &mut String, b: u8) ensures final(s)@ == old(s)@.push(hexd(b as int / 16)).push(hexd(b as int % 16)) { use std::fmt::Write; write!(s, "{b:02x}").unwrap() }
pub trait RefU8 { spec fn rv(&self) -> u8; fn __r(&self) -> (r: &u8) ensures *r == self.rv(); }
impl RefU8 for u8 { open spec fn rv(&self) -> u8 { *self } fn __r(&self) -> (r: &u8) { self } }
impl<'a, T: RefU8> RefU8 for &'a T { open spec fn rv(&self) -> u8 { (**self).rv() } fn __r(&self) -> (r: &u8) { (**self).__r() } }

/// std::str::Bytes
#[verifier::external_body]
pub struct __Bytes<'a> { i: std::str::Bytes<'a> }
impl<'a> View for __Bytes<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> __Bytes<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
    { self.i.next() }
}
pub trait StrV { spec fn cv(&self) -> Seq<char>; fn bytes_v<'a>(&'a self) -> (r: __Bytes<'a>) ensures r@ == sb(self.cv()); }
impl StrV for str { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn bytes_v<'a>(&'a self) -> (r: __Bytes<'a>) { __Bytes { i: self.bytes() } } }
impl StrV for String { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn bytes_v<'a>(&'a self) -> (r: __Bytes<'a>) { __Bytes { i: self.bytes() } } }

/// to_be_bytes / from_be_bytes
pub trait BeBytes: Sized {
    type A;
    spec fn bes(self) -> Seq<u8>;
    spec fn arr(a: Self::A) -> Seq<u8>;
    fn to_be_bytes_v(self) -> (r: Self::A) ensures Self::arr(r) == self.bes();
    fn from_be_bytes_v(a: Self::A) -> (r: Self) ensures r.bes() == Self::arr(a);
}
/// n-byte big-endian representation of v
pub open spec fn be(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { be(v / 256, (n - 1) as nat).push((v % 256) as u8) } }
pub open spec fn bv256(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bv256(s.drop_last()) * 256 + s.last() as int } }
impl BeBytes for u8 { type A = [u8; 1]; open spec fn bes(self) -> Seq<u8> { be(self as int, 1) } open spec fn arr(a: [u8; 1]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 1]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 1]) -> (r: u8) { u8::from_be_bytes(a) } }
impl BeBytes for u16 { type A = [u8; 2]; open spec fn bes(self) -> Seq<u8> { be(self as int, 2) } open spec fn arr(a: [u8; 2]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 2]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 2]) -> (r: u16) { u16::from_be_bytes(a) } }
impl BeBytes for u32 { type A = [u8; 4]; open spec fn bes(self) -> Seq<u8> { be(self as int, 4) } open spec fn arr(a: [u8; 4]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 4]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 4]) -> (r: u32) { u32::from_be_bytes(a) } }
impl BeBytes for u64 { type A = [u8; 8]; open spec fn bes(self) -> Seq<u8> { be(self as int, 8) } open spec fn arr(a: [u8; 8]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 8]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 8]) -> (r: u64) { u64::from_be_bytes(a) } }
impl BeBytes for u128 { type A = [u8; 16]; open spec fn bes(self) -> Seq<u8> { be(self as int, 16) } open spec fn arr(a: [u8; 16]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 16]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 16]) -> (r: u128) { u128::from_be_bytes(a) } }
pub open spec fn twos128(v: int) -> int { if v < 0 { v + 0x1_0000_0000_0000_0000_0000_0000_0000_0000 } else { v } }
impl BeBytes for i128 { type A = [u8; 16]; open spec fn bes(self) -> Seq<u8> { be(twos128(self as int), 16) } open spec fn arr(a: [u8; 16]) -> Seq<u8> { a@ }
    #[verifier::external_body] fn to_be_bytes_v(self) -> (r: [u8; 16]) { self.to_be_bytes() } #[verifier::external_body] fn from_be_bytes_v(a: [u8; 16]) -> (r: i128) { i128::from_be_bytes(a) } }

pub proof fn lemma_be_len(v: int, n: nat) ensures be(v, n).len() == n decreases n { if n > 0 { lemma_be_len(v / 256, (n - 1) as nat); } }
pub open spec fn p256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn lemma_be_val(v: int, n: nat) requires 0 <= v < p256(n) ensures bv256(be(v, n)) == v, be(v, n).len() == n decreases n {
    if n > 0 {
        assert(0 <= v / 256 < p256((n - 1) as nat)) by (nonlinear_arith) requires 0 <= v < 256 * p256((n - 1) as nat);
        lemma_be_val(v / 256, (n - 1) as nat);
        assert(be(v, n).drop_last() =~= be(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_val_be(s: Seq<u8>) ensures be(bv256(s), s.len()) =~= s, 0 <= bv256(s) < p256(s.len()) decreases s.len() {
    if s.len() > 0 {
        lemma_val_be(s.drop_last());
        let x = bv256(s.drop_last()); let d = s.last() as int;
        assert((x * 256 + d) / 256 == x && (x * 256 + d) % 256 == d) by (nonlinear_arith) requires 0 <= d < 256;
        assert(s.drop_last().push(s.last()) =~= s);
    }
}

// library functions without a vstd contract
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == sb(s@).len();
pub assume_specification[ i8::is_negative ](x: i8) -> (r: bool) ensures r == (x < 0);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == rev(old(s)@);
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == sb(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> sb(r->Ok_0@) == v@;
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == sb(s@);
#[verifier::external_body]
pub fn __starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn __starts_with_str(s: &str, p: &str) -> (r: bool) ensures r == (s@.len() >= p@.len() && s@.take(p@.len() as int) == p@) { s.starts_with(p) }
#[verifier::external_body]
pub fn __strip_prefix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == seq![c] + t@ && ((c as u32) < 128 ==> sb(s@).len() > 0 && sb(s@)[0] == c as u8 && sb(t@) == sb(s@).skip(1) && sb(t@) == sb(s@).subrange(1, sb(s@).len() as int)), None => s@.len() == 0 || s@[0] != c }
{ s.strip_prefix(c) }
#[verifier::external_body]
pub fn __strip_prefix_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == p@ + t@ && sb(s@) == sb(p@) + sb(t@) && sb(t@) == sb(s@).skip(sb(p@).len() as int), None => !(s@.len() >= p@.len() && s@.take(p@.len() as int) == p@) }
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn __str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, is_char_boundary(sb(s@), a as int), is_char_boundary(sb(s@), b as int)
    ensures sb(r@) == sb(s@).subrange(a as int, b as int)
{ &s[a..b] }
/// Vec<u8>::extend_from_slice as one concatenation (proved from vstd's element-wise contract)
pub trait VecV { spec fn vv(&self) -> Seq<u8>; fn extend_v(&mut self, s: &[u8]) ensures final(self).vv() == old(self).vv() + s@; }
impl VecV for Vec<u8> { open spec fn vv(&self) -> Seq<u8> { self@ } fn extend_v(&mut self, s: &[u8]) { let ghost o = self@; self.extend_from_slice(s); assert(self@ =~= o + s@); } }
/// to_string on text
pub trait ToStrV { spec fn tcs(&self) -> Seq<char>; fn to_string_v(&self) -> (r: String) ensures r@ == self.tcs(); }
impl ToStrV for str { open spec fn tcs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { self.to_string() } }
impl ToStrV for String { open spec fn tcs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { self.to_string() } }
pub trait MinV: Sized { spec fn ival(&self) -> int; fn min_v(self, o: Self) -> (r: Self) ensures r.ival() == if self.ival() <= o.ival() { self.ival() } else { o.ival() }; fn max_v(self, o: Self) -> (r: Self) ensures r.ival() == if self.ival() <= o.ival() { o.ival() } else { self.ival() }; }
impl MinV for usize { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } fn max_v(self, o: usize) -> (r: usize) { if self <= o { o } else { self } } }
impl MinV for u8 { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: u8) -> (r: u8) { if self <= o { self } else { o } } fn max_v(self, o: u8) -> (r: u8) { if self <= o { o } else { self } } }
impl MinV for u16 { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: u16) -> (r: u16) { if self <= o { self } else { o } } fn max_v(self, o: u16) -> (r: u16) { if self <= o { o } else { self } } }
impl MinV for u32 { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: u32) -> (r: u32) { if self <= o { self } else { o } } fn max_v(self, o: u32) -> (r: u32) { if self <= o { o } else { self } } }
impl MinV for u64 { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: u64) -> (r: u64) { if self <= o { self } else { o } } fn max_v(self, o: u64) -> (r: u64) { if self <= o { o } else { self } } }
impl MinV for u128 { open spec fn ival(&self) -> int { *self as int } fn min_v(self, o: u128) -> (r: u128) { if self <= o { self } else { o } } fn max_v(self, o: u128) -> (r: u128) { if self <= o { o } else { self } } }
/// a[lo..hi].copy_from_slice(s)
pub trait CopyRangeV { spec fn crv(&self) -> Seq<u8>; fn copy_range_v(&mut self, lo: usize, hi: usize, s: &[u8]) requires lo <= hi <= old(self).crv().len(), s@.len() == hi - lo ensures final(self).crv() == old(self).crv().subrange(0, lo as int) + s@ + old(self).crv().subrange(hi as int, old(self).crv().len() as int); }
impl CopyRangeV for Vec<u8> { open spec fn crv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn copy_range_v(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) } }
impl<const N: usize> CopyRangeV for [u8; N] { open spec fn crv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn copy_range_v(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) } }
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == match o { Some(x) => Some(*x), None => None };
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification[ <[u8]>::is_ascii ](s: &[u8]) -> (r: bool) ensures r == forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) < 128;
pub assume_specification[ u8::is_ascii ](b: &u8) -> (r: bool) ensures r == (*b < 128);
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57 || 65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8) ensures r == (if 65 <= *b <= 90 { (*b + 32) as u8 } else { *b });
pub assume_specification[ u8::to_ascii_uppercase ](b: &u8) -> (r: u8) ensures r == (if 97 <= *b <= 122 { (*b - 32) as u8 } else { *b });
pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57);
pub assume_specification[ u8::is_ascii_uppercase ](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);
pub assume_specification[ u8::is_ascii_lowercase ](b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((x, t)) => s@.len() > 0 && *x == s@.last() && t@ == s@.drop_last() };
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T) ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v);
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, b: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => b });
pub assume_specification<T, E, U>[ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });
pub assume_specification<T>[ bool::then_some ](a: bool, b: T) -> (r: Option<T>) ensures r == (if a { Some(b) } else { None });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification[ usize::rem_euclid ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a % b;
pub assume_specification[ u32::rem_euclid ](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a % b;
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == (48 <= *c as u32 <= 57);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == (65 <= *c as u32 <= 90);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == (97 <= *c as u32 <= 122);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (65 <= *c as u32 <= 90 || 97 <= *c as u32 <= 122);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (48 <= *c as u32 <= 57 || 65 <= *c as u32 <= 90 || 97 <= *c as u32 <= 122);
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == (48 <= *c as u32 <= 57 || 65 <= *c as u32 <= 70 || 97 <= *c as u32 <= 102);
pub assume_specification[ u8::is_ascii_hexdigit ](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57 || 65 <= *b <= 70 || 97 <= *b <= 102);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
/// TryInto<[u8; N]> on byte slices
pub trait TryIntoV<A>: Sized { type E; spec fn tib(&self) -> Seq<u8>; spec fn tia(a: A) -> Seq<u8>; spec fn tin() -> nat; fn try_into_v(self) -> (r: Result<A, Self::E>) ensures r.is_ok() == (self.tib().len() == Self::tin()), r.is_ok() ==> Self::tia(r->Ok_0) == self.tib(); }
impl<'a, const N: usize> TryIntoV<[u8; N]> for &'a [u8] { type E = std::array::TryFromSliceError; open spec fn tib(&self) -> Seq<u8> { (**self)@ } open spec fn tia(a: [u8; N]) -> Seq<u8> { a@ } open spec fn tin() -> nat { N as nat } #[verifier::external_body] fn try_into_v(self) -> (r: Result<[u8; N], std::array::TryFromSliceError>) { self.try_into() } }
/// Clone
pub trait CloneV: Sized { spec fn ceq(&self, r: &Self) -> bool; fn clone_v(&self) -> (r: Self) ensures self.ceq(&r); }
impl CloneV for String { open spec fn ceq(&self, r: &String) -> bool { r@ == self@ } #[verifier::external_body] fn clone_v(&self) -> (r: String) { self.clone() } }
impl CloneV for u8 { open spec fn ceq(&self, r: &u8) -> bool { *r == *self } fn clone_v(&self) -> (r: u8) { *self } }
impl<T: CloneV> CloneV for Box<T> { open spec fn ceq(&self, r: &Box<T>) -> bool { (**self).ceq(&**r) } fn clone_v(&self) -> (r: Box<T>) { Box::new((**self).clone_v()) } }
impl<A: CloneV, B: CloneV> CloneV for (A, B) { open spec fn ceq(&self, r: &(A, B)) -> bool { self.0.ceq(&r.0) && self.1.ceq(&r.1) } fn clone_v(&self) -> (r: (A, B)) { (self.0.clone_v(), self.1.clone_v()) } }
impl<T: CloneV> CloneV for Option<T> { open spec fn ceq(&self, r: &Option<T>) -> bool { match (*self, *r) { (Some(a), Some(b)) => a.ceq(&b), (None, None) => true, _ => false } } fn clone_v(&self) -> (r: Option<T>) { match self { Some(a) => Some(a.clone_v()), None => None } } }
impl<T: CloneV> CloneV for Vec<T> { open spec fn ceq(&self, r: &Vec<T>) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ceq(&r@[i]) }
    fn clone_v(&self) -> (r: Vec<T>) {
        let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).ceq(&v@[k]) decreases self@.len() - i { v.push(self[i].clone_v()); i += 1; }
        v
    } }
/// text comparison
pub trait Txt { spec fn txt(&self) -> Seq<char>; }
impl Txt for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Txt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<'a, T: Txt + ?Sized> Txt for &'a T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } }
#[verifier::external_body]
pub fn __streq<A: Txt + ?Sized, B: Txt + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.txt() == b.txt()) { unimplemented!() }
/// Box::as_ref, Box::as_mut
pub trait BoxRef { type T; spec fn bx(&self) -> Self::T; fn as_ref_b(&self) -> (r: &Self::T) ensures *r == self.bx(); fn as_mut_b(&mut self) -> (r: &mut Self::T) ensures *r == old(self).bx(), *final(r) == final(self).bx(); }
impl<T> BoxRef for Box<T> { type T = T; open spec fn bx(&self) -> T { **self } fn as_ref_b(&self) -> (r: &T) { &**self } fn as_mut_b(&mut self) -> (r: &mut T) { &mut **self } }
/// u16::from
pub trait Small: Sized { spec fn si(&self) -> int; fn __to_u16(self) -> (r: u16) ensures r == self.si(); }
impl Small for bool { open spec fn si(&self) -> int { if *self { 1 } else { 0 } } fn __to_u16(self) -> (r: u16) { if self { 1 } else { 0 } } }
impl Small for u8 { open spec fn si(&self) -> int { *self as int } fn __to_u16(self) -> (r: u16) { self as u16 } }
pub fn __u16_from<T: Small>(x: T) -> (r: u16) ensures r == x.si() { x.__to_u16() }
impl CloneV for u64 { open spec fn ceq(&self, r: &u64) -> bool { *r == *self } fn clone_v(&self) -> (r: u64) { *self } }

/// consuming iterators are the sequence of their items
pub trait IntoIterV: Sized { type T; spec fn items(self) -> Vec<Self::T>; fn into_iter_v(self) -> (r: Vec<Self::T>) ensures r == self.items(); }
impl<T> IntoIterV for Vec<T> { type T = T; open spec fn items(self) -> Vec<T> { self } fn into_iter_v(self) -> (r: Vec<T>) { self } }
/// the decimal digits of a number
pub open spec fn dec_n(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as char] } else { dec_n(n / 10).push((48 + n % 10) as char) } }
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { "-"@ + dec_n((-n) as nat) } else { dec_n(n as nat) } }
/// std::fmt::Formatter: the text written so far, and whether the underlying stream has refused a write
#[verifier::external_body]
pub struct __Fmt { _p: () }
#[verifier::external_body]
pub struct __FmtErr { _p: () }
impl View for __Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl __Fmt {
    pub uninterp spec fn refused(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), __FmtErr>) ensures r.is_ok() ==> final(self)@ == old(self)@ + s@ && final(self).refused() == old(self).refused(), r.is_err() ==> final(self).refused() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), __FmtErr>) ensures r.is_ok() ==> final(self)@ == old(self)@ + seq![c] && final(self).refused() == old(self).refused(), r.is_err() ==> final(self).refused() { unimplemented!() }
    pub fn put(&mut self, s: &str) -> (r: Result<(), __FmtErr>) ensures r.is_ok() ==> final(self)@ == old(self)@ + s@ && final(self).refused() == old(self).refused(), r.is_err() ==> final(self).refused() { self.write_str(s) }
}
/// write! into a String never fails
pub trait PutV { spec fn ptx(&self) -> Seq<char>; fn put(&mut self, s: &str) -> (r: Result<(), __FmtErr>) ensures r.is_ok(), final(self).ptx() == old(self).ptx() + s@; }
impl PutV for String { open spec fn ptx(&self) -> Seq<char> { self@ } fn put(&mut self, s: &str) -> (r: Result<(), __FmtErr>) { self.push_str(s); Ok(()) } }
/// Display as used by format!, write! and to_string
pub trait ShowV { spec fn shown(&self) -> Seq<char>; fn show_v(&self, t: &mut String) ensures final(t)@ == old(t)@ + self.shown();
    fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) ensures r.is_ok() ==> final(f)@ == old(f)@ + self.shown() && final(f).refused() == old(f).refused(), r.is_err() ==> final(f).refused(); }
impl ShowV for str { open spec fn shown(&self) -> Seq<char> { self@ } fn show_v(&self, t: &mut String) { t.push_str(self) } fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { f.write_str(self) } }
impl ShowV for String { open spec fn shown(&self) -> Seq<char> { self@ } fn show_v(&self, t: &mut String) { t.push_str(self.as_str()) } fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { f.write_str(self.as_str()) } }
impl<'a, T: ShowV + ?Sized> ShowV for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn show_v(&self, t: &mut String) { (**self).show_v(t) } fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { (**self).show_f(f) } }
impl<T: ShowV> ShowV for Box<T> { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn show_v(&self, t: &mut String) { (**self).show_v(t) } fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { (**self).show_f(f) } }
impl ShowV for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { f.write_char(*self) } }
impl ShowV for i128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ShowV for u128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ShowV for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ShowV for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ShowV for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
impl ShowV for u8 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show_v(&self, t: &mut String) { unimplemented!() } #[verifier::external_body] fn show_f(&self, f: &mut __Fmt) -> (r: Result<(), __FmtErr>) { unimplemented!() } }
/// {:02x}
pub trait ShowHexV { spec fn shown_hex(&self) -> Seq<char>; fn show_hex02_v(&self, t: &mut String) ensures final(t)@ == old(t)@ + self.shown_hex(); }
impl ShowHexV for u8 { open spec fn shown_hex(&self) -> Seq<char> { seq![hexd(*self as int / 16), hexd(*self as int % 16)] } fn show_hex02_v(&self, t: &mut String) { let ghost o = t@; __write_hex02(t, *self); assert(t@ =~= o + self.shown_hex()); } }
impl<'a, T: ShowHexV> ShowHexV for &'a T { open spec fn shown_hex(&self) -> Seq<char> { (**self).shown_hex() } fn show_hex02_v(&self, t: &mut String) { (**self).show_hex02_v(t) } }
/// {:02X}
pub open spec fn hexdu(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
pub trait ShowHexUV { spec fn shown_hexu(&self) -> Seq<char>; fn show_hexu02_v(&self, t: &mut String) ensures final(t)@ == old(t)@ + self.shown_hexu(); }
impl ShowHexUV for u8 { open spec fn shown_hexu(&self) -> Seq<char> { seq![hexdu(*self as int / 16), hexdu(*self as int % 16)] } #[verifier::external_body] fn show_hexu02_v(&self, t: &mut String) { unimplemented!() } }
impl<'a, T: ShowHexUV> ShowHexUV for &'a T { open spec fn shown_hexu(&self) -> Seq<char> { (**self).shown_hexu() } fn show_hexu02_v(&self, t: &mut String) { (**self).show_hexu02_v(t) } }
