use crate::refs::{self, V};
use crate::rng::Rng;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::{Address, Mode};
use stacks_rs::crypto::*;
use stacks_rs::transaction::*;

pub type R = Result<(), String>;
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, inp: &dyn std::fmt::Debug, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{what}\n  input: {}\n  observed: {}\n  expected: {}", cut(format!("{inp:?}")), cut(format!("{got:?}")), cut(format!("{want:?}")))) }
}
fn cut(s: String) -> String { if s.len() > 3000 { let mut k = 3000; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } else { s } }
fn x(b: &[u8]) -> String { refs::hex(b) }
fn ox(b: Option<Vec<u8>>) -> Option<String> { b.map(|b| x(&b)) }

// ---------------------------------------------------------------- text codecs
const C32S: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZabcdefghjkmnpqrstvwxyzOILoil";
const B58S: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn over(r: &mut Rng, al: &[u8], bad: bool) -> String {
    let n = r.len().min(600);
    let zeros = if r.one(3) { r.n(n + 1) } else { 0 };
    let mut s: Vec<char> = (0..n).map(|i| if i < zeros { al[0] as char } else { *r.pick(al) as char }).collect();
    if bad && n > 0 { for _ in 0..1 + r.n(2) { let i = r.n(n); s[i] = match r.n(3) { 0 => r.ch(), 1 => (r.u64() as u8) as char, _ => (r.u64() as u8 & 0x7f) as char }; } }
    s.into_iter().collect()
}
fn mutate_text(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.n(2) {
        let n = c.len();
        match r.n(8) {
            0 if n > 0 => { let i = r.n(n); c[i] = *r.pick(C32S) as char; }
            1 if n > 0 => { let i = r.n(n); c[i] = r.ch(); }
            2 if n > 0 => { let i = r.n(n); c.remove(i); }
            3 => { let i = r.n(n + 1); c.insert(i, *r.pick(C32S) as char); }
            4 if n > 1 => { let i = r.n(n - 1); c.swap(i, i + 1); }
            5 if n > 0 => { let i = r.n(n); c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }; }
            6 => { let k = r.n(n + 1); c.truncate(k); }
            _ => { for y in c.iter_mut() { if r.one(3) { *y = match *y { '0' => *r.pick(&['O', 'o']), '1' => *r.pick(&['I', 'L', 'i', 'l']), z => z.to_ascii_lowercase() }; } } }
        }
    }
    c.into_iter().collect()
}
pub fn c05(r: &mut Rng) -> R {
    if r.one(2) {
        let b = r.bytes();
        let b = if b.len() > 700 { b[..700].to_vec() } else { b };
        let want = refs::c32_enc(&b);
        eq("c32_encode", &x(&b), c32_encode(&b).ok(), Some(want.clone()))?;
        eq("c32_decode of an encoding", &want, ox(c32_decode(want.as_str()).ok()), Some(x(&b)))
    } else {
        let s = if r.one(5) { r.text() } else { let bad = r.one(2); over(r, C32S, bad) };
        eq("c32_decode", &s, ox(c32_decode(s.as_str()).ok()), ox(refs::c32_dec(&s)))
    }
}
pub fn rand_addr(r: &mut Rng) -> String {
    let h: [u8; 20] = r.arr(); let v = *r.pick(&refs::VERS);
    let a = refs::addr_enc(&h, v).unwrap();
    if r.one(4) { a.char_indices().map(|(i, c)| if i > 0 && r.one(2) { match c { '0' => *r.pick(&['0', 'O', 'o']), '1' => *r.pick(&['1', 'I', 'L', 'l', 'i']), z => z.to_ascii_lowercase() } } else { c }).collect() } else { a }
}
fn pr(o: Option<(Vec<u8>, u8)>) -> Option<(String, u8)> { o.map(|(b, v)| (x(&b), v)) }
pub fn c06(r: &mut Rng) -> R {
    match r.n(6) {
        0 => { let h: [u8; 20] = r.arr(); let v = if r.one(3) { r.byte() } else { *r.pick(&refs::VERS) };
            let w = refs::addr_enc(&h, v);
            eq("c32_address", &(x(&h), v), c32_address(h, v).ok(), w.clone())?;
            if let Some(w) = w {
                eq("c32_address_decode of an address", &w, pr(c32_address_decode(w.as_str()).ok()), Some((x(&h), v)))?;
                let a: Result<Address, _> = w.parse();
                eq("Address::from_str", &w, a.ok().map(|a| (x(a.hash.as_bytes()), a.version)), Some((x(&h), v)))?;
            } Ok(()) }
        1 => { let b = r.bytes(); let b = if b.len() > 300 { b[..300].to_vec() } else { b }; let v = if r.one(4) { r.byte() } else { r.n(32) as u8 };
            let w = refs::c32check_enc(&b, v);
            eq("c32check_encode", &(x(&b), v), c32check_encode(&b, v).ok(), w.clone())?;
            if let Some(w) = w { eq("c32check_decode of an encoding", &w, pr(c32check_decode(w.as_str()).ok()), Some((x(&b), v)))?; }
            Ok(()) }
        2 => { let s = if r.one(2) { r.text() } else { let bad = r.one(2); over(r, C32S, bad) };
            let s = if r.one(2) { format!("S{s}") } else { s };
            addr_text(&s) }
        3 => { // wrong version or wrong hash length with a right checksum
            let n = *r.pick(&[0usize, 1, 4, 18, 19, 20, 20, 20, 21, 22, 32]); let b = r.bytes_n(n); let v = r.n(32) as u8;
            let s = format!("{}{}", if r.one(8) { "s" } else { "S" }, refs::c32check_enc(&b, v).unwrap()); addr_text(&s) }
        4 => { // one flipped checksum byte
            let b = r.bytes_n(20); let v = *r.pick(&refs::VERS); let mut c = vec![v]; c.extend(&b); let mut k = refs::dsha(&c); let i = r.n(4); k[i] ^= 1 << r.n(8);
            let mut d = b.clone(); d.extend(&k[..4]);
            let s = format!("S{}{}", refs::c32check_enc(&[], v).unwrap().chars().next().unwrap(), refs::c32_enc(&d)); addr_text(&s) }
        _ => { let a = rand_addr(r); let s = mutate_text(r, &a); addr_text(&s) }
    }
}
fn addr_text(s: &str) -> R {
    let w = refs::addr_dec(s);
    eq("c32_address_decode", &s, pr(c32_address_decode(s).ok()), pr(w.clone()))?;
    let a: Result<Address, _> = s.parse();
    eq("Address::from_str", &s, a.ok().map(|a| (x(a.hash.as_bytes()), a.version)), pr(w))?;
    eq("c32check_decode", &s, pr(c32check_decode(s).ok()), pr(refs::c32check_dec(s)))
}
pub fn c07(r: &mut Rng) -> R {
    match r.n(5) {
        0 | 1 => { let b = r.bytes(); let b = if b.len() > 400 { b[..400].to_vec() } else { b };
            let w = refs::b58_enc(&b);
            eq("b58_encode", &x(&b), b58_encode(&b), w.clone())?;
            eq("b58_decode of an encoding", &w, ox(b58_decode(w.as_str()).ok()), Some(x(&b))) }
        2 => { let s = if r.one(4) { r.text() } else { let bad = r.one(2); over(r, B58S, bad) }; eq("b58_decode", &s, ox(b58_decode(s.as_str()).ok()), ox(refs::b58_dec(&s))) }
        3 => { let b = if r.one(3) { r.bytes_n(20) } else { let b = r.bytes(); if b.len() > 200 { b[..200].to_vec() } else { b } }; let v = r.byte();
            let w = refs::b58c_enc(&b, v);
            eq("base58check_encode", &(x(&b), v), base58check_encode(&b, v), w.clone())?;
            eq("base58check_decode of an encoding", &w, pr(base58check_decode(w.as_str()).ok()), Some((x(&b), v))) }
        _ => { let s = match r.n(4) { 0 => r.text(), 1 => over(r, B58S, false), 2 => { let n = r.n(9); let b = r.bytes_n(n); refs::b58_enc(&b) }
                _ => { let n = if r.one(2) { 20 } else { r.n(40) }; let b = r.bytes_n(n); let v = r.byte(); let mut c = vec![v]; c.extend(&b); let mut k = refs::dsha(&c); let i = r.n(4); k[i] ^= 1 << r.n(8); c.extend(&k[..4]); refs::b58_enc(&c) } };
            eq("base58check_decode", &s, pr(base58check_decode(s.as_str()).ok()), pr(refs::b58c_dec(&s))) }
    }
}
pub fn c08(r: &mut Rng) -> R {
    if r.one(2) { let b = r.bytes(); let w = refs::hex(&b); eq("bytes_to_hex", &x(&b), bytes_to_hex(&b), w.clone())?; eq("hex_to_bytes of an encoding", &w, ox(hex_to_bytes(w.as_str()).ok()), Some(x(&b))) }
    else { let s = match r.n(3) { 0 => r.text(), 1 => { let bad = r.one(2); over(r, b"0123456789abcdefABCDEF", bad) } _ => { let mut s = over(r, b"0123456789abcdefABCDEF", false); if s.len() % 2 == 1 { s.pop(); } if !s.is_empty() { let i = r.n(s.len()); let c = *r.pick(b"/:@G`g~ -+xX\x00\x7f") as char; s.replace_range(i..=i, &c.to_string()); } s } };
        eq("hex_to_bytes", &s, ox(hex_to_bytes(s.as_str()).ok()), ox(refs::unhex(&s))) }
}

// ---------------------------------------------------------------- keys and hashes
static CTX: std::sync::OnceLock<Secp256k1<secp256k1::All>> = std::sync::OnceLock::new();
fn ctx() -> &'static Secp256k1<secp256k1::All> { CTX.get_or_init(Secp256k1::new) }
static KEYS: std::sync::OnceLock<Vec<(SecretKey, PublicKey)>> = std::sync::OnceLock::new();
fn keys() -> &'static Vec<(SecretKey, PublicKey)> { KEYS.get_or_init(|| { let c = Secp256k1::new(); (0..12).map(|i| { let s = SecretKey::from_slice(&refs::sha256(format!("key {i}").as_bytes())).unwrap(); (s, PublicKey::from_secret_key(&c, &s)) }).collect() }) }
pub fn sk(i: usize) -> SecretKey { keys()[i].0 }
pub fn pk(i: usize) -> PublicKey { keys()[i].1 }
fn pks(r: &mut Rng, n: usize) -> Vec<PublicKey> { (0..n).map(|_| pk(r.n(12))).collect() }
fn kb(k: &[PublicKey]) -> Vec<Vec<u8>> { k.iter().map(|k| k.serialize().to_vec()).collect() }
pub fn c09(r: &mut Rng) -> R {
    let b = r.bytes();
    match r.n(4) {
        0 => {
            let (a, d, s) = (refs::sha256(&b), refs::dsha(&b), refs::sha512_256(&b)); let h = refs::hash160(&b);
            eq("Sha256Hash", &x(&b), Sha256Hash::from_slice(&b).into_bytes().to_vec(), a.clone())?; eq("Sha256Hash checksum", &x(&b), Sha256Hash::from_slice(&b).checksum().to_vec(), a[..4].to_vec())?;
            eq("DSha256Hash", &x(&b), DSha256Hash::from_slice(&b).as_bytes().to_vec(), d.clone())?; eq("DSha256Hash checksum", &x(&b), DSha256Hash::from_slice(&b).checksum().to_vec(), d[..4].to_vec())?;
            eq("Sha512_256Hash", &x(&b), Sha512_256Hash::from_slice(&b).as_bytes().to_vec(), s.clone())?; eq("Sha512_256Hash checksum", &x(&b), Sha512_256Hash::from_slice(&b).checksum().to_vec(), s[..4].to_vec())?;
            eq("Hash160", &x(&b), Hash160::from_slice(&b).as_bytes().to_vec(), h.clone())?; eq("Hash160 checksum", &x(&b), Hash160::from_slice(&b).checksum().to_vec(), h[..4].to_vec())?;
            eq("Hash160 hex", &x(&b), Hash160::from_slice(&b).hex(), x(&h))?;
            eq("Debug of hashes", &x(&b), (format!("{:?}", Hash160::from_slice(&b)), format!("{:?}", Sha256Hash::from_slice(&b)), format!("{:?}", DSha256Hash::from_slice(&b)), format!("{:?}", Sha512_256Hash::from_slice(&b)), format!("{:?}", SignatureHash::from_slice(&b))), (x(&h), x(&a), x(&d), x(&s), x(&s)))?;
            let z: [u8; 20] = r.arr(); eq("Hash160::new", &x(&z), Hash160::new(z).into_bytes(), z)?; eq("Hash160::from", &x(&z), Hash160::from(z).into_bytes(), z)?;
            eq("SignatureHash", &x(&b), SignatureHash::from_slice(&b).as_bytes().to_vec(), s)
        }
        1 => { eq("hash_p2pkh", &x(&b), stacks_rs::crypto::c32::hash_p2pkh(&b).as_bytes().to_vec(), refs::p2pkh(&b))?; eq("hash_p2wpkh", &x(&b), stacks_rs::crypto::c32::hash_p2wpkh(&b).as_bytes().to_vec(), refs::p2wpkh(&b)) }
        2 => { let n = match r.n(4) { 0 => r.n(176), 1 => { let d = r.dint(); if d <= 175 { d as usize } else { 16 } } _ => r.n(20) }; let k = pks(r, n); let m = if r.one(2) { r.n(n + 1) as u8 } else { r.n(176) as u8 };
            eq("hash_p2sh", &(m, kb(&k).iter().map(|x| refs::hex(x)).collect::<Vec<_>>()), stacks_rs::crypto::c32::hash_p2sh(m, &k).as_bytes().to_vec(), refs::p2sh(m, &kb(&k)))?;
            eq("hash_p2wsh", &(m, kb(&k).iter().map(|x| refs::hex(x)).collect::<Vec<_>>()), stacks_rs::crypto::c32::hash_p2wsh(m, &k).as_bytes().to_vec(), refs::p2wsh(m, &kb(&k))) }
        _ => {
            let n = match r.n(3) { 0 => r.n(130), 1 => *r.pick(&[0, 64, 65, 66]), _ => 65 }; let s = r.bytes_n(n);
            eq("MessageSignature::from_slice", &x(&s), MessageSignature::from_slice(&s).ok().map(|m| x(m.as_bytes())), if n == 65 { Some(x(&s)) } else { None })?;
            if n == 65 { eq("MessageSignature::new", &x(&s), x(MessageSignature::new(&s).as_bytes()), x(&s))?; }
            if n == 65 {
                let want = if s[0] < 4 { secp256k1::ecdsa::RecoverableSignature::from_compact(&s[1..], secp256k1::ecdsa::RecoveryId::from_i32(s[0] as i32).unwrap()).ok() } else { None };
                eq("into_recov", &x(&s), MessageSignature::new(&s).into_recov().ok(), want)?;
            }
            let mut v = r.bytes_n(64); v[0] &= 0x7f; v[32] &= 0x7f; let id = r.n(4) as i32;
            if let Ok(rec) = secp256k1::ecdsa::RecoverableSignature::from_compact(&v, secp256k1::ecdsa::RecoveryId::from_i32(id).unwrap()) {
                let mut w = vec![id as u8]; w.extend(&v);
                eq("from_recov", &x(&w), MessageSignature::from_recov(rec).ok().map(|m| x(m.as_bytes())), Some(x(&w)))?;
                eq("into_recov of from_recov", &x(&w), MessageSignature::from_recov(rec).unwrap().into_recov().ok(), Some(rec))?;
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- Clarity values
pub fn real(v: &V) -> Box<dyn Clarity> {
    match v {
        V::Int(i) => Box::new(Int::new(*i)), V::UInt(i) => Box::new(UInt::new(*i)), V::Buf(b) => Box::new(Buffer::new(b.clone())), V::T => Box::new(True::new()), V::F => Box::new(False::new()),
        V::Std(a) => Box::new(PrincipalStandard::new(a.clone())), V::Con(a, n) => Box::new(PrincipalContract::new((a.clone(), n.clone()))),
        V::Ok(v) => Box::new(ResponseOk::new(real(v))), V::Err(v) => Box::new(ResponseErr::new(real(v))), V::None => Box::new(OptionalNone::new()), V::Some(v) => Box::new(OptionalSome::new(real(v))),
        V::List(l) => Box::new(List::new(l.iter().map(real).collect())), V::Tup(l) => Box::new(Tuple::new(l.iter().map(|(k, v)| (k.clone(), real(v))).collect())),
        V::Asc(s) => Box::new(StringAscii::new(s.clone())), V::Utf(s) => Box::new(StringUtf8::new(s.clone())),
    }
}
pub fn view(b: &Box<dyn Clarity>) -> V {
    if let Ok(v) = b.cast_as::<Int>() { return V::Int(*v.value()); } if let Ok(v) = b.cast_as::<UInt>() { return V::UInt(*v.value()); } if let Ok(v) = b.cast_as::<Buffer>() { return V::Buf(v.value().clone()); }
    if let Ok(v) = b.cast_as::<True>() { assert!(*v.value()); return V::T; } if let Ok(v) = b.cast_as::<False>() { assert!(!*v.value()); return V::F; }
    if let Ok(v) = b.cast_as::<PrincipalStandard>() { return V::Std(v.value().clone()); } if let Ok(v) = b.cast_as::<PrincipalContract>() { return V::Con(v.value().0.clone(), v.value().1.clone()); }
    if let Ok(v) = b.cast_as::<ResponseOk>() { return V::Ok(Box::new(view(v.value()))); } if let Ok(v) = b.cast_as::<ResponseErr>() { return V::Err(Box::new(view(v.value()))); }
    if let Ok(v) = b.cast_as::<OptionalSome>() { return V::Some(Box::new(view(v.value()))); } if let Ok(v) = b.cast_as::<OptionalNone>() { assert!(v.value().is_none()); return V::None; }
    if let Ok(v) = b.cast_as::<List>() { return V::List(v.value().iter().map(view).collect()); } if let Ok(v) = b.cast_as::<Tuple>() { return V::Tup(v.value().iter().map(|(k, v)| (k.clone(), view(v))).collect()); }
    if let Ok(v) = b.cast_as::<StringAscii>() { return V::Asc(v.value().clone()); } if let Ok(v) = b.cast_as::<StringUtf8>() { return V::Utf(v.value().clone()); }
    panic!("value of unknown type")
}
pub fn name_text(r: &mut Rng, valid: bool) -> String {
    if valid { match r.n(4) { 0 => { let n = *r.pick(&[0, 1, 2, 127, 128]); r.ascii_n(n) } 1 => r.text_upto(128), _ => { let n = r.n(12); r.ascii_n(n) } } }
    else if r.one(3) { let w = *r.pick(&['é', '€', '😀']); let n = 128 / w.len_utf8() + 1 + r.n(30); let mut s: String = (0..n).map(|_| w).collect(); while s.len() < 129 { s.push('a'); } s }
    else { let n = match r.n(4) { 0 => 129, 1 => 256, 2 => 129 + r.n(200), _ => *r.pick(&[130, 255, 257, 384, 512, 640]) }; r.ascii_n(n) }
}
/// a value; bad: may contain something that has no encoding
pub fn value(r: &mut Rng, depth: usize, bad: bool) -> V {
    let k = r.n(if depth == 0 { 10 } else { 15 });
    match k {
        0 => V::Int(r.int(128) as i128), 1 => V::UInt(r.int(128)), 2 => V::Buf(r.bytes()), 3 => V::T, 4 => V::F,
        5 => { if bad && r.one(3) { let a = rand_addr(r); V::Std(mutate_text(r, &a)) } else { V::Std(rand_addr(r)) } }
        6 => { let a = if bad && r.one(5) { r.text() } else { rand_addr(r) }; let ok = !(bad && r.one(3)); V::Con(a, name_text(r, ok)) }
        7 => V::None,
        8 => { if bad && r.one(3) { V::Asc(r.text()) } else { let n = r.len(); V::Asc(r.ascii_n(n)) } }
        9 => { let n = r.len().min(2000); V::Utf(if r.one(2) { r.text() } else { r.text_upto(n) }) }
        10 => V::Ok(Box::new(value(r, depth - 1, bad))), 11 => V::Err(Box::new(value(r, depth - 1, bad))), 12 => V::Some(Box::new(value(r, depth - 1, bad))),
        13 => { let n = cnt(r); V::List((0..n).map(|_| if n > 20 { value(r, 0, bad) } else { value(r, depth - 1, bad) }).collect()) }
        _ => { let n = cnt(r); V::Tup((0..n).map(|_| { let ok = !(bad && r.one(6)); (name_text(r, ok), if n > 20 { value(r, 0, bad) } else { value(r, depth - 1, bad) }) }).collect()) }
    }
}
fn cnt(r: &mut Rng) -> usize { match r.n(40) { 0 => r.n(40), 1 => *r.pick(&[127, 128, 129, 255, 256, 257]), 2 => { let d = r.dint(); if d < 300 { d as usize } else { 2 } } _ => r.n(5) } }
pub fn dv(r: &mut Rng, bad: bool) -> V { if r.one(40) { let d = 8 + r.n(40); let mut v = value(r, 1, bad); for _ in 0..d { v = match r.n(5) { 0 => V::Ok(Box::new(v)), 1 => V::Err(Box::new(v)), 2 => V::Some(Box::new(v)), 3 => V::List(vec![v]), _ => V::Tup(vec![("k".into(), v)]) }; } v } else { let d = r.n(4); value(r, d, bad) } }
fn enc<T: Codec + ?Sized>(c: &T) -> Option<String> { c.encode().ok().map(|b| x(&b)) }
pub fn c01(r: &mut Rng) -> R {
    let bad = r.one(3);
    match r.n(8) {
        0 => { let ok = !(bad && r.one(2)); let s = name_text(r, ok); let n = LengthPrefixedStr::new(s.clone()); let w = refs::name(&s); eq("LengthPrefixedStr::encode", &s, enc(&n), ox(w.clone()))?; eq("LengthPrefixedStr::len", &s, n.len().ok(), w.map(|w| w.len())) }
        1 => { let n = cnt(r); let l: Vec<V> = (0..n).map(|_| value(r, 1, bad)).collect(); let a = FnArguments::new(l.iter().map(real).collect()); let w = refs::args(&l); eq("FnArguments::encode", &l, enc(&a), ox(w.clone()))?; eq("FnArguments::len", &l, a.len().ok(), w.map(|w| w.len())) }
        _ => { let v = dv(r, bad); let b = real(&v); let w = refs::ser(&v);
            eq("encode", &v, enc(b.as_ref()), ox(w.clone()))?;
            eq("len", &v, b.len().ok(), w.as_ref().map(|w| w.len()))?;
            eq("is_empty", &v, b.is_empty().ok(), w.as_ref().map(|w| w.is_empty()))?;
            eq("hex", &v, b.hex().ok(), w.as_ref().map(|w| x(w)))?; eq("hex_prefixed", &v, b.hex_prefixed().ok(), w.as_ref().map(|w| format!("0x{}", x(w))))?;
            eq("clone", &v, view(&b.clone()), v.clone()) }
    }
}
/// decode with the decoder of the type whose tag is t
fn typed(t: u8, b: &[u8]) -> Option<V> {
    macro_rules! d { ($($t:expr => $ty:ty),*) => { match t { $($t => <$ty>::decode(b).ok().map(|v| { let v: Box<dyn Clarity> = Box::new(v); view(&v) }),)* _ => None } } }
    d!(0 => Int, 1 => UInt, 2 => Buffer, 3 => True, 4 => False, 5 => PrincipalStandard, 6 => PrincipalContract, 7 => ResponseOk, 8 => ResponseErr, 9 => OptionalNone, 10 => OptionalSome, 11 => List, 12 => Tuple, 13 => StringAscii, 14 => StringUtf8)
}
pub fn c02(r: &mut Rng) -> R {
    let junk = if r.one(2) { vec![] } else { let n = r.n(40); r.bytes_n(n) };
    if r.one(8) { let s = name_text(r, true); let mut b = refs::name(&s).unwrap(); b.extend(&junk); return eq("LengthPrefixedStr::decode", &x(&b), LengthPrefixedStr::decode(&b).ok().map(|n| n.into_value()), Some(s)); }
    if r.one(8) { let n = cnt(r); let l: Vec<V> = (0..n).map(|_| value(r, 2, false)).collect(); let mut b = refs::args(&l).unwrap(); b.extend(&junk); let w: Vec<V> = l.iter().map(refs::canon).collect(); return eq("FnArguments::decode", &x(&b), FnArguments::decode(&b).ok().map(|a| a.value().iter().map(view).collect::<Vec<_>>()), Some(w)); }
    let v = dv(r, false);
    let e = real(&v);
    let mut b = match e.encode() { Ok(b) => b, Err(e) => return Err(format!("encode refused {v:?}: {e}")) };
    b.extend(&junk);
    let c = refs::canon(&v);
    eq("decode_clarity_type of an encoding", &x(&b), decode_clarity_type(&b).ok().map(|v| view(&v)), Some(c.clone()))?;
    eq("typed decode of an encoding", &x(&b), typed(b[0], &b), Some(c))
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.n(4) {
        let n = b.len();
        match r.n(9) {
            0 if n > 0 => { let i = r.n(n); b[i] = r.byte(); }
            1 if n > 0 => { let i = r.n(n.min(8)); b[i] = r.byte(); }
            2 => { let k = r.n(n + 1); b.truncate(k); }
            3 => { let i = r.n(n + 1); b.insert(i, r.byte()); }
            4 if n > 0 => { let i = r.n(n); b.remove(i); }
            5 if n > 4 => { let i = r.n(n - 4); let v = *r.pick(&[0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0100_0000, 0x0001_0000, 0x100]); b[i..i + 4].copy_from_slice(&v.to_be_bytes()); }
            6 if n > 0 => { let i = r.n(n); b[i] = b[i].wrapping_add(1); }
            7 if n > 0 => { let i = r.n(n); b[i] ^= 1 << r.n(8); }
            _ => { let k = r.n(6); let e = r.bytes_n(k); b.extend(e); }
        }
    }
}
/// bytes near the encodings
pub fn wild(r: &mut Rng) -> Vec<u8> {
    match r.n(8) {
        0 => { let n = r.n(64); let mut b = r.bytes_n(n); if n > 0 { b[0] = r.n(17) as u8; } b }
        1 => { // hand-made string with arbitrary content
            let t = *r.pick(&[13u8, 14, 2]); let n = r.n(20); let c = if r.one(2) { r.bytes_n(n) } else { let t = r.text_upto(20); t.into_bytes() }; let mut b = vec![t]; b.extend((c.len() as u32).to_be_bytes()); b.extend(c); if r.one(3) { mutate(r, &mut b); } b }
        2 => { let t = *r.pick(&[5u8, 6]); let mut b = vec![t, r.byte()]; let h: [u8; 20] = r.arr(); b.extend(h); if t == 6 { let n = *r.pick(&[0usize, 1, 5, 127, 128, 129, 130, 200, 255]); b.push(n as u8); let m = if r.one(4) { r.n(n + 1) } else { n }; if r.one(3) { b.extend(r.bytes_n(m)); } else { b.extend(r.ascii_n(m).as_bytes()); } } b }
        3 => { let n = 1 + r.n(3); let mut b = vec![12]; b.extend((n as u32).to_be_bytes()); for _ in 0..n { let l = if r.one(3) { *r.pick(&[0usize, 127, 128, 129, 130, 255]) } else { r.n(10) }; b.push(l as u8); if r.one(6) { b.extend(r.bytes_n(l)); } else { b.extend(r.ascii_n(l).as_bytes()); } b.extend(refs::ser(&value(r, 1, false)).unwrap()); } if r.one(3) { mutate(r, &mut b); } b }
        _ => { let d = r.n(3); let v = value(r, d, false); let mut b = refs::ser(&v).unwrap(); if b.len() > 3000 { b.truncate(3000); } mutate(r, &mut b); b }
    }
}
pub fn c03(r: &mut Rng) -> R {
    let mut b = wild(r);
    if r.one(10) { // names
        if !b.is_empty() && r.one(2) { b[0] = *r.pick(&[0u8, 1, 127, 128, 129, 255]); }
        let mut o = 0; let w = refs::pname(&b, &mut o);
        return eq("LengthPrefixedStr::decode", &x(&b), LengthPrefixedStr::decode(&b).ok().map(|n| n.into_value()), w);
    }
    if r.one(8) { let n = r.n(4); let l: Vec<V> = (0..n).map(|_| value(r, 1, false)).collect(); let mut b = refs::args(&l).unwrap(); if b.len() > 3000 { b.truncate(3000); } mutate(r, &mut b);
        let mut o = 0; let w = refs::pargs(&b, &mut o);
        let g = FnArguments::decode(&b).ok();
        if let (Some(g), Some(_)) = (&g, &w) { eq("re-encoding decoded arguments", &x(&b), enc(g), Some(x(&b[..o])))?; }
        return eq("FnArguments::decode", &x(&b), g.map(|a| a.value().iter().map(view).collect::<Vec<_>>()), w); }
    let mut o = 0; let w = refs::parse(&b, &mut o);
    let g = decode_clarity_type(&b).ok();
    if let (Some(g), Some(_)) = (&g, &w) { eq("re-encoding a decoded value", &x(&b), enc(g.as_ref()), Some(x(&b[..o])))?; }
    eq("decode_clarity_type", &x(&b), g.map(|v| view(&v)), w.clone())?;
    let own = b.first().copied().unwrap_or(0);
    let t = if r.one(2) { own } else { r.n(15) as u8 };
    eq(&format!("decoder of type {t}"), &x(&b), typed(t, &b), if b.first() == Some(&t) { w } else { None })
}
pub fn c04(r: &mut Rng) -> R {
    let mut b = if r.one(3) { payload_bytes(r) } else { wild(r) };
    mutate(r, &mut b);
    let _ = decode_clarity_type(&b);
    for t in 0..15 { let _ = typed(t, &b); if !b.is_empty() { let k = b[0]; b[0] = t; let _ = typed(t, &b); b[0] = k; } }
    let _ = FnArguments::decode(&b); let _ = LengthPrefixedStr::decode(&b);
    let _ = TokenTransferPayload::decode(&b); let _ = ContractCallPayload::decode(&b); let _ = <Box<dyn Payload>>::decode(&b);
    if !b.is_empty() { b[0] = 0; let _ = TokenTransferPayload::decode(&b); b[0] = 2; let _ = ContractCallPayload::decode(&b); let _ = <Box<dyn Payload>>::decode(&b); }
    // truncation at every position
    if b.len() < 120 { for k in 0..b.len() { let _ = decode_clarity_type(&b[..k]); let _ = <Box<dyn Payload>>::decode(&b[..k]); let _ = FnArguments::decode(&b[..k]); let _ = LengthPrefixedStr::decode(&b[..k]); } }
    Ok(())
}

// ---------------------------------------------------------------- post-conditions
#[derive(Debug, Clone)]
pub struct RInfo { a: String, n: String, s: String }
#[derive(Debug, Clone)]
pub enum RCond { Stx(V, u64, ConditionCode), Ft(V, u64, ConditionCode, RInfo), Nft(V, V, ConditionCode, RInfo) }
fn code(c: ConditionCode) -> u8 { match c { ConditionCode::EQ => 1, ConditionCode::GT => 2, ConditionCode::GTE => 3, ConditionCode::LT => 4, ConditionCode::LTE => 5, ConditionCode::HasNot => 0x10, ConditionCode::Has => 0x11 } }
fn princ(v: &V) -> Option<Vec<u8>> { let t = match v { V::Std(_) => 2, V::Con(..) => 3, _ => return None }; let b = refs::ser(v)?; let mut o = vec![t]; o.extend(&b[1..]); Some(o) }
fn info(i: &RInfo) -> Option<Vec<u8>> { let (h, v) = refs::addr_dec(&i.a)?; let mut b = vec![v]; b.extend(h); b.extend(refs::name(&i.n)?); b.extend(refs::name(&i.s)?); Some(b) }
pub fn cond_ser(c: &RCond) -> Option<Vec<u8>> {
    let mut b = vec![];
    match c {
        RCond::Stx(a, n, k) => { b.push(0); b.extend(princ(a)?); b.push(code(*k)); b.extend(refs::be(*n as u128, 8)); }
        RCond::Ft(a, n, k, i) => { b.push(1); b.extend(princ(a)?); b.extend(info(i)?); b.push(code(*k)); b.extend(refs::be(*n as u128, 8)); }
        RCond::Nft(a, v, k, i) => { b.push(2); b.extend(princ(a)?); b.extend(info(i)?); b.extend(refs::ser(v)?); b.push(code(*k)); }
    }
    Some(b)
}
pub fn conds_ser(l: &[RCond]) -> Option<Vec<u8>> { let mut b = refs::be(l.len() as u128, 4); for c in l { b.extend(cond_ser(c)?); } Some(b) }
fn rinfo(i: &RInfo) -> AssetInfo { AssetInfo::new(i.a.clone(), i.n.clone(), i.s.clone()) }
macro_rules! with_value { ($v:expr, $f:expr) => { match $v {
    V::Int(i) => $f(Int::new(*i)), V::UInt(i) => $f(UInt::new(*i)), V::Buf(b) => $f(Buffer::new(b.clone())), V::T => $f(True::new()), V::F => $f(False::new()),
    V::Std(a) => $f(PrincipalStandard::new(a.clone())), V::Con(a, n) => $f(PrincipalContract::new((a.clone(), n.clone()))),
    V::Ok(v) => $f(ResponseOk::new(real(v))), V::Err(v) => $f(ResponseErr::new(real(v))), V::None => $f(OptionalNone::new()), V::Some(v) => $f(OptionalSome::new(real(v))),
    V::List(l) => $f(List::new(l.iter().map(real).collect())), V::Tup(l) => $f(Tuple::new(l.iter().map(|(k, v)| (k.clone(), real(v))).collect())),
    V::Asc(s) => $f(StringAscii::new(s.clone())), V::Utf(s) => $f(StringUtf8::new(s.clone())) } } }
fn rcond(c: &RCond) -> Box<dyn Condition> {
    match c {
        RCond::Stx(a, n, k) => with_value!(a, |a| Box::new(STXPostCondition::new(a, *n, *k)) as Box<dyn Condition>),
        RCond::Ft(a, n, k, i) => with_value!(a, |a| Box::new(FungiblePostCondition::new(a, *n, *k, rinfo(i))) as Box<dyn Condition>),
        RCond::Nft(a, V::UInt(v), k, i) => with_value!(a, |a| Box::new(NonFungiblePostCondition::new(a, UInt::new(*v), *k, rinfo(i))) as Box<dyn Condition>),
        RCond::Nft(a, V::Asc(v), k, i) => with_value!(a, |a| Box::new(NonFungiblePostCondition::new(a, StringAscii::new(v.clone()), *k, rinfo(i))) as Box<dyn Condition>),
        RCond::Nft(a, v, k, i) => with_value!(a, |a| { let mut c = NonFungiblePostCondition::new(a, True::new(), *k, rinfo(i)); c.name = real(v); Box::new(c) as Box<dyn Condition> }),
    }
}
pub fn cond(r: &mut Rng, bad: bool) -> RCond {
    let k = *r.pick(&[ConditionCode::EQ, ConditionCode::GT, ConditionCode::GTE, ConditionCode::LT, ConditionCode::LTE, ConditionCode::HasNot, ConditionCode::Has]);
    let a = if bad && r.one(3) { value(r, 1, true) } else if r.one(2) { V::Std(rand_addr(r)) } else { V::Con(rand_addr(r), name_text(r, true)) };
    let ok = !(bad && r.one(4));
    let i = RInfo { a: if bad && r.one(4) { r.text() } else { rand_addr(r) }, n: name_text(r, true), s: name_text(r, ok) };
    let n = r.int(64) as u64;
    match r.n(3) { 0 => RCond::Stx(a, n, k), 1 => RCond::Ft(a, n, k, i), _ => { let d = r.n(3); RCond::Nft(a, value(r, d, bad), k, i) } }
}
pub fn conds(r: &mut Rng, bad: bool) -> Vec<RCond> { let n = match r.n(30) { 0 => *r.pick(&[255, 256, 257]), 1 => r.n(20), 2 => { let d = r.dint(); if d < 300 { d as usize } else { 2 } } _ => r.n(4) }; (0..n).map(|_| cond(r, bad)).collect() }
pub fn c11(r: &mut Rng) -> R {
    if r.one(8) {
        use crate::samples::uses::*;
        let (p, q, a, cn, u, n, m) = (rand_addr(r), rand_addr(r), rand_addr(r), name_text(r, true), r.int(128), r.int(64) as u64, r.int(64) as u64);
        let k = *r.pick(&[ConditionCode::EQ, ConditionCode::GT, ConditionCode::LT]);
        let (i, j) = (RInfo { a: rand_addr(r), n: name_text(r, true), s: name_text(r, true) }, RInfo { a: rand_addr(r), n: name_text(r, true), s: name_text(r, true) });
        let l = vec![RCond::Stx(V::Std(p.clone()), n, k), RCond::Ft(V::Con(a.clone(), cn.clone()), m, ConditionCode::LTE, i.clone()), RCond::Nft(V::Std(q.clone()), V::UInt(u), ConditionCode::HasNot, j.clone())];
        eq("post_condition! of nothing", &(), enc(&m_conditions0()), Some("00000000".into()))?;
        eq("post_condition! of one", &l[0], enc(m_condition(PrincipalStandard::new(p.clone()), n, k).as_ref()), ox(cond_ser(&l[0])))?;
        eq("post_condition! of three", &l, enc(&m_conditions(PrincipalStandard::new(p), PrincipalContract::new((a, cn)), n, m, UInt::new(u), k, rinfo(&i), PrincipalStandard::new(q), rinfo(&j))), ox(conds_ser(&l)))?;
    }
    let bad = r.one(3);
    let l = conds(r, bad);
    for c in &l { eq("post-condition encode", c, enc(rcond(c).as_ref()), ox(cond_ser(c)))?; }
    let p = PostConditions::new(l.iter().map(rcond).collect());
    eq("PostConditions::encode", &l, enc(&p), ox(conds_ser(&l)))?;
    let each: Vec<Option<String>> = l.iter().map(|c| ox(cond_ser(c))).collect();
    eq("PostConditions::value", &l, p.value().iter().map(|c| enc(c.as_ref())).collect::<Vec<_>>(), each.clone())?;
    eq("PostConditions into_iter", &l, p.into_iter().map(|c| enc(c.as_ref())).collect::<Vec<_>>(), each)
}

// ---------------------------------------------------------------- payloads
#[derive(Debug, Clone, PartialEq)]
pub enum RPay { Tok(V, u64, String), Call(Vec<u8>, u8, String, String, Vec<V>) }
pub fn pay_ser(p: &RPay) -> Option<Vec<u8>> {
    let mut b = vec![];
    match p {
        RPay::Tok(a, n, m) => { if m.len() > 34 { return None; } b.push(0); b.extend(refs::ser(a)?); b.extend(refs::be(*n as u128, 8)); let mut z = m.as_bytes().to_vec(); z.resize(34, 0); b.extend(z); }
        RPay::Call(h, v, c, f, a) => { b.push(2); b.push(*v); b.extend(h); b.extend(refs::name(c)?); b.extend(refs::name(f)?); b.extend(refs::args(a)?); }
    }
    Some(b)
}
pub fn pay_parse(b: &[u8], o: &mut usize) -> Option<RPay> {
    use refs::*;
    Some(match get(b, o, 1)?[0] {
        0 => { let a = parse(b, o)?; let n = num(get(b, o, 8)?) as u64; let m = String::from_utf8(get(b, o, 34)?.to_vec()).ok()?; RPay::Tok(a, n, m) }
        2 => { let v = get(b, o, 1)?[0]; let h = get(b, o, 20)?.to_vec(); let c = pname(b, o)?; let f = pname(b, o)?; RPay::Call(h, v, c, f, pargs(b, o)?) }
        _ => return None,
    })
}
pub fn memo(r: &mut Rng, bad: bool) -> String {
    if bad && r.one(3) {
        // over the byte limit, at or below it in characters in half of the cases
        if r.one(2) { let n = 9 + r.n(26); let w = *r.pick(&['é', '€', '😀', '\u{ff}']); let mut s: String = (0..n).map(|_| if r.one(3) { 'a' } else { w }).collect(); while s.len() < 35 { s.push(w); } return s; }
        let n = *r.pick(&[35, 36, 40, 64, 68, 100, 255, 256, 290]); return r.ascii_n(n);
    }
    match r.n(4) { 0 => { let n = *r.pick(&[0, 1, 33, 34]); r.ascii_n(n) } 1 => r.text_upto(34), _ => { let n = r.n(35); r.ascii_n(n) } }
}
pub fn pay(r: &mut Rng, bad: bool) -> RPay {
    if r.one(2) { let a = match r.n(4) { 0 => value(r, 1, bad), 1 => V::Con(rand_addr(r), name_text(r, true)), _ => V::Std(rand_addr(r)) }; RPay::Tok(a, r.int(64) as u64, memo(r, bad)) }
    else { let h: [u8; 20] = r.arr(); let v = if r.one(2) { *r.pick(&refs::VERS) } else { r.byte() }; let ok = !(bad && r.one(3)); let c = name_text(r, ok); let ok = !(bad && r.one(3)); let f = name_text(r, ok); let n = cnt(r); RPay::Call(h.to_vec(), v, c, f, (0..n).map(|_| value(r, 1, bad)).collect()) }
}
fn rpay(p: &RPay) -> Box<dyn Payload> {
    match p {
        RPay::Tok(a, n, m) => Box::new(TokenTransferPayload { address: real(a), amount: *n, memo: m.clone() }),
        RPay::Call(h, v, c, f, a) => Box::new(ContractCallPayload::new(Address::new(Hash160::new(h), *v), c.as_str(), f.clone(), FnArguments::new(a.iter().map(real).collect()))),
    }
}
fn payload_bytes(r: &mut Rng) -> Vec<u8> { let p = pay(r, false); let mut b = pay_ser(&p).unwrap(); if b.len() > 3000 { b.truncate(3000); } mutate(r, &mut b); b }
fn pv(t: &TokenTransferPayload) -> RPay { RPay::Tok(view(&t.address), t.amount, t.memo.clone()) }
fn cv(c: &ContractCallPayload) -> RPay { RPay::Call(c.address.hash.as_bytes().to_vec(), c.address.version, c.contract.value().clone(), c.name.value().clone(), c.args.value().iter().map(view).collect()) }
pub fn c12(r: &mut Rng) -> R {
    let b = if r.one(2) { let p = pay(r, false); match rpay(&p).encode() { Ok(mut b) => { let k = r.n(20); if r.one(2) { b.extend(r.bytes_n(k)); }
            let mut o = 0; let back = pay_parse(&b, &mut o);
            let want = match &p { RPay::Tok(a, n, m) => RPay::Tok(refs::canon(a), *n, format!("{m}{}", "\0".repeat(34 - m.len()))), RPay::Call(h, v, c, f, a) => RPay::Call(h.clone(), *v, c.clone(), f.clone(), a.iter().map(refs::canon).collect()) };
            let _ = back; check_pay(&b, Some(want))?; b } Err(e) => return Err(format!("payload encode refused {p:?}: {e}")) } } else { payload_bytes(r) };
    let mut o = 0; let w = pay_parse(&b, &mut o);
    check_pay(&b, w.clone())?;
    if w.is_some() {
        if let Ok(p) = <Box<dyn Payload>>::decode(&b) { eq("re-encoding a decoded payload", &x(&b), enc(p.as_ref()), Some(x(&b[..o])))?; }
    }
    Ok(())
}
fn check_pay(b: &[u8], w: Option<RPay>) -> R {
    let (wt, wc) = match &w { Some(p @ RPay::Tok(..)) => (Some(p.clone()), None), Some(p) => (None, Some(p.clone())), None => (None, None) };
    eq("TokenTransferPayload::decode", &x(b), TokenTransferPayload::decode(b).ok().map(|t| pv(&t)), wt)?;
    eq("ContractCallPayload::decode", &x(b), ContractCallPayload::decode(b).ok().map(|c| cv(&c)), wc)?;
    let g = <Box<dyn Payload>>::decode(b).ok();
    eq("payload dispatcher accepts", &x(b), g.is_some(), w.is_some())?;
    if let (Some(g), Some(w)) = (g, w) { eq("payload dispatcher", &x(b), enc(g.as_ref()), ox(pay_ser(&w)))?; }
    Ok(())
}

// ---------------------------------------------------------------- transactions
#[derive(Debug, Clone, PartialEq)]
pub struct RC { multi: bool, mode: u8, fee: u64, nonce: u64, signer: Vec<u8>, sig: Vec<u8>, fields: Vec<(bool, Vec<u8>)>, required: u8 }
pub fn rc_ser(c: &RC) -> Vec<u8> {
    let mut b = vec![c.mode]; b.extend(&c.signer); b.extend(refs::be(c.nonce as u128, 8)); b.extend(refs::be(c.fee as u128, 8));
    if c.multi { b.extend(refs::be(c.fields.len() as u128, 4)); for (s, f) in &c.fields { b.push(if *s { 2 } else { 0 }); b.extend(f); } b.extend(refs::be(c.required as u128, 2)); }
    else { b.push(0); b.extend(&c.sig); }
    b
}
fn rc_reset(c: &RC) -> RC { RC { fee: 0, nonce: 0, sig: vec![0; 65], fields: vec![], ..c.clone() } }
fn rc_default() -> RC { RC { multi: false, mode: 0, fee: 0, nonce: 0, signer: vec![0; 20], sig: vec![0; 65], fields: vec![], required: 0 } }
#[derive(Debug, Clone)]
pub enum RA { Std(RC), Spo(RC, RC) }
fn ra_ser(a: &RA) -> Vec<u8> { match a { RA::Std(o) => { let mut b = vec![4]; b.extend(rc_ser(o)); b } RA::Spo(o, s) => { let mut b = vec![5]; b.extend(rc_ser(o)); b.extend(rc_ser(s)); b } } }
#[derive(Debug, Clone)]
pub struct RT { main: bool, chain_main: bool, auth: RA, anchor: u8, pcm: u8, pcs: Vec<RCond>, pay: RPay }
fn rt_ser(t: &RT) -> Option<Vec<u8>> {
    let mut b = vec![if t.main { 0 } else { 0x80 }]; b.extend(refs::be(if t.chain_main { 1 } else { 0x8000_0000 }, 4)); b.extend(ra_ser(&t.auth)); b.push(t.anchor); b.push(t.pcm); b.extend(conds_ser(&t.pcs)?); b.extend(pay_ser(&t.pay)?); Some(b)
}
fn rt_init(t: &RT) -> Option<Vec<u8>> { let a = match &t.auth { RA::Std(o) => RA::Std(rc_reset(o)), RA::Spo(o, _) => RA::Spo(rc_reset(o), rc_default()) }; Some(refs::sha512_256(&rt_ser(&RT { auth: a, ..t.clone() })?)) }
fn mode(m: u8) -> Mode { match m { 0 => Mode::P2PKH, 1 => Mode::P2SH, 2 => Mode::P2WPKH, _ => Mode::P2WSH } }
/// an unsigned condition, with the indices of its keys
fn rcc(r: &mut Rng) -> (RC, Vec<usize>) {
    let (fee, nonce) = (r.int(64) as u64, r.int(64) as u64);
    if r.one(2) { let k = r.n(12); let m = *r.pick(&[0u8, 2]); let b = pk(k).serialize(); (RC { multi: false, mode: m, fee, nonce, signer: if m == 0 { refs::p2pkh(&b) } else { refs::p2wpkh(&b) }, sig: vec![0; 65], fields: vec![], required: 0 }, vec![k]) }
    else { let n = if r.one(10) { r.n(20) } else { 1 + r.n(4) }; let ks: Vec<usize> = (0..n).map(|_| r.n(12)).collect(); let m = *r.pick(&[1u8, 3]); let q = if r.one(8) { r.n(n + 2) } else { r.n(n + 1) } as u8; let kk: Vec<Vec<u8>> = ks.iter().map(|k| pk(*k).serialize().to_vec()).collect();
        (RC { multi: true, mode: m, fee, nonce, signer: if m == 1 { refs::p2sh(q, &kk) } else { refs::p2wsh(q, &kk) }, sig: vec![0; 65], fields: vec![], required: q }, ks) }
}
fn rcond_real(c: &RC, ks: &[usize]) -> Box<dyn SpendingCondition> {
    if c.multi { let p: Vec<PublicKey> = ks.iter().map(|k| pk(*k)).collect(); let mut m = SpendingConditionMultiSig::new(p, c.fee, c.nonce, c.required, mode(c.mode)); for (s, f) in &c.fields { if *s { m.modify(Modification::AddSignature(MessageSignature::new(f))).unwrap() } else { m.modify(Modification::AddPublicKey(PublicKey::from_slice(f).unwrap())).unwrap() } } Box::new(m) }
    else { let mut s = SpendingConditionStandard::new(pk(ks[0]), c.fee, c.nonce, mode(c.mode)); if c.sig != vec![0; 65] { s.modify(Modification::SetSignature(MessageSignature::new(&c.sig))).unwrap(); } Box::new(s) }
}
fn rtx(r: &mut Rng, bad: bool) -> (RT, Vec<usize>, Vec<usize>) {
    let (o, ok) = rcc(r); let (s, sk) = rcc(r);
    let auth = if r.one(2) { RA::Std(o) } else { RA::Spo(o, s) };
    let pcs = if r.one(2) { vec![] } else { conds(r, bad) };
    (RT { main: r.one(2), chain_main: r.one(2), auth, anchor: 1 + r.n(3) as u8, pcm: 1 + r.n(2) as u8, pcs, pay: pay(r, bad) }, ok, sk)
}
fn rauth(a: &RA, ok: &[usize], sk: &[usize]) -> Auth { match a { RA::Std(o) => Auth::Standard(rcond_real(o, ok)), RA::Spo(o, s) => Auth::Sponsored(rcond_real(o, ok), rcond_real(s, sk)) } }
fn rtx_real(t: &RT, ok: &[usize], sk: &[usize]) -> Transaction {
    Transaction::new(if t.main { TransactionVersion::Mainnet } else { TransactionVersion::Testnet }, if t.chain_main { ChainID::Mainnet } else { ChainID::Testnet }, rauth(&t.auth, ok, sk),
        match t.anchor { 1 => AnchorMode::Strict, 2 => AnchorMode::Micro, _ => AnchorMode::Any }, if t.pcm == 1 { PostConditionMode::Allow } else { PostConditionMode::Deny }, PostConditions::new(t.pcs.iter().map(rcond).collect()), rpay(&t.pay))
}
fn fill(r: &mut Rng, c: &mut RC) {
    if c.multi { let n = match r.n(20) { 0 => *r.pick(&[255, 256, 257]), 1 => r.n(40), 2 => { let d = r.dint(); if d < 300 { d as usize } else { 2 } } _ => r.n(5) }; for _ in 0..n { if r.one(2) { let s: [u8; 65] = r.arr(); c.fields.push((true, s.to_vec())); } else { c.fields.push((false, pk(r.n(12)).serialize().to_vec())); } } }
    else if r.one(2) { let s: [u8; 65] = r.arr(); c.sig = s.to_vec(); }
}
pub fn c10(r: &mut Rng) -> R {
    let bad = r.one(4);
    let (mut t, ok, sk) = rtx(r, bad);
    match &mut t.auth { RA::Std(o) => fill(r, o), RA::Spo(o, s) => { fill(r, o); fill(r, s); } }
    let tx = rtx_real(&t, &ok, &sk);
    let w = rt_ser(&t);
    eq("Transaction::encode", &t, enc(&tx), ox(w.clone()))?;
    eq("payload encode", &t.pay, enc(rpay(&t.pay).as_ref()), ox(pay_ser(&t.pay)))?;
    eq("auth encode", &t.auth, enc(&tx.auth), Some(x(&ra_ser(&t.auth))))?;
    eq("Transaction::hash", &t, tx.hash().ok().map(|h| x(h.as_bytes())), w.map(|w| x(&refs::sha512_256(&w))))?;
    eq("Transaction::len", &t, tx.len().ok(), rt_ser(&t).map(|w| w.len()))
}
fn presign(h: &[u8], typ: u8, fee: u64, nonce: u64) -> Vec<u8> { let mut b = h.to_vec(); b.push(typ); b.extend(refs::be(fee as u128, 8)); b.extend(refs::be(nonce as u128, 8)); refs::sha512_256(&b) }
fn postsign(h: &[u8], sig: &[u8]) -> Vec<u8> { let mut b = h.to_vec(); b.push(0); b.extend(sig); refs::sha512_256(&b) }
fn rsign(h: &[u8], typ: u8, c: &RC, k: usize) -> (Vec<u8>, Vec<u8>) { let p = presign(h, typ, c.fee, c.nonce); let s = ctx().sign_ecdsa_recoverable(&secp256k1::Message::from_digest_slice(&p).unwrap(), &sk(k)); let (i, b) = s.serialize_compact(); let mut o = vec![i.to_i32() as u8]; o.extend(b); let n = postsign(&p, &o); (o, n) }
fn rrecover(h: &[u8], typ: u8, c: &RC, sig: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> { let p = presign(h, typ, c.fee, c.nonce); let id = secp256k1::ecdsa::RecoveryId::from_i32(sig[0] as i32).ok()?; let s = secp256k1::ecdsa::RecoverableSignature::from_compact(&sig[1..], id).ok()?; let k = ctx().recover_ecdsa(&secp256k1::Message::from_digest_slice(&p).unwrap(), &s).ok()?; Some((k.serialize().to_vec(), postsign(&p, sig))) }
fn rverify(h: &[u8], typ: u8, c: &RC) -> Option<Vec<u8>> {
    if !c.multi { let (k, n) = rrecover(h, typ, c, &c.sig)?; if (if c.mode == 0 { refs::p2pkh(&k) } else { refs::p2wpkh(&k) }) != c.signer { return None; } return Some(n); }
    let mut keys = vec![]; let mut n = h.to_vec(); let mut cnt = 0;
    for (s, f) in &c.fields { if *s { let (k, m) = rrecover(&n, typ, c, f)?; keys.push(k); n = m; cnt += 1; } else { keys.push(f.clone()); } }
    if cnt < c.required as usize { return None; }
    if (if c.mode == 1 { refs::p2sh(c.required, &keys) } else { refs::p2wsh(c.required, &keys) }) != c.signer { return None; }
    Some(n)
}
fn averify(a: &RA, h: &[u8]) -> Option<()> { match a { RA::Std(o) => { rverify(h, 4, o)?; } RA::Spo(o, s) => { let n = rverify(h, 4, o)?; rverify(&n, 5, s)?; } } Some(()) }
/// signs a condition with its keys in order (for multi-sig: `required` of them, the rest as keys)
fn rsign_all(r: &mut Rng, h: &[u8], typ: u8, c: &mut RC, ks: &[usize]) -> Vec<u8> {
    let mut n = h.to_vec();
    if !c.multi { let (s, m) = rsign(&n, typ, c, ks[0]); c.sig = s; return m; }
    let mut left = c.required as usize;
    for (i, k) in ks.iter().enumerate() { let rest = ks.len() - i; if left > 0 && (left >= rest || r.one(2)) { let (s, m) = rsign(&n, typ, c, *k); c.fields.push((true, s)); n = m; left -= 1; } else { c.fields.push((false, pk(*k).serialize().to_vec())); } }
    n
}
pub fn c13(r: &mut Rng) -> R {
    // hash functions
    if r.one(4) { let h: [u8; 32] = r.arr(); let s: [u8; 65] = r.arr(); let (t, f, n) = (r.byte(), r.int(64) as u64, r.int(64) as u64);
        let p = presign(&h, t, f, n);
        eq("make_presign_hash", &(x(&h), t, f, n), x(SignatureHash::make_presign_hash(SignatureHash::from(h), t, f, n).as_bytes()), x(&p))?;
        eq("make_postsign_hash", &(x(&h), x(&s)), x(SignatureHash::make_postsign_hash(SignatureHash::from(h), MessageSignature::from(s)).as_bytes()), x(&postsign(&h, &s)))?;
        let k = r.n(12);
        let c = RC { fee: f, nonce: n, ..rc_default() };
        let (sig, next) = rsign(&h, t, &c, k);
        eq("next_signature", &(x(&h), t, f, n, k), SignatureHash::next_signature(SignatureHash::from(h), t, f, n, sk(k)).ok().map(|(a, b)| (x(a.as_bytes()), x(b.as_bytes()))), Some((x(&sig), x(&next))))?;
        let ms = MessageSignature::new(&sig);
        return eq("next_verify of next_signature", &(x(&h), t, f, n, k), SignatureHash::next_verify(SignatureHash::from(h), t, f, n, ms).ok().map(|(a, b)| (a, x(b.as_bytes()))), Some((pk(k), x(&next)))); }
    let (mut t, ok, spk) = rtx(r, false);
    for c in match &mut t.auth { RA::Std(o) => vec![o], RA::Spo(o, s) => vec![o, s] } { if c.multi && c.required as usize > c.fields.len() + 19 { return Ok(()); } }
    let toomany = |c: &RC, k: &[usize]| c.multi && c.required as usize > k.len();
    match &t.auth { RA::Std(o) => if toomany(o, &ok) { return Ok(()); }, RA::Spo(o, s) => if toomany(o, &ok) || toomany(s, &spk) { return Ok(()); } }
    let h0 = rt_init(&t).unwrap();
    let tx = rtx_real(&t, &ok, &spk);
    let inp = format!("{t:?} keys {ok:?} {spk:?}");
    let mut sg = TransactionSigner::new(tx).map_err(|e| format!("TransactionSigner::new refused {inp}: {e}"))?;
    eq("initial hash", &inp, x(sg.hash.as_bytes()), x(&h0))?;
    let mut want = t.clone();
    let o = match &mut want.auth { RA::Std(o) | RA::Spo(o, _) => o };
    let n = rsign_all(r, &h0, 4, o, &ok);
    let osigned = o.clone();
    if o.multi { for (i, (s, _)) in o.fields.iter().enumerate() { if *s { sg.sign_origin(sk(ok[i])) } else { sg.append_origin(pk(ok[i])) }.map_err(|e| format!("signing step {i} refused for {inp}: {e}"))?; } } else { sg.sign_origin(sk(ok[0])).map_err(|e| format!("sign_origin refused for {inp}: {e}"))?; }
    eq("hash after the origin signed", &inp, x(sg.hash.as_bytes()), x(&n))?;
    eq("verify_origin", &inp, sg.tx.auth.verify_origin(SignatureHash::new_(&h0)).ok().map(|h| x(h.as_bytes())), Some(x(&n)))?;
    if let RA::Spo(_, s) = &mut want.auth {
        let s0 = s.clone();
        // sponsor keys can only be appended on the condition itself; sign only
        let all = !s.multi || s.required as usize == spk.len();
        let n2 = if all { rsign_all(r, &n, 5, s, &spk) } else { return Ok(()); };
        let mut sg2 = if r.one(2) { TransactionSigner::new_sponser(&sg.tx, rcond_real(&s0, &spk)).map_err(|e| format!("new_sponser refused for {inp}: {e}"))? } else { sg };
        eq("hash at the sponsor", &inp, x(sg2.hash.as_bytes()), x(&n))?;
        for k in &spk { sg2.sign_sponsor(sk(*k)).map_err(|e| format!("sign_sponsor refused for {inp}: {e}"))?; }
        eq("hash after the sponsor signed", &inp, x(sg2.hash.as_bytes()), x(&n2))?;
        eq("signed sponsored transaction", &inp, enc(&sg2.tx), ox(rt_ser(&want)))?;
        return eq("verify of a signed sponsored transaction", &inp, sg2.tx.auth.verify(SignatureHash::new_(&h0)).is_ok(), true);
    }
    if !osigned.multi && r.one(2) { eq("Transaction::sign", &inp, rtx_real(&t, &ok, &spk).sign(sk(ok[0])).ok().and_then(|t| enc(&t)), ox(rt_ser(&want)))?; }
    eq("signed transaction", &inp, enc(&sg.tx), ox(rt_ser(&want)))?;
    eq("verify of a signed transaction", &inp, sg.tx.auth.verify(SignatureHash::new_(&h0)).is_ok(), true)
}
trait New_ { fn new_(b: &[u8]) -> Self; }
impl New_ for SignatureHash { fn new_(b: &[u8]) -> Self { let mut a = [0; 32]; a.copy_from_slice(b); SignatureHash(a) } }
pub fn c14(r: &mut Rng) -> R {
    let (o, mut ok) = rcc(r); let (s, mut spk) = rcc(r);
    let mut a = if r.one(2) { RA::Std(o) } else { RA::Spo(o, s) };
    let h: [u8; 32] = r.arr();
    match &mut a {
        RA::Std(o) => { if o.required as usize > ok.len() { o.required = ok.len() as u8; let kk: Vec<Vec<u8>> = ok.iter().map(|k| pk(*k).serialize().to_vec()).collect(); o.signer = if o.mode == 1 { refs::p2sh(o.required, &kk) } else { refs::p2wsh(o.required, &kk) }; } rsign_all(r, &h, 4, o, &ok); }
        RA::Spo(o, s) => { for (c, k) in [(&mut *o, &ok), (&mut *s, &spk)] { if c.required as usize > k.len() { c.required = k.len() as u8; let kk: Vec<Vec<u8>> = k.iter().map(|k| pk(*k).serialize().to_vec()).collect(); c.signer = if c.mode == 1 { refs::p2sh(c.required, &kk) } else { refs::p2wsh(c.required, &kk) }; } }
            let n = if r.one(12) { h.to_vec() } else { rsign_all(r, &h, 4, o, &ok) }; rsign_all(r, &n, 5, s, &spk); }
    }
    // spoil
    if !r.one(4) {
        let cs = match &mut a { RA::Std(o) => vec![(o, &mut ok)], RA::Spo(o, s) => vec![(o, &mut ok), (s, &mut spk)] };
        let i = r.n(cs.len()); let (c, ks) = cs.into_iter().nth(i).unwrap();
        let typ = if i == 0 { 4 } else { 5 };
        match r.n(10) {
            0 => c.fee ^= 1 << r.n(64), 1 => c.nonce ^= 1 << r.n(64),
            2 => { // another key declared
                let j = r.n(ks.len().max(1)); if !ks.is_empty() { ks[j] = (ks[j] + 1) % 12; }
                let kk: Vec<Vec<u8>> = ks.iter().map(|k| pk(*k).serialize().to_vec()).collect();
                c.signer = match c.mode { 0 => refs::p2pkh(&kk[0]), 2 => refs::p2wpkh(&kk[0]), 1 => refs::p2sh(c.required, &kk), _ => refs::p2wsh(c.required, &kk) }; }
            3 | 4 => { if c.multi { if !c.fields.is_empty() { let j = r.n(c.fields.len()); if r.one(3) { c.fields.remove(j); } else { let e = c.fields[j].1.len(); let p = r.n(e); if c.fields[j].0 { c.fields[j].1[p] ^= 1 << r.n(8); } } } } else { let p = r.n(65); c.sig[p] ^= 1 << r.n(8); } }
            5 => { if c.multi && c.fields.len() > 1 { let j = r.n(c.fields.len() - 1); c.fields.swap(j, j + 1); } }
            6 => { if c.multi { // signature replaced by its key
                for j in 0..c.fields.len().min(ks.len()) { if c.fields[j].0 && r.one(2) { c.fields[j] = (false, pk(ks[j]).serialize().to_vec()); } } } }
            7 => { if c.multi { c.fields.clear(); } else { c.sig = vec![0; 65]; } }
            8 => { // another (P2xxx <-> P2Wxxx) mode for the same keys
                c.mode ^= 2; let kk: Vec<Vec<u8>> = ks.iter().map(|k| pk(*k).serialize().to_vec()).collect();
                if r.one(2) { c.signer = match c.mode { 0 => refs::p2pkh(&kk[0]), 2 => refs::p2wpkh(&kk[0]), 1 => refs::p2sh(c.required, &kk), _ => refs::p2wsh(c.required, &kk) }; } else { return Ok(()); } }
            _ => { if c.multi { let (s, _) = rsign(&h, typ, c, 3); c.fields.push((true, s)); } else { let (s, _) = rsign(&h, 9 - typ, c, ks[0]); c.sig = s; } }
        }
    }
    // the declared signer is derived from the listed keys by the constructor
    let auth = rauth(&a, &ok, &spk);
    if enc(&auth) != Some(x(&ra_ser(&a))) { return Ok(()); }
    let inp = format!("{a:?} over {}", x(&h));
    let on = match &a { RA::Std(o) | RA::Spo(o, _) => rverify(&h, 4, o) };
    eq("Auth::verify_origin", &inp, auth.verify_origin(SignatureHash::from(h)).ok().map(|h| x(h.as_bytes())), ox(on))?;
    eq("Auth::verify accepts", &inp, auth.verify(SignatureHash::from(h)).is_ok(), averify(&a, &h).is_some())?;
    // the conditions themselves, for any auth type
    let (c, k) = match &a { RA::Spo(_, s) if r.one(2) => (s, &spk), RA::Std(o) | RA::Spo(o, _) => (o, &ok) };
    let typ = *r.pick(&[4u8, 5]);
    eq("SpendingCondition::verify", &(&inp, typ), rcond_real(c, k).verify(SignatureHash::from(h), typ).ok().map(|h| x(h.as_bytes())), ox(rverify(&h, typ, c)))
}
fn sigs(c: &RC) -> usize { if c.multi { c.fields.iter().filter(|f| f.0).count() } else { (c.sig != vec![0; 65]) as usize } }
fn reqs(c: &RC) -> usize { if c.multi { c.required as usize } else { 1 } }
pub fn c15(r: &mut Rng) -> R {
    let (mut t, ok, spk) = rtx(r, false);
    t.pcs.truncate(2);
    let init = rt_init(&t).unwrap();
    let mut h = init.clone();
    let tx = rtx_real(&t, &ok, &spk);
    let mut osig = false;
    let mut hist: Vec<String> = vec![];
    let mut sg = match TransactionSigner::new(tx) { Ok(s) => s, Err(e) => return Err(format!("TransactionSigner::new refused {t:?}: {e}")) };
    for _ in 0..1 + r.n(10) {
        let k = match r.n(3) { 0 => r.n(12), _ => { let o = match &t.auth { RA::Std(o) | RA::Spo(o, _) => o }; if ok.is_empty() { 0 } else { ok[o.fields.len() % ok.len()] } } };
        let (got, want) = match r.n(8) {
            0..=2 => { hist.push(format!("sign_origin({k})"));
                let o = match &mut t.auth { RA::Std(o) | RA::Spo(o, _) => o };
                let want = !osig && sigs(o) < reqs(o);
                if want { let (s, n) = rsign(&h, 4, o, k); if o.multi { o.fields.push((true, s)); } else { o.sig = s; } h = n; }
                (sg.sign_origin(sk(k)).is_ok(), want) }
            3 | 4 => { let k = if spk.is_empty() { 0 } else { spk[0] }; hist.push(format!("sign_sponsor({k})"));
                let want = match &mut t.auth { RA::Spo(_, c) if sigs(c) < reqs(c) => { let (s, n) = rsign(&h, 5, c, k); if c.multi { c.fields.push((true, s)); } else { c.sig = s; } h = n; osig = true; true } _ => false };
                (sg.sign_sponsor(sk(k)).is_ok(), want) }
            5 | 6 => { hist.push(format!("append_origin({k})"));
                let o = match &mut t.auth { RA::Std(o) | RA::Spo(o, _) => o };
                let want = !osig && o.multi;
                if want { o.fields.push((false, pk(k).serialize().to_vec())); }
                (sg.append_origin(pk(k)).is_ok(), want) }
            _ => { hist.push("new_sponser".into());
                let (s, k) = rcc(r);
                let w = match &t.auth { RA::Spo(o, _) => rverify(&init, 4, o), _ => None };
                let g = TransactionSigner::new_sponser(&sg.tx, rcond_real(&s, &k));
                let got = g.is_ok();
                if let Some(n) = &w { if let RA::Spo(_, x) = &mut t.auth { *x = s; } h = n.clone(); osig = true; }
                if let Ok(g) = g { sg = g; } // an unexpected success is reported below
                (got, w.is_some()) }
        };
        let inp = format!("{t:?}\n  keys {ok:?} {spk:?}\n  steps {hist:?}");
        eq("step accepted", &inp, got, want)?;
        eq("transaction after the step", &inp, enc(&sg.tx), ox(rt_ser(&t)))?;
        eq("session hash after the step", &inp, x(sg.hash.as_bytes()), x(&h))?;
        eq("session flag after the step", &inp, sg.origin_signed, osig)?;
        let o = match &t.auth { RA::Std(o) | RA::Spo(o, _) => o };
        eq("signature count", &inp, (sg.tx.auth.origin().signatures() as usize, sg.tx.auth.origin().req_signatures() as usize), (sigs(o), reqs(o)))?;
    }
    Ok(())
}
pub fn c16(r: &mut Rng) -> R {
    let k = r.n(12); let (fee, nonce) = (r.int(64) as u64, r.int(64) as u64); let (df, dn, dm) = (r.one(4), r.one(4), r.one(4));
    let (fee, nonce) = (if df { 0 } else { fee }, if dn { 0 } else { nonce });
    let (an, pm) = if dm { (3u8, 1u8) } else { (1 + r.n(3) as u8, 1 + r.n(2) as u8) };
    let anchor = match an { 1 => AnchorMode::Strict, 2 => AnchorMode::Micro, _ => AnchorMode::Any }; let pmode = if pm == 1 { PostConditionMode::Allow } else { PostConditionMode::Deny };
    let pcs = if r.one(2) { vec![] } else { let bad = r.one(4); let mut c = conds(r, bad); c.truncate(5); c };
    let rp = PostConditions::new(pcs.iter().map(rcond).collect());
    let net = r.n(3); let main = net == 0;
    eq("base_url", &net, match net { 0 => StacksMainnet::new().base_url(), 1 => StacksTestnet::new().base_url(), _ => StacksMocknet::new().base_url() }, ["https://api.mainnet.hiro.so", "https://api.testnet.hiro.so", "http://localhost:3999"][net].to_string())?;
    let b = pk(k).serialize();
    let cond = RC { multi: false, mode: 0, fee, nonce, signer: refs::p2pkh(&b), sig: vec![0; 65], fields: vec![], required: 0 };
    let mut want = RT { main, chain_main: main, auth: RA::Std(cond), anchor: an, pcm: pm, pcs, pay: RPay::Tok(V::T, 0, String::new()) };
    macro_rules! net { ($f:expr) => { match net { 0 => $f(StacksMainnet::new()), 1 => $f(StacksTestnet::new()), _ => $f(StacksMocknet::new()) } } }
    macro_rules! go { ($n:expr, $b:expr) => { { let q = $b.sender(sk(k)).network($n);
        match (df, dn, dm) { (true, true, true) => q.post_conditions(rp.clone()).build().transaction(), _ => q.fee(fee).nonce(nonce).anchor_mode(anchor).post_condition_mode(pmode).post_conditions(rp.clone()).build().transaction() } } } }
    let (df2, dn2, dm2) = (df, dn, dm);
    let mut tx = if r.one(2) {
        let v = if r.one(3) { value(r, 1, false) } else { V::Std(rand_addr(r)) }; let amount = r.int(64) as u64; let bad = r.one(5); let m = memo(r, bad);
        want.pay = RPay::Tok(v.clone(), amount, m.clone());
        if m.is_empty() && r.one(2) { with_value!(&v, |v| net!(|n| go!(n, STXTokenTransfer::builder().recipient(v).amount(amount)))) } else { with_value!(&v, |v| net!(|n| go!(n, STXTokenTransfer::builder().recipient(v).amount(amount).memo(m)))) }
    } else {
        let a = match r.n(5) { 0 => r.text(), 1 => { let a = rand_addr(r); mutate_text(r, &a) } _ => rand_addr(r) }; let ok = !r.one(10); let c = name_text(r, ok); let f = name_text(r, true); let n = r.n(4); let args: Vec<V> = (0..n).map(|_| value(r, 1, false)).collect();
        let res = net!(|n| go!(n, STXContractCall::builder().address(a.as_str()).contract(c.as_str()).fn_name(f.as_str()).fn_args(FnArguments::new(args.iter().map(real).collect()))));
        match (refs::addr_dec(&a), res) { (None, Err(_)) => return Ok(()), (None, Ok(_)) => return Err(format!("contract call with malformed address accepted: {a:?}")), (Some(_), Err(e)) => return Err(format!("contract call with valid address {a:?} refused: {e}")),
            (Some((h, v)), Ok(tx)) => { want.pay = RPay::Call(h, v, c, f, args); tx } }
    };
    let _ = (df2, dn2, dm2);
    let inp = format!("{want:?} network {net}");
    let chk = |tx: &Transaction, want: &RT, inp: &String| -> R {
        eq("built transaction", inp, enc(tx), ox(rt_ser(want)))?;
        eq("auth", inp, enc(&tx.auth), Some(x(&ra_ser(&want.auth))))?;
        eq("payload", inp, enc(tx.payload.as_ref()), ox(pay_ser(&want.pay)))?;
        eq("post-conditions", inp, enc(&tx.post_conditions), ox(conds_ser(&want.pcs)))?;
        eq("header", inp, (tx.version == TransactionVersion::Mainnet, tx.chain_id == ChainID::Mainnet, tx.anchor_mode as u8, tx.post_condition_mode as u8), (want.main, want.chain_main, want.anchor, want.pcm))
    };
    chk(&tx, &want, &inp)?;
    for _ in 0..r.n(4) { let v = r.int(64) as u64; let o = match &mut want.auth { RA::Std(o) | RA::Spo(o, _) => o }; if r.one(2) { tx.set_fee(v); o.fee = v; } else { tx.set_nonce(v); o.nonce = v; } chk(&tx, &want, &format!("{want:?} after set_fee/set_nonce({v})"))?; }
    // conditions of every kind
    let (c, ks) = rcc(r); let mut rc = rcond_real(&c, &ks); let mut c = c;
    for _ in 0..2 { let v = r.int(64) as u64; if r.one(2) { rc.set_fee(v); c.fee = v; } else { rc.set_nonce(v); c.nonce = v; } eq("condition after set_fee/set_nonce", &c, enc(rc.as_ref()), Some(x(&rc_ser(&c))))?; eq("fee and nonce", &c, (rc.fee(), rc.nonce()), (c.fee, c.nonce))?; }
    Ok(())
}
pub fn c17(r: &mut Rng) -> R {
    use std::str::FromStr;
    let e = match r.n(4) { 0 => vec![0u8; 16], 1 => vec![0xff; 32], _ => { let n = *r.pick(&[16usize, 32]); (0..n).map(|_| r.u64() as u8).collect() } };
    let m = bip39::Mnemonic::from_entropy(&e).unwrap();
    let seed = m.to_seed_normalized("");
    let root = bip32::XPrv::derive_from_path(seed, &bip32::DerivationPath::from_str("m/44'/5757'/0'/0").unwrap()).unwrap();
    let mut w = stacks_rs::wallet::StacksWallet::from_secret_key(m.to_string()).map_err(|e| format!("wallet refused {m}: {e}"))?;
    let mut hist = vec![];
    let pool: Vec<u32> = (0..3).map(|_| match r.n(4) { 0 => r.n(10) as u32, 1 => r.int(31) as u32, 2 => r.int(32) as u32, _ => *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX]) }).collect();
    for _ in 0..1 + r.n(10) {
        let i = if r.one(3) { r.n(20) as u32 } else { *r.pick(&pool) };
        hist.push(i);
        let inp = format!("mnemonic {m} requests {hist:?}");
        let child = root.derive_child(bip32::ChildNumber(i)).ok();
        let got = w.get_account(i).ok();
        eq("account exists", &inp, got.is_some(), child.is_some())?;
        if let (Some(g), Some(c)) = (got, child) {
            eq("private key", &inp, g.private_key().ok().map(|k| x(&k.secret_bytes())), Some(x(&c.private_key().to_bytes())))?;
            eq("public key", &inp, g.public_key().ok().map(|k| x(&k.serialize())), Some(x(&c.public_key().to_bytes())))?;
            for (v, n) in [(stacks_rs::crypto::c32::Version::MainnetP2PKH, 22), (stacks_rs::crypto::c32::Version::MainnetP2SH, 20), (stacks_rs::crypto::c32::Version::TestnetP2PKH, 26), (stacks_rs::crypto::c32::Version::TestnetP2SH, 21)] {
                eq("address", &(&inp, n), g.get_address(v).ok(), refs::addr_enc(&refs::p2pkh(&c.public_key().to_bytes()), n))?; }
        }
        eq("root key", &inp, w.private_key().ok().map(|k| x(&k.secret_bytes())), Some(x(&root.private_key().to_bytes())))?;
        eq("root public key", &inp, w.public_key().ok().map(|k| x(&k.serialize())), Some(x(&root.public_key().to_bytes())))?;
    }
    Ok(())
}
pub fn c18(r: &mut Rng) -> R {
    let mut pool: Vec<String> = vec!["a".into(), "b".into(), "".into(), "A".into(), "ab".into(), "key".into()];
    for _ in 0..3 { let s = r.text(); if !pool.contains(&s) { pool.push(s); } }
    let mut m: Vec<(String, V)> = vec![];
    for _ in 0..r.n(5) { let k = r.pick(&pool).clone(); if !m.iter().any(|(q, _)| *q == k) { let v = value(r, 1, true); m.push((k, v)); } }
    let mut t = Tuple::new(m.iter().map(|(k, v)| (k.clone(), real(v))).collect());
    let mut hist = vec![format!("{m:?}")];
    for _ in 0..1 + r.n(10) {
        let k = r.pick(&pool).clone(); let pos = m.iter().position(|(q, _)| *q == k);
        match r.n(4) {
            0 | 1 => { let v = value(r, 1, true); hist.push(format!("insert({k:?}, {v:?})")); with_value!(&v, |x| t.insert(k.clone(), x)); match pos { Some(i) => m[i].1 = v, None => m.push((k, v)) } }
            2 => { hist.push(format!("remove({k:?})")); let g = t.remove(k.as_str()).map(|v| view(&v)); let w = pos.map(|i| m.remove(i).1); eq("remove", &hist, g, w)?; }
            _ => { hist.push(format!("get_mut({k:?})")); let v = value(r, 0, true); match (t.get_mut(k.as_str()), pos) { (Some(p), Some(i)) => { eq("get_mut", &hist, view(p), m[i].1.clone())?; *p = real(&v); m[i].1 = v; } (None, None) => {} (g, _) => { let g = g.is_some(); return eq("get_mut finds the key", &hist, g, pos.is_some()); } } }
        }
        for k in &pool { eq("get", &(&hist, k), t.get(k).map(|v| view(&v)), m.iter().find(|(q, _)| q == k).map(|(_, v)| v.clone()))?; }
        eq("keys", &hist, t.keys().cloned().collect::<Vec<_>>(), m.iter().map(|(k, _)| k.clone()).collect())?;
        eq("values", &hist, t.values().map(view).collect::<Vec<_>>(), m.iter().map(|(_, v)| v.clone()).collect())?;
        eq("contents", &hist, t.value().iter().map(|(k, v)| (k.clone(), view(v))).collect::<Vec<_>>(), m.clone())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- values in and out
fn tag(v: &V) -> u8 { match v { V::Int(_) => 0, V::UInt(_) => 1, V::Buf(_) => 2, V::T => 3, V::F => 4, V::Std(_) => 5, V::Con(..) => 6, V::Ok(_) => 7, V::Err(_) => 8, V::None => 9, V::Some(_) => 10, V::List(_) => 11, V::Tup(_) => 12, V::Asc(_) => 13, V::Utf(_) => 14 } }
macro_rules! all_types { ($m:ident) => { $m!(0 => Int, 1 => UInt, 2 => Buffer, 3 => True, 4 => False, 5 => PrincipalStandard, 6 => PrincipalContract, 7 => ResponseOk, 8 => ResponseErr, 9 => OptionalNone, 10 => OptionalSome, 11 => List, 12 => Tuple, 13 => StringAscii, 14 => StringUtf8) } }
fn boxv<T: Clarity + 'static>(t: T) -> V { let b: Box<dyn Clarity> = Box::new(t); view(&b) }
fn bvs(l: Vec<Box<dyn Clarity>>) -> Vec<V> { l.iter().map(view).collect() }
/// casts of a boxed value to every type, by reference and by value
fn casts(v: &V) -> R {
    macro_rules! go { ($($t:expr => $ty:ident),*) => { $(
        let b = real(v); let want = if tag(v) == $t { Some(v.clone()) } else { None };
        eq(concat!("cast_as::<", stringify!($ty), ">"), v, b.cast_as::<$ty>().ok().map(|x| boxv(x.clone())), want.clone())?;
        eq(concat!("cast::<", stringify!($ty), ">"), v, b.cast::<$ty>().ok().map(boxv), want.clone())?;
        eq("ResponseOk::cast_as", v, ResponseOk::new(real(v)).cast_as::<$ty>().ok().map(|x| boxv(x.clone())), want.clone())?;
        eq("ResponseErr::cast_as", v, ResponseErr::new(real(v)).cast_as::<$ty>().ok().map(|x| boxv(x.clone())), want.clone())?;
        eq("OptionalSome::cast_as", v, OptionalSome::new(real(v)).cast_as::<$ty>().ok().map(|x| boxv(x.clone())), want.clone())?;
        eq("ResponseOk::cast", v, ResponseOk::new(real(v)).cast::<$ty>().ok().map(boxv), want.clone())?;
        eq("ResponseErr::cast", v, ResponseErr::new(real(v)).cast::<$ty>().ok().map(boxv), want.clone())?;
        eq("OptionalSome::cast", v, OptionalSome::new(real(v)).cast::<$ty>().ok().map(boxv), want)?;
    )* } }
    all_types!(go);
    Ok(())
}
fn bx<T: Clarity + 'static>(v: T) -> V { let b: Box<dyn Clarity> = Box::new(v); view(&b) }
fn macros(r: &mut Rng) -> R {
    use crate::samples::uses::*;
    let (i, u, d, s, t, w) = (r.int(128) as i128, r.int(128), r.bytes(), r.text(), r.text(), r.text());
    eq("clarity! of plain values", &(i, u, x(&d), &s, &t), vec![bx(m_int(i)), bx(m_uint(u)), bx(m_buffer(&d)), bx(m_true()), bx(m_false()), bx(m_none()), bx(m_standard(&s)), bx(m_contract(&s, &t)), bx(m_ascii(&s)), bx(m_utf8(&s)), V::Utf(m_name(&s).into_value())],
        vec![V::Int(i), V::UInt(u), V::Buf(d.clone()), V::T, V::F, V::None, V::Std(s.clone()), V::Con(s.clone(), t.clone()), V::Asc(s.clone()), V::Utf(s.clone()), V::Utf(s.clone())])?;
    let (vi, vu, vb) = (V::Int(i), V::UInt(u), V::Buf(d.clone()));
    let (t1, l1) = (V::Tup(vec![(s.clone(), vu.clone())]), V::List(vec![vi.clone()]));
    eq("clarity! of responses and options", &(i, u, &s), vec![bx(m_ok(Int::new(i))), bx(m_err(UInt::new(u))), bx(m_some(m_tuple1(&s, UInt::new(u))))], vec![V::Ok(Box::new(vi.clone())), V::Err(Box::new(vu.clone())), V::Some(Box::new(t1.clone()))])?;
    eq("clarity! of lists", &(i, x(&d)), vec![bx(m_list0()), bx(m_list1(Int::new(i))), bx(m_list3(Int::new(i), Buffer::new(d.clone()), m_list1(Int::new(i)))), bx(m_tuple0())], vec![V::List(vec![]), l1.clone(), V::List(vec![vi.clone(), vb.clone(), l1.clone()]), V::Tup(vec![])])?;
    eq("clarity! of tuples", &(&s, u, &t, &w), bx(m_tuple3(&s, UInt::new(u), &t, m_tuple1(&s, UInt::new(u)), &w, True::new())), V::Tup(vec![(s.clone(), vu.clone()), (t.clone(), t1), (w.clone(), V::T)]))?;
    eq("clarity! of arguments", &(i, x(&d)), vec![bvs(m_args0().into_value()), bvs(m_args1(Int::new(i)).into_value()), bvs(m_args3(Int::new(i), Buffer::new(d.clone()), m_list1(Int::new(i))).into_value())], vec![vec![], vec![vi.clone()], vec![vi, vb, l1]])
}
pub fn c21(r: &mut Rng) -> R {
    if r.one(8) { macros(r)?; }
    let v = dv(r, true);
    if refs::size(&v) < 400 { casts(&v)?; }
    let b = real(&v);
    eq("clone", &v, view(&b.clone()), v.clone())?;
    match &v {
        V::Int(i) => { eq("Int", i, (i128::from(Int::from(*i)), *Int::new(*i).value(), Int::from(*i).into_value()), (*i, *i, *i))?; }
        V::UInt(i) => { eq("UInt", i, (u128::from(UInt::from(*i)), *UInt::new(*i).value(), UInt::from(*i).into_value()), (*i, *i, *i))?; }
        V::Buf(d) => {
            eq("Buffer::value", &x(d), x(Buffer::new(d.clone()).value()), x(d))?; eq("Buffer::into_value", &x(d), x(&Buffer::from(d.clone()).into_value()), x(d))?;
            eq("Buffer::from slice", &x(d), x(&Vec::<u8>::from(Buffer::from(&d[..]))), x(d))?; eq("Buffer::into_iter", &x(d), x(&Buffer::new(d.clone()).into_iter().collect::<Vec<u8>>()), x(d))?;
        }
        V::T | V::F | V::None => {
            eq("True", &(), (*True::new().value(), True::new().into_value(), *True::default().value()), (true, true, true))?;
            eq("False", &(), (*False::new().value(), False::new().into_value(), *False::default().value()), (false, false, false))?;
            eq("OptionalNone", &(), (OptionalNone::new().into_value(), *OptionalNone::default().value()), (None, None))?;
            eq("decoded constants", &(), (*True::decode(&[3]).unwrap().value(), *False::decode(&[4]).unwrap().value(), *OptionalNone::decode(&[9]).unwrap().value()), (true, false, None))?;
        }
        V::Std(a) => { eq("PrincipalStandard", a, (PrincipalStandard::new(a.clone()).value().clone(), PrincipalStandard::from(a.as_str()).into_value(), String::from(PrincipalStandard::from(a.clone()))), (a.clone(), a.clone(), a.clone()))?; }
        V::Con(a, n) => { let w = (a.clone(), n.clone()); eq("PrincipalContract", &w, (PrincipalContract::new(w.clone()).value().clone(), PrincipalContract::from((a.as_str(), n.as_str())).into_value(), PrincipalContract::from(w.clone()).into_value()), (w.clone(), w.clone(), w.clone()))?; }
        V::Ok(i) | V::Err(i) | V::Some(i) => {
            eq("ResponseOk value", &v, (view(ResponseOk::new(real(i)).value()), view(&ResponseOk::new(real(i)).into_value())), ((**i).clone(), (**i).clone()))?;
            eq("ResponseErr value", &v, (view(ResponseErr::new(real(i)).value()), view(&ResponseErr::new(real(i)).into_value())), ((**i).clone(), (**i).clone()))?;
            eq("OptionalSome value", &v, (view(OptionalSome::new(real(i)).value()), view(&OptionalSome::new(real(i)).into_value())), ((**i).clone(), (**i).clone()))?;
        }
        V::List(l) => {
            let mk = || l.iter().map(real).collect::<Vec<_>>();
            eq("List::into_iter", &v, bvs(List::new(mk()).into_iter().collect()), l.clone())?; eq("List::into_value", &v, bvs(List::new(mk()).into_value()), l.clone())?;
            eq("FnArguments::into_iter", &v, bvs(FnArguments::new(mk()).into_iter().collect()), l.clone())?; eq("FnArguments::value", &v, FnArguments::new(mk()).value().iter().map(view).collect::<Vec<_>>(), l.clone())?; eq("FnArguments::into_value", &v, bvs(FnArguments::new(mk()).into_value()), l.clone())?;
            eq("FnArguments::clone", &v, bvs(FnArguments::new(mk()).clone().into_value()), l.clone())?;
        }
        V::Tup(l) => {
            let mk = || Tuple::new(l.iter().map(|(k, v)| (k.clone(), real(v))).collect());
            let un = |t: Vec<(String, Box<dyn Clarity>)>| t.into_iter().map(|(k, v)| (k, view(&v))).collect::<Vec<_>>();
            eq("Tuple::into_iter", &v, un(mk().into_iter().collect()), l.clone())?; eq("Tuple::into_value", &v, un(mk().into_value()), l.clone())?;
        }
        V::Asc(t) => { eq("StringAscii", t, (StringAscii::new(t.clone()).value().clone(), StringAscii::new(t.clone()).into_value()), (t.clone(), t.clone()))?; eq("StringUtf8", t, (StringUtf8::new(t.clone()).value().clone(), StringUtf8::new(t.clone()).into_value()), (t.clone(), t.clone()))?; }
        V::Utf(t) => { let n = LengthPrefixedStr::new(t.clone()); eq("LengthPrefixedStr", t, (n.value().clone(), n.clone().into_value(), LengthPrefixedStr::from(t.as_str()).into_value(), LengthPrefixedStr::from(t.clone()).into_value()), (t.clone(), t.clone(), t.clone(), t.clone()))?;
            let d: Box<dyn Clarity> = Box::new(n); eq("cast_as::<LengthPrefixedStr>", t, (d.cast_as::<LengthPrefixedStr>().ok().map(|x| x.value().clone()), d.cast_as::<StringUtf8>().is_ok(), d.cast_as::<FnArguments>().is_ok()), (Some(t.clone()), false, false))?; }
    }
    Ok(())
}
/// equality of two values of one type, on the concrete types
fn same(a: &Box<dyn Clarity>, b: &Box<dyn Clarity>) -> Option<bool> {
    macro_rules! t { ($($t:ident),*) => { $(if let (Ok(p), Ok(q)) = (a.cast_as::<$t>(), b.cast_as::<$t>()) { let e = p == q; if e == (p != q) { panic!("== and != agree"); } return Some(e); })* } }
    t!(Int, UInt, Buffer, True, False, PrincipalStandard, PrincipalContract, ResponseOk, ResponseErr, OptionalSome, OptionalNone, List, Tuple, StringAscii, StringUtf8, LengthPrefixedStr, FnArguments);
    None
}
/// another value whose text is close to that of the first
fn alter(r: &mut Rng, v: &V) -> V {
    match v {
        V::Int(i) => match r.n(4) { 0 => V::Int(i.wrapping_add(1)), 1 => V::Int(i.wrapping_neg()), 2 => V::UInt(*i as u128), _ => V::Int(i ^ (1 << r.n(127))) },
        V::UInt(i) => match r.n(3) { 0 => V::UInt(i.wrapping_add(1)), 1 => V::Int(*i as i128), _ => V::UInt(i ^ (1 << r.n(128))) },
        V::Buf(b) => { let mut b = b.clone(); match r.n(3) { 0 => b.push(0), 1 if !b.is_empty() => { let i = r.n(b.len()); b[i] ^= 1 << r.n(8); } _ => { b.pop(); } } V::Buf(b) }
        V::T => V::F, V::F => V::T, V::None => V::Some(Box::new(V::None)),
        V::Std(a) => V::Std(if r.one(2) { mutate_text(r, a) } else { a.to_ascii_lowercase() }),
        V::Con(a, n) => if r.one(2) { V::Con(a.clone(), mutate_text(r, n)) } else if let Some((p, q)) = n.split_once('.') { V::Con(format!("{a}.{p}"), q.into()) } else { V::Con(mutate_text(r, a), n.clone()) },
        V::Ok(x) => match r.n(3) { 0 => V::Err(x.clone()), _ => V::Ok(Box::new(alter(r, x))) },
        V::Err(x) => match r.n(3) { 0 => V::Ok(x.clone()), _ => V::Err(Box::new(alter(r, x))) },
        V::Some(x) => match r.n(3) { 0 => V::Ok(x.clone()), _ => V::Some(Box::new(alter(r, x))) },
        V::List(l) => { let mut l = l.clone(); match r.n(4) { 0 if l.len() > 1 => { let i = r.n(l.len() - 1); l.swap(i, i + 1); } 1 if !l.is_empty() => { let i = r.n(l.len()); l[i] = alter(r, &l[i].clone()); } 2 if !l.is_empty() => { l.pop(); } _ => { let n = l.len().min(2); l = regroup(r, l, n); } } V::List(l) }
        V::Tup(l) => { let mut l = l.clone(); match r.n(4) { 0 if l.len() > 1 => { let i = r.n(l.len() - 1); l.swap(i, i + 1); } 1 if !l.is_empty() => { let i = r.n(l.len()); l[i].1 = alter(r, &l[i].1.clone()); } 2 if !l.is_empty() => { let i = r.n(l.len()); l[i].0 = mutate_text(r, &l[i].0.clone()); } _ => { l.pop(); } } V::Tup(l) }
        V::Asc(s) => match r.n(3) { 0 => V::Utf(s.clone()), _ => V::Asc(mutate_text(r, s)) },
        V::Utf(s) => match r.n(3) { 0 => V::Asc(s.clone()), _ => V::Utf(mutate_text(r, s)) },
    }
}
/// two neighbouring strings joined into one with the same text
fn regroup(_r: &mut Rng, mut l: Vec<V>, n: usize) -> Vec<V> {
    if n < 2 { l.push(V::T); return l; }
    if let (V::Asc(a), V::Asc(b)) = (l[0].clone(), l[1].clone()) { l.remove(0); l[0] = V::Asc(format!("{a}\" \"{b}")); }
    l
}
pub fn c22(r: &mut Rng) -> R {
    let v = if r.one(10) { let n = 2 + r.n(3); V::List((0..n).map(|_| V::Asc(r.text())).collect()) } else { dv(r, true) };
    let b = real(&v);
    eq("Display", &v, b.to_string(), refs::show(&v))?;
    let mut w = if r.one(4) { v.clone() } else { alter(r, &v) };
    if r.one(3) { w = alter(r, &w.clone()); }
    let c = real(&w);
    if let Some(e) = same(&b, &c) { eq("==", &(&v, &w), e, refs::show(&v) == refs::show(&w) && refs::ser(&v) == refs::ser(&w))?; }
    match (&v, &w) {
        (V::List(l), V::List(m)) => {
            let f = |l: &[V]| FnArguments::new(l.iter().map(real).collect());
            let t = f(l).to_string(); eq("FnArguments Display", &v, t, format!("(fn-args {})", l.iter().map(refs::show).collect::<Vec<_>>().join(" ")))?;
            eq("FnArguments ==", &(&v, &w), f(l) == f(m), refs::show(&v) == refs::show(&w) && refs::args(l) == refs::args(m))?;
        }
        (V::Utf(a), V::Utf(c)) => { let (p, q) = (LengthPrefixedStr::new(a.clone()), LengthPrefixedStr::new(c.clone())); eq("LengthPrefixedStr Display", a, p.to_string(), a.clone())?; eq("LengthPrefixedStr ==", &(a, c), p == q, a == c)?; }
        _ => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C20: the RPC client against a loopback server
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
#[derive(Clone, Debug, Default)]
struct Seen { line: String, ctype: Vec<String>, body: Vec<u8> }
#[derive(Default)]
struct Srv { seen: Vec<Seen>, reply: Option<(u16, Vec<u8>)> }
static SRV: std::sync::OnceLock<(u16, Arc<Mutex<Srv>>)> = std::sync::OnceLock::new();
fn serve(mut s: std::net::TcpStream, m: &Mutex<Srv>) -> Option<()> {
    s.set_read_timeout(Some(std::time::Duration::from_secs(5))).ok()?;
    let mut b = vec![]; let mut t = [0u8; 65536];
    let h = loop { if let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") { break p; } let n = s.read(&mut t).ok()?; if n == 0 { return None; } b.extend(&t[..n]); };
    let head = String::from_utf8_lossy(&b[..h]).to_string(); let mut rest = b[h + 4..].to_vec();
    let mut seen = Seen { line: head.lines().next()?.to_string(), ..Default::default() };
    let (mut len, mut chunked) = (0usize, false);
    for l in head.lines().skip(1) { if let Some((k, v)) = l.split_once(':') { match k.trim().to_ascii_lowercase().as_str() { "content-type" => seen.ctype.push(v.trim().to_string()), "content-length" => len = v.trim().parse().ok()?, "transfer-encoding" => chunked = v.trim().eq_ignore_ascii_case("chunked"), _ => {} } } }
    if chunked {
        let mut body = vec![];
        loop {
            let p = loop { if let Some(p) = rest.windows(2).position(|w| w == b"\r\n") { break p; } let n = s.read(&mut t).ok()?; if n == 0 { return None; } rest.extend(&t[..n]); };
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..p]).ok()?.trim(), 16).ok()?;
            while rest.len() < p + 2 + n + 2 { let k = s.read(&mut t).ok()?; if k == 0 { return None; } rest.extend(&t[..k]); }
            body.extend(&rest[p + 2..p + 2 + n]); rest.drain(..p + 2 + n + 2);
            if n == 0 { break; }
        }
        seen.body = body;
    } else { while rest.len() < len { let k = s.read(&mut t).ok()?; if k == 0 { return None; } rest.extend(&t[..k]); } seen.body = rest[..len].to_vec(); }
    let reply = { let mut g = m.lock().unwrap(); g.seen.push(seen); g.reply.clone() };
    let (code, body) = reply?;
    write!(s, "HTTP/1.1 {code} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).ok()?;
    s.write_all(&body).ok()?; s.flush().ok()?;
    let _ = s.read(&mut t); // the client closes first
    Some(())
}
fn srv() -> &'static (u16, Arc<Mutex<Srv>>) {
    SRV.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); let p = l.local_addr().unwrap().port();
        let m = Arc::new(Mutex::new(Srv::default())); let m2 = m.clone();
        std::thread::spawn(move || for c in l.incoming() { if let Ok(c) = c { let m = m2.clone(); std::thread::spawn(move || { let _ = serve(c, &m); }); } });
        (p, m)
    })
}
fn pct(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
fn segment(r: &mut Rng) -> String { loop { let s: String = match r.n(5) { 0 => rand_addr(r), 1 => name_text(r, true), 2 => r.text().chars().take(60).collect(), 3 => r.pick(&["is-some?", "a/b", "<=", "+", "get-balance", "x?y=1", "a#b", "%41", "a b", "\u{e9}", "set!", "a&b", "~", "..a"]).to_string(), _ => { let n = r.n(9); (0..n).map(|_| *r.pick(b"abXZ09-_!?+<>=/*.~%#&:@ ;,'()[]") as char).collect() } }; if s != "." && s != ".." { return s; } } }
use serde_json::{json, Value as J};
fn jtext(r: &mut Rng) -> String { if r.one(3) { r.text().chars().take(40).collect() } else { format!("0x{}", r.n(1000)) } }
/// a reply body that mostly fits the wanted shape
fn shape(r: &mut Rng, k: usize) -> J {
    let s = |r: &mut Rng| J::from(jtext(r)); let u = |r: &mut Rng| J::from(r.int(64) as u64); let w = |r: &mut Rng| J::from(r.int(32) as u32);
    let mut v = match k {
        0 => json!({"peer_version": u(r), "pox_consensus": s(r), "burn_block_height": u(r), "stable_pox_consensus": s(r), "stable_burn_block_height": u(r), "server_version": s(r), "network_id": w(r), "parent_network_id": w(r), "stacks_tip_height": u(r), "stacks_tip": s(r), "stacks_tip_consensus_hash": s(r), "genesis_chainstate_hash": s(r)}),
        1 => json!({"balance": s(r), "locked": s(r), "unlock_height": u(r), "nonce": u(r), "balance_proof": s(r), "nonce_proof": s(r)}),
        2 => { let n = r.n(4); json!({"estimations": (0..n).map(|_| json!({"fee": u(r), "fee_rate": r.n(100000) as f64 / 8.0})).collect::<Vec<_>>()}) }
        3 => json!({"error": s(r), "reason": s(r), "txid": s(r)}),
        4 => json!({"okay": r.one(2), "result": s(r)}),
        _ => json!({"okay": r.one(2), "cause": s(r)}),
    };
    if r.one(4) {
        let o = v.as_object_mut().unwrap(); let ks: Vec<String> = o.keys().cloned().collect(); let key = r.pick(&ks).clone();
        match r.n(4) { 0 => { o.remove(&key); } 1 => { o.insert(key, J::Null); } 2 => { o.insert("more".into(), json!([1, "x"])); } _ => { o.insert(key, if r.one(2) { json!("text") } else { json!(u64::MAX) }); } }
    }
    v
}
fn body(r: &mut Rng, k: usize) -> Vec<u8> { match r.n(8) { 0 => jtext(r).into_bytes(), 1 => { let mut b = serde_json::to_vec(&shape(r, k)).unwrap(); let n = r.n(b.len()); b.truncate(n); b } 2 => { let k = r.n(6); serde_json::to_vec(&shape(r, k)).unwrap() } 3 => b"\"bad request\"".to_vec(), _ => serde_json::to_vec(&shape(r, k)).unwrap() } }
fn js(v: &J, k: &str) -> Option<String> { v.get(k)?.as_str().map(|s| s.to_string()) }
fn ju(v: &J, k: &str) -> Option<u64> { v.get(k)?.as_u64() }
fn jw(v: &J, k: &str) -> Option<u32> { v.get(k)?.as_u64()?.try_into().ok() }
/// the parsed reply of shape k, as text, by the documented field names
fn parsed(b: &[u8], k: usize) -> Option<String> {
    let v: J = serde_json::from_slice(b).ok()?; v.as_object()?;
    Some(match k {
        0 => format!("{:?}", (ju(&v, "peer_version")?, js(&v, "pox_consensus")?, ju(&v, "burn_block_height")?, js(&v, "stable_pox_consensus")?, ju(&v, "stable_burn_block_height")?, js(&v, "server_version")?, jw(&v, "network_id")?, jw(&v, "parent_network_id")?, ju(&v, "stacks_tip_height")?, js(&v, "stacks_tip")?, js(&v, "stacks_tip_consensus_hash")?, js(&v, "genesis_chainstate_hash")?)),
        1 => format!("{:?}", (js(&v, "balance")?, js(&v, "locked")?, ju(&v, "unlock_height")?, ju(&v, "nonce")?, js(&v, "balance_proof")?, js(&v, "nonce_proof")?)),
        2 => { let mut l = vec![]; for e in v.get("estimations")?.as_array()? { l.push((ju(e, "fee")?, e.get("fee_rate")?.as_f64()?)); } format!("{l:?}") }
        3 => format!("{:?}", (js(&v, "error")?, js(&v, "reason")?, js(&v, "txid")?)),
        _ => { let o = v.get("okay")?.as_bool()?; if let Some(t) = js(&v, "result") { format!("ok {o} {t}") } else { format!("err {o} {}", js(&v, "cause")?) } }
    })
}
pub fn c20(r: &mut Rng) -> R {
    use stacks_rs::rpc::*;
    let (port, m) = srv();
    let what = r.n(5);
    let shape_ok = match what { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => 4 + r.n(2) };
    let reply = if r.one(12) { None } else { let code = match r.n(3) { 0 | 1 if what != 3 || r.one(2) => 200, _ => *r.pick(&[400u16, 403, 404, 409, 429, 500, 502, 503]) }; Some((code, body(r, shape_ok))) };
    { let mut g = m.lock().unwrap(); g.seen.clear(); g.reply = reply.clone(); }
    let pre = r.pick(&["", "", "/api", "/x/y"]).to_string();
    let rpc = StacksRPC::new(format!("http://127.0.0.1:{port}{pre}"));
    let status = reply.as_ref().map(|x| x.0); let rb = reply.as_ref().map(|x| x.1.clone()).unwrap_or_default();
    let text = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    let seen = || m.lock().unwrap().seen.clone();
    let ok = status == Some(200);
    let one = |inp: &dyn std::fmt::Debug, line: String, ctype: Option<&str>| -> Result<Seen, String> {
        let s = seen();
        // a connection dropped without an answer may be tried again by the HTTP library
        if status.is_some() { eq("number of requests sent", inp, s.len(), 1)?; } else if s.is_empty() { return Err(format!("no request sent\n  input: {inp:?}")); }
        eq("request line", inp, s[0].line.clone(), line)?;
        if let Some(c) = ctype { eq("content type", inp, s[0].ctype.iter().map(|x| x.split(';').next().unwrap().trim().to_string()).collect::<Vec<_>>(), vec![c.to_string()])?; }
        Ok(s[0].clone())
    };
    let res = match what {
        0 => {
            let g = rpc.info().ok().map(|i| format!("{:?}", (i.peer_version, i.pox_consensus, i.burn_block_height, i.stable_pox_consensus, i.stable_burn_block_height, i.server_version, i.network_id, i.parent_network_id, i.stacks_tip_height, i.stacks_tip, i.stacks_tip_consensus_hash, i.genesis_chainstate_hash)));
            one(&"info", format!("GET {pre}/v2/info HTTP/1.1"), None)?;
            eq("info", &(&status, text(&rb)), g, if ok { parsed(&rb, 0) } else { None })
        }
        1 => {
            let a = segment(r);
            let g = rpc.address(a.as_str()).ok().map(|i| format!("{:?}", (i.balance, i.locked, i.unlock_height, i.nonce, i.balance_proof, i.nonce_proof)));
            one(&a, format!("GET {pre}/v2/accounts/{} HTTP/1.1", pct(&a)), None)?;
            eq("address", &(&status, text(&rb)), g, if ok { parsed(&rb, 1) } else { None })
        }
        2 | 3 => {
            let bad = r.one(6);
            let (mut t, okk, skk) = rtx(r, bad);
            match &mut t.auth { RA::Std(o) => fill(r, o), RA::Spo(o, s) => { fill(r, o); fill(r, s); } }
            let tx = rtx_real(&t, &okk, &skk);
            let w = rt_ser(&t);
            if what == 2 {
                let g = rpc.estimate_fee(&tx).ok().map(|e| match e { EstimateFeeResponse::Ok(f) => format!("ok {:?}", f.estimations.iter().map(|e| (e.fee, e.fee_rate)).collect::<Vec<_>>()), EstimateFeeResponse::Err(s) => format!("err {s}") });
                let Some(w) = w else { eq("requests sent for a transaction that cannot be encoded", &t, seen().len(), 0)?; return eq("estimate_fee of a transaction that cannot be encoded", &t, g, None); };
                let s = one(&t, format!("POST {pre}/v2/fees/transaction HTTP/1.1"), Some("application/json"))?;
                eq("fee request body", &t, serde_json::from_slice::<J>(&s.body).ok(), Some(json!({"transaction_payload": x(&pay_ser(&t.pay).unwrap()), "estimated_len": w.len()})))?;
                eq("estimate_fee", &(&status, text(&rb)), g, match status { Some(200) => parsed(&rb, 2).map(|p| format!("ok {p}")), Some(_) => Some(format!("err {}", text(&rb))), None => None })
            } else {
                let e = rpc.broadcast(&tx).ok();
                let shown = e.as_ref().map(|e| e.to_string());
                let g = e.map(|e| match e { BroadcastResponse::Ok(s) => format!("ok {s}"), BroadcastResponse::Err(e) => format!("err {:?}", (e.error, e.reason, e.txid)) });
                let Some(w) = w else { eq("requests sent for a transaction that cannot be encoded", &t, seen().len(), 0)?; return eq("broadcast of a transaction that cannot be encoded", &t, g, None); };
                let s = one(&t, format!("POST {pre}/v2/transactions HTTP/1.1"), Some("application/octet-stream"))?;
                eq("broadcast body", &t, x(&s.body), x(&w))?;
                eq("broadcast", &(&status, text(&rb)), g, match status { Some(200) => Some(format!("ok {}", text(&rb))), Some(_) => parsed(&rb, 3).map(|p| format!("err {p}")), None => None })?;
                if let (Some(200), Some(sh)) = (status, &shown) { eq("Display of an answer", &text(&rb), sh.clone(), text(&rb))?; }
                if let (Some(c), Some(sh)) = (status, &shown) { if c != 200 { let v: J = serde_json::from_slice(&rb).unwrap(); eq("Display of a refusal", &text(&rb), sh.clone(), format!("message: {}, reason: {}", js(&v, "error").unwrap(), js(&v, "reason").unwrap()))?; } }
                Ok(())
            }
        }
        _ => {
            let (a, n, f, snd) = (segment(r), segment(r), segment(r), segment(r));
            let k = r.n(4); let bad = r.one(6);
            let vs: Vec<V> = (0..k).map(|_| dv(r, bad)).collect();
            let g = rpc.read_only(&a, &n, &f, FnArguments::new(vs.iter().map(real).collect()), &snd).ok().map(|e| match e { ReadOnlyResponse::Ok(o) => format!("ok {} {}", o.okay, o.result), ReadOnlyResponse::Err(e) => format!("err {} {}", e.okay, e.cause) });
            let hx: Option<Vec<String>> = vs.iter().map(|v| refs::ser(v).map(|b| x(&b))).collect();
            let Some(hx) = hx else { eq("requests sent for arguments that cannot be encoded", &vs, seen().len(), 0)?; return eq("read_only with arguments that cannot be encoded", &vs, g, None); };
            let s = one(&(&a, &n, &f), format!("POST {pre}/v2/contracts/call-read/{}/{}/{} HTTP/1.1", pct(&a), pct(&n), pct(&f)), Some("application/json"))?;
            eq("read_only body", &(&vs, &snd), serde_json::from_slice::<J>(&s.body).ok(), Some(json!({"sender": snd, "arguments": hx})))?;
            eq("read_only", &(&status, text(&rb)), g, if ok { parsed(&rb, 4) } else { None })
        }
    };
    std::thread::sleep(std::time::Duration::from_millis(2)); // keeps the number of connections per second low
    res
}

/// the kinds of field of C19: what the field receives from the tuple, written as text, or the key at fault
#[derive(Clone, Copy, Debug)]
enum K { I, U, B, T, Y, L, OI, OU, OT, KI, KU, N(&'static [(&'static str, K)]) }
type F = (&'static str, K);
fn good(r: &mut Rng, k: K) -> V {
    match k {
        K::I => V::Int(r.int(128) as i128), K::U => V::UInt(r.int(128)), K::B => if r.one(2) { V::T } else { V::F }, K::T => value(r, 1, true), K::Y => V::Buf(r.bytes()),
        K::L => { let n = r.n(5); V::List((0..n).map(|_| value(r, 0, true)).collect()) }
        K::OI => V::Some(Box::new(V::Int(r.int(128) as i128))), K::OU => V::Some(Box::new(V::UInt(r.int(128)))), K::OT => V::Some(Box::new(value(r, 1, true))),
        K::N(fs) => V::Tup(make(r, fs)),
        K::KI => V::Ok(Box::new(V::Int(r.int(128) as i128))), K::KU => V::Ok(Box::new(V::UInt(r.int(128)))),
    }
}
fn field(m: &[(String, V)], key: &str, k: K) -> Option<String> {
    let v = m.iter().find(|(q, _)| q == key).map(|(_, v)| v);
    Some(match (k, v) {
        (K::I, Some(V::Int(i))) => format!("{i:?}"), (K::U, Some(V::UInt(i))) => format!("{i:?}"), (K::B, Some(V::T)) => "true".into(), (K::B, Some(V::F)) => "false".into(),
        (K::T, Some(v)) => format!("{:?}", refs::show(v)), (K::Y, Some(V::Buf(b))) => format!("{b:?}"), (K::L, Some(V::List(l))) => format!("{:?}", l.iter().map(refs::show).collect::<Vec<_>>()),
        (K::OI, Some(v)) => format!("{:?}", match v { V::Some(b) => match **b { V::Int(i) => Some(i), _ => None }, _ => None }),
        (K::OU, Some(v)) => format!("{:?}", match v { V::Some(b) => match **b { V::UInt(i) => Some(i), _ => None }, _ => None }),
        (K::OT, v) => format!("{:?}", match v { Some(V::Some(b)) => Some(refs::show(b)), _ => None }),
        (K::N(fs), Some(V::Tup(m))) => format!("[{}]", fs.iter().map(|(k, t)| field(m, k, *t)).collect::<Option<Vec<_>>>()?.join(", ")),
        (K::KI, Some(V::Ok(b))) => match **b { V::Int(i) => format!("{i:?}"), _ => return None }, (K::KU, Some(V::Ok(b))) => match **b { V::UInt(i) => format!("{i:?}"), _ => return None },
        _ => return None,
    })
}
fn make(r: &mut Rng, fs: &[F]) -> Vec<(String, V)> {
    let mut m: Vec<(String, V)> = vec![];
    for (k, t) in fs { if !m.iter().any(|(q, _)| q == k) || r.one(2) { m.retain(|(q, _)| q != k); let v = good(r, *t); m.push((k.to_string(), v)); } }
    for _ in 0..r.n(3) { let k = r.text(); if !m.iter().any(|(q, _)| *q == k) { let v = value(r, 1, true); m.push((k, v)); } }
    for i in (1..m.len()).rev() { let j = r.n(i + 1); m.swap(i, j); }
    if r.one(2) && !m.is_empty() {
        let i = r.n(m.len());
        match r.n(5) { 0 => { m.remove(i); } 1 => m[i].1 = value(r, 1, true), 2 => { let j = r.n(m.len()); let v = m[j].1.clone(); m[i].1 = v; } 3 => { let v = m[i].1.clone(); m[i].1 = match r.n(3) { 0 => V::Some(Box::new(v)), 1 => V::Ok(Box::new(v)), _ => V::Err(Box::new(v)) }; } _ => { let v = m[i].1.clone(); m[i].1 = match v { V::Some(b) | V::Ok(b) | V::Err(b) => *b, V::Int(i) => V::UInt(i as u128), V::UInt(i) => V::Int(i as i128), V::T => V::F, V::List(l) => V::Tup(l.into_iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect()), _ => V::None }; } }
    }
    m
}
fn faulty(e: &stacks_rs::derive::Error, m: &[(String, V)], fs: &[F]) -> bool {
    use stacks_rs::derive::Error::*;
    let (k, missing) = match e { Extract(k, _) => (k, true), Cast(k, _, _) => (k, false), Match(k, _) => (k, false) };
    fs.iter().any(|(q, t)| field(m, q, *t).is_none() && match (t, m.iter().find(|(p, _)| p == q)) {
        (K::N(fs), Some((_, V::Tup(t)))) => faulty(e, t, fs),
        (_, v) => q == k && missing == v.is_none(),
    })
}
impl std::fmt::Debug for crate::samples::OneInt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{:?}]", self.a) } }
impl std::fmt::Debug for crate::samples::PlainInts { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{:?}, {:?}]", self.a, self.b) } }
impl std::fmt::Debug for crate::samples::Middle { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{:?}, {:?}]", self.b, self.a) } }
pub fn c19(r: &mut Rng) -> R {
    use crate::samples::*;
    fn tup(m: &[(String, V)]) -> Tuple { Tuple::new(m.iter().map(|(k, v)| (k.clone(), real(v))).collect()) }
    const ONE: &[F] = &[("some-int", K::I)]; const PLAIN: &[F] = &[("x", K::I), ("y", K::U)]; const MIDDLE: &[F] = &[("y", K::N(PLAIN)), ("x", K::N(PLAIN))];
    macro_rules! t { ($ty:ident, [$($k:literal $kind:ident $(($sub:ident))? . $f:ident),*]) => {{
        let fs: &[F] = &[$(($k, K::$kind $(($sub))?)),*];
        let m = make(r, fs);
        let want: Option<Vec<String>> = fs.iter().map(|(k, t)| field(&m, k, *t)).collect();
        match ($ty::try_from(tup(&m)), want) {
            (Ok(s), w) => eq(stringify!($ty), &m, Some(vec![$(format!("{:?}", s.$f)),*]), w),
            (Err(e), None) => eq(concat!(stringify!($ty), ": the error names the field at fault"), &(&m, format!("{e:?}")), faulty(&e, &m, fs), true),
            (Err(e), Some(_)) => Err(format!("{} refused: {e:?}\ninput: {m:?}", stringify!($ty))),
        }
    }} }
    match r.n(20) {
        0 => t!(OneInt, ["some-int" I.a]), 1 => t!(OneUInt, ["some-uint" U.a]), 2 => t!(OneBool, ["flag" B.a]), 3 => t!(OneText, ["text" T.a]), 4 => t!(OneBytes, ["bytes" Y.a]), 5 => t!(OneList, ["list" L.a]),
        6 => t!(OneOptInt, ["opt-int" OI.a]), 7 => t!(OneOptUInt, ["opt-uint" OU.a]), 8 => t!(OneOptText, ["opt-text" OT.a]), 9 => t!(OneOkInt, ["ok-int" KI.a]), 10 => t!(OneOkUInt, ["ok-uint" KU.a]),
        11 => t!(PlainInts, ["x" I.a, "y" U.b]), 12 => t!(Swapped, ["b" I.a, "a" I.b, "d" Y.c, "c" OI.d]),
        13 | 14 => t!(Many, ["k1" I.f1, "k2" KU.f2, "k3" B.f3, "k4" T.f4, "k5" Y.f5, "k6" OU.f6, "k7" OT.f7, "k8" U.f8, "k9" KI.f9, "k10" OI.f10]),
        15 => t!(SharedKey, ["tokenId" T.r#type, "tokenId" U.a]),
        16 => t!(OddKeys, ["tokenId" U.a, "" I.b, "Schlüssel \"x\\y\" {}" Y.c, " lead_under-score!? " OU.d, "a-very-long-key-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789" B.e]),
        17 => t!(Mixed, ["k1" N(PLAIN).inner, "k2" OT.opt, "k3" L.texts, "k4" T.text, "k5" KI.ok, "k6" Y.bytes, "k7" KU.ok2, "k8" I.num, "k9" B.flag]),
        18 => t!(Deep, ["x" N(MIDDLE).a, "y" U.b]),
        _ => t!(Nested, ["inner" N(ONE).a, "other" N(PLAIN).b, "some-int" I.c]),
    }
}
