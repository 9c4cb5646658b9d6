//! Reference implementations written from the format definitions, independent of the code under test.
use ripemd::Digest;
pub fn sha256(b: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec() }
pub fn dsha(b: &[u8]) -> Vec<u8> { sha256(&sha256(b)) }
pub fn sha512_256(b: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA512_256, b).as_ref().to_vec() }
pub fn hash160(b: &[u8]) -> Vec<u8> { ripemd::Ripemd160::digest(sha256(b)).to_vec() }
/// digits (most significant first, no leading zeros) of the number with the given digits
fn convert(d: &[u32], from: u32, to: u32) -> Vec<u32> {
    let mut out: Vec<u32> = vec![]; // least significant first
    for &x in d { let mut c = x; for o in out.iter_mut() { c += *o * from; *o = c % to; c /= to; } while c > 0 { out.push(c % to); c /= to; } }
    out.reverse(); out
}
fn conv(d: &[u32], from: u32, to: u32) -> Vec<u32> { let z = d.iter().take_while(|x| **x == 0).count(); let mut r = vec![0; z]; r.extend(convert(&d[z..], from, to)); r }
const C32: &str = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
const B58: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn c32_enc(b: &[u8]) -> String { let d: Vec<u32> = b.iter().map(|x| *x as u32).collect(); conv(&d, 256, 32).iter().map(|x| C32.as_bytes()[*x as usize] as char).collect() }
pub fn c32_dec(s: &str) -> Option<Vec<u8>> {
    let mut d = vec![];
    for c in s.chars() { if !c.is_ascii() { return None; } let c = match c.to_ascii_uppercase() { 'O' => '0', 'I' | 'L' => '1', x => x }; d.push(C32.find(c)? as u32); }
    Some(conv(&d, 32, 256).iter().map(|x| *x as u8).collect())
}
pub fn c32check_enc(h: &[u8], v: u8) -> Option<String> { if v >= 32 { return None; } let mut c = vec![v]; c.extend(h); let k = dsha(&c); let mut d = h.to_vec(); d.extend(&k[..4]); Some(format!("{}{}", C32.as_bytes()[v as usize] as char, c32_enc(&d))) }
pub fn c32check_dec(s: &str) -> Option<(Vec<u8>, u8)> {
    if s.is_empty() || !s.is_ascii() { return None; }
    let v = c32_dec(&s[..1])?; let v = *v.first()?;
    let d = c32_dec(&s[1..])?; if d.len() < 4 { return None; }
    let (h, k) = d.split_at(d.len() - 4);
    let mut c = vec![v]; c.extend(h);
    if dsha(&c)[..4] != *k { return None; }
    Some((h.to_vec(), v))
}
pub const VERS: [u8; 4] = [22, 26, 20, 21];
pub fn addr_enc(h: &[u8], v: u8) -> Option<String> { if !VERS.contains(&v) { return None; } Some(format!("S{}", c32check_enc(h, v)?)) }
pub fn addr_dec(s: &str) -> Option<(Vec<u8>, u8)> { let t = s.strip_prefix('S')?; let (h, v) = c32check_dec(t)?; if h.len() != 20 || !VERS.contains(&v) { return None; } Some((h, v)) }
pub fn b58_enc(b: &[u8]) -> String { let d: Vec<u32> = b.iter().map(|x| *x as u32).collect(); conv(&d, 256, 58).iter().map(|x| B58.as_bytes()[*x as usize] as char).collect() }
pub fn b58_dec(s: &str) -> Option<Vec<u8>> { let mut d = vec![]; for c in s.chars() { d.push(B58.find(c)? as u32); } Some(conv(&d, 58, 256).iter().map(|x| *x as u8).collect()) }
pub fn b58c_enc(h: &[u8], v: u8) -> String { let mut c = vec![v]; c.extend(h); let k = dsha(&c); c.extend(&k[..4]); b58_enc(&c) }
pub fn b58c_dec(s: &str) -> Option<(Vec<u8>, u8)> { let d = b58_dec(s)?; if d.len() < 5 { return None; } let (p, k) = d.split_at(d.len() - 4); if dsha(p)[..4] != *k { return None; } Some((p[1..].to_vec(), p[0])) }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Option<Vec<u8>> { let c: Vec<char> = s.chars().collect(); if c.iter().any(|x| !x.is_ascii_hexdigit()) || c.len() % 2 != 0 { return None; } Some(c.chunks(2).map(|p| (p[0].to_digit(16).unwrap() * 16 + p[1].to_digit(16).unwrap()) as u8).collect()) }
pub fn script_multi(m: u8, keys: &[Vec<u8>]) -> Vec<u8> { let mut s = vec![80 + m]; for k in keys { s.push(33); s.extend(k); } s.push(80 + keys.len() as u8); s.push(174); s }
pub fn p2pkh(k: &[u8]) -> Vec<u8> { hash160(k) }
pub fn p2wpkh(k: &[u8]) -> Vec<u8> { let mut b = vec![0, 20]; b.extend(hash160(k)); hash160(&b) }
pub fn p2sh(m: u8, k: &[Vec<u8>]) -> Vec<u8> { hash160(&script_multi(m, k)) }
pub fn p2wsh(m: u8, k: &[Vec<u8>]) -> Vec<u8> { let mut b = vec![0, 32]; b.extend(sha256(&script_multi(m, k))); hash160(&b) }

/// Clarity values
#[derive(Debug, Clone, PartialEq)]
pub enum V { Int(i128), UInt(u128), Buf(Vec<u8>), T, F, Std(String), Con(String, String), Ok(Box<V>), Err(Box<V>), None, Some(Box<V>), List(Vec<V>), Tup(Vec<(String, V)>), Asc(String), Utf(String) }
pub fn name(s: &str) -> Option<Vec<u8>> { if s.len() > 128 { return None; } let mut b = vec![s.len() as u8]; b.extend(s.as_bytes()); Some(b) }
fn l4(n: usize) -> [u8; 4] { [(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8] }
pub fn be(v: u128, n: usize) -> Vec<u8> { (0..n).map(|i| (v >> (8 * (n - 1 - i))) as u8).collect() }
pub fn args(vs: &[V]) -> Option<Vec<u8>> { let mut b = l4(vs.len()).to_vec(); for v in vs { b.extend(ser(v)?); } Some(b) }
pub fn ser(v: &V) -> Option<Vec<u8>> {
    let mut b = vec![];
    match v {
        V::Int(i) => { b.push(0); b.extend(be(*i as u128, 16)); }
        V::UInt(i) => { b.push(1); b.extend(be(*i, 16)); }
        V::Buf(x) => { b.push(2); b.extend(l4(x.len())); b.extend(x); }
        V::T => b.push(3), V::F => b.push(4),
        V::Std(a) => { let (h, v) = addr_dec(a)?; b.push(5); b.push(v); b.extend(h); }
        V::Con(a, n) => { let (h, v) = addr_dec(a)?; b.push(6); b.push(v); b.extend(h); b.extend(name(n)?); }
        V::Ok(x) => { b.push(7); b.extend(ser(x)?); }
        V::Err(x) => { b.push(8); b.extend(ser(x)?); }
        V::None => b.push(9),
        V::Some(x) => { b.push(10); b.extend(ser(x)?); }
        V::List(x) => { b.push(11); b.extend(args(x)?); }
        V::Tup(x) => { b.push(12); b.extend(l4(x.len())); for (k, v) in x { b.extend(name(k)?); b.extend(ser(v)?); } }
        V::Asc(s) => { if !s.is_ascii() { return None; } b.push(13); b.extend(l4(s.len())); b.extend(s.as_bytes()); }
        V::Utf(s) => { b.push(14); b.extend(l4(s.len())); b.extend(s.as_bytes()); }
    }
    Some(b)
}
/// the value with every address in canonical spelling
pub fn canon(v: &V) -> V {
    let a = |s: &String| match addr_dec(s) { Some((h, v)) => addr_enc(&h, v).unwrap(), None => s.clone() };
    match v {
        V::Std(s) => V::Std(a(s)), V::Con(s, n) => V::Con(a(s), n.clone()), V::Ok(x) => V::Ok(Box::new(canon(x))), V::Err(x) => V::Err(Box::new(canon(x))), V::Some(x) => V::Some(Box::new(canon(x))),
        V::List(x) => V::List(x.iter().map(canon).collect()), V::Tup(x) => V::Tup(x.iter().map(|(k, v)| (k.clone(), canon(v))).collect()), x => x.clone(),
    }
}
pub fn get<'a>(b: &'a [u8], o: &mut usize, n: usize) -> Option<&'a [u8]> { let r = b.get(*o..o.checked_add(n)?)?; *o += n; Some(r) }
pub fn num(b: &[u8]) -> u128 { b.iter().fold(0, |a, x| (a << 8) | *x as u128) }
pub fn pname(b: &[u8], o: &mut usize) -> Option<String> { let n = get(b, o, 1)?[0] as usize; if n > 128 { return None; } String::from_utf8(get(b, o, n)?.to_vec()).ok() }
pub fn pargs(b: &[u8], o: &mut usize) -> Option<Vec<V>> { let n = num(get(b, o, 4)?); let mut r = vec![]; for _ in 0..n { r.push(parse(b, o)?); } Some(r) }
/// strict parser; None for anything that is not a well-formed encoding
pub fn parse(b: &[u8], o: &mut usize) -> Option<V> {
    Some(match get(b, o, 1)?[0] {
        0 => V::Int(num(get(b, o, 16)?) as i128), 1 => V::UInt(num(get(b, o, 16)?)),
        2 => { let n = num(get(b, o, 4)?) as usize; V::Buf(get(b, o, n)?.to_vec()) }
        3 => V::T, 4 => V::F,
        5 => { let v = get(b, o, 1)?[0]; V::Std(addr_enc(get(b, o, 20)?, v)?) }
        6 => { let v = get(b, o, 1)?[0]; let a = addr_enc(get(b, o, 20)?, v)?; V::Con(a, pname(b, o)?) }
        7 => V::Ok(Box::new(parse(b, o)?)), 8 => V::Err(Box::new(parse(b, o)?)), 9 => V::None, 10 => V::Some(Box::new(parse(b, o)?)),
        11 => V::List(pargs(b, o)?),
        12 => { let n = num(get(b, o, 4)?); let mut r = vec![]; for _ in 0..n { let k = pname(b, o)?; r.push((k, parse(b, o)?)); } V::Tup(r) }
        13 => { let n = num(get(b, o, 4)?) as usize; let s = String::from_utf8(get(b, o, n)?.to_vec()).ok()?; if !s.is_ascii() { return None; } V::Asc(s) }
        14 => { let n = num(get(b, o, 4)?) as usize; V::Utf(String::from_utf8(get(b, o, n)?.to_vec()).ok()?) }
        _ => return None,
    })
}

pub fn size(v: &V) -> usize { 1 + match v { V::Ok(x) | V::Err(x) | V::Some(x) => size(x), V::List(l) => l.iter().map(size).sum(), V::Tup(l) => l.iter().map(|(_, v)| size(v)).sum(), _ => 0 } }
/// the text of a value
pub fn show(v: &V) -> String {
    let l = |s: &[V]| s.iter().map(show).collect::<Vec<_>>().join(" ");
    match v {
        V::Int(i) => i.to_string(), V::UInt(i) => format!("u{i}"), V::Buf(b) => format!("0x{}", hex(b)), V::T => "true".into(), V::F => "false".into(), V::Std(a) => a.clone(), V::Con(a, n) => format!("{a}.{n}"),
        V::Ok(x) => format!("(ok {})", show(x)), V::Err(x) => format!("(err {})", show(x)), V::None => "none".into(), V::Some(x) => format!("(some {})", show(x)),
        V::List(s) => format!("(list {})", l(s)), V::Tup(s) => format!("(tuple {})", s.iter().map(|(k, v)| format!("({k} {})", show(v))).collect::<Vec<_>>().join(" ")), V::Asc(s) => format!("\"{s}\""), V::Utf(s) => format!("u\"{s}\""),
    }
}
