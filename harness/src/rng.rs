//! Deterministic case generator: everything a case uses derives from (seed, case number).
/// The draws are kept on a tape, so that a case can be run again with one of them changed.
pub struct Rng { s: u64, pub dict: std::rc::Rc<Dict>, tape: Vec<u64>, at: usize }
/// Integers and texts that occur in the source under test, used as preferred values.
#[derive(Default)]
pub struct Dict { pub ints: Vec<u128>, pub texts: Vec<String> }
pub const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 31, 32, 33, 34, 35, 36, 40, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300];
pub const BIG: &[usize] = &[511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000];
impl Rng {
    pub fn new(seed: u64, case: u64, dict: std::rc::Rc<Dict>) -> Self {
        let mut r = Rng { s: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ case.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9abc_def1, dict, tape: vec![], at: 0 };
        r.fresh(); r.fresh();
        r
    }
    /// starts over with the same draws, some of them changed
    pub fn again(&mut self) {
        self.at = 0;
        let n = self.tape.len().min(4096);
        if n > 0 { for _ in 0..self.fresh() % 3 { let i = (self.fresh() % n as u64) as usize; let v = self.fresh(); self.tape[i] = v; } }
    }
    pub fn u64(&mut self) -> u64 {
        if self.at == self.tape.len() { let v = self.fresh(); self.tape.push(v); }
        self.at += 1;
        self.tape[self.at - 1]
    }
    pub fn fresh(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn one(&mut self, n: usize) -> bool { self.n(n) == 0 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.n(s.len()); &s[i] }
    pub fn byte(&mut self) -> u8 {
        match self.n(8) { 0 => 0, 1 => 0xff, 2 => *self.pick(&[1, 2, 0x7f, 0x80, 0x81, 0xfe, 0x10, 0x20, 10, 20, 22, 26, 21, 5, 58, 31, 32]), 3 => self.dint() as u8, _ => self.u64() as u8 }
    }
    pub fn dint(&mut self) -> u128 {
        let d = self.dict.clone();
        if d.ints.is_empty() { return self.u64() as u128; }
        let v = d.ints[self.n(d.ints.len())];
        match self.n(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v }
    }
    /// an integer below 2^bits, biased to boundaries
    pub fn int(&mut self, bits: u32) -> u128 {
        let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.n(10) {
            0 => 0, 1 => m, 2 => { let k = self.n(bits as usize); (1u128 << k).wrapping_sub(1) }
            3 => { let k = self.n(bits as usize); 1u128 << k }
            4 => { let k = self.n(bits as usize); (1u128 << k).wrapping_add(1) }
            5 => self.n(256) as u128,
            6 | 7 => self.dint(),
            8 => { let k = self.n(bits as usize / 8); (self.byte() as u128) << (8 * k) }
            _ => ((self.u64() as u128) << 64) | self.u64() as u128,
        };
        v & m
    }
    pub fn len(&mut self) -> usize {
        match self.n(20) {
            0..=9 => self.n(12),
            10..=15 => *self.pick(LENS),
            16 | 17 => { let d = self.dint(); if d < 70_000 { d as usize } else { self.n(40) } }
            18 => if self.one(12) { *self.pick(BIG) } else { self.n(300) },
            _ => self.n(400),
        }
    }
    pub fn small_len(&mut self) -> usize { match self.n(8) { 0 => 0, 1 => *self.pick(LENS), 2 => { let d = self.dint(); if d < 300 { d as usize } else { 3 } } _ => self.n(6) } }
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = match self.n(8) {
            0 => vec![0; n], 1 => vec![0xff; n], 2 => vec![self.byte(); n],
            3 => (0..n).map(|i| i as u8).collect(),
            4 => (0..n).map(|_| self.byte()).collect(),
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        };
        // leading and trailing zero runs
        if n > 0 && self.one(3) { let k = self.n(n + 1).min(if self.one(2) { 3 } else { n }); for x in v.iter_mut().take(k) { *x = 0; } }
        if n > 0 && self.one(6) { let k = self.n(n + 1); for x in v.iter_mut().rev().take(k) { *x = 0; } }
        if n > 0 && self.one(4) { let i = self.n(n); v[i] = self.byte(); }
        v
    }
    pub fn bytes(&mut self) -> Vec<u8> { let n = self.len(); self.bytes_n(n) }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { let v = self.bytes_n(N); let mut a = [0; N]; a.copy_from_slice(&v); a }
    pub fn ch(&mut self) -> char {
        match self.n(12) {
            0 => *self.pick(&['\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'é', '€', '😀', 'ß', '\u{131}', 'Ａ', '\u{17f}', '\u{212a}', '１']),
            1 => char::from_u32(self.u64() as u32 % 0x3000).unwrap_or('x'),
            2 => (self.u64() as u8 & 0x7f) as char,
            _ => *self.pick(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_!. ") as char,
        }
    }
    /// arbitrary text
    pub fn text(&mut self) -> String {
        if self.one(12) && !self.dict.texts.is_empty() { let d = self.dict.clone(); let i = self.n(d.texts.len()); return d.texts[i].clone(); }
        let n = self.small_len(); (0..n).map(|_| self.ch()).collect()
    }
    /// ASCII text of exactly n bytes
    pub fn ascii_n(&mut self, n: usize) -> String { (0..n).map(|_| if self.one(20) { (self.u64() as u8 & 0x7f) as char } else { *self.pick(b"abcdefghijklmnopqrstuvwxyz-0123456789ABCXYZ") as char }).collect() }
    /// a text of at most n bytes that may contain non-ASCII characters
    pub fn text_upto(&mut self, n: usize) -> String { let mut s = String::new(); let k = if self.one(3) { n } else { self.n(n + 1) }; loop { let c = self.ch(); if s.len() + c.len_utf8() > k { break; } s.push(c); } while s.len() < k && self.one(2) { s.push('a'); } s }
}
