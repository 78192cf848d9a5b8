//! Stand-in for merlin 3 (not in the offline cache): STROBE-128 transcripts.

pub(crate) fn keccakf(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008];
    const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for r in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let mut last = a[1];
        for i in 0..24 { let t = a[PI[i]]; a[PI[i]] = last.rotate_left(RHO[i]); last = t; }
        for y in 0..5 { let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]]; for x in 0..5 { a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]); } }
        a[0] ^= RC[r];
    }
}

const R: u8 = 166; const FLAG_I: u8 = 1; const FLAG_A: u8 = 2; const FLAG_C: u8 = 4; const FLAG_M: u8 = 16; const FLAG_K: u8 = 32; const FLAG_T: u8 = 8;
#[derive(Clone)]
struct Strobe { st: [u8; 200], pos: u8, begin: u8, cur: u8 }
impl Strobe {
    fn new(label: &[u8]) -> Self {
        let mut st = [0u8; 200]; st[0..6].copy_from_slice(&[1, R + 2, 1, 0, 1, 96]); st[6..18].copy_from_slice(b"STROBEv1.0.2");
        let mut s = Strobe { st, pos: 0, begin: 0, cur: 0 }; s.f(); s.meta_ad(label, false); s
    }
    fn f(&mut self) {
        let mut a = [0u64; 25]; for i in 0..25 { let mut b = [0u8; 8]; b.copy_from_slice(&self.st[8 * i..8 * i + 8]); a[i] = u64::from_le_bytes(b); }
        keccakf(&mut a); for i in 0..25 { self.st[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()); }
    }
    fn run_f(&mut self) { self.st[self.pos as usize] ^= self.begin; self.st[self.pos as usize + 1] ^= 4; self.st[R as usize + 1] ^= 0x80; self.f(); self.pos = 0; self.begin = 0; }
    fn absorb(&mut self, d: &[u8]) { for b in d { self.st[self.pos as usize] ^= b; self.pos += 1; if self.pos == R { self.run_f(); } } }
    fn overwrite(&mut self, d: &[u8]) { for b in d { self.st[self.pos as usize] = *b; self.pos += 1; if self.pos == R { self.run_f(); } } }
    fn squeeze(&mut self, d: &mut [u8]) { for b in d { *b = self.st[self.pos as usize]; self.st[self.pos as usize] = 0; self.pos += 1; if self.pos == R { self.run_f(); } } }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more { assert_eq!(self.cur, flags); return; }
        let old = self.begin; self.begin = self.pos + 1; self.cur = flags; self.absorb(&[old, flags]);
        if flags & (FLAG_C | FLAG_K) != 0 && self.pos != 0 { self.run_f(); }
        let _ = FLAG_T;
    }
    fn meta_ad(&mut self, d: &[u8], more: bool) { self.begin_op(FLAG_M | FLAG_A, more); self.absorb(d) }
    fn ad(&mut self, d: &[u8], more: bool) { self.begin_op(FLAG_A, more); self.absorb(d) }
    fn prf(&mut self, d: &mut [u8], more: bool) { self.begin_op(FLAG_I | FLAG_A | FLAG_C, more); self.squeeze(d) }
    #[allow(dead_code)] fn key(&mut self, d: &[u8], more: bool) { self.begin_op(FLAG_A | FLAG_C, more); self.overwrite(d) }
}
// replay support: the challenges drawn on this thread since the last call
thread_local! { static CHALLENGES: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(vec![]); }
pub fn take_challenges() -> Vec<Vec<u8>> { CHALLENGES.with(|c| std::mem::take(&mut *c.borrow_mut())) }
#[derive(Clone)]
pub struct Transcript { strobe: Strobe }
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript { let mut t = Transcript { strobe: Strobe::new(b"Merlin v1.0") }; t.append_message(b"dom-sep", label); t }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) { let n = (message.len() as u32).to_le_bytes(); self.strobe.meta_ad(label, false); self.strobe.meta_ad(&n, true); self.strobe.ad(message, false); }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) { self.append_message(label, &x.to_le_bytes()) }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) { let n = (dest.len() as u32).to_le_bytes(); self.strobe.meta_ad(label, false); self.strobe.meta_ad(&n, true); self.strobe.prf(dest, false); CHALLENGES.with(|c| { let mut c = c.borrow_mut(); if c.len() < 100000 { c.push(dest.to_vec()) } }) }
}
#[test] fn vector() {
    let mut t = Transcript::new(b"test protocol"); t.append_message(b"some label", b"some data"); let mut b = [0u8; 32]; t.challenge_bytes(b"challenge", &mut b);
    assert_eq!(b.iter().map(|x| format!("{:02x}", x)).collect::<String>(), "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
}
