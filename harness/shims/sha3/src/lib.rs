//! Stand-in for sha3 0.8 (not in the offline cache): SHAKE256.

pub(crate) fn keccakf(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008];
    const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for r in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let mut last = a[1];
        for i in 0..24 { let t = a[PI[i]]; a[PI[i]] = last.rotate_left(RHO[i]); last = t; }
        for y in 0..5 { let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]]; for x in 0..5 { a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]); } }
        a[0] ^= RC[r];
    }
}

#[derive(Clone, Default)]
pub struct Shake256 { buf: Vec<u8> }
pub struct Sha3XofReader { st: [u64; 25], out: usize }
impl digest::Input for Shake256 { fn input<B: AsRef<[u8]>>(&mut self, d: B) { self.buf.extend_from_slice(d.as_ref()) } }
const RATE: usize = 136;
impl digest::ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(self) -> Sha3XofReader {
        let mut b = self.buf; b.push(0x1f); while b.len() % RATE != 0 { b.push(0); } let n = b.len(); b[n - 1] ^= 0x80;
        let mut st = [0u64; 25];
        for blk in b.chunks(RATE) { for i in 0..RATE / 8 { let mut w = [0u8; 8]; w.copy_from_slice(&blk[8 * i..8 * i + 8]); st[i] ^= u64::from_le_bytes(w); } keccakf(&mut st); }
        Sha3XofReader { st, out: 0 }
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        for x in d.iter_mut() { if self.out == RATE { keccakf(&mut self.st); self.out = 0; } *x = self.st[self.out / 8].to_le_bytes()[self.out % 8]; self.out += 1; }
        Ok(d.len())
    }
}
#[test] fn empty() {
    use digest::ExtendableOutput; use std::io::Read;
    let mut o = [0u8; 32]; Shake256::default().xof_result().read_exact(&mut o).unwrap();
    assert_eq!(o.iter().map(|x| format!("{:02x}", x)).collect::<String>(), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f");
}
