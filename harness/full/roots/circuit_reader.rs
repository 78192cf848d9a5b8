// Appended (as a module) to the mechanically derived copy of /repo/packages/circuit_reader/src/lib.rs.
use crate::circom_reader::{load_r1cs_from_bin, R1CS};
use secq256k1::{AffinePoint, Scalar};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
/// reads a slice; seeking past the end is allowed, before the start is an error (as files and cursors behave)
pub struct Rd<'a> { pub b: &'a [u8], pub pos: u64 }
impl<'a> Read for Rd<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < self.b.len() as u64 { buf[n] = self.b[self.pos as usize]; self.pos += 1; n += 1; }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len() as u64; let len = self.b.len() as u64;
        if self.pos > len || len - self.pos < n { self.pos = len; return Err(Error::from(ErrorKind::UnexpectedEof)); }
        let a = self.pos as usize;
        buf.copy_from_slice(&self.b[a..a + n as usize]);
        self.pos += n;
        Ok(())
    }
}
impl<'a> Seek for Rd<'a> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        let (base, d) = match s { SeekFrom::Start(n) => { self.pos = n; return Ok(n); } SeekFrom::End(d) => (self.b.len() as u64, d), SeekFrom::Current(d) => (self.pos, d) };
        match base.checked_add_signed(d) { Some(n) => { self.pos = n; Ok(n) } None => Err(Error::from(ErrorKind::InvalidInput)) }
    }
}
/// what reading a file amounts to, on its bytes
pub fn from_bytes(b: &[u8]) -> (R1CS<Scalar>, Vec<usize>) { load_r1cs_from_bin::<AffinePoint, Rd>(Rd { b, pos: 0 }) }
pub fn inst(p: std::path::PathBuf, n: usize) -> libspartan::Instance { crate::load_as_spartan_inst(p, n) }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn list(s: &str) -> Vec<[u8; 32]> { unhex(&s[1..]).chunks(32).map(|c| c.try_into().unwrap()).collect() }
pub fn load(file: &str, n: usize) -> Option<libspartan::Instance> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static K: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::temp_dir().join(format!("rvc-{}-{}.r1cs", std::process::id(), K.fetch_add(1, SeqCst)));
    std::fs::write(&p, unhex(file)).unwrap();
    let q = p.clone();
    let r = std::panic::catch_unwind(move || crate::load_as_spartan_inst(q, n));
    std::fs::remove_file(&p).ok();
    r.ok()
}
pub fn run(op: &str, a: &[&str]) -> Option<String> {
    Some(match op {
        // file, number of public signals, witness, public inputs
        "sat" => {
            let n: usize = a[1].parse().unwrap();
            let i = match load(a[0], n) { None => return Some("PANIC".into()), Some(i) => i };
            match (libspartan::VarsAssignment::new(&list(a[2])), libspartan::InputsAssignment::new(&list(a[3]))) {
                (Ok(v), Ok(x)) => match i.is_sat(&v, &x) { Ok(b) => if b { "1".into() } else { "0".into() }, Err(e) => format!("{:?}", e) },
                _ => "ASSIGN".into(),
            }
        }
        _ => return None,
    })
}
