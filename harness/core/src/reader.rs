//! An instance of circom_reader's type parameters: a toy field whose elements are 32-byte strings (valid iff the top bit
//! of the last byte is clear) and a reader over a byte slice. The reader code is generic, so it cannot tell it from another.
use crate::circom_reader::{from_reader, load_r1cs_from_bin, R1CSFile, R1CS};
use ff::{Field, PrimeField};
use group::Group;
use rand_core::RngCore;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Df(pub [u8; 32]);
impl ConstantTimeEq for Df { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
impl ConditionallySelectable for Df { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl From<u64> for Df { fn from(_: u64) -> Self { unimplemented!() } }
macro_rules! ops { ($T:ty; $($tr:ident $f:ident $ta:ident $fa:ident),*) => { $(
    impl $tr<$T> for $T { type Output = $T; fn $f(self, _: $T) -> $T { unimplemented!() } }
    impl<'a> $tr<&'a $T> for $T { type Output = $T; fn $f(self, _: &'a $T) -> $T { unimplemented!() } }
    impl $ta<$T> for $T { fn $fa(&mut self, _: $T) { unimplemented!() } }
    impl<'a> $ta<&'a $T> for $T { fn $fa(&mut self, _: &'a $T) { unimplemented!() } } )* } }
ops!(Df; Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign);
impl Neg for Df { type Output = Df; fn neg(self) -> Df { unimplemented!() } }
impl Sum for Df { fn sum<I: Iterator<Item = Df>>(_: I) -> Df { unimplemented!() } }
impl<'a> Sum<&'a Df> for Df { fn sum<I: Iterator<Item = &'a Df>>(_: I) -> Df { unimplemented!() } }
impl Product for Df { fn product<I: Iterator<Item = Df>>(_: I) -> Df { unimplemented!() } }
impl<'a> Product<&'a Df> for Df { fn product<I: Iterator<Item = &'a Df>>(_: I) -> Df { unimplemented!() } }
impl Field for Df {
    fn random(_: impl RngCore) -> Self { unimplemented!() }
    fn zero() -> Self { Df([0; 32]) }
    fn one() -> Self { let mut b = [0; 32]; b[0] = 1; Df(b) }
    fn square(&self) -> Self { unimplemented!() }
    fn double(&self) -> Self { unimplemented!() }
    fn invert(&self) -> CtOption<Self> { unimplemented!() }
    fn sqrt(&self) -> CtOption<Self> { unimplemented!() }
}
impl PrimeField for Df {
    type Repr = [u8; 32];
    const NUM_BITS: u32 = 255; const CAPACITY: u32 = 254; const S: u32 = 0;
    fn from_repr(r: [u8; 32]) -> CtOption<Self> { CtOption::new(Df(r), Choice::from(1 - (r[31] >> 7))) }
    fn to_repr(&self) -> [u8; 32] { self.0 }
    fn is_odd(&self) -> Choice { unimplemented!() }
    fn multiplicative_generator() -> Self { unimplemented!() }
    fn root_of_unity() -> Self { unimplemented!() }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dg;
ops!(Dg; Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
impl Neg for Dg { type Output = Dg; fn neg(self) -> Dg { unimplemented!() } }
impl Sum for Dg { fn sum<I: Iterator<Item = Dg>>(_: I) -> Dg { unimplemented!() } }
impl<'a> Sum<&'a Dg> for Dg { fn sum<I: Iterator<Item = &'a Dg>>(_: I) -> Dg { unimplemented!() } }
impl Mul<Df> for Dg { type Output = Dg; fn mul(self, _: Df) -> Dg { unimplemented!() } }
impl<'a> Mul<&'a Df> for Dg { type Output = Dg; fn mul(self, _: &'a Df) -> Dg { unimplemented!() } }
impl MulAssign<Df> for Dg { fn mul_assign(&mut self, _: Df) { unimplemented!() } }
impl<'a> MulAssign<&'a Df> for Dg { fn mul_assign(&mut self, _: &'a Df) { unimplemented!() } }
impl Group for Dg {
    type Scalar = Df;
    fn random(_: impl RngCore) -> Self { unimplemented!() }
    fn identity() -> Self { unimplemented!() }
    fn generator() -> Self { unimplemented!() }
    fn is_identity(&self) -> Choice { unimplemented!() }
    fn double(&self) -> Self { unimplemented!() }
}
/// reads a slice; seeking past the end is allowed, before the start is an error (as files and cursors behave)
pub struct Rd<'a> { pub b: &'a [u8], pub pos: u64 }
impl<'a> Read for Rd<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < self.b.len() as u64 { buf[n] = self.b[self.pos as usize]; self.pos += 1; n += 1; }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let n = buf.len() as u64; let len = self.b.len() as u64;
        if self.pos > len || len - self.pos < n { self.pos = len; return Err(Error::from(ErrorKind::UnexpectedEof)); }
        let a = self.pos as usize;
        buf.copy_from_slice(&self.b[a..a + n as usize]);
        self.pos += n;
        Ok(())
    }
}
impl<'a> Seek for Rd<'a> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        let (base, d) = match s { SeekFrom::Start(n) => { self.pos = n; return Ok(n); } SeekFrom::End(d) => (self.b.len() as u64, d), SeekFrom::Current(d) => (self.pos, d) };
        match base.checked_add_signed(d) { Some(n) => { self.pos = n; Ok(n) } None => Err(Error::from(ErrorKind::InvalidInput)) }
    }
}
pub fn parse(b: &[u8]) -> Result<R1CSFile<Df>> { from_reader::<Dg, Rd>(Rd { b, pos: 0 }) }
pub fn load(b: &[u8]) -> (R1CS<Df>, Vec<usize>) { load_r1cs_from_bin::<Dg, Rd>(Rd { b, pos: 0 }) }

fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn show_cons(cs: &[(Vec<(usize, Df)>, Vec<(usize, Df)>, Vec<(usize, Df)>)]) -> String {
    let v = |x: &Vec<(usize, Df)>| x.iter().map(|(i, f)| format!("{}:{}", i, hexs(&f.0))).collect::<Vec<_>>().join(",");
    cs.iter().map(|c| format!("[{}|{}|{}]", v(&c.0), v(&c.1), v(&c.2))).collect()
}
pub fn run(op: &str, a: &[&str]) -> Option<String> {
    let h = a.get(0).copied().unwrap_or("");
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    // through std's own readers, in the ways the loaders use them
    Some(match op {
        "parse" => match from_reader::<Dg, _>(std::io::BufReader::new(std::io::Cursor::new(b))) {
            Err(_) => "ERR".into(),
            Ok(f) => format!("v{} fs{} p{} w{} o{} i{} s{} l{} c{} {} map{:?}", f.version, f.header.field_size, hexs(&f.header.prime_size), f.header.n_wires, f.header.n_pub_out, f.header.n_pub_in, f.header.n_prv_in, f.header.n_labels, f.header.n_constraints, show_cons(&f.constraints), f.wire_mapping).replace(", ", ","),
        },
        "load" => { let (r, m) = load_r1cs_from_bin::<Dg, _>(std::io::Cursor::new(b)); format!("i{} a{} v{} {} map{:?}", r.num_inputs, r.num_aux, r.num_variables, show_cons(&r.constraints), m).replace(", ", ",") }
        "loadfile" => {
            let p = std::env::temp_dir().join(format!("rvc-{}.r1cs", std::process::id()));
            std::fs::write(&p, &b).unwrap();
            let q = p.clone();
            let r = std::panic::catch_unwind(move || crate::circom_reader::load_r1cs_from_bin_file::<Dg>(&q));
            std::fs::remove_file(&p).ok();
            match r { Ok((r, m)) => format!("i{} a{} v{} {} map{:?}", r.num_inputs, r.num_aux, r.num_variables, show_cons(&r.constraints), m).replace(", ", ","), Err(_) => "PANIC".into() }
        }
        _ => return None,
    })
}
