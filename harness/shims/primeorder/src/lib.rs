//! Stand-in for the primeorder crate (a git dependency that is not in the offline cache):
//! affine and projective points of a prime-order short Weierstrass curve y^2 = x^3 + a*x + b.
pub use elliptic_curve;
pub use elliptic_curve::{Field, FieldBytes, PrimeCurve, PrimeField};
use core::borrow::Borrow;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use elliptic_curve::{
    generic_array::ArrayLength,
    group::{Curve as GCurve, Group},
    rand_core::RngCore,
    sec1::{self, EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint, UncompressedPointSize},
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
    zeroize::DefaultIsZeroes,
    AffineArithmetic, ProjectiveArithmetic, Scalar,
};

pub trait PrimeCurveParams:
    PrimeCurve + elliptic_curve::ScalarArithmetic + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>> + AffineArithmetic<AffinePoint = AffinePoint<Self>>
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}

#[derive(Clone, Copy, Debug)]
pub struct AffinePoint<C: PrimeCurveParams> { pub(crate) x: C::FieldElement, pub(crate) y: C::FieldElement, pub(crate) infinity: u8 }

impl<C: PrimeCurveParams> AffinePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };
    pub fn is_identity(&self) -> Choice { Choice::from(self.infinity) }
}
impl<C: PrimeCurveParams> Default for AffinePoint<C> { fn default() -> Self { Self::IDENTITY } }
impl<C: PrimeCurveParams> DefaultIsZeroes for AffinePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for AffinePoint<C> {
    fn eq(&self, o: &Self) -> bool { self.infinity == o.infinity && (self.infinity == 1 || (self.x == o.x && self.y == o.y)) }
}
impl<C: PrimeCurveParams> Eq for AffinePoint<C> {}
impl<C: PrimeCurveParams> ConstantTimeEq for AffinePoint<C> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl<C: PrimeCurveParams> ConditionallySelectable for AffinePoint<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } }
}
impl<C: PrimeCurveParams> Neg for AffinePoint<C> { type Output = Self; fn neg(self) -> Self { AffinePoint { x: self.x, y: -self.y, infinity: self.infinity } } }
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for AffinePoint<C> { type Output = ProjectivePoint<C>; fn mul(self, s: S) -> ProjectivePoint<C> { ProjectivePoint::from(self) * *s.borrow() } }

impl<C: PrimeCurveParams> elliptic_curve::AffineXCoordinate<C> for AffinePoint<C> { fn x(&self) -> FieldBytes<C> { self.x.to_repr() } }
impl<C: PrimeCurveParams> elliptic_curve::ops::LinearCombination for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> FromEncodedPoint<C> for AffinePoint<C>
where C::UInt: elliptic_curve::bigint::ArrayEncoding, elliptic_curve::FieldSize<C>: ModulusSize, CompressedPoint<C>: Copy {
    fn from_encoded_point(e: &EncodedPoint<C>) -> CtOption<Self> {
        match e.coordinates() {
            sec1::Coordinates::Identity => CtOption::new(Self::IDENTITY, 1.into()),
            sec1::Coordinates::Compact { .. } => CtOption::new(Self::IDENTITY, 0.into()),
            sec1::Coordinates::Compressed { x, y_is_odd } => Self::decompress_xy(x, Choice::from(y_is_odd as u8)),
            sec1::Coordinates::Uncompressed { x, y } => {
                let x = C::FieldElement::from_repr(x.clone()); let y = C::FieldElement::from_repr(y.clone());
                let ok: bool = (x.is_some() & y.is_some()).into();
                if !ok { return CtOption::new(Self::IDENTITY, 0.into()); }
                let (x, y) = (x.unwrap(), y.unwrap());
                let rhs = x * x * x + C::EQUATION_A * x + C::EQUATION_B;
                CtOption::new(AffinePoint { x, y, infinity: 0 }, Choice::from((y * y == rhs) as u8))
            }
        }
    }
}
pub type CompressedPoint<C> = elliptic_curve::generic_array::GenericArray<u8, sec1::CompressedPointSize<C>>;
impl<C: PrimeCurveParams> AffinePoint<C> {
    fn decompress_xy(xb: &FieldBytes<C>, odd: Choice) -> CtOption<Self> {
        C::FieldElement::from_repr(xb.clone()).and_then(|x| {
            let alpha = x * x * x + C::EQUATION_A * x + C::EQUATION_B;
            let beta = alpha.sqrt();
            beta.map(|b| { let y = if (b.is_odd().unwrap_u8() ^ odd.unwrap_u8()) == 1 { -b } else { b }; AffinePoint { x, y, infinity: 0 } })
        })
    }
}
impl<C: PrimeCurveParams> ToEncodedPoint<C> for AffinePoint<C>
where elliptic_curve::FieldSize<C>: ModulusSize, CompressedPoint<C>: Copy, <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if self.infinity == 1 { return EncodedPoint::<C>::identity(); }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct ProjectivePoint<C: PrimeCurveParams> { pub(crate) x: C::FieldElement, pub(crate) y: C::FieldElement, pub(crate) z: C::FieldElement }
impl<C: PrimeCurveParams> ProjectivePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ONE, z: C::ZERO };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, z: C::ONE };
    pub fn to_affine(&self) -> AffinePoint<C> {
        if self.z.is_zero().into() { return AffinePoint::IDENTITY; }
        let zi = self.z.invert().unwrap();
        AffinePoint { x: self.x * zi, y: self.y * zi, infinity: 0 }
    }
    fn dbl(&self) -> Self {
        if bool::from(self.z.is_zero()) || bool::from(self.y.is_zero()) { return Self::IDENTITY; }
        let w = C::EQUATION_A * self.z * self.z + self.x * self.x * C::FieldElement::from(3u64);
        let s = self.y * self.z; let b = self.x * self.y * s;
        let e8 = C::FieldElement::from(8u64); let h = w * w - b * e8; let two = C::FieldElement::from(2u64);
        let ys = self.y * s;
        ProjectivePoint { x: h * s * two, y: w * (b * C::FieldElement::from(4u64) - h) - ys * ys * e8, z: s * s * s * e8 }
    }
    fn plus(&self, o: &Self) -> Self {
        if self.z.is_zero().into() { return *o; }
        if o.z.is_zero().into() { return *self; }
        let (u1, u2) = (o.y * self.z, self.y * o.z); let (v1, v2) = (o.x * self.z, self.x * o.z);
        if v1 == v2 { return if u1 == u2 { self.dbl() } else { Self::IDENTITY }; }
        let (u, v, w) = (u1 - u2, v1 - v2, self.z * o.z);
        let (vv, vvv) = (v * v, v * v * v); let a = u * u * w - vvv - vv * v2 * C::FieldElement::from(2u64);
        ProjectivePoint { x: v * a, y: u * (vv * v2 - a) - vvv * u2, z: vvv * w }
    }
    fn times(&self, k: &Scalar<C>) -> Self {
        let r = k.to_repr(); let mut acc = Self::IDENTITY;
        for byte in r.as_ref().iter() { for i in (0..8).rev() { acc = acc.dbl(); if (byte >> i) & 1 == 1 { acc = acc.plus(self); } } }
        acc
    }
}
impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> { fn from(p: AffinePoint<C>) -> Self { if p.infinity == 1 { Self::IDENTITY } else { ProjectivePoint { x: p.x, y: p.y, z: C::ONE } } } }
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> { fn from(p: &AffinePoint<C>) -> Self { Self::from(*p) } }
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> { fn from(p: ProjectivePoint<C>) -> Self { p.to_affine() } }
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> { fn from(p: &ProjectivePoint<C>) -> Self { p.to_affine() } }
impl<C: PrimeCurveParams> Default for ProjectivePoint<C> { fn default() -> Self { Self::IDENTITY } }
impl<C: PrimeCurveParams> DefaultIsZeroes for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for ProjectivePoint<C> { fn eq(&self, o: &Self) -> bool { self.to_affine() == o.to_affine() } }
impl<C: PrimeCurveParams> Eq for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> ConstantTimeEq for ProjectivePoint<C> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl<C: PrimeCurveParams> ConditionallySelectable for ProjectivePoint<C> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl<C: PrimeCurveParams> Neg for ProjectivePoint<C> { type Output = Self; fn neg(self) -> Self { ProjectivePoint { x: self.x, y: -self.y, z: self.z } } }
macro_rules! ops { ($rhs:ty) => {
    impl<C: PrimeCurveParams> Add<$rhs> for ProjectivePoint<C> { type Output = Self; fn add(self, o: $rhs) -> Self { self.plus(&Self::from(o.clone())) } }
    impl<C: PrimeCurveParams> Sub<$rhs> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: $rhs) -> Self { self.plus(&-Self::from(o.clone())) } }
    impl<C: PrimeCurveParams> AddAssign<$rhs> for ProjectivePoint<C> { fn add_assign(&mut self, o: $rhs) { *self = *self + o } }
    impl<C: PrimeCurveParams> SubAssign<$rhs> for ProjectivePoint<C> { fn sub_assign(&mut self, o: $rhs) { *self = *self - o } }
} }
ops!(ProjectivePoint<C>); ops!(AffinePoint<C>);
macro_rules! ops_ref { ($t:ty) => {
    impl<C: PrimeCurveParams> Add<&$t> for ProjectivePoint<C> { type Output = Self; fn add(self, o: &$t) -> Self { self + *o } }
    impl<C: PrimeCurveParams> Sub<&$t> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: &$t) -> Self { self - *o } }
    impl<C: PrimeCurveParams> AddAssign<&$t> for ProjectivePoint<C> { fn add_assign(&mut self, o: &$t) { *self = *self + *o } }
    impl<C: PrimeCurveParams> SubAssign<&$t> for ProjectivePoint<C> { fn sub_assign(&mut self, o: &$t) { *self = *self - *o } }
} }
ops_ref!(ProjectivePoint<C>); ops_ref!(AffinePoint<C>);
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for ProjectivePoint<C> { type Output = Self; fn mul(self, s: S) -> Self { self.times(s.borrow()) } }
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> MulAssign<S> for ProjectivePoint<C> { fn mul_assign(&mut self, s: S) { *self = self.times(s.borrow()) } }
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::IDENTITY, |a, b| a + b) } }
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::IDENTITY, |a, b| a + *b) } }
impl<C: PrimeCurveParams> Group for ProjectivePoint<C> {
    type Scalar = Scalar<C>;
    fn random(mut rng: impl RngCore) -> Self { Self::GENERATOR * <Scalar<C> as Field>::random(&mut rng) }
    fn identity() -> Self { Self::IDENTITY }
    fn generator() -> Self { Self::GENERATOR }
    fn is_identity(&self) -> Choice { self.z.is_zero() }
    fn double(&self) -> Self { self.dbl() }
}
impl<C: PrimeCurveParams> GCurve for ProjectivePoint<C> { type AffineRepr = AffinePoint<C>; fn to_affine(&self) -> AffinePoint<C> { ProjectivePoint::to_affine(self) } }
