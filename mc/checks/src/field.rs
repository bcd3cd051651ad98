//! A small prime field with plain integer arithmetic; every operation is a scheduling point.
use ff::{Field, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, LegendreSymbol, SqrtField};
use rand::{Rand, Rng};
use std::fmt;

#[derive(Copy, Clone, PartialEq, Eq, Default, Debug, Hash)]
pub struct R64(pub [u64; 1]);

impl PartialOrd for R64 { fn partial_cmp(&self, o: &R64) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for R64 { fn cmp(&self, o: &R64) -> std::cmp::Ordering { self.0[0].cmp(&o.0[0]) } }
impl fmt::Display for R64 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "0x{:016x}", self.0[0]) } }
impl AsRef<[u64]> for R64 { fn as_ref(&self) -> &[u64] { &self.0 } }
impl AsMut<[u64]> for R64 { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl From<u64> for R64 { fn from(v: u64) -> R64 { R64([v]) } }
impl Rand for R64 { fn rand<R: Rng>(r: &mut R) -> R64 { R64([r.gen()]) } }
impl PrimeFieldRepr for R64 {
    fn sub_noborrow(&mut self, o: &Self) { self.0[0] = self.0[0].wrapping_sub(o.0[0]) }
    fn add_nocarry(&mut self, o: &Self) { self.0[0] = self.0[0].wrapping_add(o.0[0]) }
    fn num_bits(&self) -> u32 { 64 - self.0[0].leading_zeros() }
    fn is_zero(&self) -> bool { self.0[0] == 0 }
    fn is_odd(&self) -> bool { self.0[0] & 1 == 1 }
    fn is_even(&self) -> bool { self.0[0] & 1 == 0 }
    fn div2(&mut self) { self.0[0] >>= 1 }
    fn shr(&mut self, n: u32) { self.0[0] = if n >= 64 { 0 } else { self.0[0] >> n } }
    fn mul2(&mut self) { self.0[0] <<= 1 }
    fn shl(&mut self, n: u32) { self.0[0] = if n >= 64 { 0 } else { self.0[0] << n } }
}

#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct Fp<const P: u64, const G: u64>(u64);

pub type F17 = Fp<17, 3>;
pub type F97 = Fp<97, 5>;
pub type F193 = Fp<193, 5>;
pub type F257 = Fp<257, 3>;
pub type F12289 = Fp<12289, 11>;
pub type Bb = Fp<2013265921, 31>;
/// 29 * 2^57 + 1
pub type F62 = Fp<4179340454199820289, 3>;

const fn mulmod(a: u64, b: u64, p: u64) -> u64 { ((a as u128 * b as u128) % p as u128) as u64 }
const fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    while e > 0 { if e & 1 == 1 { r = mulmod(r, a, p) } a = mulmod(a, a, p); e >>= 1 }
    r
}

impl<const P: u64, const G: u64> Fp<P, G> {
    pub const ROOT: u64 = powmod(G, (P - 1) >> (P - 1).trailing_zeros(), P);
    pub fn new(v: u64) -> Self { Fp(v % P) }
    pub fn val(&self) -> u64 { self.0 }
}
impl<const P: u64, const G: u64> fmt::Debug for Fp<P, G> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64, const G: u64> fmt::Display for Fp<P, G> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64, const G: u64> Rand for Fp<P, G> { fn rand<R: Rng>(r: &mut R) -> Self { Fp(r.gen::<u64>() % P) } }
impl<const P: u64, const G: u64> From<Fp<P, G>> for R64 { fn from(f: Fp<P, G>) -> R64 { R64([f.0]) } }

#[inline(always)]
fn y() { mcrt::sched::field_point() }

impl<const P: u64, const G: u64> Field for Fp<P, G> {
    #[inline] fn zero() -> Self { Fp(0) }
    #[inline] fn one() -> Self { Fp(1) }
    #[inline] fn is_zero(&self) -> bool { self.0 == 0 }
    #[inline] fn square(&mut self) { y(); self.0 = mulmod(self.0, self.0, P) }
    #[inline] fn double(&mut self) { y(); let s = *self; self.add_assign(&s) }
    #[inline] fn negate(&mut self) { y(); if self.0 != 0 { self.0 = P - self.0 } }
    #[inline] fn add_assign(&mut self, o: &Self) { y(); let s = self.0 as u128 + o.0 as u128; self.0 = if s >= P as u128 { (s - P as u128) as u64 } else { s as u64 } }
    #[inline] fn sub_assign(&mut self, o: &Self) { y(); self.0 = if self.0 >= o.0 { self.0 - o.0 } else { self.0 + (P - o.0) } }
    #[inline] fn mul_assign(&mut self, o: &Self) { y(); self.0 = mulmod(self.0, o.0, P) }
    fn inverse(&self) -> Option<Self> { if self.0 == 0 { None } else { Some(Fp(powmod(self.0, P - 2, P))) } }
    fn frobenius_map(&mut self, _: usize) {}
}

impl<const P: u64, const G: u64> PrimeField for Fp<P, G> {
    type Repr = R64;
    fn from_repr(r: R64) -> Result<Self, PrimeFieldDecodingError> {
        if r.0[0] < P { Ok(Fp(r.0[0])) } else { Err(PrimeFieldDecodingError::NotInField(format!("{}", r))) }
    }
    fn from_raw_repr(r: R64) -> Result<Self, PrimeFieldDecodingError> { Self::from_repr(r) }
    fn into_repr(&self) -> R64 { R64([self.0]) }
    fn into_raw_repr(&self) -> R64 { R64([self.0]) }
    fn char() -> R64 { R64([P]) }
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    fn multiplicative_generator() -> Self { Fp(G) }
    const S: u32 = (P - 1).trailing_zeros();
    fn root_of_unity() -> Self { Fp(Self::ROOT) }
}

impl<const P: u64, const G: u64> SqrtField for Fp<P, G> {
    fn legendre(&self) -> LegendreSymbol {
        if self.0 == 0 { LegendreSymbol::Zero }
        else if powmod(self.0, (P - 1) / 2, P) == 1 { LegendreSymbol::QuadraticResidue }
        else { LegendreSymbol::QuadraticNonResidue }
    }
    fn sqrt(&self) -> Option<Self> { (0..P).map(Fp).find(|x| mulmod(x.0, x.0, P) == self.0) }
}
