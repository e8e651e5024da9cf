//! A prime field small enough to hash every pair of elements of it.
use ff::{Field, PrimeField};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct T<const M: u64>(pub u64);
macro_rules! op { ($t:ident $f:ident $ta:ident $fa:ident $e:expr) => {
    impl<const M: u64> $t for T<M> { type Output = Self; fn $f(self, o: Self) -> Self { let g: fn(u64, u64, u64) -> u64 = $e; T(g(self.0, o.0, M)) } }
    impl<'a, const M: u64> $t<&'a T<M>> for T<M> { type Output = Self; fn $f(self, o: &'a Self) -> Self { $t::$f(self, *o) } }
    impl<const M: u64> $ta for T<M> { fn $fa(&mut self, o: Self) { *self = $t::$f(*self, o) } }
    impl<'a, const M: u64> $ta<&'a T<M>> for T<M> { fn $fa(&mut self, o: &'a Self) { *self = $t::$f(*self, *o) } } } }
op!(Add add AddAssign add_assign |a, b, m| (a + b) % m);
op!(Sub sub SubAssign sub_assign |a, b, m| (a + m - b) % m);
op!(Mul mul MulAssign mul_assign |a, b, m| a * b % m);
impl<const M: u64> Neg for T<M> { type Output = Self; fn neg(self) -> Self { T((M - self.0) % M) } }
impl<const M: u64> From<u64> for T<M> { fn from(x: u64) -> Self { T(x % M) } }
impl<const M: u64> ConstantTimeEq for T<M> { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
impl<const M: u64> ConditionallySelectable for T<M> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.into() { *b } else { *a } } }
impl<const M: u64> Field for T<M> {
    fn random(_: impl rand_core::RngCore) -> Self { unimplemented!() }
    fn zero() -> Self { T(0) }
    fn one() -> Self { T(1) }
    fn square(&self) -> Self { *self * *self }
    fn double(&self) -> Self { *self + *self }
    fn invert(&self) -> CtOption<Self> { CtOption::new((0..M).map(T).find(|x| x.0 * self.0 % M == 1).unwrap_or(T(0)), Choice::from((self.0 != 0) as u8)) }
    fn sqrt(&self) -> CtOption<Self> { let r = (0..M).map(T).find(|x| x.0 * x.0 % M == self.0); CtOption::new(r.unwrap_or(T(0)), Choice::from(r.is_some() as u8)) }
}
impl<const M: u64> PrimeField for T<M> {
    type Repr = [u8; 8];
    const NUM_BITS: u32 = 64 - M.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    const S: u32 = 1;
    fn from_repr(r: [u8; 8]) -> CtOption<Self> { let x = u64::from_le_bytes(r); CtOption::new(T(x % M), Choice::from((x < M) as u8)) }
    fn to_repr(&self) -> [u8; 8] { self.0.to_le_bytes() }
    fn is_odd(&self) -> Choice { Choice::from((self.0 & 1) as u8) }
    fn multiplicative_generator() -> Self { unimplemented!() }
    fn root_of_unity() -> Self { T(M - 1) }
}
