//! Field types with the interface of `pasta_curves::pallas::Base` and `jubjub::Base`, whose
//! elements are terms of the symbolic store.
use ark_ff::{Fp256, MontBackend, MontConfig};
pub use symcore::symf::SymF;

#[derive(MontConfig)]
#[modulus = "28948022309329048855892746252171976963363056481941560715954676764349967630337"]
#[generator = "5"]
pub struct PallasConfig;
pub type PallasP = Fp256<MontBackend<PallasConfig, 4>>;
#[derive(MontConfig)]
#[modulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
#[generator = "7"]
pub struct BlsConfig;
pub type BlsP = Fp256<MontBackend<BlsConfig, 4>>;

#[macro_export]
macro_rules! base {
    ($name:ident, $p:ty, $modulus:expr, $bits:expr, $s:expr, $gen:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $name(pub $crate::SymF<$p>);
        const _: () = {
            use $crate::__::ark_ff::{BigInteger, Field as AF, PrimeField as APF};
            use $crate::__::*;
            use $crate::SymF;
            use core::ops::*;
            impl core::fmt::Debug for $name {
                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                    write!(f, "{:?}", self.0)
                }
            }
            fn cc(x: SymF<$p>) -> $p {
                x.value()
            }
            impl $name {
                pub const fn zero() -> Self {
                    $name(SymF::C(<$p as AF>::ZERO))
                }
                pub const fn one() -> Self {
                    $name(SymF::C(<$p as AF>::ONE))
                }
                pub const ZERO: Self = Self::zero();
                pub const ONE: Self = Self::one();
                pub fn from_raw(v: [u64; 4]) -> Self {
                    let mut b = vec![];
                    for w in v {
                        b.extend(w.to_le_bytes());
                    }
                    $name(SymF::C(<$p as APF>::from_le_bytes_mod_order(&b)))
                }
                pub fn from_u512(v: [u64; 8]) -> Self {
                    let mut b = vec![];
                    for w in v {
                        b.extend(w.to_le_bytes());
                    }
                    $name(SymF::C(<$p as APF>::from_le_bytes_mod_order(&b)))
                }
                pub fn to_bytes(&self) -> [u8; 32] {
                    let v = cc(self.0).into_bigint().to_bytes_le();
                    let mut r = [0u8; 32];
                    r.copy_from_slice(&v[..32]);
                    r
                }
                pub fn from_bytes(b: &[u8; 32]) -> subtle::CtOption<Self> {
                    let v = <$p as APF>::from_le_bytes_mod_order(b);
                    let ok = v.into_bigint().to_bytes_le()[..32] == b[..];
                    subtle::CtOption::new($name(SymF::C(v)), subtle::Choice::from(ok as u8))
                }
                pub fn double(&self) -> Self {
                    $name(self.0 + self.0)
                }
                pub fn square(&self) -> Self {
                    $name(self.0 * self.0)
                }
                pub fn neg(&self) -> Self {
                    $name(-self.0)
                }
                pub fn add(&self, o: &Self) -> Self {
                    $name(self.0 + o.0)
                }
                pub fn sub(&self, o: &Self) -> Self {
                    $name(self.0 - o.0)
                }
                pub fn mul(&self, o: &Self) -> Self {
                    $name(self.0 * o.0)
                }
                pub fn cube(&self) -> Self {
                    $name(self.0 * self.0 * self.0)
                }
                pub fn invert(&self) -> subtle::CtOption<Self> {
                    match AF::inverse(&self.0) {
                        Some(v) => subtle::CtOption::new($name(v), subtle::Choice::from(1)),
                        None => subtle::CtOption::new(Self::zero(), subtle::Choice::from(0)),
                    }
                }
                pub fn pow(&self, e: &[u64; 4]) -> Self {
                    $name(AF::pow(&self.0, e))
                }
                pub fn pow_vartime(&self, e: &[u64; 4]) -> Self {
                    $name(AF::pow(&self.0, e))
                }
                pub fn is_zero_vartime(&self) -> bool {
                    *self == Self::zero()
                }
            }
            macro_rules! ops {
                ($tr:ident, $f:ident, $ta:ident, $fa:ident, $op:tt) => {
                    impl $tr<$name> for $name {
                        type Output = $name;
                        fn $f(self, o: $name) -> $name { $name(self.0 $op o.0) }
                    }
                    impl<'a> $tr<&'a $name> for $name {
                        type Output = $name;
                        fn $f(self, o: &'a $name) -> $name { $name(self.0 $op o.0) }
                    }
                    impl<'a> $tr<$name> for &'a $name {
                        type Output = $name;
                        fn $f(self, o: $name) -> $name { $name(self.0 $op o.0) }
                    }
                    impl<'a, 'b> $tr<&'b $name> for &'a $name {
                        type Output = $name;
                        fn $f(self, o: &'b $name) -> $name { $name(self.0 $op o.0) }
                    }
                    impl $ta<$name> for $name {
                        fn $fa(&mut self, o: $name) { self.0 = self.0 $op o.0 }
                    }
                    impl<'a> $ta<&'a $name> for $name {
                        fn $fa(&mut self, o: &'a $name) { self.0 = self.0 $op o.0 }
                    }
                };
            }
            ops!(Add, add, AddAssign, add_assign, +);
            ops!(Sub, sub, SubAssign, sub_assign, -);
            ops!(Mul, mul, MulAssign, mul_assign, *);
            impl Neg for $name {
                type Output = $name;
                fn neg(self) -> $name {
                    $name(-self.0)
                }
            }
            impl<'a> Neg for &'a $name {
                type Output = $name;
                fn neg(self) -> $name {
                    $name(-self.0)
                }
            }
            impl<T: core::borrow::Borrow<$name>> core::iter::Sum<T> for $name {
                fn sum<I: Iterator<Item = T>>(i: I) -> Self {
                    i.fold(Self::zero(), |a, b| a + b.borrow())
                }
            }
            impl<T: core::borrow::Borrow<$name>> core::iter::Product<T> for $name {
                fn product<I: Iterator<Item = T>>(i: I) -> Self {
                    i.fold(Self::one(), |a, b| a * b.borrow())
                }
            }
            impl From<u64> for $name {
                fn from(v: u64) -> Self {
                    $name(SymF::C(<$p>::from(v)))
                }
            }
            impl From<bool> for $name {
                fn from(v: bool) -> Self {
                    $name(SymF::C(<$p>::from(v)))
                }
            }
            impl From<$name> for [u8; 32] {
                fn from(v: $name) -> [u8; 32] {
                    v.to_bytes()
                }
            }
            impl<'a> From<&'a $name> for [u8; 32] {
                fn from(v: &'a $name) -> [u8; 32] {
                    v.to_bytes()
                }
            }
            impl subtle::ConstantTimeEq for $name {
                fn ct_eq(&self, o: &Self) -> subtle::Choice {
                    subtle::Choice::from((self == o) as u8)
                }
            }
            impl subtle::ConditionallySelectable for $name {
                fn conditional_select(a: &Self, b: &Self, c: subtle::Choice) -> Self {
                    if bool::from(c) { *b } else { *a }
                }
            }
            impl ff::Field for $name {
                const ZERO: Self = Self::zero();
                const ONE: Self = Self::one();
                fn random(mut rng: impl rand_core::RngCore) -> Self {
                    let mut b = [0u8; 64];
                    rng.fill_bytes(&mut b);
                    $name(SymF::C(<$p as APF>::from_le_bytes_mod_order(&b)))
                }
                fn square(&self) -> Self {
                    $name(self.0 * self.0)
                }
                fn double(&self) -> Self {
                    $name(self.0 + self.0)
                }
                fn invert(&self) -> subtle::CtOption<Self> {
                    $name::invert(self)
                }
                fn sqrt_ratio(_a: &Self, _b: &Self) -> (subtle::Choice, Self) {
                    panic!("SYMX-LIMIT square root")
                }
            }
            impl ff::PrimeField for $name {
                type Repr = [u8; 32];
                fn from_repr(r: [u8; 32]) -> subtle::CtOption<Self> {
                    $name::from_bytes(&r)
                }
                fn to_repr(&self) -> [u8; 32] {
                    self.to_bytes()
                }
                fn is_odd(&self) -> subtle::Choice {
                    subtle::Choice::from(self.to_bytes()[0] & 1)
                }
                const MODULUS: &'static str = $modulus;
                const NUM_BITS: u32 = $bits;
                const CAPACITY: u32 = $bits - 1;
                const TWO_INV: Self = Self::one();
                const MULTIPLICATIVE_GENERATOR: Self = Self::one();
                const S: u32 = $s;
                const ROOT_OF_UNITY: Self = Self::one();
                const ROOT_OF_UNITY_INV: Self = Self::one();
                const DELTA: Self = Self::one();
            }
        };
    };
}
#[doc(hidden)]
pub mod __ {
    pub use ark_ff;
    pub use ff;
    pub use rand_core;
    pub use subtle;
}
