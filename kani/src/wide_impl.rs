// A stand-in for a prime field: integers modulo 2^(64 L).  Additions, multiplications and conversions
// are exact for every value below that, so what a decoder hands to the field can be read back.
// Code that asks for the size of the field is told the modulus of a shipped one.
use ark_ff::{BigInt, BigInteger, FftField, Field, LegendreSymbol, PrimeField, SqrtPrecomputation};
use ark_serialize::*;
use ark_std::rand::{distributions::Distribution, distributions::Standard, Rng};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct W(pub [u64; L]);
impl W {
    const fn small(v: u64) -> W {
        let mut r = [0; L];
        r[0] = v;
        W(r)
    }
    fn add_(a: W, b: W) -> W {
        let mut r = [0u64; L];
        let mut c = 0u128;
        for i in 0..L {
            let s = a.0[i] as u128 + b.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        W(r)
    }
    fn neg_(a: W) -> W {
        let mut r = a.0;
        for x in r.iter_mut() {
            *x = !*x;
        }
        W::add_(W(r), W::small(1))
    }
    fn sub_(a: W, b: W) -> W {
        W::add_(a, W::neg_(b))
    }
    fn mul_(a: W, b: W) -> W {
        let mut r = [0u64; L];
        for i in 0..L {
            let mut c = 0u128;
            if a.0[i] == 0 {
                continue;
            }
            for j in 0..L - i {
                let s = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = s as u64;
                c = s >> 64;
            }
        }
        W(r)
    }
    fn be(b: &[u8]) -> W {
        let mut r = [0u64; L];
        let n = b.len();
        let mut i = 0;
        while i < n {
            let k = n - 1 - i; // byte number k from the right is at index i
            if k < 8 * L {
                r[k / 8] |= (b[i] as u64) << (8 * (k % 8));
            }
            i += 1;
        }
        W(r)
    }
    fn le(b: &[u8]) -> W {
        let mut r = [0u64; L];
        let mut k = 0;
        while k < b.len() {
            if k < 8 * L {
                r[k / 8] |= (b[k] as u64) << (8 * (k % 8));
            }
            k += 1;
        }
        W(r)
    }
}
impl fmt::Display for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Zero for W {
    fn zero() -> Self {
        W::small(0)
    }
    fn is_zero(&self) -> bool {
        *self == W::small(0)
    }
}
impl One for W {
    fn one() -> Self {
        W::small(1)
    }
}
impl zeroize::Zeroize for W {
    fn zeroize(&mut self) {
        *self = W::small(0)
    }
}
impl Neg for W {
    type Output = Self;
    fn neg(self) -> Self {
        W::neg_(self)
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $im:expr) => {
        impl $tr<W> for W {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                $im(self, o)
            }
        }
        impl<'a> $tr<&'a W> for W {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                $im(self, *o)
            }
        }
        impl<'a> $tr<&'a mut W> for W {
            type Output = Self;
            fn $f(self, o: &'a mut Self) -> Self {
                $im(self, *o)
            }
        }
        impl $tra<W> for W {
            fn $fa(&mut self, o: Self) {
                *self = $im(*self, o)
            }
        }
        impl<'a> $tra<&'a W> for W {
            fn $fa(&mut self, o: &'a Self) {
                *self = $im(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut W> for W {
            fn $fa(&mut self, o: &'a mut Self) {
                *self = $im(*self, *o)
            }
        }
    };
}
fn none() -> W {
    unimplemented!("not an operation of the stand-in")
}
binop!(Add, add, AddAssign, add_assign, W::add_);
binop!(Sub, sub, SubAssign, sub_assign, W::sub_);
binop!(Mul, mul, MulAssign, mul_assign, W::mul_);
binop!(Div, div, DivAssign, div_assign, |_a, _b| none());
impl std::iter::Sum<W> for W {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(W::small(0), W::add_)
    }
}
impl<'a> std::iter::Sum<&'a W> for W {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(W::small(0), |a, b| W::add_(a, *b))
    }
}
impl std::iter::Product<W> for W {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(W::small(1), W::mul_)
    }
}
impl<'a> std::iter::Product<&'a W> for W {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(W::small(1), |a, b| W::mul_(a, *b))
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(impl From<$t> for W { fn from(v: $t) -> Self { W::small(v as u64) } })*};
}
from_int!(u64, u32, u16, u8, bool);
impl From<u128> for W {
    fn from(v: u128) -> Self {
        let mut r = [0; L];
        r[0] = v as u64;
        if L > 1 {
            r[L.min(2) - 1] = (v >> 64) as u64;
        }
        W(r)
    }
}
impl From<BigUint> for W {
    fn from(v: BigUint) -> Self {
        W::le(&v.to_bytes_le())
    }
}
impl From<W> for BigUint {
    fn from(v: W) -> BigUint {
        BigInt(v.0).into()
    }
}
impl From<BigInt<N>> for W {
    fn from(v: BigInt<N>) -> Self {
        let mut r = [0; L];
        r[..N].copy_from_slice(&v.0);
        W(r)
    }
}
impl From<W> for BigInt<N> {
    fn from(v: W) -> Self {
        let mut r = [0; N];
        r.copy_from_slice(&v.0[..N]);
        BigInt(r)
    }
}
impl std::str::FromStr for W {
    type Err = ();
    fn from_str(_s: &str) -> Result<Self, ()> {
        unimplemented!()
    }
}
impl Distribution<W> for Standard {
    fn sample<R: Rng + ?Sized>(&self, _rng: &mut R) -> W {
        W::small(1)
    }
}
impl Valid for W {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalSerialize for W {
    fn serialize_with_mode<Wr: Write>(&self, _w: Wr, _c: Compress) -> Result<(), SerializationError> {
        unimplemented!()
    }
    fn serialized_size(&self, _c: Compress) -> usize {
        8 * L
    }
}
impl CanonicalSerializeWithFlags for W {
    fn serialize_with_flags<Wr: Write, F: Flags>(&self, _w: Wr, _f: F) -> Result<(), SerializationError> {
        unimplemented!()
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        8 * L
    }
}
impl CanonicalDeserialize for W {
    fn deserialize_with_mode<R: Read>(_r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        unimplemented!()
    }
}
impl CanonicalDeserializeWithFlags for W {
    fn deserialize_with_flags<R: Read, F: Flags>(_r: R) -> Result<(Self, F), SerializationError> {
        unimplemented!()
    }
}
impl Field for W {
    type BasePrimeField = Self;
    type BasePrimeFieldIter = std::iter::Once<Self>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = W::small(0);
    const ONE: Self = W::small(1);
    fn characteristic() -> &'static [u64] {
        &[0, 0, 0, 0, 0]
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(_e: &[Self]) -> Option<Self> {
        unimplemented!()
    }
    fn from_base_prime_field(e: Self) -> Self {
        e
    }
    fn double(&self) -> Self {
        W::add_(*self, *self)
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = W::neg_(*self);
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(_b: &[u8]) -> Option<(Self, F)> {
        unimplemented!()
    }
    fn legendre(&self) -> LegendreSymbol {
        unimplemented!()
    }
    fn square(&self) -> Self {
        W::mul_(*self, *self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    // only reached with the constants of the constructor harnesses
    fn inverse(&self) -> Option<Self> {
        Some(W::small(1))
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        unimplemented!()
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {}
}
impl FftField for W {
    const GENERATOR: Self = W::small(3);
    const TWO_ADICITY: u32 = 0;
    const TWO_ADIC_ROOT_OF_UNITY: Self = W::small(1);
}
impl PrimeField for W {
    type BigInt = BigInt<N>;
    const MODULUS: BigInt<N> = BigInt(MODULUS);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<N> = BigInt(MODULUS);
    const MODULUS_BIT_SIZE: u32 = BITS;
    const TRACE: BigInt<N> = BigInt([1; N]);
    const TRACE_MINUS_ONE_DIV_TWO: BigInt<N> = BigInt([0; N]);
    fn from_bigint(r: BigInt<N>) -> Option<Self> {
        Some(r.into())
    }
    fn into_bigint(self) -> BigInt<N> {
        self.into()
    }
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        W::be(b)
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        W::le(b)
    }
}
#[allow(dead_code)]
fn _is_big<B: BigInteger>(_b: B) {}
