//! `SymF<P>`: a prime field whose elements are either concrete elements of the real field `P`
//! or nodes of the symbolic store.  The real, generic code of zkhash is instantiated with it.
use crate::ctx::{self, limbs, Id, Node, Pred};
use ark_ff::{BigInteger, FftField, Field, LegendreSymbol, PrimeField, SqrtPrecomputation};
use ark_serialize::*;
use ark_std::rand::{distributions::Distribution, distributions::Standard, Rng};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, Copy)]
pub enum SymF<P: PrimeField> {
    C(P),
    S(Id),
}
use SymF::{C, S};

impl<P: PrimeField> SymF<P> {
    pub fn node(self) -> Id {
        match self {
            S(i) => i,
            C(c) => ctx::with::<P, _>(|x| x.const_node(c)),
        }
    }
    pub fn from_node(i: Id) -> Self {
        ctx::with::<P, _>(|x| match x.nodes[i as usize] {
            Node::Const(c) => C(x.consts[c as usize]),
            _ => S(i),
        })
    }
    /// The value on the concolic lane; the run is marked as having concretised this node.
    fn concretise(&self) -> P {
        match *self {
            C(c) => c,
            S(i) => ctx::with::<P, _>(|x| {
                if !x.concretised.contains(&i) {
                    x.concretised.push(i);
                }
                x.vals[i as usize][0]
            }),
        }
    }
    pub fn value(&self) -> P {
        self.concretise()
    }
    fn add_(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x + y),
            (S(i), C(c)) | (C(c), S(i)) => {
                if c.is_zero() {
                    return S(i);
                }
                ctx::with::<P, _>(|x| {
                    let k = x.constant_ix(c);
                    S(x.push(Node::AddC(i, k)))
                })
            }
            (S(i), S(j)) => {
                if i == j {
                    return Self::mul_(S(i), C(P::from(2u64)));
                }
                ctx::with::<P, _>(|x| S(x.push(Node::Add(i, j))))
            }
        }
    }
    fn sub_(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x - y),
            (S(_), C(c)) => Self::add_(a, C(-c)),
            (C(_), S(_)) => Self::add_(Self::neg_(b), a),
            (S(i), S(j)) => {
                if i == j {
                    return C(P::zero());
                }
                ctx::with::<P, _>(|x| S(x.push(Node::Sub(i, j))))
            }
        }
    }
    fn neg_(a: Self) -> Self {
        match a {
            C(x) => C(-x),
            S(_) => Self::mul_(a, C(-P::one())),
        }
    }
    fn mul_(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x * y),
            (S(i), C(c)) | (C(c), S(i)) => {
                if c.is_zero() {
                    return C(c);
                }
                if c.is_one() {
                    return S(i);
                }
                ctx::with::<P, _>(|x| {
                    let k = x.constant_ix(c);
                    S(x.push(Node::Scale(i, k)))
                })
            }
            (S(i), S(j)) => ctx::with::<P, _>(|x| S(x.push(Node::Mul(i, j)))),
        }
    }
    fn inv_(a: Self) -> Option<Self> {
        match a {
            C(x) => x.inverse().map(C),
            S(i) => {
                if ctx::with::<P, _>(|x| x.decide(Pred::IsZero(i))) {
                    None
                } else {
                    Some(ctx::with::<P, _>(|x| S(x.push(Node::Inv(i)))))
                }
            }
        }
    }
    fn is_zero_(&self) -> bool {
        match *self {
            C(c) => c.is_zero(),
            S(i) => ctx::with::<P, _>(|x| x.decide(Pred::IsZero(i))),
        }
    }
    fn lt_(a: Self, b: Self) -> bool {
        let (i, j) = (a.node(), b.node());
        ctx::with::<P, _>(|x| x.decide(Pred::Lt(i, j)))
    }
}

impl<P: PrimeField> PartialEq for SymF<P> {
    fn eq(&self, o: &Self) -> bool {
        match (*self, *o) {
            (C(a), C(b)) => a == b,
            (a, b) => Self::sub_(a, b).is_zero_(),
        }
    }
}
impl<P: PrimeField> Eq for SymF<P> {}
impl<P: PrimeField> PartialOrd for SymF<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: PrimeField> Ord for SymF<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        if let (C(a), C(b)) = (*self, *o) {
            return a.cmp(&b);
        }
        if self == o {
            std::cmp::Ordering::Equal
        } else if Self::lt_(*self, *o) {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Greater
        }
    }
}
// All elements hash alike, so hashed containers fall back on Eq, which is a recorded decision.
impl<P: PrimeField> std::hash::Hash for SymF<P> {
    fn hash<H: std::hash::Hasher>(&self, _h: &mut H) {}
}
impl<P: PrimeField> fmt::Debug for SymF<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            C(c) => write!(f, "{:?}", c),
            S(i) => {
                if ctx::with::<P, _>(|x| x.quiet_fmt) {
                    write!(f, "SymNode({})", i)
                } else {
                    write!(f, "{:?}", self.concretise())
                }
            }
        }
    }
}
impl<P: PrimeField> fmt::Display for SymF<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.concretise())
    }
}
impl<P: PrimeField> Default for SymF<P> {
    fn default() -> Self {
        C(P::zero())
    }
}
impl<P: PrimeField> Zero for SymF<P> {
    fn zero() -> Self {
        C(P::zero())
    }
    fn is_zero(&self) -> bool {
        self.is_zero_()
    }
}
impl<P: PrimeField> One for SymF<P> {
    fn one() -> Self {
        C(P::one())
    }
    fn is_one(&self) -> bool {
        *self == C(P::one())
    }
}
impl<P: PrimeField> zeroize::Zeroize for SymF<P> {
    fn zeroize(&mut self) {
        *self = C(P::zero())
    }
}
impl<P: PrimeField> Neg for SymF<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::neg_(self)
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $im:expr) => {
        impl<P: PrimeField> $tr<SymF<P>> for SymF<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                $im(self, o)
            }
        }
        impl<'a, P: PrimeField> $tr<&'a SymF<P>> for SymF<P> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                $im(self, *o)
            }
        }
        impl<'a, P: PrimeField> $tr<&'a mut SymF<P>> for SymF<P> {
            type Output = Self;
            fn $f(self, o: &'a mut Self) -> Self {
                $im(self, *o)
            }
        }
        impl<P: PrimeField> $tra<SymF<P>> for SymF<P> {
            fn $fa(&mut self, o: Self) {
                *self = $im(*self, o)
            }
        }
        impl<'a, P: PrimeField> $tra<&'a SymF<P>> for SymF<P> {
            fn $fa(&mut self, o: &'a Self) {
                *self = $im(*self, *o)
            }
        }
        impl<'a, P: PrimeField> $tra<&'a mut SymF<P>> for SymF<P> {
            fn $fa(&mut self, o: &'a mut Self) {
                *self = $im(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, SymF::add_);
binop!(Sub, sub, SubAssign, sub_assign, SymF::sub_);
binop!(Mul, mul, MulAssign, mul_assign, SymF::mul_);
binop!(Div, div, DivAssign, div_assign, |a: SymF<P>, b: SymF<P>| SymF::mul_(a, SymF::inv_(b).expect("division by zero")));

impl<P: PrimeField> std::iter::Sum<SymF<P>> for SymF<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(C(P::zero()), SymF::add_)
    }
}
impl<'a, P: PrimeField> std::iter::Sum<&'a SymF<P>> for SymF<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(C(P::zero()), |a, b| SymF::add_(a, *b))
    }
}
impl<P: PrimeField> std::iter::Product<SymF<P>> for SymF<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(C(P::one()), SymF::mul_)
    }
}
impl<'a, P: PrimeField> std::iter::Product<&'a SymF<P>> for SymF<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(C(P::one()), |a, b| SymF::mul_(a, *b))
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl<P: PrimeField> From<$t> for SymF<P> {
            fn from(v: $t) -> Self { C(P::from(v)) }
        }
    )*};
}
from_int!(u128, u64, u32, u16, u8, bool);
impl<P: PrimeField> From<BigUint> for SymF<P> {
    fn from(v: BigUint) -> Self {
        C(P::from(v))
    }
}
impl<P: PrimeField> From<SymF<P>> for BigUint {
    fn from(v: SymF<P>) -> BigUint {
        v.concretise().into()
    }
}
impl<P: PrimeField> FromStr for SymF<P> {
    type Err = P::Err;
    fn from_str(s: &str) -> Result<Self, P::Err> {
        P::from_str(s).map(C)
    }
}

/// `F::rand`: every draw is a fresh unconstrained variable (or the scripted value in a replay).
impl<P: PrimeField> Distribution<SymF<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymF<P> {
        let word = rng.next_u64();
        ctx::with::<P, _>(|x| {
            x.rng_words.push(word);
            let name = format!("rand[{}]", x.rand_count);
            x.rand_count += 1;
            if x.rand_count > 200_000 {
                panic!("SYMX-LIMIT: too many random draws");
            }
            if x.concrete || x.fix_draws {
                let v = match x.inputs.get(&name) {
                    Some(v) => v[0],
                    None => {
                        let v: P = ctx::rand_elem(&mut x.rng);
                        x.inputs.insert(name, [v; ctx::LANES]);
                        v
                    }
                };
                C(v)
            } else {
                S(x.var(&name))
            }
        })
    }
}

// ---- serialisation: concretises
impl<P: PrimeField> Valid for SymF<P> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<P: PrimeField> CanonicalSerialize for SymF<P> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.concretise().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        P::zero().serialized_size(c)
    }
}
impl<P: PrimeField> CanonicalSerializeWithFlags for SymF<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, f: F) -> Result<(), SerializationError> {
        self.concretise().serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        P::zero().serialized_size_with_flags::<F>()
    }
}
impl<P: PrimeField> CanonicalDeserialize for SymF<P> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        P::deserialize_with_mode(r, c, v).map(C)
    }
}
impl<P: PrimeField> CanonicalDeserializeWithFlags for SymF<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        P::deserialize_with_flags(r).map(|(a, f)| (C(a), f))
    }
}

impl<P: PrimeField> Field for SymF<P> {
    type BasePrimeField = Self;
    type BasePrimeFieldIter = std::iter::Once<Self>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = C(P::ZERO);
    const ONE: Self = C(P::ONE);
    fn characteristic() -> &'static [u64] {
        P::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[Self]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn from_base_prime_field(e: Self) -> Self {
        e
    }
    fn double(&self) -> Self {
        Self::add_(*self, *self)
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = Self::neg_(*self);
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(b: &[u8]) -> Option<(Self, F)> {
        P::from_random_bytes_with_flags(b).map(|(a, f)| (C(a), f))
    }
    fn legendre(&self) -> LegendreSymbol {
        self.concretise().legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        self.concretise().sqrt().map(C)
    }
    fn square(&self) -> Self {
        Self::mul_(*self, *self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        Self::inv_(*self)
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = Self::inv_(*self) {
            *self = i;
            Some(self)
        } else {
            None
        }
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {}
}
impl<P: PrimeField> FftField for SymF<P> {
    const GENERATOR: Self = C(P::GENERATOR);
    const TWO_ADICITY: u32 = P::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = C(P::TWO_ADIC_ROOT_OF_UNITY);
}
impl<P: PrimeField> PrimeField for SymF<P> {
    type BigInt = SBig<P>;
    const MODULUS: SBig<P> = SBig { v: P::MODULUS, src: None };
    const MODULUS_MINUS_ONE_DIV_TWO: SBig<P> = SBig { v: P::MODULUS_MINUS_ONE_DIV_TWO, src: None };
    const MODULUS_BIT_SIZE: u32 = P::MODULUS_BIT_SIZE;
    const TRACE: SBig<P> = SBig { v: P::TRACE, src: None };
    const TRACE_MINUS_ONE_DIV_TWO: SBig<P> = SBig { v: P::TRACE_MINUS_ONE_DIV_TWO, src: None };
    fn from_bigint(r: SBig<P>) -> Option<Self> {
        if let Some(i) = r.src {
            return Some(S(i));
        }
        P::from_bigint(r.v).map(C)
    }
    fn into_bigint(self) -> SBig<P> {
        match self {
            C(c) => SBig { v: c.into_bigint(), src: None },
            S(i) => SBig { v: ctx::with::<P, _>(|x| x.vals[i as usize][0]).into_bigint(), src: Some(i) },
        }
    }
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        C(P::from_be_bytes_mod_order(b))
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        C(P::from_le_bytes_mod_order(b))
    }
}

/// Canonical integer of a symbolic element: bit tests and comparisons are recorded decisions,
/// raw limb access concretises.
#[derive(Clone, Copy)]
pub struct SBig<P: PrimeField> {
    v: P::BigInt,
    src: Option<Id>,
}
impl<P: PrimeField> SBig<P> {
    fn conc(&self) -> P::BigInt {
        if let Some(i) = self.src {
            return S::<P>(i).concretise().into_bigint();
        }
        self.v
    }
    fn drop_src(&mut self) {
        self.v = self.conc();
        self.src = None;
    }
}
impl<P: PrimeField> From<SBig<P>> for SymF<P> {
    fn from(b: SBig<P>) -> Self {
        Self::from_bigint(b).unwrap()
    }
}
impl<P: PrimeField> From<SymF<P>> for SBig<P> {
    fn from(f: SymF<P>) -> Self {
        f.into_bigint()
    }
}
impl<P: PrimeField> fmt::Debug for SBig<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.conc())
    }
}
impl<P: PrimeField> fmt::Display for SBig<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.conc())
    }
}
impl<P: PrimeField> Default for SBig<P> {
    fn default() -> Self {
        SBig { v: Default::default(), src: None }
    }
}
impl<P: PrimeField> SBig<P> {
    fn as_f(&self) -> Option<SymF<P>> {
        match self.src {
            Some(i) => Some(S(i)),
            None => P::from_bigint(self.v).map(C),
        }
    }
}
impl<P: PrimeField> PartialEq for SBig<P> {
    fn eq(&self, o: &Self) -> bool {
        match (self.as_f(), o.as_f()) {
            (Some(a), Some(b)) => a == b,
            _ => self.src.is_none() && o.src.is_none() && self.v == o.v,
        }
    }
}
impl<P: PrimeField> Eq for SBig<P> {}
impl<P: PrimeField> PartialOrd for SBig<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: PrimeField> Ord for SBig<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        match (self.as_f(), o.as_f()) {
            (Some(a), Some(b)) => a.cmp(&b),
            (None, Some(_)) if o.src.is_some() => std::cmp::Ordering::Greater,
            (Some(_), None) if self.src.is_some() => std::cmp::Ordering::Less,
            _ => self.v.cmp(&o.v),
        }
    }
}
impl<P: PrimeField> zeroize::Zeroize for SBig<P> {
    fn zeroize(&mut self) {
        *self = Default::default()
    }
}
impl<P: PrimeField> AsRef<[u64]> for SBig<P> {
    fn as_ref(&self) -> &[u64] {
        if let Some(i) = self.src {
            S::<P>(i).concretise();
        }
        self.v.as_ref()
    }
}
impl<P: PrimeField> AsMut<[u64]> for SBig<P> {
    fn as_mut(&mut self) -> &mut [u64] {
        self.drop_src();
        self.v.as_mut()
    }
}
macro_rules! big_from {
    ($($t:ty),*) => {$(impl<P: PrimeField> From<$t> for SBig<P> { fn from(v: $t) -> Self { SBig { v: v.into(), src: None } } })*};
}
big_from!(u64, u32, u16, u8);
impl<P: PrimeField> TryFrom<BigUint> for SBig<P> {
    type Error = ();
    fn try_from(v: BigUint) -> Result<Self, ()> {
        P::BigInt::try_from(v).map(|v| SBig { v, src: None })
    }
}
impl<P: PrimeField> From<SBig<P>> for BigUint {
    fn from(v: SBig<P>) -> BigUint {
        v.conc().into()
    }
}
impl<P: PrimeField> Distribution<SBig<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SBig<P> {
        let f: SymF<P> = self.sample(rng);
        f.into_bigint()
    }
}
impl<P: PrimeField> Valid for SBig<P> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<P: PrimeField> CanonicalSerialize for SBig<P> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.conc().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.v.serialized_size(c)
    }
}
impl<P: PrimeField> CanonicalDeserialize for SBig<P> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        P::BigInt::deserialize_with_mode(r, c, v).map(|v| SBig { v, src: None })
    }
}
impl<P: PrimeField> BigInteger for SBig<P> {
    const NUM_LIMBS: usize = P::BigInt::NUM_LIMBS;
    fn add_with_carry(&mut self, o: &Self) -> bool {
        self.drop_src();
        self.v.add_with_carry(&o.conc())
    }
    fn sub_with_borrow(&mut self, o: &Self) -> bool {
        self.drop_src();
        self.v.sub_with_borrow(&o.conc())
    }
    fn mul2(&mut self) -> bool {
        self.drop_src();
        self.v.mul2()
    }
    fn muln(&mut self, a: u32) {
        self.drop_src();
        self.v.muln(a)
    }
    fn div2(&mut self) {
        self.drop_src();
        self.v.div2()
    }
    fn divn(&mut self, a: u32) {
        self.drop_src();
        self.v.divn(a)
    }
    fn is_odd(&self) -> bool {
        self.get_bit(0)
    }
    fn is_even(&self) -> bool {
        !self.get_bit(0)
    }
    fn is_zero(&self) -> bool {
        match self.as_f() {
            Some(f) => f.is_zero_(),
            None => self.v.is_zero(),
        }
    }
    fn num_bits(&self) -> u32 {
        self.conc().num_bits()
    }
    fn get_bit(&self, i: usize) -> bool {
        match self.src {
            Some(n) => ctx::with::<P, _>(|x| x.decide(Pred::Bit(n, i as u32))),
            None => self.v.get_bit(i),
        }
    }
    fn from_bits_be(b: &[bool]) -> Self {
        SBig { v: P::BigInt::from_bits_be(b), src: None }
    }
    fn from_bits_le(b: &[bool]) -> Self {
        SBig { v: P::BigInt::from_bits_le(b), src: None }
    }
    fn to_bits_be(&self) -> Vec<bool> {
        self.conc().to_bits_be()
    }
    fn to_bits_le(&self) -> Vec<bool> {
        self.conc().to_bits_le()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        self.conc().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.conc().to_bytes_le()
    }
}
#[allow(dead_code)]
pub fn dec<P: PrimeField>(p: &P) -> String {
    let b: BigUint = (*p).into();
    let _ = limbs(p);
    b.to_string()
}
