//! The interface of `sha2`/`digest` over digests that are terms of the symbolic store.
//!
//! A digest is an array of bytes that names a term; the hash functions are uninterpreted: the
//! output is fin(mix(.. mix(mix(iv, x1), x2) .., xn)) over the sequence of terms (and literal bytes)
//! absorbed.  Equality of two digests is a branch on the terms.
use generic_array::{ArrayLength, GenericArray};
use std::cell::RefCell;
use symbase::PallasP;
use symcore::env::{uf1, uf2};
use symcore::symf::SymF;

pub type Term = SymF<PallasP>;
thread_local! {
    static TABLE: RefCell<Vec<Term>> = const { RefCell::new(vec![]) };
}
const MAGIC: [u8; 8] = *b"\x91SymDig\x17";
pub fn clear_table() {
    TABLE.with(|t| t.borrow_mut().clear());
}
fn handle(t: Term, n: usize) -> Vec<u8> {
    assert!(n >= 16);
    let id = TABLE.with(|x| {
        let mut x = x.borrow_mut();
        x.push(t);
        (x.len() - 1) as u32
    });
    let mut b = MAGIC.to_vec();
    b.extend(id.to_le_bytes());
    let mut s = id as u64 ^ 0x5eed;
    while b.len() < n {
        b.push(symcore::ctx::splitmix(&mut s) as u8);
    }
    b
}
fn parse(b: &[u8]) -> Option<Term> {
    if b.len() < 16 || b[..8] != MAGIC {
        return None;
    }
    let id = u32::from_le_bytes(b[8..12].try_into().unwrap());
    let mut s = id as u64 ^ 0x5eed;
    for x in &b[12..] {
        if *x != symcore::ctx::splitmix(&mut s) as u8 {
            return None;
        }
    }
    TABLE.with(|t| t.borrow().get(id as usize).copied())
}
fn literal(b: &[u8]) -> Term {
    let mut s = 0x117e_u64;
    for x in b {
        s = s.wrapping_mul(0x100000001b3) ^ *x as u64;
    }
    s = s.wrapping_mul(0x9E3779B97F4A7C15) ^ b.len() as u64;
    SymF::C(symcore::ctx::rand_elem(&mut s))
}
/// The terms a byte string is made of, for digests of n bytes.
fn absorb(tag: &str, b: &[u8], n: usize) -> Term {
    let mut acc = literal(b"iv");
    let (mut i, mut lit) = (0, 0);
    let flush = |acc: Term, l: &[u8]| if l.is_empty() { acc } else { uf2::<PallasP>(&format!("{tag}.mix"), &acc, &literal(l)) };
    while i < b.len() {
        if i + n <= b.len() {
            if let Some(t) = parse(&b[i..i + n]) {
                acc = flush(acc, &b[lit..i]);
                acc = uf2::<PallasP>(&format!("{tag}.mix"), &acc, &t);
                i += n;
                lit = i;
                continue;
            }
        }
        i += 1;
    }
    acc = flush(acc, &b[lit..]);
    uf1::<PallasP>(&format!("{tag}.fin"), &acc)
}
/// What the specification says: the digest of two digests, one after the other.
pub fn spec2(tag: &str, a: &Term, b: &Term) -> Term {
    let m = format!("{tag}.mix'");
    let acc = uf2::<PallasP>(&m, &uf2::<PallasP>(&m, &literal(b"iv"), a), b);
    uf1::<PallasP>(&format!("{tag}.fin'"), &acc)
}

pub mod digest {
    pub use super::out::Out;
    pub use generic_array::{self, typenum};
    use generic_array::ArrayLength;
    pub trait HashMarker {}
    pub trait OutputSizeUser {
        type OutputSize: ArrayLength<u8> + 'static;
        fn output_size() -> usize {
            <Self::OutputSize as generic_array::typenum::Unsigned>::USIZE
        }
    }
    pub type OutputSize<D> = <D as OutputSizeUser>::OutputSize;
    pub type Output<D> = Out<OutputSize<D>>;
    pub trait Update {
        fn update(&mut self, data: &[u8]);
        fn chain(mut self, data: impl AsRef<[u8]>) -> Self
        where
            Self: Sized,
        {
            self.update(data.as_ref());
            self
        }
    }
    pub trait Reset {
        fn reset(&mut self);
    }
    pub trait FixedOutput: Update + OutputSizeUser + Sized {
        fn finalize_into(self, out: &mut Output<Self>);
        fn finalize_fixed(self) -> Output<Self> {
            let mut o = Default::default();
            self.finalize_into(&mut o);
            o
        }
    }
    pub trait FixedOutputReset: FixedOutput + Reset {
        fn finalize_into_reset(&mut self, out: &mut Output<Self>);
        fn finalize_fixed_reset(&mut self) -> Output<Self> {
            let mut o = Default::default();
            self.finalize_into_reset(&mut o);
            o
        }
    }
    pub trait Digest: OutputSizeUser {
        fn new() -> Self;
        fn new_with_prefix(data: impl AsRef<[u8]>) -> Self;
        fn update(&mut self, data: impl AsRef<[u8]>);
        fn chain_update(self, data: impl AsRef<[u8]>) -> Self;
        fn finalize(self) -> Output<Self>;
        fn finalize_into(self, out: &mut Output<Self>);
        fn finalize_reset(&mut self) -> Output<Self>
        where
            Self: FixedOutputReset;
        fn finalize_into_reset(&mut self, out: &mut Output<Self>)
        where
            Self: FixedOutputReset;
        fn reset(&mut self)
        where
            Self: Reset;
        fn output_size() -> usize;
        fn digest(data: impl AsRef<[u8]>) -> Output<Self>;
    }
    impl<D: FixedOutput + Default + Update + HashMarker> Digest for D {
        fn new() -> Self {
            Self::default()
        }
        fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
            let mut h = Self::default();
            Update::update(&mut h, data.as_ref());
            h
        }
        fn update(&mut self, data: impl AsRef<[u8]>) {
            Update::update(self, data.as_ref())
        }
        fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
            Update::update(&mut self, data.as_ref());
            self
        }
        fn finalize(self) -> Output<Self> {
            FixedOutput::finalize_fixed(self)
        }
        fn finalize_into(self, out: &mut Output<Self>) {
            FixedOutput::finalize_into(self, out)
        }
        fn finalize_reset(&mut self) -> Output<Self>
        where
            Self: FixedOutputReset,
        {
            FixedOutputReset::finalize_fixed_reset(self)
        }
        fn finalize_into_reset(&mut self, out: &mut Output<Self>)
        where
            Self: FixedOutputReset,
        {
            FixedOutputReset::finalize_into_reset(self, out)
        }
        fn reset(&mut self)
        where
            Self: Reset,
        {
            Reset::reset(self)
        }
        fn output_size() -> usize {
            <Self as OutputSizeUser>::output_size()
        }
        fn digest(data: impl AsRef<[u8]>) -> Output<Self> {
            let mut h = Self::default();
            Update::update(&mut h, data.as_ref());
            h.finalize()
        }
    }
}
pub use digest::Digest;
use digest::*;

mod out {
    use super::*;
    use std::ops::{Deref, DerefMut};
    /// A digest value.
    pub struct Out<N: ArrayLength<u8>>(pub(crate) GenericArray<u8, N>);
    impl<N: ArrayLength<u8>> Out<N> {
        pub fn of(t: Term) -> Self {
            Out(GenericArray::clone_from_slice(&handle(t, N::USIZE)))
        }
        pub fn term(&self) -> Option<Term> {
            parse(&self.0)
        }
        pub fn clone_from_slice(b: &[u8]) -> Self {
            Out(GenericArray::clone_from_slice(b))
        }
        pub fn from_slice(b: &[u8]) -> &Self {
            assert!(b.len() == N::USIZE);
            // same layout: a single field
            unsafe { &*(GenericArray::<u8, N>::from_slice(b) as *const GenericArray<u8, N> as *const Self) }
        }
    }
    impl<N: ArrayLength<u8>> Clone for Out<N> {
        fn clone(&self) -> Self {
            Out(self.0.clone())
        }
    }
    impl<N: ArrayLength<u8>> Copy for Out<N> where N::ArrayType: Copy {}
    impl<N: ArrayLength<u8>> Default for Out<N> {
        fn default() -> Self {
            Out(Default::default())
        }
    }
    impl<N: ArrayLength<u8>> std::fmt::Debug for Out<N> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl<N: ArrayLength<u8>> Deref for Out<N> {
        type Target = GenericArray<u8, N>;
        fn deref(&self) -> &GenericArray<u8, N> {
            &self.0
        }
    }
    impl<N: ArrayLength<u8>> DerefMut for Out<N> {
        fn deref_mut(&mut self) -> &mut GenericArray<u8, N> {
            &mut self.0
        }
    }
    impl<N: ArrayLength<u8>> AsRef<[u8]> for Out<N> {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl<N: ArrayLength<u8>> AsMut<[u8]> for Out<N> {
        fn as_mut(&mut self) -> &mut [u8] {
            &mut self.0
        }
    }
    impl<N: ArrayLength<u8>> std::borrow::Borrow<[u8]> for Out<N> {
        fn borrow(&self) -> &[u8] {
            &self.0
        }
    }
    impl<N: ArrayLength<u8>> From<GenericArray<u8, N>> for Out<N> {
        fn from(g: GenericArray<u8, N>) -> Self {
            Out(g)
        }
    }
    impl<N: ArrayLength<u8>> From<Out<N>> for GenericArray<u8, N> {
        fn from(g: Out<N>) -> Self {
            g.0
        }
    }
    fn value(b: &[u8]) -> Term {
        // a value the code wrote out as bytes is the little-endian number where it fits
        parse(b).unwrap_or_else(|| if b.len() <= 31 || b[31..].iter().all(|x| *x == 0) { SymF::C(<PallasP as symbase::__::ark_ff::PrimeField>::from_le_bytes_mod_order(b)) } else { literal(b) })
    }
    impl<N: ArrayLength<u8>> PartialEq for Out<N> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0 || value(&self.0) == value(&o.0)
        }
    }
    impl<N: ArrayLength<u8>> Eq for Out<N> {}
    impl<N: ArrayLength<u8>> PartialOrd for Out<N> {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<N: ArrayLength<u8>> Ord for Out<N> {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            value(&self.0).cmp(&value(&o.0))
        }
    }
    // hashed containers fall back on Eq, which is a branch on the terms
    impl<N: ArrayLength<u8>> std::hash::Hash for Out<N> {
        fn hash<H: std::hash::Hasher>(&self, _h: &mut H) {}
    }
    impl<'a, N: ArrayLength<u8>> IntoIterator for &'a Out<N> {
        type Item = &'a u8;
        type IntoIter = std::slice::Iter<'a, u8>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
}

macro_rules! hash {
    ($($name:ident, $n:ident;)*) => {$(
        #[derive(Clone, Debug, Default)]
        pub struct $name(Vec<u8>);
        impl $name {
            pub const TAG: &'static str = stringify!($name);
        }
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = generic_array::typenum::$n;
        }
        impl Update for $name {
            fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) }
        }
        impl Reset for $name {
            fn reset(&mut self) { self.0.clear() }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                *out = Out::of(absorb(Self::TAG, &self.0, <Self as OutputSizeUser>::output_size()));
            }
        }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                *out = Out::of(absorb(Self::TAG, &self.0, <Self as OutputSizeUser>::output_size()));
                self.0.clear();
            }
        }
    )*};
}
hash! { Sha224, U28; Sha256, U32; Sha384, U48; Sha512, U64; Sha512_224, U28; Sha512_256, U32; }
