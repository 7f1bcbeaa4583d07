use crate::wide::W;
use crate::Src;
#[cfg(not(kani))]
use ark_ff::PrimeField;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

// ---- hex
fn nibble(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// N characters, those from A to B (excluded) arbitrary ASCII, the others fixed digits of either case.
fn text<S: Src, const N: usize, const A: usize, const Z: usize>(s: &mut S) -> [u8; N] {
    const FIX: [u8; 22] = *b"c0FfEe19aB3d7DbA5C824f";
    let mut b = [b'0'; N];
    b[1] = b'x';
    let mut i = 2;
    while i < N {
        if i >= A && i < Z {
            b[i] = s.u8();
            s.assume(b[i] < 128);
        } else {
            b[i] = FIX[(5 * i) % 22];
        }
        i += 1;
    }
    b
}
#[cfg(not(kani))]
fn modulus<F: PrimeField>() -> num_bigint::BigUint {
    F::MODULUS.into()
}
#[cfg(not(kani))]
fn check_native<F: PrimeField>(t: &str) -> bool {
    let v = num_bigint::BigUint::parse_bytes(format!("0{}", &t[2..]).as_bytes(), 16).unwrap() % modulus::<F>();
    let got: num_bigint::BigUint = zkhash::fields::utils::from_hex::<F>(t).into();
    got == v
}
pub fn hex_ok<S: Src, const N: usize, const A: usize, const Z: usize>(s: &mut S, native: bool) -> bool {
    let b: [u8; N] = text::<S, N, A, Z>(s);
    hex_value::<S, N, A, Z>(s, b, native)
}
pub fn hex_prefix<S: Src, const N: usize>(s: &mut S, native: bool) -> bool {
    let mut b: [u8; N] = text::<S, N, 2, N>(s);
    b[0] = s.u8();
    b[1] = s.u8();
    s.assume(b[0] < 128 && b[1] < 128);
    hex_value::<S, N, 2, N>(s, b, native)
}
pub trait Limbs: ark_ff::PrimeField {
    fn limb(&self, i: usize) -> u64;
}
macro_rules! limbs {
    ($($m:ident)*) => {$(impl Limbs for crate::$m::W { fn limb(&self, i: usize) -> u64 { self.0[i] } })*};
}
limbs!(wide f31 f64 f254 f255 f255b);
pub fn hex_field<S: Src, F: Limbs, const N: usize>(s: &mut S, native: bool) -> bool {
    let b: [u8; N] = text::<S, N, 2, N>(s);
    hex_in::<S, F, N, 2, N>(s, b, native)
}
fn hex_value<S: Src, const N: usize, const A: usize, const Z: usize>(s: &mut S, b: [u8; N], native: bool) -> bool {
    hex_in::<S, W, N, A, Z>(s, b, native)
}
fn hex_in<S: Src, F: Limbs, const N: usize, const A: usize, const Z: usize>(s: &mut S, b: [u8; N], native: bool) -> bool {
    let mut want = W([0; 5]);
    let mut i = 2;
    while i < N {
        let n = nibble(b[i]);
        if i >= A && i < Z {
            s.assume(n.is_some());
        }
        let k = N - 1 - i;
        want.0[k / 16] |= (n.unwrap_or(0) as u64) << (4 * (k % 16));
        i += 1;
    }
    let t = unsafe { std::str::from_utf8_unchecked(&b) };
    #[cfg(not(kani))]
    if native {
        use zkhash::fields::*;
        return check_native::<bls12::FpBLS12>(t) && check_native::<bn256::FpBN256>(t) && check_native::<goldilocks::FpGoldiLocks>(t) && check_native::<babybear::FpBabyBear>(t) && check_native::<pallas::FpPallas>(t) && check_native::<vesta::FpVesta>(t);
    }
    {
        let g = zkhash::fields::utils::from_hex::<F>(t);
        g.limb(0) == want.0[0] && g.limb(1) == want.0[1] && g.limb(2) == want.0[2] && g.limb(3) == want.0[3] && g.limb(4) == want.0[4]
    }
}
pub fn hex_bad<S: Src, const N: usize, const A: usize, const Z: usize>(s: &mut S, native: bool) {
    let b: [u8; N] = text::<S, N, A, Z>(s);
    let mut bad = N % 2 == 1;
    let mut i = 2;
    while i < N {
        bad |= nibble(b[i]).is_none();
        i += 1;
    }
    s.assume(bad);
    let t = unsafe { std::str::from_utf8_unchecked(&b) };
    #[cfg(not(kani))]
    if native {
        let _ = zkhash::fields::utils::from_hex::<zkhash::fields::bls12::FpBLS12>(t);
        return;
    }
    let _ = zkhash::fields::utils::from_hex::<W>(t);
}

// ---- constructors
type B = crate::small::W;
fn f(v: u64) -> B {
    B::from(v)
}
fn rc(n: usize, t: usize) -> Vec<Vec<B>> {
    vec![vec![f(1); t]; n]
}
pub fn p2_degree<S: Src>(s: &mut S, _native: bool) {
    let d = s.usize();
    s.assume(d != 3 && d != 5 && d != 7 && d != 11);
    let m = [vec![f(2), f(1)], vec![f(1), f(3)]];
    let _ = Poseidon2Params::<B>::new(2, d, 2, 1, &[f(1), f(2)], &m, &rc(3, 2));
}
pub fn p2_rounds<S: Src>(s: &mut S, _native: bool) {
    let (r, p) = (s.usize(), s.usize());
    s.assume(r % 2 == 1 && r < 1 << 32 && p < 1 << 32);
    let m = [vec![f(2), f(1)], vec![f(1), f(3)]];
    let _ = Poseidon2Params::<B>::new(2, 5, r, p, &[f(1), f(2)], &m, &rc(3, 2));
}
pub fn gmimc_degree<S: Src>(s: &mut S, native: bool) {
    let d = s.usize();
    s.assume(d != 3 && d != 5 && d != 7);
    let _ = GmimcParams::<B>::new(3, d, if native { 5 } else { 0 });
}
pub fn neptune_degree<S: Src>(s: &mut S, _native: bool) {
    let d = s.usize();
    s.assume(d != 3 && d != 5 && d != 7);
    let _ = NeptuneParams::<B>::new(2, d, 2, 1);
}
pub fn neptune_rounds<S: Src>(s: &mut S, native: bool) {
    let r = s.usize();
    s.assume(r % 2 == 1);
    let _ = NeptuneParams::<B>::new(2, 5, if native && r > 101 { 101 } else { r }, 1);
}
/// The same calls with acceptable arguments: a rejection counts only if these are accepted.
#[cfg(not(kani))]
pub fn valid(name: &str) -> bool {
    match name {
        "p2_degree" | "p2_rounds" => {
            let m = [vec![f(2), f(1)], vec![f(1), f(3)]];
            for d in [3, 5, 7, 11] {
                let _ = Poseidon2Params::<B>::new(2, d, 2, 1, &[f(1), f(2)], &m, &rc(3, 2));
            }
        }
        "gmimc_degree" => {
            for d in [3, 5, 7] {
                let _ = GmimcParams::<B>::new(3, d, 5);
            }
        }
        "neptune_degree" | "neptune_rounds" => {
            for d in [3, 5, 7] {
                let _ = NeptuneParams::<B>::new(2, d, 2, 1);
            }
        }
        _ => {}
    }
    true
}
