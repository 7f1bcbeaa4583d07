//! Shipped GMiMC and Neptune objects: sizes, round numbers, and the permutation at those sizes.
use super::c02::{lift, spots};
use super::util::*;
use crate::env::*;
use crate::refs;
use crate::ship::*;
use crate::tasks::*;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use std::sync::Arc;
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use zkhash::gmimc::gmimc::Gmimc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::gmimc::*;
use zkhash::neptune::neptune::Neptune;
use zkhash::neptune::neptune_instances::*;
use zkhash::neptune::neptune_params::NeptuneParams;

fn modulus<P: PrimeField>() -> BigUint {
    P::MODULUS.to_string().parse().unwrap()
}
/// smallest n with d^n >= x
fn ceil_log(d: usize, x: &BigUint) -> usize {
    let (mut n, mut y) = (0, BigUint::from(1u32));
    while y < *x {
        y *= d;
        n += 1;
    }
    n
}
fn gcd(a: u64, b: &BigUint) -> u64 {
    let r: u64 = (b % a).try_into().unwrap();
    let (mut a, mut b) = (a, r);
    while b > 0 {
        (a, b) = (b, a % b);
    }
    a
}
pub fn gmimc_rounds<P: PrimeField>(t: usize, d: usize) -> usize {
    let p = modulus::<P>();
    (2 + 2 * (t + t * t)).max(ceil_log(d, &(&p * &p)) + 2 * t)
}
pub fn neptune_rp<P: PrimeField>(t: usize, d: usize) -> usize {
    let p = modulus::<P>();
    let bits = p.bits() as f64;
    let lp = (bits - 64.0).max(0.0) + ((&p >> (p.bits().saturating_sub(64))).to_u64_digits()[0] as f64).log2();
    let l = |x: f64| x.ln() / (d as f64).ln();
    let inner = (l(2.0) * (128f64.min(lp) - 6.0) + 3.0 + t as f64 + l(t as f64)).ceil();
    (1.125 * inner).ceil() as usize
}
pub struct ShipG<P: PrimeField> {
    pub field: &'static str,
    pub t: usize,
    pub obj: fn() -> Gm<P>,
}
impl<P: PrimeField> Driver<P> for ShipG<P> {
    fn id(&self) -> String {
        format!("gmimc/{}-t{}", self.field, self.t)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["gmimc_instance_*: GMIMC_*_PARAMS", "GmimcParams::new", "Gmimc::permutation", "Gmimc::permutation_not_opt"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let t = self.t;
        let Some(obj) = e.run("shipped object", || (self.obj)()) else { return };
        let Some(v) = crate::dbg::parse(&format!("{:?}", *obj)) else { e.give_up("Debug output not readable") };
        let d = v.get("d").and_then(|x| x.usize()).unwrap_or_else(|| e.give_up("degree not readable"));
        let rounds = obj.get_rounds();
        e.expect("state size", obj.get_t() == t);
        e.expect("degree prime to p-1", gcd(d as u64, &(modulus::<P>() - 1u32)) == 1);
        e.expect(&format!("rounds: {} instead of at least {}", rounds, gmimc_rounds::<P>(t, d)), rounds >= gmimc_rounds::<P>(t, d));
        if obj.get_t() != t || rounds == 0 {
            return;
        }
        // the shipped object runs the rounds it holds constants for
        let held: Option<Vec<P>> = v.get("round_constants").or(v.find_vec(&[], rounds)).and_then(|x| elems(&x));
        let Some(rc) = held else { e.give_up("round constants not readable") };
        e.expect("a constant for every round", rc.len() >= rounds);
        if rc.len() < rounds {
            return;
        }
        let h = Gmimc::new(&obj);
        for (k, s) in spots::<P>(t).iter().enumerate() {
            let want = refs::gmimc(t, d, &rc[..rounds], s);
            if let Some(o) = e.run("permutation", || h.permutation(s)) {
                e.expect(&format!("shipped object on sample {k}"), o == want);
            }
            if let Some(o) = e.run("permutation_not_opt", || h.permutation_not_opt(s)) {
                e.expect(&format!("shipped object, plain form, on sample {k}"), o == want);
            }
        }
        // all inputs and all constants, at the shipped size
        let Some(p) = e.run("GmimcParams::new", || Arc::new(GmimcParams::<E::F>::new(t, d, rounds))) else { return };
        let Some(rc) = gmimc_rc::<P, E, _>(e, &*p, rounds) else { return e.expect("a constant for every round", false) };
        let x = e.vars("in", t);
        let want = refs::gmimc(t, d, &rc, &x);
        let h = Gmimc::new(&p);
        if let Some(o) = e.run("permutation_not_opt", || h.permutation_not_opt(&x)) {
            e.eqv("permutation_not_opt", &o, &want);
        }
        if let Some(o) = e.run("permutation", || h.permutation(&x)) {
            e.eqv("permutation", &o, &want);
        }
    }
}
pub struct ShipN<P: PrimeField> {
    pub field: &'static str,
    pub t: usize,
    pub obj: fn() -> Np<P>,
}
impl<P: PrimeField> Driver<P> for ShipN<P> {
    fn id(&self) -> String {
        format!("neptune/{}-t{}", self.field, self.t)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["neptune_instances: NEPTUNE_*_PARAMS", "NeptuneParams::new", "Neptune::permutation"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let t = self.t;
        let Some(obj) = e.run("shipped object", || (self.obj)()) else { return };
        let Some(v) = crate::dbg::parse(&format!("{:?}", *obj)) else { e.give_up("Debug output not readable") };
        let n = |k: &str| v.get(k).and_then(|x| x.usize()).unwrap_or_else(|| e.give_up("size not readable"));
        let (tt, d) = (n("t"), n("d"));
        let (rb, re, rp) = v.schedule().unwrap_or_else(|| e.give_up("round numbers not readable"));
        e.expect("state size", tt == t);
        e.expect("degree prime to p-1", gcd(d as u64, &(modulus::<P>() - 1u32)) == 1);
        e.expect("six external rounds, three on each side", rb == 3 && re == 3);
        e.expect(&format!("internal rounds: {} instead of at least {}", rp, neptune_rp::<P>(t, d)), rp >= neptune_rp::<P>(t, d));
        if tt != t {
            return;
        }
        let rounds = rb + re + rp;
        let get = || -> Option<(Vec<Vec<P>>, Vec<Vec<P>>, Vec<P>, Vec<P>)> { 
            let abc = match v.get("abc").or(v.find_vec(&[], 3)) {
                Some(x) => elems(&x)?,
                None => vec![P::one(), P::one(), elem(&v.get("gamma")?)?],
            };
            Some((rows(&v.get("round_constants").or(v.find_mat(&[], rounds, t))?)?, rows(&v.get("m_e").or(v.find_mat(&[], t, t))?)?, elems(&v.get("mu").or(v.find_vec(&[], t))?)?, abc))
        };
        let Some((rc, me, mu, abc)) = get() else { e.give_up("parameters not readable") };
        e.expect("a constant for every round", rc.len() >= rounds);
        if rc.len() < rounds {
            return;
        }
        let h = Neptune::new(&obj);
        e.expect("get_t", h.get_t() == t);
        for (k, s) in spots::<P>(t).iter().enumerate() {
            let want = refs::neptune(t, d, rb + re, rp, &me, &mu, abc[2], &rc, s);
            if let Some(o) = e.run("permutation", || h.permutation(s)) {
                e.expect(&format!("shipped object on sample {k}"), o == want);
            }
        }
        let _ = lift::<P, E>;
        let (rf, rp) = (rb + re, rp);
        let Some(p) = e.run("NeptuneParams::new", || Arc::new(NeptuneParams::<E::F>::new(t, d, rf, rp))) else { return };
        let Some(n) = neptune_held::<P, E, _>(e, &*p, t, rf + rp) else { return e.expect("a constant for every round", false) };
        let x = e.vars("in", t);
        let want = refs::neptune(t, d, rf, rp, &n.m_e, &n.mu, n.abc[2], &n.rc, &x);
        if let Some(o) = e.run("permutation", || Neptune::new(&p).permutation(&x)) {
            e.eqv("permutation", &o, &want);
        }
    }
}
pub fn tasks() -> Vec<Task> {
    let mut v = vec![];
    macro_rules! g {
        ($i:expr, $t:ty, $n:expr, $s:expr, $o:expr) => {
            v.push(task::<$t, _>(ShipG::<$t> { field: $n, t: $s, obj: || $o.clone() }));
        };
    }
    gmimc_all!(g);
    macro_rules! n {
        ($i:expr, $t:ty, $n:expr, $s:expr, $o:expr) => {
            v.push(task::<$t, _>(ShipN::<$t> { field: $n, t: $s, obj: || $o.clone() }));
        };
    }
    neptune_all!(n);
    v
}
