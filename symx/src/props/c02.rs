//! Shipped Poseidon2 (C02) and Poseidon (C04) objects against the published instances.
use crate::env::*;
use crate::refs;
use crate::ship::{self, *};
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use zkhash::poseidon::poseidon::Poseidon;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon::*;
use zkhash::poseidon2::poseidon2::Poseidon2;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::poseidon2::*;

pub fn lift<P: PrimeField, E: Env<P>>(e: &E, v: &[P]) -> Vec<E::F> {
    v.iter().map(|x| e.c(*x)).collect()
}
pub fn lift2<P: PrimeField, E: Env<P>>(e: &E, v: &[Vec<P>]) -> Vec<Vec<E::F>> {
    v.iter().map(|x| lift(e, x)).collect()
}
/// Inputs for the concrete part: the shipped object itself, on its own field type.
pub fn spots<P: PrimeField>(t: usize) -> Vec<Vec<P>> {
    let mut s = 0x1234_5678u64;
    let mut v = vec![vec![P::zero(); t], (0..t).map(|i| P::from(i as u64)).collect(), vec![-P::one(); t]];
    for _ in 0..5 {
        v.push((0..t).map(|_| crate::ctx::rand_elem(&mut s)).collect());
    }
    v
}
pub struct Ship2<P: PrimeField> {
    pub name: &'static str,
    pub obj: fn() -> P2<P>,
}
impl<P: PrimeField> Driver<P> for Ship2<P> {
    fn id(&self) -> String {
        format!("shipped/{}", self.name)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["poseidon2_instance_*: POSEIDON2_*_PARAMS", "Poseidon2Params::new", "Poseidon2::permutation"]
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let g = ship::golden::<P>(&format!("poseidon2-{}", self.name));
        let Some(obj) = e.run("shipped object", || (self.obj)()) else { return };
        e.expect("field modulus", P::MODULUS.to_string() == g.p);
        let h = Poseidon2::new(&obj);
        e.expect("get_t", h.get_t() == g.h.t);
        let x = e.vars("in", g.h.t);
        let w = &g.h;
        let reference = |x: &[P]| refs::poseidon2(w.t, w.d, w.rf, w.rp, &w.diag, &w.rc, x);
        if E::NATIVE {
            let xn: Vec<P> = cast_vec(&x);
            if let Some(out) = e.run("permutation", || h.permutation(&xn)) {
                let (a, b) = (lift(e, &out), lift(e, &reference(&xn)));
                e.eqv("permutation", &a, &b);
            }
        }
        for (k, s) in spots::<P>(w.t).iter().enumerate() {
            if let Some(out) = e.run("permutation of the shipped object", || h.permutation(s)) {
                e.expect(&format!("shipped object on sample {k}"), out == reference(s));
            }
        }
        if E::NATIVE {
            return;
        }
        let Some(o) = held2::<P>(&format!("{:?}", *obj)) else { e.give_up("shipped object's Debug output not readable") };
        let (diag, mat, rc) = (lift(e, &o.diag), lift2(e, &o.mat), lift2(e, &o.rc));
        let Some(p) = e.run("Poseidon2Params::new", || Arc::new(Poseidon2Params::<E::F>::new(o.t, o.d, o.rf, o.rp, &diag, &mat, &rc))) else { return };
        let want = refs::poseidon2(w.t, w.d, w.rf, w.rp, &lift(e, &w.diag), &lift2(e, &w.rc), &x);
        if let Some(out) = e.run("permutation", || Poseidon2::new(&p).permutation(&x)) {
            e.eqv("permutation", &out, &want);
        }
    }
}
pub struct Ship1<P: PrimeField> {
    pub name: &'static str,
    pub obj: fn() -> P1<P>,
}
impl<P: PrimeField> Driver<P> for Ship1<P> {
    fn id(&self) -> String {
        format!("shipped/{}", self.name)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["poseidon_instance_*: POSEIDON_*_PARAMS", "PoseidonParams::new", "Poseidon::permutation", "Poseidon::permutation_not_opt"]
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let g = ship::golden::<P>(&format!("poseidon-{}", self.name));
        let Some(obj) = e.run("shipped object", || (self.obj)()) else { return };
        e.expect("field modulus", P::MODULUS.to_string() == g.p);
        let h = Poseidon::new(&obj);
        e.expect("get_t", h.get_t() == g.h.t);
        let x = e.vars("in", g.h.t);
        let w = &g.h;
        let reference = |x: &[P]| refs::poseidon(w.t, w.d, w.rf, w.rp, &w.mat, &w.rc, x);
        if E::NATIVE {
            let xn: Vec<P> = cast_vec(&x);
            let want = lift(e, &reference(&xn));
            if let Some(out) = e.run("permutation", || h.permutation(&xn)) {
                let a = lift(e, &out);
                e.eqv("permutation", &a, &want);
            }
            if let Some(out) = e.run("permutation_not_opt", || h.permutation_not_opt(&xn)) {
                let a = lift(e, &out);
                e.eqv("permutation_not_opt", &a, &want);
            }
        }
        for (k, s) in spots::<P>(w.t).iter().enumerate() {
            let r = reference(s);
            if let Some(out) = e.run("permutation of the shipped object", || h.permutation(s)) {
                e.expect(&format!("shipped object on sample {k}"), out == r);
            }
            if let Some(out) = e.run("permutation_not_opt of the shipped object", || h.permutation_not_opt(s)) {
                e.expect(&format!("shipped object, plain form, on sample {k}"), out == r);
            }
        }
        if E::NATIVE {
            return;
        }
        let Some(o) = held1::<P>(&format!("{:?}", *obj)) else { e.give_up("shipped object's Debug output not readable") };
        let (mds, rc) = (lift2(e, &o.mat), lift2(e, &o.rc));
        let Some(p) = e.run("PoseidonParams::new", || Arc::new(PoseidonParams::<E::F>::new(o.t, o.d, o.rf, o.rp, &mds, &rc))) else { return };
        let want = refs::poseidon(w.t, w.d, w.rf, w.rp, &lift2(e, &w.mat), &lift2(e, &w.rc), &x);
        let h = Poseidon::new(&p);
        if let Some(out) = e.run("permutation_not_opt", || h.permutation_not_opt(&x)) {
            e.eqv("permutation_not_opt", &out, &want);
        }
        if let Some(out) = e.run("permutation", || h.permutation(&x)) {
            e.eqv("permutation", &out, &want);
        }
    }
}
pub fn tasks2() -> Vec<Task> {
    let mut v = vec![];
    macro_rules! add {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Ship2::<$t> { name: $n, obj: || $s.clone() }));
        };
    }
    poseidon2_all!(add);
    v
}
pub fn tasks1() -> Vec<Task> {
    let mut v = vec![];
    macro_rules! add {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Ship1::<$t> { name: $n, obj: || $s.clone() }));
        };
    }
    poseidon_all!(add);
    v
}
