//! Malformed arguments are rejected by panicking.
use super::util::*;
use crate::env::*;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::{MerkleTree, MerkleTreeHash};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

pub struct Reject {
    pub field: &'static str,
    pub hash: &'static str,
    pub what: &'static str,
    pub t: usize,
    pub d: usize,
}
macro_rules! must_panic {
    ($e:expr, $l:expr, $f:expr) => {{
        let r = attempt($f).is_err();
        $e.expect(&format!("{} was accepted", $l), r)
    }};
}
macro_rules! must_run {
    ($e:expr, $l:expr, $f:expr) => {{
        let r = attempt($f);
        $e.run($l, || r.unwrap())
    }};
}
#[derive(Clone)]
struct Uf<F>(HashFn<F>);
impl<F: PrimeField> MerkleTreeHash<F> for Uf<F> {
    fn compress(&self, input: &[&F]) -> F {
        (self.0)(input[0], input[1])
    }
}
impl Reject {
    fn p2<P: PrimeField, E: Env<P>>(&self, e: &E, t: usize, d: usize, rf: usize, rp: usize) -> Poseidon2Params<E::F> {
        let rc: Vec<Vec<E::F>> = (0..rf + rp + 2).map(|r| (0..t).map(|i| e.u((7 * r + i + 1) as u64)).collect()).collect();
        let diag: Vec<E::F> = (0..t).map(|i| e.u([1, 1, 2][i % 3] + if t > 3 { i as u64 } else { 0 })).collect();
        Poseidon2Params::new(t, d, rf, rp, &diag, &ones_plus(&diag), &rc)
    }
    fn p1<P: PrimeField, E: Env<P>>(&self, e: &E, t: usize, n: usize, d: usize, rf: usize, rp: usize) -> PoseidonParams<E::F> {
        let w = t.max(n);
        let rc: Vec<Vec<E::F>> = (0..rf + rp + 2).map(|r| (0..w).map(|i| e.u((7 * r + i + 1) as u64)).collect()).collect();
        PoseidonParams::new(t, d, rf, rp, &cauchy::<P, E>(e, n, 3), &rc)
    }
    fn lengths<P: PrimeField, E: Env<P>>(&self, e: &mut E, perms: &[(&str, &dyn Fn(&[E::F]) -> Vec<E::F>)]) {
        let t = self.t;
        let mut ls: Vec<usize> = (0..=2 * t + 3).chain([3 * t, 4 * t, 31, 32, 33, 64, 65, 128]).filter(|n| *n != t).collect();
        ls.sort();
        ls.dedup();
        let all = e.vars("x", 128.max(4 * t));
        for (l, f) in perms {
            if let Some(o) = e.run(l, || f(&all[..t])) {
                e.expect(&format!("{l}: state size of the output"), o.len() == t);
            }
            for n in &ls {
                must_panic!(e, &format!("{l}: an input of {n} elements for a state of {t}"), || f(&all[..*n]));
            }
            if let Some(o) = e.run(l, || f(&all[..t])) {
                e.expect(&format!("{l}: state size of the output, after rejections"), o.len() == t);
            }
        }
    }
}
const BAD: [usize; 12] = [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + 3, (1 << 32) + 5, (1 << 32) + 7, 259, 261, 263, 65539, (1 << 63) + 5];
impl<P: PrimeField> Driver<P> for Reject {
    fn id(&self) -> String {
        format!("{}/{}/t{}/d{}/{}", self.what, self.hash, self.t, self.d, self.field)
    }
    fn functions(&self) -> Vec<&'static str> {
        match (self.hash, self.what) {
            ("poseidon2", "length") => vec!["Poseidon2::permutation"],
            ("poseidon", "length") => vec!["Poseidon::{permutation,permutation_not_opt}"],
            ("gmimc", "length") => vec!["Gmimc::{permutation,permutation_not_opt}"],
            ("neptune", "length") => vec!["Neptune::permutation"],
            ("poseidon2", _) => vec!["Poseidon2Params::new"],
            ("poseidon", _) => vec!["PoseidonParams::new"],
            ("gmimc", _) => vec!["GmimcParams::new"],
            ("neptune", _) => vec!["NeptuneParams::new"],
            _ => vec!["merkle_tree_fp::MerkleTree::accumulate"],
        }
    }
    fn uses_rand(&self) -> bool {
        matches!(self.hash, "gmimc" | "neptune")
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d) = (self.t, self.d);
        match (self.what, self.hash) {
            ("length", "poseidon2") => {
                let Some(p) = must_run!(e, "Poseidon2Params::new", || Arc::new(self.p2::<P, E>(&*e, t, d, 2, 2))) else { return };
                let h = Poseidon2::new(&p);
                self.lengths::<P, E>(e, &[("permutation", &|x| h.permutation(x))]);
            }
            ("length", "poseidon") => {
                let Some(p) = must_run!(e, "PoseidonParams::new", || Arc::new(self.p1::<P, E>(&*e, t, t, d, 2, 2))) else { return };
                let h = Poseidon::new(&p);
                self.lengths::<P, E>(e, &[("permutation", &|x| h.permutation(x)), ("permutation_not_opt", &|x| h.permutation_not_opt(x))]);
            }
            ("length", "gmimc") => {
                let Some(p) = must_run!(e, "GmimcParams::new", || Arc::new(GmimcParams::<E::F>::new(t, d, t + 2))) else { return };
                let h = Gmimc::new(&p);
                self.lengths::<P, E>(e, &[("permutation", &|x| h.permutation(x)), ("permutation_not_opt", &|x| h.permutation_not_opt(x))]);
            }
            ("length", "neptune") => {
                let Some(p) = must_run!(e, "NeptuneParams::new", || Arc::new(NeptuneParams::<E::F>::new(t, d, 2, 2))) else { return };
                let h = Neptune::new(&p);
                self.lengths::<P, E>(e, &[("permutation", &|x| h.permutation(x))]);
            }
            ("degree", hash) => {
                let good: &[usize] = if hash == "poseidon2" { &[3, 5, 7, 11] } else { &[3, 5, 7] };
                let build = |e: &E, d: usize| match hash {
                    "poseidon2" => drop(self.p2::<P, E>(e, t, d, 2, 2)),
                    "poseidon" => drop(self.p1::<P, E>(e, t, t, d, 2, 2)),
                    "gmimc" => drop(GmimcParams::<E::F>::new(t, d, 3)),
                    _ => drop(NeptuneParams::<E::F>::new(t, d, 2, 2)),
                };
                for g in good {
                    must_run!(e, &format!("new with degree {g}"), || build(&*e, *g));
                }
                for b in (0..=96).chain(BAD) {
                    if !good.contains(&b) {
                        must_panic!(e, &format!("degree {b} at t={t}"), || build(&*e, b));
                    }
                }
            }
            ("rounds", hash) => {
                let build = |e: &E, rf: usize, rp: usize| match hash {
                    "poseidon2" => drop(self.p2::<P, E>(e, t, d, rf, rp)),
                    "poseidon" => drop(self.p1::<P, E>(e, t, t, d, rf, rp)),
                    _ => drop(NeptuneParams::<E::F>::new(t, d, rf, rp)),
                };
                for (rf, rp) in [(2, 1), (4, 2), (8, 5)] {
                    must_run!(e, &format!("new with {rf} and {rp} rounds"), || build(&*e, rf, rp));
                }
                for rf in (1..=17).step_by(2) {
                    for rp in [1, 2, 5, 8] {
                        must_panic!(e, &format!("{rf} full rounds (and {rp} partial) at t={t}"), || build(&*e, rf, rp));
                    }
                }
            }
            ("rows", _) => {
                must_run!(e, "new with a matrix of the state size", || self.p1::<P, E>(&*e, t, t, d, 2, 2));
                for n in (1..=t + 4).chain([2 * t, 2 * t + 1]) {
                    if n != t {
                        must_panic!(e, &format!("an MDS matrix of {n} rows at t={t}"), || self.p1::<P, E>(&*e, t, n, d, 2, 2));
                    }
                    // rows of other widths, in the wrong number, with constants of other widths
                    for (w, c) in [(t, t), (t, n), (n, t), (n, n)] {
                        if n != t {
                            let r = attempt(|| {
                                let m: Vec<Vec<E::F>> = cauchy::<P, E>(e, n.max(w), 3)[..n].iter().map(|r| r[..w].to_vec()).collect();
                                let rc: Vec<Vec<E::F>> = (0..6).map(|r| (0..c).map(|i| e.u((7 * r + i + 1) as u64)).collect()).collect();
                                PoseidonParams::new(t, d, 2, 2, &m, &rc)
                            });
                            e.expect(&format!("an MDS matrix of {n} rows of {w}, with constants of {c}, at t={t} was accepted"), r.is_err());
                        }
                    }
                }
            }
            ("size", _) => {
                for t in 1..=25 {
                    if t % 2 == 0 {
                        must_run!(e, &format!("new with t={t}"), || NeptuneParams::<E::F>::new(t, d, 2, 2));
                    } else {
                        must_panic!(e, &format!("state size {t}"), || NeptuneParams::<E::F>::new(t, d, 2, 2));
                    }
                }
            }
            _ => {
                let mut tree = MerkleTree::new(Uf(e.hash_fn("h")));
                let x = e.vars("x", 9);
                must_panic!(e, "the empty list", || tree.accumulate(&[]));
                for n in [1, 2, 3, 8, 9, self.t] {
                    e.run("accumulate", || tree.accumulate(&x[..n]));
                    must_panic!(e, &format!("the empty list after one of {n}"), || tree.accumulate(&[]));
                }
                let mut c = tree.clone();
                must_panic!(e, "the empty list, on a clone", || c.accumulate(&x[..0]));
            }
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    let mut k = 0;
    let mut add = |what: &'static str, hash: &'static str, t: usize, d: usize| {
        k += 1;
        let fs: Vec<usize> = if q { vec![k % 6] } else { (0..6).collect() };
        for f in fs {
            v.push(by_field(f, |field| Reject { field, hash, what, t, d }));
        }
    };
    let p2: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];
    let p1: [usize; 9] = [2, 3, 4, 5, 8, 9, 12, 16, 24];
    let gm: [usize; 10] = [2, 3, 4, 5, 8, 9, 12, 16, 20, 24];
    let ne: [usize; 8] = [2, 4, 6, 8, 12, 16, 20, 24];
    for (hash, ts) in [("poseidon2", &p2[..]), ("poseidon", &p1[..]), ("gmimc", &gm[..]), ("neptune", &ne[..])] {
        for t in ts {
            for d in [3, 5, 7, 11] {
                if (d == 11) <= (hash == "poseidon2") {
                    add("length", hash, *t, d);
                }
            }
            add("degree", hash, *t, 0);
            if hash != "gmimc" {
                add("rounds", hash, *t, [3, 5, 7][*t % 3]);
            }
        }
    }
    for t in p1 {
        for d in [3, 5, 7] {
            add("rows", "poseidon", t, d);
        }
    }
    for d in [3, 5, 7] {
        add("size", "neptune", 0, d);
    }
    for t in 1..=6 {
        add("empty", "tree", t, 0);
    }
    v
}
