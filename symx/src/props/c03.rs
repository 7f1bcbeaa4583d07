use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};

pub struct PosGen {
    pub field: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub sym_mds: bool,
}
impl<P: PrimeField> Driver<P> for PosGen {
    fn id(&self) -> String {
        format!("{}/t{}/d{}/rf{}/rp{}{}", self.field, self.t, self.d, self.rf, self.rp, if self.sym_mds { "/symmds" } else { "" })
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["PoseidonParams::new", "PoseidonParams::equivalent_matrices", "PoseidonParams::equivalent_round_constants", "PoseidonParams::{mat_vec_mul,mat_mat_mul}", "utils::mat_inverse", "utils::mat_transpose", "Poseidon::permutation", "Poseidon::permutation_not_opt", "Poseidon::get_t"]
    }
    fn max_paths(&self) -> usize {
        if self.sym_mds { 4 } else { 24 }
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d, rf, rp) = (self.t, self.d, self.rf, self.rp);
        let mds = if self.sym_mds { (0..t).map(|i| e.vars(&format!("mds{i}"), t)).collect() } else { cauchy::<P, E>(e, t, (t + d + rp) as u64) };
        let rc = rc_sym::<P, E>(e, rf + rp, t);
        let x = e.vars("in", t);
        let built = if self.sym_mds {
            // not every matrix is MDS: the derivation rejects singular ones
            match attempt(|| Poseidon::new(&Arc::new(PoseidonParams::new(t, d, rf, rp, &mds, &rc)))) {
                Ok(h) => Some(h),
                Err(_) => return,
            }
        } else {
            e.run("PoseidonParams::new", || Poseidon::new(&Arc::new(PoseidonParams::new(t, d, rf, rp, &mds, &rc))))
        };
        let Some(h) = built else { return };
        e.expect("get_t", h.get_t() == t);
        let want = refs::poseidon(t, d, rf, rp, &mds, &rc, &x);
        if let Some(out) = e.run("permutation_not_opt", || h.permutation_not_opt(&x)) {
            e.eqv("permutation_not_opt", &out, &want);
        }
        if let Some(out) = e.run("permutation", || h.permutation(&x)) {
            e.eqv("permutation", &out, &want);
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    for (i, t) in [2usize, 3, 4, 5, 8, 12, 16, 20, 24].into_iter().enumerate() {
        for (j, d) in [3usize, 5, 7].into_iter().enumerate() {
            let splits: &[(usize, usize)] = if q { &[(2, 2), (4, 1), (0, 3), (2, 5)] } else { &[(2, 2), (4, 1), (0, 1), (0, 3), (2, 5), (4, 4), (6, 5), (8, 13)] };
            for (k, (rf, rp)) in splits.iter().enumerate() {
                if q && t > 12 && k > 1 {
                    continue;
                }
                v.push(by_field((i + j + k) % 6, move |field| PosGen { field, t, d, rf: *rf, rp: *rp, sym_mds: false }));
            }
        }
        if t <= 8 || !q {
            for (d, rf, rp) in [(5, 8, 56), (7, 8, 22)] {
                v.push(by_field(if d == 5 { i % 4 } else { 4 + i % 2 }, move |field| PosGen { field, t, d, rf, rp, sym_mds: false }));
            }
        }
    }
    for (f, d, rf, rp) in [(4usize, 3usize, 2usize, 1usize), (0, 5, 0, 2), (5, 7, 0, 2)] {
        v.push(by_field(f, move |field| PosGen { field, t: 2, d, rf, rp, sym_mds: true }));
    }
    v
}
