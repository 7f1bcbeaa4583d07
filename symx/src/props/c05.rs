use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};

pub struct GmGen {
    pub field: &'static str,
    pub t: usize,
    pub d: usize,
    pub rounds: usize,
}
impl<P: PrimeField> Driver<P> for GmGen {
    fn id(&self) -> String {
        format!("{}/t{}/d{}/r{}", self.field, self.t, self.d, self.rounds)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["GmimcParams::new", "GmimcParams::{get_t,get_rounds}", "Gmimc::permutation", "Gmimc::permutation_not_opt", "Gmimc::get_t"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d, rounds) = (self.t, self.d, self.rounds);
        let Some(p) = e.run("GmimcParams::new", || Arc::new(GmimcParams::<E::F>::new(t, d, rounds))) else { return };
        e.expect("get_t, get_rounds", p.get_t() == t && p.get_rounds() == rounds);
        let Some(rc) = gmimc_rc::<P, E, _>(e, &*p, rounds) else {
            e.expect("one round constant per round is held", false);
            return;
        };
        let h = Gmimc::new(&p);
        e.expect("get_t", h.get_t() == t);
        let x = e.vars("in", t);
        let want = refs::gmimc(t, d, &rc, &x);
        if let Some(out) = e.run("permutation_not_opt", || h.permutation_not_opt(&x)) {
            e.eqv("permutation_not_opt", &out, &want);
        }
        if let Some(out) = e.run("permutation", || h.permutation(&x)) {
            e.eqv("permutation", &out, &want);
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    for t in 2usize..=24 {
        let mut rs = vec![1, 2, t - 1, t, t + 1, 2 * t + 3];
        if !q {
            rs.extend(1..=3 * t + 1);
        }
        rs.sort();
        rs.dedup();
        for (k, rounds) in rs.into_iter().enumerate() {
            if rounds == 0 {
                continue;
            }
            let d = [3usize, 5, 7][(t + k) % 3];
            v.push(by_field((t + k) % 6, move |field| GmGen { field, t, d, rounds }));
        }
    }
    for (t, d, rounds, f) in [(2usize, 5usize, 226usize, 0usize), (3, 5, 228, 1), (8, 7, 146, 4), (9, 3, 182, 2), (16, 7, 200, 5), (24, 5, 120, 3)] {
        v.push(by_field(f, move |field| GmGen { field, t, d, rounds }));
    }
    v
}
