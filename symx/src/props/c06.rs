use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};

pub struct NepGen {
    pub field: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
}
impl<P: PrimeField> Driver<P> for NepGen {
    fn id(&self) -> String {
        format!("{}/t{}/d{}/rf{}/rp{}", self.field, self.t, self.d, self.rf, self.rp)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["NeptuneParams::new", "Neptune::permutation (external and internal rounds, S-boxes, linear layers)", "Neptune::get_t", "fields::utils::{random_scalar,random_scalar_without_0}"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn max_paths(&self) -> usize {
        6
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d, rf, rp) = (self.t, self.d, self.rf, self.rp);
        let Some(p) = e.run("NeptuneParams::new", || Arc::new(NeptuneParams::<E::F>::new(t, d, rf, rp))) else { return };
        let Some(n) = neptune_held::<P, E, _>(e, &*p, t, rf + rp) else {
            e.expect("parameters of the right shape are held", false);
            return;
        };
        let h = Neptune::new(&p);
        e.expect("get_t", h.get_t() == t);
        let x = e.vars("in", t);
        let want = refs::neptune(t, d, rf, rp, &n.m_e, &n.mu, n.abc[2], &n.rc, &x);
        if let Some(out) = e.run("permutation", || h.permutation(&x)) {
            e.eqv("permutation", &out, &want);
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    for (i, t) in [2usize, 4, 6, 8, 10, 12, 14, 16, 20, 24].into_iter().enumerate() {
        for (j, d) in [3usize, 5, 7].into_iter().enumerate() {
            let splits: &[(usize, usize)] = if q { &[(2, 2), (4, 1), (0, 3), (2, 0)] } else { &[(2, 2), (4, 1), (0, 3), (2, 0), (0, 0), (6, 5), (8, 13)] };
            for (k, (rf, rp)) in splits.iter().enumerate() {
                if q && t > 12 && (j + k) % 2 == 1 {
                    continue;
                }
                v.push(by_field((i + j + k) % 6, move |field| NepGen { field, t, d, rf: *rf, rp: *rp }));
            }
        }
    }
    for (t, d, rp, f) in [(4usize, 5usize, 69usize, 0usize), (8, 5, 74, 2), (8, 7, 38, 4), (12, 7, 42, 4), (16, 7, 34, 5), (24, 7, 43, 5)] {
        if q && t > 12 {
            continue;
        }
        v.push(by_field(f, move |field| NepGen { field, t, d, rf: 6, rp }));
    }
    v
}
