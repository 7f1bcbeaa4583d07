use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::{MerkleTree, MerkleTreeHash};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

pub struct Comp {
    pub field: &'static str,
    pub hash: &'static str,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
}
fn go<P: PrimeField, E: Env<P>, H: MerkleTreeHash<E::F> + Clone>(e: &mut E, h: H, spec: &dyn Fn(&E::F, &E::F) -> E::F, deep: bool) {
    let (l, r) = (e.var("left"), e.var("right"));
    let w = spec(&l, &r);
    if let Some(g) = e.run("compress", || h.compress(&[&l, &r])) {
        e.eq("compress(left, right)", &g, &w);
    }
    if let Some(g) = e.run("accumulate", || MerkleTree::new(h.clone()).accumulate(&[l, r])) {
        e.eq("root of two leaves", &g, &w);
    }
    if deep {
        let x = e.vars("leaf", 3);
        let w = spec(&spec(&x[0], &x[1]), &spec(&x[2], &x[2]));
        if let Some(g) = e.run("accumulate", || MerkleTree::new(h.clone()).accumulate(&x)) {
            e.eq("root of three leaves", &g, &w);
        }
    }
}
impl<P: PrimeField> Driver<P> for Comp {
    fn id(&self) -> String {
        format!("{}/{}/d{}/rf{}/rp{}", self.hash, self.field, self.d, self.rf, self.rp)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["<Poseidon2 as MerkleTreeHash>::compress", "<Poseidon as MerkleTreeHash>::compress", "<Gmimc as MerkleTreeHash>::compress", "<Neptune as MerkleTreeHash>::compress", "merkle_tree_fp::MerkleTree::accumulate"]
    }
    fn uses_rand(&self) -> bool {
        self.hash == "gmimc" || self.hash == "neptune"
    }
    fn max_paths(&self) -> usize {
        12
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (d, rf, rp) = (self.d, self.rf, self.rp);
        let deep = rf + rp < 12;
        match self.hash {
            "poseidon2" => {
                let (diag, m_i, rc) = super::c01::p2_sym::<P, E>(e, 3, rf, rp, false);
                let Some(h) = e.run("new", || Poseidon2::new(&Arc::new(Poseidon2Params::new(3, d, rf, rp, &diag, &m_i, &rc)))) else { return };
                let z = e.u(0);
                go::<P, E, _>(e, h, &|l, r| refs::poseidon2(3, d, rf, rp, &diag, &rc, &[*l, *r, z])[0], deep);
            }
            "poseidon" => {
                let mds = cauchy::<P, E>(e, 3, 5);
                let rc = rc_sym::<P, E>(e, rf + rp, 3);
                let Some(h) = e.run("new", || Poseidon::new(&Arc::new(PoseidonParams::new(3, d, rf, rp, &mds, &rc)))) else { return };
                let z = e.u(0);
                go::<P, E, _>(e, h, &|l, r| refs::poseidon(3, d, rf, rp, &mds, &rc, &[*l, *r, z])[0], deep);
            }
            "gmimc" => {
                let Some(p) = e.run("new", || Arc::new(GmimcParams::<E::F>::new(3, d, rf + rp))) else { return };
                let Some(rc) = gmimc_rc::<P, E, _>(e, &*p, rf + rp) else { return e.expect("constants held", false) };
                let z = e.u(0);
                go::<P, E, _>(e, Gmimc::new(&p), &|l, r| refs::gmimc(3, d, &rc, &[*l, *r, z])[0], deep);
            }
            _ => {
                let Some(p) = e.run("new", || Arc::new(NeptuneParams::<E::F>::new(4, d, rf, rp))) else { return };
                let Some(n) = neptune_held::<P, E, _>(e, &*p, 4, rf + rp) else { return e.expect("parameters held", false) };
                let z = e.u(0);
                go::<P, E, _>(e, Neptune::new(&p), &|l, r| refs::neptune(4, d, rf, rp, &n.m_e, &n.mu, n.abc[2], &n.rc, &[*l, *r, z, z])[0], deep);
            }
        }
    }
}
pub fn tasks(_q: bool) -> Vec<Task> {
    let mut v = vec![];
    for (i, hash) in ["poseidon2", "poseidon", "gmimc", "neptune"].into_iter().enumerate() {
        for (j, d) in [3usize, 5, 7].into_iter().enumerate() {
            for (k, (rf, rp)) in [(2usize, 2usize), (4, 1), (2, 4)].into_iter().enumerate() {
                v.push(by_field((i + j + k) % 6, move |field| Comp { field, hash, d, rf, rp }));
            }
        }
        for (f, rf, rp) in [(0usize, 8usize, 56usize), (1, 8, 56), (2, 8, 56), (3, 8, 56)] {
            let (rf, rp) = match hash {
                "gmimc" => (0, 226),
                "neptune" => (6, 68),
                _ => (rf, rp),
            };
            v.push(by_field(f, move |field| Comp { field, hash, d: 5, rf, rp }));
        }
    }
    v
}
