//! Purity: the output depends on the input and the parameters only.
use super::util::*;
use crate::env::*;
use crate::tasks::*;
use ark_ff::{One, PrimeField};
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::{MerkleTree, MerkleTreeHash};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

pub struct Pure {
    pub field: &'static str,
    pub hash: &'static str,
    pub t: usize,
    pub d: usize,
    pub plan: &'static str,
}
trait Hash<F: PrimeField>: MerkleTreeHash<F> + Clone {
    fn perm(&self, x: &[F]) -> Vec<F>;
    fn plain(&self, x: &[F]) -> Option<Vec<F>>;
}
macro_rules! hash {
    ($h:ident, $plain:expr) => {
        impl<F: PrimeField> Hash<F> for $h<F> {
            fn perm(&self, x: &[F]) -> Vec<F> {
                self.permutation(x)
            }
            fn plain(&self, x: &[F]) -> Option<Vec<F>> {
                let f: fn(&Self, &[F]) -> Option<Vec<F>> = $plain;
                f(self, x)
            }
        }
    };
}
hash!(Poseidon2, |_, _| None);
hash!(Poseidon, |h, x| Some(h.permutation_not_opt(x)));
hash!(Gmimc, |h, x| Some(h.permutation_not_opt(x)));
hash!(Neptune, |_, _| None);

impl Pure {
    /// `mk` builds a hash; true: with parameters shared with the first one.
    fn go<P: PrimeField, E: Env<P>, H: Hash<E::F>>(&self, e: &mut E, h: H, again: H, other: H) {
        let t = self.t;
        let x = e.vars("x", t);
        let y = e.vars("y", t);
        let (x0, y0) = (x.clone(), y.clone());
        let Some(ox) = e.run("permutation", || h.perm(&x)) else { return };
        let Some(oy) = e.run("permutation", || h.perm(&y)) else { return };
        macro_rules! same {
            ($l:expr, $h:expr, $x:expr, $w:expr) => {
                if let Some(o) = e.run($l, || $h.perm($x)) {
                    e.eqv($l, &o, $w);
                }
            };
        }
        match self.plan {
            "repeat" => {
                same!("repeated", h, &x, &ox);
                same!("repeated, other input", h, &y, &oy);
                let c = h.clone();
                same!("clone", c, &x, &ox);
                same!("object sharing the parameters", again, &x, &ox);
                if let Some(Some(p1)) = e.run("plain", || h.plain(&x)) {
                    let p2 = e.run("plain", || h.plain(&y));
                    let p3 = e.run("plain", || h.plain(&x));
                    let _ = p2;
                    if let Some(Some(p3)) = p3 {
                        e.eqv("plain form repeated", &p3, &p1);
                    }
                }
                same!("after the plain form", h, &y, &oy);
            }
            "objects" => {
                let _ = e.run("permutation of another object", || other.perm(&y));
                same!("after another object's call", h, &x, &ox);
                let Some(o1) = e.run("permutation of another object", || other.perm(&x)) else { return };
                same!("interleaved", h, &y, &oy);
                same!("other object, after this one", other, &x, &o1);
                drop(again);
                same!("after dropping an object that shares the parameters", h, &x, &ox);
            }
            "panic" => {
                let short = x[..t - 1].to_vec();
                let mut long = x.clone();
                long.push(y[0]);
                let _ = attempt(|| h.perm(&short));
                same!("after a rejected short input", h, &x, &ox);
                let _ = attempt(|| h.perm(&long));
                let _ = attempt(|| h.plain(&long));
                same!("after a rejected long input", h, &y, &oy);
                same!("clone after a rejected input", h.clone(), &x, &ox);
            }
            "compress" => {
                let Some(c1) = e.run("compress", || h.compress(&[&x[0], &x[1]])) else { return };
                let Some(c2) = e.run("compress", || h.compress(&[&y[0], &y[1]])) else { return };
                if let Some(c) = e.run("compress", || h.compress(&[&x[0], &x[1]])) {
                    e.eq("compress repeated", &c, &c1);
                }
                same!("permutation after compress", h, &x, &ox);
                let mut tree = MerkleTree::new(h.clone());
                let l: Vec<E::F> = vec![x[0], x[1], y[0]];
                if let Some(r1) = e.run("accumulate", || tree.accumulate(&l)) {
                    let _ = e.run("accumulate", || tree.accumulate(&l[..2]));
                    if let Some(r2) = e.run("accumulate", || tree.accumulate(&l)) {
                        e.eq("root repeated", &r2, &r1);
                    }
                }
                // the same tree on lists that share elements with the ones before
                for l in [vec![x[0], y[1], y[0]], vec![y[0], x[1], x[0]], vec![x[1], x[1], y[0]]] {
                    let mut new = MerkleTree::new(h.clone());
                    let (a, b) = (e.run("accumulate", || tree.accumulate(&l)), e.run("accumulate", || new.accumulate(&l)));
                    if let (Some(a), Some(b)) = (a, b) {
                        e.eq("root of a used tree", &a, &b);
                    }
                }
                if let Some(c) = e.run("compress", || h.compress(&[&y[0], &y[1]])) {
                    e.eq("compress after a tree", &c, &c2);
                }
            }
            "many" => {
                // a long history of concrete calls, then symbolic ones
                let mut z: Vec<E::F> = (0..t).map(|i| e.u(i as u64 + 1)).collect();
                let first = e.run("permutation", || h.perm(&z));
                let z0 = z.clone();
                for k in 0..1200u64 {
                    let hh = if k % 7 == 3 { &other } else { &h };
                    let Some(n) = e.run("permutation", || hh.perm(&z)) else { return };
                    if n.len() != t {
                        return;
                    }
                    // parameters may be symbolic: restart from concrete values when so
                    z = (0..t).map(|i| e.u((k + 2) * 1000 + i as u64)).collect();
                    let _ = n;
                }
                if let (Some(f), Some(g)) = (first, e.run("permutation", || h.perm(&z0))) {
                    e.eqv("concrete input after many calls", &g, &f);
                }
                same!("symbolic input after many calls", h, &x, &ox);
                for k in 0..12 {
                    let mut w = x.clone();
                    w[k % t] = w[k % t] + E::F::one() * e.u(k as u64 + 1);
                    let _ = e.run("permutation", || h.perm(&w));
                }
                same!("after related inputs", h, &x, &ox);
                same!("after related inputs, other", h, &y, &oy);
            }
            _ => unreachable!(),
        }
        for (a, b) in x.iter().chain(&y).zip(x0.iter().chain(&y0)) {
            e.eq("the caller's input is unchanged", a, b);
        }
    }
}
impl<P: PrimeField> Driver<P> for Pure {
    fn id(&self) -> String {
        format!("{}/{}/t{}/d{}/{}", self.plan, self.hash, self.t, self.d, self.field)
    }
    fn functions(&self) -> Vec<&'static str> {
        match self.hash {
            "poseidon2" => vec!["Poseidon2::{new,permutation,clone}", "<Poseidon2 as MerkleTreeHash>::compress"],
            "poseidon" => vec!["Poseidon::{new,permutation,permutation_not_opt,clone}", "<Poseidon as MerkleTreeHash>::compress"],
            "gmimc" => vec!["Gmimc::{new,permutation,permutation_not_opt,clone}", "<Gmimc as MerkleTreeHash>::compress"],
            _ => vec!["Neptune::{new,permutation,clone}", "<Neptune as MerkleTreeHash>::compress"],
        }
    }
    fn uses_rand(&self) -> bool {
        matches!(self.hash, "gmimc" | "neptune")
    }
    fn max_paths(&self) -> usize {
        16
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d) = (self.t, self.d);
        // "many" keeps the parameters concrete, so that the long history is concrete too
        let conc = self.plan == "many";
        let mut seed = 77u64;
        match self.hash {
            "poseidon2" => {
                let (rf, rp) = (2, 2);
                let mut mk = |e: &mut E, n: &str| -> Option<Arc<Poseidon2Params<E::F>>> {
                    let rc: Vec<Vec<E::F>> = (0..rf + rp).map(|r| (0..t).map(|i| if conc { e.c(crate::ctx::rand_elem(&mut seed)) } else if r < 1 || r > rp || i == 0 { e.var(&format!("{n}rc{r}[{i}]")) } else { e.u(0) }).collect()).collect();
                    let diag: Vec<E::F> = (0..t).map(|i| e.u([1, 1, 2][i % 3] + if t > 3 { i as u64 } else { 0 })).collect();
                    let m = ones_plus(&diag);
                    e.run("Poseidon2Params::new", || Arc::new(Poseidon2Params::new(t, d, rf, rp, &diag, &m, &rc)))
                };
                let (Some(p), Some(q)) = (mk(e, "p"), mk(e, "q")) else { return };
                self.go::<P, E, _>(e, Poseidon2::new(&p), Poseidon2::new(&p), Poseidon2::new(&q));
            }
            "poseidon" => {
                let (rf, rp) = (2, 2);
                let mut mk = |e: &mut E, n: &str, s: u64| -> Option<Arc<PoseidonParams<E::F>>> {
                    let rc: Vec<Vec<E::F>> = (0..rf + rp).map(|r| (0..t).map(|i| if conc { e.c(crate::ctx::rand_elem(&mut seed)) } else { e.var(&format!("{n}rc{r}[{i}]")) }).collect()).collect();
                    let mds = cauchy::<P, E>(e, t, s);
                    e.run("PoseidonParams::new", || Arc::new(PoseidonParams::new(t, d, rf, rp, &mds, &rc)))
                };
                let (Some(p), Some(q)) = (mk(e, "p", 3), mk(e, "q", 5)) else { return };
                self.go::<P, E, _>(e, Poseidon::new(&p), Poseidon::new(&p), Poseidon::new(&q));
            }
            "gmimc" => {
                let r = if t >= 8 { t + 3 } else { 6 };
                let Some(p) = e.run("GmimcParams::new", || Arc::new(GmimcParams::<E::F>::new(t, d, r))) else { return };
                let Some(q) = e.run("GmimcParams::new", || Arc::new(GmimcParams::<E::F>::new(t, d, r))) else { return };
                self.go::<P, E, _>(e, Gmimc::new(&p), Gmimc::new(&p), Gmimc::new(&q));
            }
            _ => {
                let Some(p) = e.run("NeptuneParams::new", || Arc::new(NeptuneParams::<E::F>::new(t, d, 2, 2))) else { return };
                let Some(q) = e.run("NeptuneParams::new", || Arc::new(NeptuneParams::<E::F>::new(t, d, 2, 2))) else { return };
                self.go::<P, E, _>(e, Neptune::new(&p), Neptune::new(&p), Neptune::new(&q));
            }
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    let mut k = 0;
    for (hash, ts) in [("poseidon2", vec![2usize, 3, 4, 8]), ("poseidon", vec![2, 3, 4, 8]), ("gmimc", vec![2, 3, 8, 9]), ("neptune", vec![2, 4, 8, 6])] {
        for t in ts {
            for plan in ["repeat", "objects", "panic", "many"] {
                for d in if q { vec![5usize] } else { vec![3, 5, 7] } {
                    k += 1;
                    v.push(by_field(k % 6, |field| Pure { field, hash, t, d, plan }));
                }
            }
        }
        for f in 0..6 {
            v.push(by_field(f, |field| Pure { field, hash, t: if hash == "neptune" { 4 } else { 3 }, d: 5, plan: "compress" }));
        }
    }
    v
}
