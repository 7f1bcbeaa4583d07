//! The Orchard, Sapling and digest trees.  Built twice: over symbolic stand-ins for the leaf types
//! (the deciding run), and over the real crates (`native`: replays of what the first one found).
use ark_ff::PrimeField;
use std::any::Any;
use std::sync::Arc;
use symbase::{BlsP, PallasP};
use symcore::env::*;
use symcore::runner::{self, task, Task};
use zkhash::merkle_tree::{merkle_tree_f2 as f2, merkle_tree_orchard as orchard, merkle_tree_sapling as sapling};

/// Root of the complete binary tree over the leaves padded with the last one; `node(level, l, r)`.
fn root<T: Clone>(leaves: &[T], mut node: impl FnMut(usize, &T, &T) -> T) -> T {
    let mut w = 2;
    while w < leaves.len() {
        w *= 2;
    }
    let mut row: Vec<T> = (0..w).map(|i| leaves[i.min(leaves.len() - 1)].clone()).collect();
    let mut lv = 0;
    while row.len() > 1 {
        row = row.chunks(2).map(|c| node(lv, &c[0], &c[1])).collect();
        lv += 1;
    }
    row.remove(0)
}
fn cast<A: Any, B: Any + Clone>(a: &A) -> Option<B> {
    (a as &dyn Any).downcast_ref::<B>().cloned()
}

#[cfg(not(feature = "native"))]
mod conv {
    use super::*;
    use symcore::symf::SymF;
    pub type OB = pasta_curves::pallas::Base;
    pub type SB = jubjub::Base;
    pub fn term<F: PrimeField, P: PrimeField>(f: &F) -> SymF<P> {
        cast::<F, SymF<P>>(f).expect("symbolic run")
    }
    pub fn back<F: PrimeField, P: PrimeField>(t: SymF<P>) -> F {
        cast::<SymF<P>, F>(&t).expect("symbolic run")
    }
    pub fn ob<F: PrimeField>(f: &F) -> OB {
        pasta_curves::Fp(term::<F, PallasP>(f))
    }
    pub fn ob_back<F: PrimeField>(b: &OB) -> F {
        back::<F, PallasP>(b.0)
    }
    pub fn sb<F: PrimeField>(f: &F) -> SB {
        jubjub::Fq(term::<F, BlsP>(f))
    }
    pub fn sb_back<F: PrimeField>(b: &SB) -> F {
        back::<F, BlsP>(b.0)
    }
}
#[cfg(feature = "native")]
mod conv {
    use super::*;
    use ark_ff::BigInteger;
    pub type OB = pasta_curves::pallas::Base;
    pub type SB = jubjub::Base;
    fn le<F: PrimeField>(f: &F) -> [u8; 32] {
        let mut r = [0; 32];
        r.copy_from_slice(&f.into_bigint().to_bytes_le()[..32]);
        r
    }
    pub fn bytes<F: PrimeField>(f: &F) -> [u8; 32] {
        le(f)
    }
    pub fn ob<F: PrimeField>(f: &F) -> OB {
        ff::PrimeField::from_repr(le(f)).unwrap()
    }
    pub fn ob_back<F: PrimeField>(b: &OB) -> F {
        F::from_le_bytes_mod_order(&ff::PrimeField::to_repr(b))
    }
    pub fn sb<F: PrimeField>(f: &F) -> SB {
        ff::PrimeField::from_repr(le(f)).unwrap()
    }
    pub fn sb_back<F: PrimeField>(b: &SB) -> F {
        F::from_le_bytes_mod_order(&ff::PrimeField::to_repr(b))
    }
}
use conv::*;

/// An arbitrary level-dependent two-to-one hash over the tree's own leaf type.
#[derive(Clone)]
struct LvHash<B>(Arc<dyn Fn(usize, &B, &B) -> B + Send + Sync>);
impl<B> std::fmt::Debug for LvHash<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "hash")
    }
}
impl orchard::MerkleTreeHash for LvHash<OB> {
    fn compress(&self, level: usize, i: &[&OB; 2]) -> OB {
        (self.0)(level, i[0], i[1])
    }
}
impl sapling::MerkleTreeHash for LvHash<SB> {
    fn compress(&self, level: usize, i: &[&SB; 2]) -> SB {
        (self.0)(level, i[0], i[1])
    }
}

#[derive(Clone)]
struct Level {
    which: &'static str,
    ns: Vec<usize>,
    mode: usize,
    empty: bool,
}
const MAXLV: usize = 40;
macro_rules! level_driver {
    ($p:ty, $name:literal, $m:ident, $b:ty, $to:ident, $from:ident) => {
        impl Driver<$p> for Level {
            fn id(&self) -> String {
                format!("{}/n{}{}{}", self.which, self.ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","), MODES[self.mode], if self.empty { "/empty" } else { "" })
            }
            fn functions(&self) -> Vec<&'static str> {
                vec![concat!("merkle_tree_", $name, "::MerkleTree::new"), concat!("merkle_tree_", $name, "::MerkleTree::accumulate (and round_up_pow_n)")]
            }
            fn uses_rand(&self) -> bool {
                cfg!(not(feature = "native"))
            }
            fn check_vacuity(&self) -> bool {
                !self.empty
            }
            fn drive<E: Env<$p>>(&self, e: &mut E) {
                let fs: Vec<HashFn<E::F>> = (0..MAXLV).map(|l| e.hash_fn(&format!("L{l}"))).collect();
                let other = e.hash_fn("Lother");
                let h = LvHash::<$b>(Arc::new(move |l, a, b| {
                    let (a, b): (E::F, E::F) = ($from(a), $from(b));
                    $to(&fs.get(l).unwrap_or(&other)(&a, &b))
                }));
                let Some(mut tree) = e.run("new", || $m::MerkleTree::new(h)) else { return };
                if self.empty && self.ns.is_empty() {
                    let mut t2 = tree.clone();
                    e.expect("accumulating an empty list returned", attempt(|| t2.accumulate(&[])).is_err());
                }
                for (k, n) in self.ns.iter().enumerate() {
                    let leaves = history_list::<$p, E>(e, *n, k, self.mode);
                    let real: Vec<$b> = leaves.iter().map(|x| $to(x)).collect();
                    let mut other = if k > 0 { Some(tree.clone()) } else { None };
                    if let Some(r) = e.run("accumulate", || tree.accumulate(&real)) {
                        if !self.empty {
                            let want = root(&leaves, |l, a, b| e.uf2(&format!("L{l}'"), a, b));
                            e.eq(&format!("root of list {k} ({n} leaves)"), &$from(&r), &want);
                            if let Some(o) = other.as_mut() {
                                if let Some(r) = e.run("accumulate on a clone", || o.accumulate(&real)) {
                                    e.eq(&format!("root of list {k} on a clone"), &$from(&r), &want);
                                }
                            }
                        }
                    }
                    if self.empty {
                        let mut t2 = tree.clone();
                        e.expect("accumulating an empty list returned after another list", attempt(|| t2.accumulate(&[])).is_err());
                    }
                }
            }
        }
    };
}
level_driver!(PallasP, "orchard", orchard, OB, ob, ob_back);
level_driver!(BlsP, "sapling", sapling, SB, sb, sb_back);

#[derive(Clone)]
struct Dig {
    alg: &'static str,
    ns: Vec<usize>,
    mode: usize,
    empty: bool,
    default: bool,
}
#[cfg(not(feature = "native"))]
mod dig {
    use super::*;
    use sha2::digest::{FixedOutputReset, Out, Output};
    pub fn tree<E: Env<PallasP>, D: sha2::Digest + FixedOutputReset + Clone>(d: &Dig, e: &mut E) {
        sha2::clear_table();
        let Some(mut tree) = e.run("new", || if d.default { f2::MerkleTree::<D>::default() } else { f2::MerkleTree::<D>::new() }) else { return };
        if d.empty && d.ns.is_empty() {
            let mut t2 = tree.clone();
            e.expect("accumulating an empty list returned", attempt(|| t2.accumulate(&[])).is_err());
        }
        for (k, n) in d.ns.iter().enumerate() {
            let leaves = history_list::<PallasP, E>(e, *n, k, d.mode);
            let real: Vec<Output<D>> = leaves.iter().map(|x| Out::of(term::<E::F, PallasP>(x))).collect();
            let mut other = if k > 0 { Some(tree.clone()) } else { None };
            if let Some(r) = e.run("accumulate", || tree.accumulate(&real)) {
                if !d.empty {
                    let want: E::F = back(root(&leaves.iter().map(|x| term::<E::F, PallasP>(x)).collect::<Vec<_>>(), |_, a, b| sha2::spec2(d.alg, a, b)));
                    match r.term() {
                        Some(t) => e.eq(&format!("root of list {k} ({n} leaves)"), &back(t), &want),
                        None => e.expect(&format!("root of list {k} ({n} leaves) is not a digest"), false),
                    }
                    if let Some(o) = other.as_mut() {
                        if let Some(r) = e.run("accumulate on a clone", || o.accumulate(&real)) {
                            match r.term() {
                                Some(t) => e.eq(&format!("root of list {k} on a clone"), &back(t), &want),
                                None => e.expect(&format!("root of list {k} on a clone is not a digest"), false),
                            }
                        }
                    }
                }
            }
            if d.empty {
                let mut t2 = tree.clone();
                e.expect("accumulating an empty list returned after another list", attempt(|| t2.accumulate(&[])).is_err());
            }
        }
    }
}
#[cfg(feature = "native")]
mod dig {
    use super::*;
    use sha2::digest::{FixedOutputReset, Output};
    pub fn tree<E: Env<PallasP>, D: sha2::Digest + FixedOutputReset + Clone>(d: &Dig, e: &mut E) {
        let Some(mut tree) = e.run("new", || if d.default { f2::MerkleTree::<D>::default() } else { f2::MerkleTree::<D>::new() }) else { return };
        if d.empty && d.ns.is_empty() {
            let mut t2 = tree.clone();
            e.expect("accumulating an empty list returned", attempt(|| t2.accumulate(&[])).is_err());
        }
        for (k, n) in d.ns.iter().enumerate() {
            let leaves = history_list::<PallasP, E>(e, *n, k, d.mode);
            let real: Vec<Output<D>> = leaves
                .iter()
                .map(|x| {
                    let mut o = Output::<D>::default();
                    o.iter_mut().zip(bytes(x)).for_each(|(a, b)| *a = b);
                    o
                })
                .collect();
            let mut other = if k > 0 { Some(tree.clone()) } else { None };
            if let Some(r) = e.run("accumulate", || tree.accumulate(&real)) {
                if !d.empty {
                    let want = root(&real, |_, a, b| D::new().chain_update(a).chain_update(b).finalize());
                    e.expect(&format!("root of list {k} ({n} leaves)"), r == want);
                    if let Some(o) = other.as_mut() {
                        if let Some(r) = e.run("accumulate on a clone", || o.accumulate(&real)) {
                            e.expect(&format!("root of list {k} on a clone"), r == want);
                        }
                    }
                }
            }
            if d.empty {
                let mut t2 = tree.clone();
                e.expect("accumulating an empty list returned after another list", attempt(|| t2.accumulate(&[])).is_err());
            }
        }
    }
}
impl Driver<PallasP> for Dig {
    fn id(&self) -> String {
        format!("digest/{}/n{}{}{}{}", self.alg, self.ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","), MODES[self.mode], if self.default { "/default" } else { "" }, if self.empty { "/empty" } else { "" })
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["merkle_tree_f2::MerkleTree::{new,default}", "merkle_tree_f2::MerkleTree::accumulate (and compress, round_up_pow_n)"]
    }
    fn uses_rand(&self) -> bool {
        cfg!(not(feature = "native"))
    }
    fn check_vacuity(&self) -> bool {
        !self.empty
    }
    fn drive<E: Env<PallasP>>(&self, e: &mut E) {
        match self.alg {
            "Sha224" => dig::tree::<E, sha2::Sha224>(self, e),
            "Sha256" => dig::tree::<E, sha2::Sha256>(self, e),
            "Sha384" => dig::tree::<E, sha2::Sha384>(self, e),
            _ => dig::tree::<E, sha2::Sha512>(self, e),
        }
    }
}

fn sizes(q: bool) -> Vec<usize> {
    let mut s: Vec<usize> = if q { (1..=72).collect() } else { (1..=400).collect() };
    s.extend([95, 96, 97, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 2049]);
    if !q {
        s.extend([4095, 4096, 4097, 5000, 8192, 8193, 16384, 16385]);
    }
    s.sort();
    s.dedup();
    s
}
fn histories() -> Vec<Vec<usize>> {
    vec![vec![1, 2, 3, 1, 4, 8, 2], vec![5, 5, 5], vec![9, 3, 9, 3, 16], vec![33, 1, 33], vec![2; 40], (1..=20).rev().collect(), vec![64, 65, 64, 7], vec![1, 1, 1], vec![3, 4], vec![2, 1, 2]]
}
const ALGS: [&str; 4] = ["Sha256", "Sha512", "Sha224", "Sha384"];
fn level(which: &'static str, ns: Vec<usize>, mode: usize, empty: bool) -> Task {
    let l = Level { which, ns, mode, empty };
    if which == "orchard" {
        task::<PallasP, _>(l)
    } else {
        task::<BlsP, _>(l)
    }
}
fn all_tasks(prop: &str, q: bool) -> Vec<Task> {
    let mut v = vec![];
    match prop {
        "C09" => {
            for (i, n) in sizes(q).into_iter().enumerate() {
                for (j, alg) in ALGS.iter().enumerate() {
                    if j == i % 4 || j == 0 || n <= 9 || !q {
                        v.push(task::<PallasP, _>(Dig { alg, ns: vec![n], mode: 0, empty: false, default: i % 2 == 1 }));
                    }
                }
            }
            for (i, (ns, mode)) in same_size_histories().into_iter().enumerate() {
                v.push(task::<PallasP, _>(Dig { alg: ALGS[i % 4], ns, mode, empty: false, default: i % 2 == 1 }));
            }
            for alg in ALGS {
                for (i, ns) in histories().into_iter().enumerate() {
                    v.push(task::<PallasP, _>(Dig { alg, ns, mode: 0, empty: false, default: i % 2 == 1 }));
                }
            }
        }
        "C10" => {
            for w in ["orchard", "sapling"] {
                v.extend(sizes(q).into_iter().map(|n| level(w, vec![n], 0, false)));
                v.extend(histories().into_iter().map(|ns| level(w, ns, 0, false)));
                v.extend(same_size_histories().into_iter().map(|(ns, mode)| level(w, ns, mode, false)));
            }
        }
        "C15" => {
            for ns in [vec![], vec![1], vec![2, 3], vec![8], vec![5, 1, 5]] {
                v.push(level("orchard", ns.clone(), 0, true));
                v.push(level("sapling", ns.clone(), 0, true));
                v.push(task::<PallasP, _>(Dig { alg: "Sha256", ns: ns.clone(), mode: 0, empty: true, default: false }));
                v.push(task::<PallasP, _>(Dig { alg: "Sha512", ns, mode: 0, empty: true, default: true }));
            }
        }
        _ => panic!("unknown property {prop}"),
    }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    std::process::exit(match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&all_tasks, &a[2..]),
        Some("replay") => runner::replay(&all_tasks, &a[2]),
        _ => 2,
    });
}
