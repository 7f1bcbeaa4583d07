use crate::env::*;
use crate::tasks::*;
use ark_ff::PrimeField;
use zkhash::merkle_tree::merkle_tree_fp::{MerkleTree, MerkleTreeHash};

/// An arbitrary two-to-one hash, handed to the real tree.
#[derive(Clone)]
pub struct FnHash<F>(pub HashFn<F>);
impl<F: PrimeField> MerkleTreeHash<F> for FnHash<F> {
    fn compress(&self, i: &[&F]) -> F {
        assert!(i.len() == 2);
        (self.0)(i[0], i[1])
    }
}

/// Root of the complete binary tree over the leaves padded with the last one; `node(level, l, r)`.
pub fn root<T: Clone>(leaves: &[T], mut node: impl FnMut(usize, &T, &T) -> T) -> T {
    let mut w = 2;
    while w < leaves.len() {
        w *= 2;
    }
    let mut row: Vec<T> = (0..w).map(|i| leaves[i.min(leaves.len() - 1)].clone()).collect();
    let mut lv = 0;
    while row.len() > 1 {
        row = row.chunks(2).map(|c| node(lv, &c[0], &c[1])).collect();
        lv += 1;
    }
    row.remove(0)
}

pub struct Tree {
    pub field: &'static str,
    /// sizes of the lists accumulated one after the other on one object
    pub ns: Vec<usize>,
    pub mode: usize,
}
impl<P: PrimeField> Driver<P> for Tree {
    fn id(&self) -> String {
        format!("{}/n{}{}", self.field, self.ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","), MODES[self.mode])
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["merkle_tree_fp::MerkleTree::new", "merkle_tree_fp::MerkleTree::accumulate (and round_up_pow_n)"]
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let h = FnHash(e.hash_fn("H"));
        let Some(mut tree) = e.run("new", || MerkleTree::new(h)) else { return };
        for (k, n) in self.ns.iter().enumerate() {
            let leaves = history_list::<P, E>(e, *n, k, self.mode);
            let mut other = if k > 0 { Some(tree.clone()) } else { None };
            if let Some(r) = e.run("accumulate", || tree.accumulate(&leaves)) {
                let want = root(&leaves, |_, a, b| e.uf2("H'", a, b));
                e.eq(&format!("root of list {k} ({n} leaves)"), &r, &want);
                if let Some(o) = other.as_mut() {
                    if let Some(r) = e.run("accumulate on a clone", || o.accumulate(&leaves)) {
                        e.eq(&format!("root of list {k} on a clone"), &r, &want);
                    }
                }
            }
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut sizes: Vec<usize> = if q { (1..=72).collect() } else { (1..=600).collect() };
    sizes.extend([95, 96, 97, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
    if !q {
        sizes.extend([5000, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 32769, 65535, 65536, 65537]);
    }
    sizes.sort();
    sizes.dedup();
    let mut v: Vec<Task> = sizes.into_iter().enumerate().map(|(i, n)| by_field(i % 6, move |field| Tree { field, ns: vec![n], mode: 0 })).collect();
    for (i, ns) in [vec![1, 2, 3, 1, 4, 8, 2], vec![5, 5, 5], vec![9, 3, 9, 3, 16], vec![33, 1, 33], vec![2; 40], (1..=20).rev().collect(), vec![64, 65, 64, 7]].into_iter().enumerate() {
        v.push(by_field(i % 6, move |field| Tree { field, ns: ns.clone(), mode: 0 }));
    }
    for (i, (ns, mode)) in same_size_histories().into_iter().enumerate() {
        v.push(by_field(i % 6, move |field| Tree { field, ns: ns.clone(), mode }));
    }
    v
}
