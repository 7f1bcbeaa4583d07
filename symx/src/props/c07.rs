//! Injectivity of the permutations.
use super::c02::{lift, lift2};
use super::util::*;
use crate::env::*;
use crate::refs;
use crate::ship::*;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use symcore::inject;
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams, *};
use zkhash::neptune::{neptune::Neptune, neptune_instances::*, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams, *};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params, *};

/// The specification as a list of layers, to run it backwards on concrete values.
enum Layer<F> {
    Lin(Vec<Vec<F>>),
    Add(Vec<F>),
    Pow(usize, usize), // the first n elements
    Pairs(F),
    Feistel(F, usize, bool),
}
use Layer::*;
fn solve<F: PrimeField>(m: &[Vec<F>], y: &[F]) -> Option<Vec<F>> {
    let n = m.len();
    let mut a: Vec<Vec<F>> = m.iter().zip(y).map(|(r, y)| r.iter().copied().chain([*y]).collect()).collect();
    for c in 0..n {
        let k = (c..n).find(|k| !a[*k][c].is_zero())?;
        a.swap(c, k);
        let inv = a[c][c].inverse()?;
        for v in a[c].iter_mut() {
            *v *= inv;
        }
        let pr = a[c].clone();
        for (k, row) in a.iter_mut().enumerate() {
            if k != c && !row[c].is_zero() {
                let f = row[c];
                for (x, y) in row.iter_mut().zip(&pr) {
                    *x -= f * y;
                }
            }
        }
    }
    Some(a.iter().map(|r| r[n]).collect())
}
impl<F: PrimeField> Layer<F> {
    fn fwd(&self, s: &[F]) -> Vec<F> {
        match self {
            Lin(m) => refs::matvec(m, s),
            Add(c) => s.iter().zip(c).map(|(a, b)| *a + b).collect(),
            Pow(n, d) => s.iter().enumerate().map(|(i, x)| if i < *n { refs::power(*x, *d) } else { *x }).collect(),
            Pairs(g) => s.chunks(2).flat_map(|c| <[F; 2]>::from(refs::neptune_sbox(c[0], c[1], *g))).collect(),
            Feistel(c, d, rot) => {
                let p = refs::power(s[0] + c, *d);
                let mut n: Vec<F> = s.iter().enumerate().map(|(i, x)| if i > 0 { *x + p } else { *x }).collect();
                if *rot {
                    n.rotate_right(1);
                }
                n
            }
        }
    }
    /// The derivative at `s` in the direction `v`.
    fn tangent(&self, s: &[F], v: &[F]) -> Vec<F> {
        let two = F::from(2u64);
        match self {
            Lin(m) => refs::matvec(m, v),
            Add(_) => v.to_vec(),
            Pow(n, d) => s.iter().zip(v).enumerate().map(|(i, (x, v))| if i < *n { refs::power(*x, *d - 1) * F::from(*d as u64) * v } else { *v }).collect(),
            Pairs(g) => s
                .chunks(2)
                .zip(v.chunks(2))
                .flat_map(|(c, v)| {
                    let (z, zd) = (c[0] - c[1], v[0] - v[1]);
                    let (w, wd) = (z - c[1] - z * z + g, zd - v[1] - two * z * zd);
                    let q = two * w * wd;
                    [two * v[0] + v[1] + F::from(6u64) * z * zd + q, v[0] + F::from(3u64) * v[1] + F::from(8u64) * z * zd + q]
                })
                .collect(),
            Feistel(c, d, rot) => {
                let p = refs::power(s[0] + c, *d - 1) * F::from(*d as u64) * v[0];
                let mut n: Vec<F> = v.iter().enumerate().map(|(i, x)| if i > 0 { *x + p } else { *x }).collect();
                if *rot {
                    n.rotate_right(1);
                }
                n
            }
        }
    }
    fn bwd<P: PrimeField>(&self, s: &[F]) -> Option<Vec<F>> {
        Some(match self {
            Lin(m) => solve(m, s)?,
            Add(c) => s.iter().zip(c).map(|(a, b)| *a - b).collect(),
            Pow(n, d) => {
                let e = inject::root_exponent::<P>(*d as u64)?;
                s.iter().enumerate().map(|(i, x)| if i < *n { x.pow(&e) } else { *x }).collect()
            }
            Pairs(g) => s
                .chunks(2)
                .flat_map(|c| {
                    let w = c[0] - c[1] + g;
                    let z = (F::from(4u64) * c[0] - F::from(3u64) * c[1] - w * w) * F::from(5u64).inverse().unwrap();
                    // w = x1 - 2 x2 - z^2 + g, z = x1 - x2
                    let x2 = z - z * z + g - w;
                    [x2 + z, x2]
                })
                .collect(),
            Feistel(c, d, rot) => {
                let mut n = s.to_vec();
                if *rot {
                    n.rotate_left(1);
                }
                let p = refs::power(n[0] + c, *d);
                for x in n[1..].iter_mut() {
                    *x -= p;
                }
                n
            }
        })
    }
}
fn back<P: PrimeField, F: PrimeField>(l: &[Layer<F>], y: &[F]) -> Option<Vec<F>> {
    let mut s = y.to_vec();
    for x in l.iter().rev() {
        s = x.bwd::<P>(&s)?;
    }
    Some(s)
}
/// Other states that could have the same image as `x`, if the layers describe the code.
fn twins<P: PrimeField, F: PrimeField>(l: &[Layer<F>], x: &[F]) -> Vec<Vec<F>> {
    let mut out = vec![];
    let mut s = x.to_vec();
    for (k, layer) in l.iter().enumerate() {
        let mut other = None;
        match layer {
            Lin(m) => {
                if let Some(d) = inject::kernel(m.clone(), m.len()) {
                    other = Some(s.iter().zip(&d).map(|(a, b)| *a + b).collect::<Vec<F>>());
                }
            }
            Pow(_, d) => {
                let g = inject::gcd::<P>(*d as u64);
                if g > 1 {
                    let om = F::GENERATOR.pow({
                        let n: num_bigint::BigUint = P::MODULUS.into();
                        ((n - 1u32) / g).to_u64_digits()
                    });
                    let mut v = s.clone();
                    v[0] *= om;
                    other = Some(v);
                }
            }
            _ => {}
        }
        if let Some(v) = other {
            if let Some(x2) = back::<P, F>(&l[..k], &v) {
                out.push(x2);
            }
            break;
        }
        s = layer.fwd(&s);
    }
    out
}
/// States that differ from `x` before some linear layer by the image of the direction `d`.
fn shifted<P: PrimeField, F: PrimeField>(l: &[Layer<F>], x: &[F], d: &[F]) -> Vec<Vec<F>> {
    let (mut s, mut d) = (x.to_vec(), d.to_vec());
    let mut out = vec![];
    for (k, layer) in l.iter().enumerate() {
        if matches!(layer, Lin(_) | Feistel(..)) && out.len() < 40 {
            let v: Vec<F> = s.iter().zip(&d).map(|(a, b)| *a + b).collect();
            out.extend(back::<P, F>(&l[..k], &v));
        }
        let (s2, d2) = (layer.fwd(&s), layer.tangent(&s, &d));
        s = s2;
        d = d2;
    }
    out
}
/// One permutation: on symbolic values the obligations, on concrete ones the search for a collision.
fn judge<P: PrimeField, E: Env<P>>(e: &mut E, label: &str, t: usize, layers: &[Layer<E::F>], want: &dyn Fn(&[E::F]) -> Vec<E::F>, perm: &dyn Fn(&[E::F]) -> Vec<E::F>) {
    let x = e.vars("x", t);
    let x2 = e.vars("x2", t);
    let dx = e.vars("dx", t);
    let Ok(out) = attempt(|| perm(&x)) else { e.give_up("the permutation panics") };
    if out.len() != t {
        e.give_up("output of another length");
    }
    if !e.concrete() {
        e.injective(label, &x, "x2", &out);
        if e.branched() {
            let w = want(&x);
            e.eqv(&format!("{label}: special case"), &out, &w);
        }
        return;
    }
    let mut cands = vec![x2];
    cands.extend(back::<P, E::F>(layers, &out));
    cands.extend(twins::<P, E::F>(layers, &x));
    cands.extend(shifted::<P, E::F>(layers, &x, &dx));
    for c in cands {
        if c != x {
            if let Ok(o) = attempt(|| perm(&c)) {
                let s = |v: &[E::F]| v.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(", ");
                e.expect(&format!("{label}: the different state [{}] has the same image", s(&c)), o != out);
            }
        }
    }
}
fn p2_layers<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, diag: &[F], rc: &[Vec<F>]) -> Vec<Layer<F>> {
    let (me, mi) = (refs::p2_external::<F>(t), refs::p2_internal::<F>(t, diag));
    let mut l = vec![Lin(me.clone())];
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            l.extend([Add(rc[r].clone()), Pow(t, d), Lin(me.clone())]);
        } else {
            let mut c = vec![F::zero(); t];
            c[0] = rc[r][0];
            l.extend([Add(c), Pow(1, d), Lin(mi.clone())]);
        }
    }
    l
}
fn p1_layers<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>]) -> Vec<Layer<F>> {
    let mut l = vec![];
    for r in 0..rf + rp {
        let full = r < rf / 2 || r >= rf / 2 + rp;
        l.extend([Add(rc[r].clone()), Pow(if full { t } else { 1 }, d), Lin(mds.to_vec())]);
    }
    l
}
fn gm_layers<F: PrimeField>(d: usize, rc: &[F]) -> Vec<Layer<F>> {
    rc.iter().enumerate().map(|(r, c)| Feistel(*c, d, r + 1 < rc.len())).collect()
}
fn np_layers<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, n: &NeptuneHeld<F>) -> Vec<Layer<F>> {
    let mut l = vec![Lin(n.m_e.clone())];
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            l.extend([Pairs(n.abc[2]), Lin(n.m_e.clone())]);
        } else {
            l.extend([Pow(1, d), Lin(ones_plus(&n.mu))]);
        }
        l.push(Add(n.rc[r].clone()));
    }
    let _ = t;
    l
}
#[derive(Clone, Copy)]
pub struct Shape {
    pub field: &'static str,
    pub hash: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
}
fn run_p2<P: PrimeField, E: Env<P>>(e: &mut E, t: usize, d: usize, rf: usize, rp: usize, diag: &[E::F], mat: &[Vec<E::F>], rc: &[Vec<E::F>]) {
    let Ok(p) = attempt(|| Arc::new(Poseidon2Params::<E::F>::new(t, d, rf, rp, diag, mat, rc))) else { e.give_up("constructor panics") };
    let h = Poseidon2::new(&p);
    judge::<P, E>(e, "permutation", t, &p2_layers(t, d, rf, rp, diag, rc), &|x| refs::poseidon2(t, d, rf, rp, diag, rc, x), &|x| h.permutation(x));
}
fn run_p1<P: PrimeField, E: Env<P>>(e: &mut E, t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<E::F>], rc: &[Vec<E::F>]) {
    let Ok(p) = attempt(|| Arc::new(PoseidonParams::<E::F>::new(t, d, rf, rp, mds, rc))) else { e.give_up("constructor panics") };
    let h = Poseidon::new(&p);
    let l = p1_layers(t, d, rf, rp, mds, rc);
    let want = |x: &[E::F]| refs::poseidon(t, d, rf, rp, mds, rc, x);
    judge::<P, E>(e, "permutation", t, &l, &want, &|x| h.permutation(x));
    judge::<P, E>(e, "permutation_not_opt", t, &l, &want, &|x| h.permutation_not_opt(x));
}
fn run_gm<P: PrimeField, E: Env<P>>(e: &mut E, t: usize, d: usize, rounds: usize) {
    let Ok(p) = attempt(|| Arc::new(GmimcParams::<E::F>::new(t, d, rounds))) else { e.give_up("constructor panics") };
    let Some(rc) = gmimc_rc::<P, E, _>(e, &*p, rounds) else { e.give_up("too few constants") };
    let h = Gmimc::new(&p);
    let l = gm_layers(d, &rc);
    let want = |x: &[E::F]| refs::gmimc(t, d, &rc, x);
    judge::<P, E>(e, "permutation", t, &l, &want, &|x| h.permutation(x));
    judge::<P, E>(e, "permutation_not_opt", t, &l, &want, &|x| h.permutation_not_opt(x));
}
fn run_np<P: PrimeField, E: Env<P>>(e: &mut E, t: usize, d: usize, rf: usize, rp: usize) {
    e.fix_draws();
    let Ok(p) = attempt(|| Arc::new(NeptuneParams::<E::F>::new(t, d, rf, rp))) else { e.give_up("constructor panics") };
    let Some(n) = neptune_held::<P, E, _>(e, &*p, t, rf + rp) else { e.give_up("parameters not readable") };
    let h = Neptune::new(&p);
    judge::<P, E>(e, "permutation", t, &np_layers(t, d, rf, rp, &n), &|x| refs::neptune(t, d, rf, rp, &n.m_e, &n.mu, n.abc[2], &n.rc, x), &|x| h.permutation(x));
}
fn fns(hash: &str) -> Vec<&'static str> {
    match hash {
        "poseidon2" => vec!["Poseidon2::permutation", "Poseidon2Params::new"],
        "poseidon" => vec!["Poseidon::permutation", "Poseidon::permutation_not_opt", "PoseidonParams::new"],
        "gmimc" => vec!["Gmimc::permutation", "Gmimc::permutation_not_opt", "GmimcParams::new"],
        _ => vec!["Neptune::permutation", "NeptuneParams::new"],
    }
}
impl<P: PrimeField> Driver<P> for Shape {
    fn id(&self) -> String {
        format!("{}/{}/t{}/d{}/rf{}/rp{}", self.hash, self.field, self.t, self.d, self.rf, self.rp)
    }
    fn functions(&self) -> Vec<&'static str> {
        fns(self.hash)
    }
    fn uses_rand(&self) -> bool {
        matches!(self.hash, "gmimc" | "neptune")
    }
    fn max_paths(&self) -> usize {
        16
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let Shape { t, d, rf, rp, .. } = *self;
        let rc = |e: &E| -> Vec<Vec<E::F>> {
            let mut s = 0xc07u64;
            (0..rf + rp).map(|_| (0..t).map(|_| e.c(crate::ctx::rand_elem(&mut s))).collect()).collect()
        };
        match self.hash {
            "poseidon2" => {
                let mut rc = rc(e);
                for r in rf / 2..rf / 2 + rp {
                    for c in rc[r][1..].iter_mut() {
                        *c = e.u(0);
                    }
                }
                let diag: Vec<E::F> = (0..t).map(|i| if t < 4 { e.u([1, 1, 2][i + (t == 2) as usize]) } else { e.u(3 + (i * i) as u64) }).collect();
                run_p2::<P, E>(e, t, d, rf, rp, &diag, &refs::p2_internal(t, &diag), &rc);
            }
            "poseidon" => {
                let (m, rc) = (cauchy::<P, E>(e, t, 3), rc(e));
                run_p1::<P, E>(e, t, d, rf, rp, &m, &rc);
            }
            "gmimc" => run_gm::<P, E>(e, t, d, rf),
            _ => run_np::<P, E>(e, t, d, rf, rp),
        }
    }
}
enum Obj<P: PrimeField> {
    P2(fn() -> P2<P>),
    P1(fn() -> P1<P>),
    G(fn() -> Gm<P>),
    N(fn() -> Np<P>),
}
pub struct Shipped<P: PrimeField> {
    hash: &'static str,
    name: String,
    obj: Obj<P>,
}
impl<P: PrimeField> Driver<P> for Shipped<P> {
    fn id(&self) -> String {
        format!("shipped/{}/{}", self.hash, self.name)
    }
    fn functions(&self) -> Vec<&'static str> {
        fns(self.hash)
    }
    fn uses_rand(&self) -> bool {
        matches!(self.hash, "gmimc" | "neptune")
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn max_paths(&self) -> usize {
        12
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        match self.obj {
            Obj::P2(f) => {
                let Ok(Some(o)) = attempt(|| held2::<P>(&format!("{:?}", *f()))) else { e.give_up("shipped object not readable") };
                let (diag, mat, rc) = (lift(e, &o.diag), lift2(e, &o.mat), lift2(e, &o.rc));
                run_p2::<P, E>(e, o.t, o.d, o.rf, o.rp, &diag, &mat, &rc);
            }
            Obj::P1(f) => {
                let Ok(Some(o)) = attempt(|| held1::<P>(&format!("{:?}", *f()))) else { e.give_up("shipped object not readable") };
                let (mds, rc) = (lift2(e, &o.mat), lift2(e, &o.rc));
                run_p1::<P, E>(e, o.t, o.d, o.rf, o.rp, &mds, &rc);
            }
            Obj::G(f) => {
                let Ok(o) = attempt(f) else { e.give_up("shipped object panics") };
                let Some(d) = crate::dbg::parse(&format!("{:?}", *o)).and_then(|v| v.get("d").and_then(|x| x.usize())) else { e.give_up("degree not readable") };
                run_gm::<P, E>(e, o.get_t(), d, o.get_rounds());
            }
            Obj::N(f) => {
                let Ok(o) = attempt(f) else { e.give_up("shipped object panics") };
                let Some(v) = crate::dbg::parse(&format!("{:?}", *o)) else { e.give_up("object not readable") };
                let g = |k: &str| v.get(k).and_then(|x| x.usize()).unwrap_or_else(|| e.give_up("object not readable"));
                let (rb, re, rp) = v.schedule().unwrap_or_else(|| e.give_up("object not readable"));
                let (t, d, rf) = (g("t"), g("d"), rb + re);
                run_np::<P, E>(e, t, d, rf, rp);
            }
        }
    }
}
fn good(f: usize, d: usize) -> bool {
    match f {
        0 => inject::coprime::<FpBLS12>(d as u64),
        1 => inject::coprime::<FpBN256>(d as u64),
        2 => inject::coprime::<FpPallas>(d as u64),
        3 => inject::coprime::<FpVesta>(d as u64),
        4 => inject::coprime::<FpGoldiLocks>(d as u64),
        _ => inject::coprime::<FpBabyBear>(d as u64),
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    let mut n = 0usize;
    for (hash, ts, ds) in [("poseidon2", vec![2usize, 3, 4, 8, 12, 16, 20, 24], vec![3usize, 5, 7, 11]), ("poseidon", vec![2, 3, 4, 5, 8, 12, 16, 24], vec![3, 5, 7]), ("gmimc", (2..=24).collect(), vec![3, 5, 7]), ("neptune", vec![2, 4, 6, 8, 10, 12, 16, 20, 24], vec![3, 5, 7])] {
        for t in ts {
            for d in &ds {
                let splits: Vec<(usize, usize)> = match hash {
                    "gmimc" if q => vec![([1, 2, t, t + 1, 2 * t + 3][n % 5], 0)],
                    "gmimc" => vec![(1, 0), (t, 0), (2 * t + 3, 0), (7, 0)],
                    _ if q => vec![[(2, 2), (4, 1), (2, 5), (6, 3)][n % 4]],
                    _ => vec![(2, 2), (4, 1), (2, 5), (6, 3), (8, 22)],
                };
                n += 1;
                for (k, (rf, rp)) in splits.into_iter().enumerate() {
                    let Some(f) = (0..6).map(|i| (i + n + k) % 6).find(|f| hash == "gmimc" || good(*f, *d)) else { continue };
                    v.push(by_field(f, |field| Shape { field, hash, t, d: *d, rf, rp }));
                }
            }
        }
    }
    macro_rules! p2 {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Shipped::<$t> { hash: "poseidon2", name: $n.into(), obj: Obj::P2(|| $s.clone()) }));
        };
    }
    poseidon2_all!(p2);
    macro_rules! p1 {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Shipped::<$t> { hash: "poseidon", name: $n.into(), obj: Obj::P1(|| $s.clone()) }));
        };
    }
    poseidon_all!(p1);
    macro_rules! gm {
        ($i:expr, $t:ty, $f:expr, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Shipped::<$t> { hash: "gmimc", name: format!("{}-t{}", $f, $n), obj: Obj::G(|| $s.clone()) }));
        };
    }
    gmimc_all!(gm);
    macro_rules! np {
        ($i:expr, $t:ty, $f:expr, $n:expr, $s:expr) => {
            v.push(task::<$t, _>(Shipped::<$t> { hash: "neptune", name: format!("{}-t{}", $f, $n), obj: Obj::N(|| $s.clone()) }));
        };
    }
    neptune_all!(np);
    v
}
