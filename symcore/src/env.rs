//! What a property driver sees.  The same driver runs symbolically, on concrete values through
//! the symbolic field type (scripted randomness), and natively on the real field type.
use crate::ctx::{self, Ctx};
use crate::ctx::Id;
use crate::symf::SymF;
use ark_ff::PrimeField;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type HashFn<F> = Arc<dyn Fn(&F, &F) -> F + Send + Sync>;

pub trait Env<P: PrimeField> {
    type F: PrimeField;
    /// An arbitrary two-to-one function, as something that can be handed to the real code.
    fn hash_fn(&self, tag: &str) -> HashFn<Self::F>;
    const NATIVE: bool;
    fn var(&mut self, name: &str) -> Self::F;
    fn c(&self, v: P) -> Self::F;
    fn eq(&mut self, label: &str, got: &Self::F, want: &Self::F);
    fn ne(&mut self, label: &str, a: &Self::F, b: &Self::F);
    fn expect(&mut self, label: &str, ok: bool);
    fn uf2(&mut self, tag: &str, a: &Self::F, b: &Self::F) -> Self::F;
    fn uf1(&mut self, tag: &str, a: &Self::F) -> Self::F;
    fn debug<T: std::fmt::Debug>(&self, t: &T) -> String;
    fn sym_elem(&self, id: u32) -> Self::F;
    /// Identity of an element as a term: equal only if syntactically the same (symbolic) or equal.
    fn ident(&self, a: &Self::F) -> String;

    /// (index, a, b) if the element is a * rand[index] + b with a != 0; the driver then asserts it.
    fn affine_draw(&self, a: &Self::F) -> Option<(usize, P, P)>;
    /// The draw itself, as an element.
    fn draw(&self, ix: usize) -> Self::F;
    /// Number of draws so far.
    fn draws(&self) -> usize;
    /// What the generators handed to the field type produced so far, one word per draw.
    fn rng_words(&self) -> Vec<u64>;
    fn concrete(&self) -> bool;
    /// Zero on the values of this path (no branch is recorded).
    fn zero_here(&self, a: &Self::F) -> bool;
    /// Structural failures recorded so far.
    fn failed(&self) -> usize {
        0
    }
    /// From here on random draws are fixed values instead of variables.
    fn fix_draws(&mut self) {}
    /// Two elements that are the same non-injective polynomial of one draw each: distinct draws on
    /// which they agree are set for the replay.
    fn twin_draws(&mut self, _items: &[(String, Self::F)]) {}
    /// Obligations that show the outputs to determine the inputs (no-op on concrete values).
    fn injective(&mut self, _label: &str, _x: &[Self::F], _x2: &str, _out: &[Self::F]) {}
    /// The path so far depends on symbolic data.
    fn branched(&self) -> bool {
        false
    }
    /// The machinery cannot read what it needs from the object: no verdict for this configuration.
    fn give_up(&self, why: &str) -> ! {
        panic!("SYMX-LIMIT {why}")
    }
    fn u(&self, v: u64) -> Self::F {
        self.c(P::from(v))
    }
    fn vars(&mut self, name: &str, n: usize) -> Vec<Self::F> {
        (0..n).map(|i| self.var(&format!("{name}[{i}]"))).collect()
    }
    fn eqv(&mut self, label: &str, got: &[Self::F], want: &[Self::F]) {
        self.expect(&format!("{label}: length"), got.len() == want.len());
        for (i, (a, b)) in got.iter().zip(want).enumerate() {
            self.eq(&format!("{label}[{i}]"), a, b);
        }
    }
    /// Run real code that must not panic.
    fn run<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        match attempt(f) {
            Ok(t) => Some(t),
            Err(m) => {
                self.expect(&format!("{label}: panicked: {m}"), false);
                None
            }
        }
    }
}

pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            if m.contains("SYMX-LIMIT") {
                std::panic::resume_unwind(Box::new(m));
            }
            Err(m)
        }
    }
}

/// Symbolic run, or (ctx.concrete) a concrete run through the same type.
pub struct SymEnv<P: PrimeField>(pub PhantomData<P>);
impl<P: PrimeField> Env<P> for SymEnv<P> {
    type F = SymF<P>;
    fn hash_fn(&self, tag: &str) -> HashFn<SymF<P>> {
        let t = tag.to_string();
        Arc::new(move |a, b| uf2::<P>(&t, a, b))
    }
    const NATIVE: bool = false;
    fn var(&mut self, name: &str) -> SymF<P> {
        ctx::with::<P, _>(|x| {
            if x.concrete {
                if let Some(v) = x.inputs.get(name) {
                    return SymF::C(v[0]);
                }
                let v: P = ctx::rand_elem(&mut x.rng);
                x.inputs.insert(name.to_string(), [v; ctx::LANES]);
                SymF::C(v)
            } else {
                SymF::S(x.var(name))
            }
        })
    }
    fn c(&self, v: P) -> SymF<P> {
        SymF::C(v)
    }
    fn eq(&mut self, label: &str, a: &SymF<P>, b: &SymF<P>) {
        let (i, j) = (a.node(), b.node());
        ctx::with::<P, _>(|x| {
            if x.vals[i as usize][0] != x.vals[j as usize][0] {
                x.failures.push(label.to_string());
            }
            x.obligations.push(ctx::Obligation { label: label.into(), a: i, b: j, negated: false })
        })
    }
    fn ne(&mut self, label: &str, a: &SymF<P>, b: &SymF<P>) {
        let (i, j) = (a.node(), b.node());
        ctx::with::<P, _>(|x| {
            if x.vals[i as usize][0] == x.vals[j as usize][0] {
                x.failures.push(label.to_string());
            }
            x.obligations.push(ctx::Obligation { label: label.into(), a: i, b: j, negated: true })
        })
    }
    fn expect(&mut self, label: &str, ok: bool) {
        if !ok {
            ctx::with::<P, _>(|x| x.failures.push(label.to_string()))
        }
    }
    fn uf2(&mut self, tag: &str, a: &SymF<P>, b: &SymF<P>) -> SymF<P> {
        uf2::<P>(tag, a, b)
    }
    fn uf1(&mut self, tag: &str, a: &SymF<P>) -> SymF<P> {
        uf1::<P>(tag, a)
    }
    fn debug<T: std::fmt::Debug>(&self, t: &T) -> String {
        ctx::with::<P, _>(|x| x.quiet_fmt = true);
        let s = format!("{:?}", t);
        ctx::with::<P, _>(|x| x.quiet_fmt = false);
        s
    }
    fn sym_elem(&self, id: u32) -> SymF<P> {
        SymF::from_node(id)
    }
    fn zero_here(&self, a: &SymF<P>) -> bool {
        match a {
            SymF::C(c) => c.is_zero(),
            SymF::S(i) => ctx::with::<P, _>(|x| x.vals[*i as usize][0].is_zero()),
        }
    }
    fn fix_draws(&mut self) {
        ctx::with::<P, _>(|x| x.fix_draws = true)
    }
    fn injective(&mut self, label: &str, xs: &[SymF<P>], x2: &str, out: &[SymF<P>]) {
        if self.concrete() {
            return;
        }
        let (a, b): (Vec<u32>, Vec<u32>) = (xs.iter().map(|v| v.node()).collect(), out.iter().map(|v| v.node()).collect());
        ctx::with::<P, _>(|x| crate::inject::injective(x, label, &a, x2, &b))
    }
    fn branched(&self) -> bool {
        ctx::with::<P, _>(|x| !x.decisions.is_empty())
    }
    fn affine_draw(&self, a: &SymF<P>) -> Option<(usize, P, P)> {
        let SymF::S(i) = *a else { return None };
        ctx::with::<P, _>(|x| x.affine_var(i)).and_then(|(n, a, b)| Some((n.strip_prefix("rand[")?.strip_suffix(']')?.parse().ok()?, a, b)))
    }
    fn draw(&self, ix: usize) -> SymF<P> {
        ctx::with::<P, _>(|x| {
            let n = format!("rand[{ix}]");
            if x.concrete {
                match x.inputs.get(&n) {
                    Some(v) => SymF::C(v[0]),
                    None => panic!("SYMX-LIMIT no such draw"),
                }
            } else {
                SymF::S(x.var(&n))
            }
        })
    }
    fn failed(&self) -> usize {
        ctx::with::<P, _>(|x| x.failures.len())
    }
    fn twin_draws(&mut self, items: &[(String, SymF<P>)]) {
        ctx::with::<P, _>(|x| {
            let fs: Vec<(usize, Id, crate::roots::Poly<P>)> = items
                .iter()
                .enumerate()
                .filter_map(|(n, (_, a))| {
                    let SymF::S(i) = *a else { return None };
                    x.one_var(i).map(|(v, f)| (n, v, f))
                })
                .filter(|(_, v, f)| f.len() > 2 && matches!(x.nodes[*v as usize], ctx::Node::Var(k) if x.var_names[k as usize].starts_with("rand[")))
                .collect();
            for (k, (n, v, f)) in fs.iter().enumerate() {
                for (m, w, _) in fs[..k].iter().filter(|(_, w, g)| w != v && g == f) {
                    let d = x.vals[*w as usize][0];
                    let mut h = f.clone();
                    h[0] -= f.iter().rev().fold(P::zero(), |s, c| s * d + *c);
                    if let Some(z) = crate::roots::roots(&h, &mut 7, 4).into_iter().find(|z| *z != d) {
                        let ctx::Node::Var(q) = x.nodes[*v as usize] else { continue };
                        let name = x.var_names[q as usize].clone();
                        x.inputs.insert(name, [z; ctx::LANES]);
                        x.failures.push(format!("{} and {} agree on different draws", items[*n].0, items[*m].0));
                        return;
                    }
                }
            }
        })
    }
    fn draws(&self) -> usize {
        ctx::with::<P, _>(|x| x.rng_words.len())
    }
    fn rng_words(&self) -> Vec<u64> {
        ctx::with::<P, _>(|x| x.rng_words.clone())
    }
    fn concrete(&self) -> bool {
        ctx::with::<P, _>(|x| x.concrete)
    }
    fn ident(&self, a: &SymF<P>) -> String {
        match a {
            SymF::C(c) => format!("c{}", c),
            SymF::S(i) => format!("n{}", i),
        }
    }
}
pub fn uf1<P: PrimeField>(tag: &str, a: &SymF<P>) -> SymF<P> {
    let i = a.node();
    ctx::with::<P, _>(|x| {
        x.uf_apps += 1;
        if x.concrete {
            return SymF::C(ctx::uf_eval(tag, x.vals[i as usize][0], P::zero()));
        }
        let t = x.uf_tag(tag);
        SymF::S(x.push(ctx::Node::Uf1(t, i)))
    })
}
pub fn uf2<P: PrimeField>(tag: &str, a: &SymF<P>, b: &SymF<P>) -> SymF<P> {
    let (i, j) = (a.node(), b.node());
    ctx::with::<P, _>(|x| {
        x.uf_apps += 1;
        if x.concrete {
            return SymF::C(ctx::uf_eval(tag, x.vals[i as usize][0], x.vals[j as usize][0]));
        }
        let t = x.uf_tag(tag);
        SymF::S(x.push(ctx::Node::Uf(t, i, j)))
    })
}

/// The real field type: replays.
pub struct NativeEnv<P: PrimeField> {
    pub inputs: HashMap<String, P>,
    pub failures: Vec<String>,
}
impl<P: PrimeField> Env<P> for NativeEnv<P> {
    type F = P;
    fn hash_fn(&self, tag: &str) -> HashFn<P> {
        let t = tag.to_string();
        Arc::new(move |a, b| ctx::uf_eval(&t, *a, *b))
    }
    const NATIVE: bool = true;
    fn var(&mut self, name: &str) -> P {
        *self.inputs.get(name).unwrap_or(&P::from(7u64))
    }
    fn c(&self, v: P) -> P {
        v
    }
    fn eq(&mut self, label: &str, a: &P, b: &P) {
        if a != b {
            self.failures.push(format!("{label}: got {} want {}", a, b));
        }
    }
    fn ne(&mut self, label: &str, a: &P, b: &P) {
        if a == b {
            self.failures.push(format!("{label}: both {}", a));
        }
    }
    fn expect(&mut self, label: &str, ok: bool) {
        if !ok {
            self.failures.push(label.to_string());
        }
    }
    fn uf2(&mut self, tag: &str, a: &P, b: &P) -> P {
        ctx::uf_eval(tag, *a, *b)
    }
    fn uf1(&mut self, tag: &str, a: &P) -> P {
        ctx::uf_eval(tag, *a, P::zero())
    }
    fn debug<T: std::fmt::Debug>(&self, t: &T) -> String {
        format!("{:?}", t)
    }
    fn sym_elem(&self, _id: u32) -> P {
        panic!("symbolic element in a native run")
    }
    fn zero_here(&self, a: &P) -> bool {
        a.is_zero()
    }
    fn affine_draw(&self, _a: &P) -> Option<(usize, P, P)> {
        None
    }
    fn draw(&self, _ix: usize) -> P {
        panic!("no scripted draws in a native run")
    }
    fn draws(&self) -> usize {
        0
    }
    fn rng_words(&self) -> Vec<u64> {
        vec![]
    }
    fn concrete(&self) -> bool {
        true
    }
    fn ident(&self, a: &P) -> String {
        format!("c{}", a)
    }
}

pub trait Driver<P: PrimeField>: Send + Sync {
    fn id(&self) -> String;
    fn drive<E: Env<P>>(&self, e: &mut E);
    /// The driver draws randomness through the field type, so a native replay cannot script it.
    fn uses_rand(&self) -> bool {
        false
    }
    fn max_paths(&self) -> usize {
        24
    }
    /// Functions of the repository this driver executes symbolically.
    fn functions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn check_vacuity(&self) -> bool {
        true
    }
    fn only_base_path_panics_ok(&self) -> bool {
        false
    }
}

#[allow(dead_code)]
pub fn run_concrete<P: PrimeField, D: Driver<P>>(d: &D, inputs: &HashMap<String, P>) -> Vec<String> {
    let mut c = Ctx::<P>::new(1);
    c.concrete = true;
    for (k, v) in inputs {
        c.inputs.insert(k.clone(), [*v; ctx::LANES]);
    }
    ctx::install(c);
    let r = catch_unwind(AssertUnwindSafe(|| d.drive(&mut SymEnv(PhantomData))));
    let c = ctx::take::<P>();
    // a panic outside the guarded calls of real code is the driver's own: no verdict
    if r.is_err() {
        return vec![];
    }
    c.failures
}
pub fn run_native<P: PrimeField, D: Driver<P>>(d: &D, inputs: &HashMap<String, P>) -> Vec<String> {
    let mut e = NativeEnv { inputs: inputs.clone(), failures: vec![] };
    if catch_unwind(AssertUnwindSafe(|| d.drive(&mut e))).is_err() {
        return vec![];
    }
    e.failures
}

pub const MODES: [&str; 4] = ["", "/fresh", "/alt", "/perm"];
/// The `k`-th list (of `n` elements) of a history: mode 0 repeats the list of that size, 1 takes new elements, 2 changes one
/// element of it, 3 reorders it.
pub fn history_list<P: PrimeField, E: Env<P>>(e: &mut E, n: usize, k: usize, mode: usize) -> Vec<E::F> {
    if mode == 1 {
        return e.vars(&format!("leaf{n}.{k}_"), n);
    }
    let mut v = e.vars(&format!("leaf{n}_"), n);
    if mode == 2 && k > 0 {
        let at = [n / 2, 0, n - 1, 1, n / 3][(k - 1) % 5] % n;
        v[at] = e.var(&format!("alt{k}"));
    }
    if mode == 3 && k > 0 && n > 1 {
        match k % 4 {
            1 => v.swap(n / 2 - 1, n / 2),
            2 => v.swap(0, n - 1),
            3 => v.reverse(),
            _ => {}
        }
    }
    v
}
/// Histories of lists of equal size, to be run in the modes above.
pub fn same_size_histories() -> Vec<(Vec<usize>, usize)> {
    let mut v = vec![];
    for mode in 1..4 {
        for ns in [vec![1, 1], vec![2; 5], vec![3, 3, 3], vec![4; 5], vec![5; 5], vec![8; 4], vec![3, 4, 3, 4], vec![17; 4], vec![64, 64]] {
            v.push((ns, mode));
        }
    }
    v
}
