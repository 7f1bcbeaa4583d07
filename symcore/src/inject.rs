//! Injectivity of a straight-line computation over a prime field, decided on its recorded graph.
//!
//! Every node is an affine form over atoms: the inputs, and powers u^k of affine forms u.  Starting from
//! the outputs, what two inputs with equal outputs must have in common is closed under
//!   - linear combination,
//!   - u known        => u^k known,
//!   - u^k known, gcd(k, p-1) = 1  => u known.
//! If the inputs themselves are reached, two inputs with equal outputs are equal.  Every linear
//! combination used is handed to the prover as an obligation (an identity between graph nodes, for all
//! values).  Where the closure stops short, a pair of colliding inputs is looked for.
use crate::ctx::*;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashMap};

type Form<P> = BTreeMap<usize, P>; // atom -> coefficient; atom 0 is the constant 1

enum Kind {
    One,
    Var,
    Mono(Vec<(usize, u32)>), // product of powers of bases
    Other(Vec<usize>),       // some function of bases
}
struct Atom<P> {
    kind: Kind,
    node: Id,
    coef: P, // node = coef * atom
}
struct Base<P> {
    form: Form<P>,
    node: Id,
    coef: P, // node = coef * base
}
type Mono<P> = (P, BTreeMap<usize, u32>);

pub struct Graph<P: PrimeField> {
    atoms: Vec<Atom<P>>,
    atom_ix: HashMap<String, usize>,
    bases: Vec<Base<P>>,
    base_ix: HashMap<Vec<(usize, Vec<u64>)>, usize>,
    mono: HashMap<Id, Mono<P>>,
    other: HashMap<Id, usize>,
}
#[derive(Clone)]
enum Src {
    Given(Id),
    Base(usize),
    Atom(usize),
}
struct Known<P> {
    items: Vec<Src>,
    rows: Vec<(usize, Vec<P>, BTreeMap<usize, P>)>, // pivot, vector, combination of items
    of: Vec<Option<usize>>,                         // pivot column -> row
}
/// target (atom or base) as a combination of items known before it
struct Cert<P> {
    combo: BTreeMap<usize, P>,
    target: Src,
    gives: Option<(usize, u32)>, // the item it gives: root or power
}

fn modulus<P: PrimeField>() -> BigUint {
    P::MODULUS.into()
}
pub fn coprime<P: PrimeField>(k: u64) -> bool {
    gcd::<P>(k) == 1
}
pub fn gcd<P: PrimeField>(k: u64) -> u64 {
    let r: BigUint = (modulus::<P>() - 1u32) % k;
    let (mut a, mut b) = (k, r.iter_u64_digits().next().unwrap_or(0));
    while b > 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// The exponent e with (x^k)^e = x for all x.
pub fn root_exponent<P: PrimeField>(k: u64) -> Option<Vec<u64>> {
    let n = modulus::<P>() - 1u32;
    for j in 0..k {
        let v: BigUint = &n * j + 1u32;
        if (&v % k).iter_u64_digits().next().is_none() {
            return Some((v / k).to_u64_digits());
        }
    }
    None
}
/// A primitive g-th root of unity.
pub fn unity<P: PrimeField>(g: u64) -> P {
    P::GENERATOR.pow(((modulus::<P>() - 1u32) / g).to_u64_digits())
}

impl<P: PrimeField> Graph<P> {
    pub fn new(x: &Ctx<P>, outs: &[Id]) -> Self {
        let mut g = Graph { atoms: vec![Atom { kind: Kind::One, node: 0, coef: P::one() }], atom_ix: HashMap::new(), bases: vec![], base_ix: HashMap::new(), mono: HashMap::new(), other: HashMap::new() };
        let mut cone = vec![false; x.nodes.len()];
        let mut st: Vec<Id> = outs.to_vec();
        while let Some(i) = st.pop() {
            if !std::mem::replace(&mut cone[i as usize], true) {
                st.extend(crate::prove::children(&x.nodes[i as usize]));
            }
        }
        for i in 0..x.nodes.len() {
            if !cone[i] {
                continue;
            }
            match x.nodes[i] {
                Node::Mul(a, b) => {
                    let (mut m, n) = (g.part(x, a), g.part(x, b));
                    m.0 *= n.0;
                    for (k, e) in n.1 {
                        *m.1.entry(k).or_insert(0) += e;
                    }
                    g.mono.insert(i as Id, m);
                }
                Node::Inv(_) | Node::Uf(..) | Node::Uf1(..) => {
                    let mut bs = vec![];
                    for c in crate::prove::children(&x.nodes[i]) {
                        let f = g.form(x, c);
                        if let (_, Some(b)) = g.canon(f, c) {
                            bs.push(b);
                        }
                    }
                    let k = g.atoms.len();
                    g.atoms.push(Atom { kind: Kind::Other(bs), node: i as Id, coef: P::one() });
                    g.other.insert(i as Id, k);
                }
                _ => {}
            }
        }
        g
    }
    fn part(&mut self, x: &Ctx<P>, n: Id) -> Mono<P> {
        if let Some(m) = self.mono.get(&n) {
            return m.clone();
        }
        if let Node::Scale(a, c) = x.nodes[n as usize] {
            let mut m = self.part(x, a);
            m.0 *= x.consts[c as usize];
            return m;
        }
        let f = self.form(x, n);
        if f.len() == 1 {
            let (k, c) = f.iter().next().map(|(k, c)| (*k, *c)).unwrap();
            if let Kind::Mono(v) = &self.atoms[k].kind {
                return (c, v.iter().copied().collect());
            }
        }
        match self.canon(f, n) {
            (c, Some(b)) => (c, BTreeMap::from([(b, 1)])),
            (c, None) => (c, BTreeMap::new()),
        }
    }
    /// coefficient and base of a form; no base if it is constant
    fn canon(&mut self, mut f: Form<P>, node: Id) -> (P, Option<usize>) {
        let Some(lead) = f.iter().find(|(k, _)| **k != 0).map(|(_, c)| *c) else {
            return (f.get(&0).copied().unwrap_or(P::zero()), None);
        };
        let inv = lead.inverse().unwrap();
        for c in f.values_mut() {
            *c *= inv;
        }
        let key: Vec<(usize, Vec<u64>)> = f.iter().map(|(k, c)| (*k, limbs(c))).collect();
        let k = *self.base_ix.entry(key).or_insert_with(|| {
            self.bases.push(Base { form: f, node, coef: lead });
            self.bases.len() - 1
        });
        (lead, Some(k))
    }
    fn atom(&mut self, m: &BTreeMap<usize, u32>, node: Id, coef: P) -> usize {
        let key = format!("{:?}", m);
        if let Some(k) = self.atom_ix.get(&key) {
            return *k;
        }
        let k = self.atoms.len();
        self.atoms.push(Atom { kind: Kind::Mono(m.iter().map(|(a, b)| (*a, *b)).collect()), node, coef });
        self.atom_ix.insert(key, k);
        k
    }
    fn var(&mut self, node: Id) -> usize {
        let key = format!("v{node}");
        if let Some(k) = self.atom_ix.get(&key) {
            return *k;
        }
        let k = self.atoms.len();
        self.atoms.push(Atom { kind: Kind::Var, node, coef: P::one() });
        self.atom_ix.insert(key, k);
        k
    }
    pub fn form(&mut self, x: &Ctx<P>, n: Id) -> Form<P> {
        let mut f: Form<P> = BTreeMap::new();
        let mut todo: BTreeMap<Id, P> = BTreeMap::from([(n, P::one())]);
        let add = |m: &mut BTreeMap<Id, P>, i: Id, c: P| *m.entry(i).or_insert(P::zero()) += c;
        let put = |f: &mut Form<P>, k: usize, c: P| *f.entry(k).or_insert(P::zero()) += c;
        while let Some((i, c)) = todo.pop_last() {
            if c.is_zero() {
                continue;
            }
            match x.nodes[i as usize] {
                Node::Const(k) => put(&mut f, 0, c * x.consts[k as usize]),
                Node::Var(_) => {
                    let k = self.var(i);
                    put(&mut f, k, c);
                }
                Node::Add(a, b) => {
                    add(&mut todo, a, c);
                    add(&mut todo, b, c);
                }
                Node::Sub(a, b) => {
                    add(&mut todo, a, c);
                    add(&mut todo, b, -c);
                }
                Node::AddC(a, k) => {
                    add(&mut todo, a, c);
                    put(&mut f, 0, c * x.consts[k as usize]);
                }
                Node::Scale(a, k) => add(&mut todo, a, c * x.consts[k as usize]),
                Node::Mul(..) => {
                    let (k, m) = self.mono[&i].clone();
                    if m.is_empty() {
                        put(&mut f, 0, c * k);
                    } else if m.len() == 1 && m.values().all(|e| *e == 1) {
                        let b = *m.keys().next().unwrap();
                        let bf = self.bases[b].form.clone();
                        for (j, v) in bf {
                            put(&mut f, j, c * k * v);
                        }
                    } else if !k.is_zero() {
                        let a = self.atom(&m, i, k);
                        put(&mut f, a, c * k);
                    }
                }
                Node::Inv(_) | Node::Uf(..) | Node::Uf1(..) => {
                    let k = self.other[&i];
                    put(&mut f, k, c);
                }
            }
        }
        f.retain(|_, c| !c.is_zero());
        f
    }
    fn dense(&self, f: &Form<P>) -> Vec<P> {
        let mut v = vec![P::zero(); self.atoms.len()];
        for (k, c) in f {
            v[*k] = *c;
        }
        v
    }
    fn close(&self, given: &[(Id, Form<P>)]) -> (Known<P>, Vec<Cert<P>>) {
        let n = self.atoms.len();
        let mut w = Known { items: vec![], rows: vec![], of: vec![None; n] };
        let mut certs = vec![];
        w.add(Src::Atom(0), self.dense(&BTreeMap::from([(0, P::one())])));
        for (id, f) in given {
            w.add(Src::Given(*id), self.dense(f));
        }
        let mut done = vec![false; n];
        loop {
            let mut changed = false;
            for a in (1..n).rev() {
                if done[a] {
                    continue;
                }
                match &self.atoms[a].kind {
                    Kind::Mono(v) if v.len() == 1 => {
                        let (b, k) = v[0];
                        if let Some(combo) = w.unit(a) {
                            if coprime::<P>(k as u64) {
                                certs.push(Cert { combo, target: Src::Atom(a), gives: Some((b, k)) });
                                w.add(Src::Base(b), self.dense(&self.bases[b].form));
                                done[a] = true;
                                changed = true;
                                continue;
                            }
                        }
                        if let Some(combo) = w.member(self.dense(&self.bases[b].form)) {
                            certs.push(Cert { combo, target: Src::Base(b), gives: Some((a, 0)) });
                            w.add(Src::Atom(a), self.dense(&BTreeMap::from([(a, P::one())])));
                            done[a] = true;
                            changed = true;
                        }
                    }
                    Kind::Mono(v) => {
                        let bs: Vec<usize> = v.iter().map(|x| x.0).collect();
                        changed |= self.all_known(&mut w, &bs, a, &mut certs, &mut done);
                    }
                    Kind::Other(v) => {
                        let bs = v.clone();
                        changed |= self.all_known(&mut w, &bs, a, &mut certs, &mut done);
                    }
                    _ => done[a] = true,
                }
            }
            if !changed {
                return (w, certs);
            }
        }
    }
    fn all_known(&self, w: &mut Known<P>, bs: &[usize], a: usize, certs: &mut Vec<Cert<P>>, done: &mut [bool]) -> bool {
        let c: Vec<_> = bs.iter().map(|b| w.member(self.dense(&self.bases[*b].form))).collect();
        if c.iter().any(|x| x.is_none()) {
            return false;
        }
        for (b, combo) in bs.iter().zip(c) {
            certs.push(Cert { combo: combo.unwrap(), target: Src::Base(*b), gives: None });
        }
        w.add(Src::Atom(a), self.dense(&BTreeMap::from([(a, P::one())])));
        done[a] = true;
        true
    }
    fn src(&self, s: &Src) -> (Id, P) {
        match s {
            Src::Given(n) => (*n, P::one()),
            Src::Base(b) => (self.bases[*b].node, self.bases[*b].coef),
            Src::Atom(a) => (self.atoms[*a].node, self.atoms[*a].coef),
        }
    }
    /// node for a combination of items
    fn emit(&self, x: &mut Ctx<P>, items: &[Src], combo: &BTreeMap<usize, P>) -> Id {
        let mut acc: Option<Id> = None;
        let mut konst = P::zero();
        for (i, c) in combo {
            if c.is_zero() {
                continue;
            }
            if let Src::Atom(0) = items[*i] {
                konst += *c;
                continue;
            }
            let (n, k) = self.src(&items[*i]);
            let c = *c * k.inverse().unwrap();
            if let Node::Const(q) = x.nodes[n as usize] {
                konst += c * x.consts[q as usize];
                continue;
            }
            let term = if c == P::one() {
                n
            } else {
                let q = x.constant_ix(c);
                x.push(Node::Scale(n, q))
            };
            acc = Some(match acc {
                None => term,
                Some(s) => x.push(Node::Add(s, term)),
            });
        }
        match acc {
            None => x.const_node(konst),
            Some(s) if konst.is_zero() => s,
            Some(s) => {
                let q = x.constant_ix(konst);
                x.push(Node::AddC(s, q))
            }
        }
    }
}
impl<P: PrimeField> Known<P> {
    fn reduce(&self, v: &mut [P], combo: &mut BTreeMap<usize, P>) {
        // rows are fully reduced, so one pass suffices
        let hits: Vec<(usize, P)> = (0..v.len()).filter(|i| !v[*i].is_zero()).filter_map(|i| self.of[i].map(|r| (r, v[i]))).collect();
        for (r, c) in hits {
            let (_, row, co) = &self.rows[r];
            for (a, b) in v.iter_mut().zip(row) {
                if !b.is_zero() {
                    *a -= c * b;
                }
            }
            for (k, b) in co {
                *combo.entry(*k).or_insert(P::zero()) += c * b;
            }
        }
    }
    fn add(&mut self, s: Src, mut v: Vec<P>) {
        let it = self.items.len();
        self.items.push(s);
        let mut co = BTreeMap::new();
        self.reduce(&mut v, &mut co);
        let Some(p) = (0..v.len()).rev().find(|i| !v[*i].is_zero()) else { return };
        let inv = v[p].inverse().unwrap();
        for c in v.iter_mut() {
            *c *= inv;
        }
        let mut combo: BTreeMap<usize, P> = co.into_iter().map(|(k, c)| (k, -c * inv)).collect();
        *combo.entry(it).or_insert(P::zero()) += inv;
        combo.retain(|_, c| !c.is_zero());
        for (_, row, rc) in self.rows.iter_mut() {
            let c = row[p];
            if !c.is_zero() {
                for (a, b) in row.iter_mut().zip(&v) {
                    if !b.is_zero() {
                        *a -= c * b;
                    }
                }
                for (k, b) in &combo {
                    *rc.entry(*k).or_insert(P::zero()) -= c * b;
                }
                rc.retain(|_, c| !c.is_zero());
            }
        }
        self.of[p] = Some(self.rows.len());
        self.rows.push((p, v, combo));
    }
    fn member(&self, mut v: Vec<P>) -> Option<BTreeMap<usize, P>> {
        let mut co = BTreeMap::new();
        self.reduce(&mut v, &mut co);
        v.iter().all(|c| c.is_zero()).then_some(co)
    }
    fn unit(&self, a: usize) -> Option<BTreeMap<usize, P>> {
        let (_, row, co) = &self.rows[self.of[a]?];
        row.iter().enumerate().all(|(i, c)| (i == a) != c.is_zero()).then(|| co.clone())
    }
}
/// Some non-zero vector in the null space of the rows.
pub fn kernel<P: PrimeField>(mut rows: Vec<Vec<P>>, n: usize) -> Option<Vec<P>> {
    let mut piv: Vec<usize> = vec![];
    let mut r = 0;
    for c in 0..n {
        let Some(k) = (r..rows.len()).find(|k| !rows[*k][c].is_zero()) else { continue };
        rows.swap(r, k);
        let inv = rows[r][c].inverse().unwrap();
        for v in rows[r].iter_mut() {
            *v *= inv;
        }
        let pr = rows[r].clone();
        for (k, row) in rows.iter_mut().enumerate() {
            if k != r && !row[c].is_zero() {
                let f = row[c];
                for (a, b) in row.iter_mut().zip(&pr) {
                    *a -= f * b;
                }
            }
        }
        piv.push(c);
        r += 1;
    }
    let free = (0..n).find(|c| !piv.contains(c))?;
    let mut v = vec![P::zero(); n];
    v[free] = P::one();
    for (k, c) in piv.iter().enumerate() {
        v[*c] = -rows[k][free];
    }
    Some(v)
}

/// Pushes the obligations that show `outs` to determine `xs`; if they do not, a failure, with a
/// colliding input in the variables `x2` where one could be built.
pub fn injective<P: PrimeField>(x: &mut Ctx<P>, label: &str, xs: &[Id], x2: &str, outs: &[Id]) {
    let mut g = Graph::new(x, outs);
    let given: Vec<(Id, Form<P>)> = outs.iter().map(|o| (*o, g.form(x, *o))).collect();
    let xa: Vec<usize> = xs.iter().map(|i| g.var(*i)).collect();
    // parameters are common to both inputs
    let params: Vec<(Id, Form<P>)> = (1..g.atoms.len()).filter(|k| matches!(g.atoms[*k].kind, Kind::Var) && !xa.contains(k)).map(|k| (g.atoms[k].node, BTreeMap::from([(k, P::one())]))).collect();
    let all: Vec<(Id, Form<P>)> = given.iter().chain(&params).cloned().collect();
    let (w, certs) = g.close(&all);
    let finals: Vec<Option<BTreeMap<usize, P>>> = xa.iter().map(|a| w.unit(*a)).collect();
    if finals.iter().all(|f| f.is_some()) {
        for c in &certs {
            let s = g.emit(x, &w.items, &c.combo);
            // combinations speak of the unit atom or base, the node is a multiple of it
            let (n, k) = g.src(&c.target);
            let t = scaled(x, n, k);
            x.obligations.push(Obligation { label: format!("{label}: what the outputs determine"), a: s, b: t, negated: false });
        }
        for (f, i) in finals.iter().zip(xs) {
            let s = g.emit(x, &w.items, f.as_ref().unwrap());
            x.obligations.push(Obligation { label: format!("{label}: the outputs determine the input"), a: s, b: *i, negated: false });
        }
        return;
    }
    x.failures.push(format!("{label}: the outputs do not determine the input"));
    let x0: Vec<P> = xs.iter().map(|i| x.vals[*i as usize][0]).collect();
    let eval = |x: &Ctx<P>, v: &[P]| -> Vec<P> {
        let at: HashMap<Id, P> = xs.iter().copied().zip(v.iter().copied()).collect();
        let mut val: Vec<P> = Vec::with_capacity(x.nodes.len());
        for i in 0..x.nodes.len() {
            let r = match (at.get(&(i as Id)), x.nodes[i]) {
                (Some(p), _) => *p,
                (None, Node::Var(_)) => x.vals[i][0],
                (None, n) => x.eval_one(&n, &|j| val[j as usize]),
            };
            val.push(r);
        }
        outs.iter().map(|o| val[*o as usize]).collect()
    };
    let y0 = eval(x, &x0);
    let mut cands: Vec<Vec<P>> = vec![];
    // a direction of the input space nothing depends on
    let pick = |f: &Form<P>| -> Vec<P> { xa.iter().map(|a| f.get(a).copied().unwrap_or(P::zero())).collect() };
    let rows: Vec<Vec<P>> = g.bases.iter().map(|b| pick(&b.form)).chain(given.iter().map(|(_, f)| pick(f))).collect();
    if let Some(d) = kernel(rows, xs.len()) {
        cands.push(x0.iter().zip(&d).map(|(a, b)| *a + b).collect());
    }
    // a power of an input form that is no permutation of the field
    let first: Vec<usize> = (0..g.bases.len()).filter(|b| g.bases[*b].form.keys().all(|k| *k == 0 || xa.contains(k))).collect();
    for a in &g.atoms {
        if let Kind::Mono(v) = &a.kind {
            let (b, k) = v[0];
            let q = gcd::<P>(k as u64);
            if v.len() == 1 && q > 1 && first.contains(&b) && cands.len() < 12 {
                // find x' with all other first forms unchanged: move along the kernel of the others
                let rows: Vec<Vec<P>> = first.iter().filter(|f| **f != b).map(|f| pick(&g.bases[*f].form)).collect();
                if let Some(d) = kernel(rows, xs.len()) {
                    let f = pick(&g.bases[b].form);
                    let slope: P = f.iter().zip(&d).map(|(a, b)| *a * b).sum();
                    let u = x.vals[g.bases[b].node as usize][0] * g.bases[b].coef.inverse().unwrap();
                    if let Some(i) = slope.inverse() {
                        let s = (unity::<P>(q) - P::one()) * u * i;
                        cands.push(x0.iter().zip(&d).map(|(a, b)| *a + s * b).collect());
                    }
                }
            }
        }
    }
    if let Some(v) = frontier(x, &g, &w, &xa, &params) {
        cands.push(v);
    }
    for (a, b) in local(x, xs, outs) {
        if a != b && eval(x, &a) == eval(x, &b) {
            for (name, v) in [(x2.trim_end_matches('2'), a), (x2, b)] {
                for (k, p) in v.iter().enumerate() {
                    x.inputs.insert(format!("{name}[{k}]"), [*p; LANES]);
                }
            }
            return;
        }
    }
    for v in cands {
        if v != x0 && eval(x, &v) == y0 {
            for (k, p) in v.iter().enumerate() {
                x.inputs.insert(format!("{x2}[{k}]"), [*p; LANES]);
            }
            return;
        }
    }
    // a tangent direction the outputs do not see: a singular layer further in
    let n = xs.len();
    let pos: HashMap<Id, usize> = xs.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let mut grad: Vec<Vec<P>> = Vec::with_capacity(x.nodes.len());
    for i in 0..x.nodes.len() {
        let v = |a: Id| x.vals[a as usize][0];
        let mix = |a: Id, ca: P, b: Id, cb: P| -> Vec<P> {
            let (p, q): (&Vec<P>, &Vec<P>) = (&grad[a as usize], &grad[b as usize]);
            match (p.is_empty(), q.is_empty()) {
                (true, true) => vec![],
                (false, true) => p.iter().map(|p| *p * ca).collect(),
                (true, false) => q.iter().map(|q| *q * cb).collect(),
                _ => p.iter().zip(q).map(|(p, q)| *p * ca + *q * cb).collect(),
            }
        };
        let one = P::one();
        let g = match (pos.get(&(i as Id)), x.nodes[i]) {
            (Some(k), _) => (0..n).map(|j| if j == *k { one } else { P::zero() }).collect(),
            (None, Node::Add(a, b)) => mix(a, one, b, one),
            (None, Node::Sub(a, b)) => mix(a, one, b, -one),
            (None, Node::Mul(a, b)) => mix(a, v(b), b, v(a)),
            (None, Node::AddC(a, _)) => grad[a as usize].clone(),
            (None, Node::Scale(a, c)) => mix(a, x.consts[c as usize], a, P::zero()),
            (None, Node::Inv(a)) => mix(a, -(v(i as Id) * v(i as Id)), a, P::zero()),
            _ => vec![],
        };
        grad.push(g);
    }
    let rows: Vec<Vec<P>> = outs.iter().map(|o| if grad[*o as usize].is_empty() { vec![P::zero(); n] } else { grad[*o as usize].clone() }).collect();
    if let Some(d) = kernel(rows, n) {
        for (k, p) in d.iter().enumerate() {
            x.inputs.insert(format!("d{}[{k}]", x2.trim_end_matches('2')), [*p; LANES]);
        }
    }
}
fn scaled<P: PrimeField>(x: &mut Ctx<P>, n: Id, k: P) -> Id {
    if k == P::one() {
        return n;
    }
    let q = x.constant_ix(k.inverse().unwrap());
    x.push(Node::Scale(n, q))
}
/// The closure stopped at combinations of several unknown powers: move the powers along a direction the
/// combinations do not see, take roots, and compute the input backwards from there.
fn frontier<P: PrimeField>(x: &Ctx<P>, g: &Graph<P>, w: &Known<P>, xa: &[usize], params: &[(Id, Form<P>)]) -> Option<Vec<P>> {
    let mut cols: Vec<usize> = vec![];
    for (p, row, _) in &w.rows {
        let nz: Vec<usize> = (1..row.len()).filter(|i| !row[*i].is_zero()).collect();
        if nz.len() > 1 || (nz.len() == 1 && nz[0] != *p) {
            cols.extend(nz);
        }
    }
    cols.sort();
    cols.dedup();
    let rows: Vec<Vec<P>> = w.rows.iter().map(|(_, r, _)| cols.iter().map(|c| r[*c]).collect()).collect();
    let d = kernel(rows, cols.len())?;
    let val = |n: Id, c: P| x.vals[n as usize][0] * c.inverse().unwrap();
    let mut given: Vec<(Id, Form<P>)> = vec![];
    let mut vals: Vec<P> = vec![];
    for (c, d) in cols.iter().zip(&d) {
        let a = val(g.atoms[*c].node, g.atoms[*c].coef) + d;
        match &g.atoms[*c].kind {
            Kind::Mono(v) if v.len() == 1 => {
                given.push((0, g.bases[v[0].0].form.clone()));
                vals.push(a.pow(root_exponent::<P>(v[0].1 as u64)?));
            }
            Kind::Var => {
                given.push((0, BTreeMap::from([(*c, P::one())])));
                vals.push(a);
            }
            _ => return None,
        }
    }
    for (n, f) in params {
        given.push((*n, f.clone()));
        vals.push(x.vals[*n as usize][0]);
    }
    let (k, certs) = g.close(&given);
    // values of the items, in the order they were found
    let mut item: Vec<P> = vec![P::one()];
    item.extend(vals);
    let sum = |item: &[P], combo: &BTreeMap<usize, P>| -> P { combo.iter().map(|(i, c)| item[*i] * c).sum() };
    for c in &certs {
        let v = sum(&item, &c.combo);
        match (&c.target, c.gives) {
            (Src::Atom(_), Some((_, e))) => item.push(v.pow(root_exponent::<P>(e as u64)?)),
            (Src::Base(_), Some((a, _))) => {
                let Kind::Mono(m) = &g.atoms[a].kind else { return None };
                item.push(v.pow([m[0].1 as u64]));
            }
            _ => return None,
        }
    }
    xa.iter().map(|a| k.unit(*a).map(|c| sum(&item, &c))).collect()
}

fn echelon<P: PrimeField>(rows: &[Vec<P>], n: usize, most: usize) -> Option<Vec<Vec<P>>> {
    let mut e: Vec<(usize, Vec<P>)> = vec![];
    for r in rows {
        let mut v = r.clone();
        for (p, w) in &e {
            let c = v[*p];
            if !c.is_zero() {
                for (a, b) in v.iter_mut().zip(w) {
                    *a -= c * b;
                }
            }
        }
        let Some(p) = (0..n).find(|i| !v[*i].is_zero()) else { continue };
        if e.len() == most {
            return None;
        }
        let inv = v[p].inverse().unwrap();
        for c in v.iter_mut() {
            *c *= inv;
        }
        for (_, w) in e.iter_mut() {
            let c = w[p];
            if !c.is_zero() {
                for (a, b) in w.iter_mut().zip(&v) {
                    *a -= c * b;
                }
            }
        }
        e.push((p, v));
    }
    e.sort_by_key(|(p, _)| *p);
    Some(e.into_iter().map(|(_, v)| v).collect())
}
fn det<P: PrimeField>(mut m: Vec<Vec<P>>) -> P {
    let n = m.len();
    let mut d = P::one();
    for c in 0..n {
        let Some(k) = (c..n).find(|k| !m[*k][c].is_zero()) else { return P::zero() };
        if k != c {
            m.swap(k, c);
            d = -d;
        }
        d *= m[c][c];
        let inv = m[c][c].inverse().unwrap();
        let pr = m[c].clone();
        for row in m[c + 1..].iter_mut() {
            let f = row[c] * inv;
            if !f.is_zero() {
                for (a, b) in row.iter_mut().zip(&pr) {
                    *a -= f * b;
                }
            }
        }
    }
    d
}
fn at<P: PrimeField>(f: &[P], v: P) -> P {
    f.iter().rev().fold(P::zero(), |a, c| a * v + c)
}
/// Pairs of inputs that one of the first non-linear functions of one or two linear forms maps to the same
/// values: candidates for a collision.
fn local<P: PrimeField>(x: &Ctx<P>, xs: &[Id], outs: &[Id]) -> Vec<(Vec<P>, Vec<P>)> {
    const TOP: u32 = 12;
    let n = xs.len();
    let mut seed = 0x10ca1u64;
    // what the outputs depend on
    let mut live = vec![false; x.nodes.len()];
    let mut st: Vec<Id> = outs.to_vec();
    while let Some(i) = st.pop() {
        if !std::mem::replace(&mut live[i as usize], true) {
            match x.nodes[i as usize] {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Uf(_, a, b) => st.extend([a, b]),
                Node::AddC(a, _) | Node::Scale(a, _) | Node::Inv(a) | Node::Uf1(_, a) => st.push(a),
                _ => {}
            }
        }
    }
    // gradients at three points; the linear forms a node is a function of
    let pts: Vec<Vec<P>> = (0..3).map(|_| (0..n).map(|_| rand_elem(&mut seed)).collect()).collect();
    struct L<P> {
        val: [P; 3],
        grad: Vec<Vec<P>>,
        span: Vec<Vec<P>>,
        deg: u32,
    }
    let pos: HashMap<Id, usize> = xs.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let mut loc: Vec<Option<L<P>>> = vec![];
    let zero = || vec![vec![P::zero(); n]; 3];
    for i in 0..x.nodes.len() {
        if !live[i] {
            loc.push(None);
            continue;
        }
        let get = |a: Id| loc[a as usize].as_ref();
        let r: Option<([P; 3], Vec<Vec<P>>, u32)> = match (pos.get(&(i as Id)), x.nodes[i]) {
            (Some(k), _) => {
                let mut g = zero();
                for r in g.iter_mut() {
                    r[*k] = P::one();
                }
                Some(([pts[0][*k], pts[1][*k], pts[2][*k]], g, 1))
            }
            (None, Node::Var(_)) => Some(([x.vals[i][0]; 3], zero(), 0)),
            (None, Node::Const(c)) => Some(([x.consts[c as usize]; 3], zero(), 0)),
            (None, Node::AddC(a, c)) => get(a).map(|l| (l.val.map(|v| v + x.consts[c as usize]), l.grad.clone(), l.deg)),
            (None, Node::Scale(a, c)) => {
                let k = x.consts[c as usize];
                get(a).map(|l| (l.val.map(|v| v * k), l.grad.iter().map(|r| r.iter().map(|v| *v * k).collect()).collect(), l.deg))
            }
            (None, nd @ (Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b))) => match (get(a), get(b)) {
                (Some(p), Some(q)) => {
                    let mut val = [P::zero(); 3];
                    let mut g = zero();
                    for k in 0..3 {
                        let (ca, cb) = match nd {
                            Node::Add(..) => (P::one(), P::one()),
                            Node::Sub(..) => (P::one(), -P::one()),
                            _ => (q.val[k], p.val[k]),
                        };
                        val[k] = if let Node::Mul(..) = nd { p.val[k] * q.val[k] } else { p.val[k] + cb * q.val[k] };
                        for j in 0..n {
                            g[k][j] = ca * p.grad[k][j] + cb * q.grad[k][j];
                        }
                    }
                    Some((val, g, if let Node::Mul(..) = nd { p.deg + q.deg } else { p.deg.max(q.deg) }))
                }
                _ => None,
            },
            _ => None,
        };
        loc.push(r.and_then(|(val, grad, deg)| if deg > TOP { None } else { echelon(&grad, n, 2).map(|span| L { val, grad, span, deg }) }));
    }
    let key = |s: &Vec<Vec<P>>| -> Vec<String> { s.iter().flatten().map(|v| v.to_string()).collect() };
    let inside = |a: &Vec<Vec<P>>, b: &Vec<Vec<P>>| echelon(&b.iter().chain(a).cloned().collect::<Vec<_>>(), n, b.len()).is_some();
    let mut groups: BTreeMap<(usize, Vec<String>), Vec<Vec<P>>> = BTreeMap::new();
    for l in loc.iter().flatten() {
        if l.deg > 1 && !l.span.is_empty() && groups.len() < 200 {
            groups.insert((l.span.len(), key(&l.span)), l.span.clone());
        }
    }
    let ones: Vec<Vec<Vec<P>>> = groups.values().filter(|g| g.len() == 1).cloned().collect();
    let twos: Vec<Vec<Vec<P>>> = groups.values().filter(|g| g.len() == 2 && ones.iter().filter(|o| inside(o, g)).count() < 2).cloned().collect();
    let all: Vec<Vec<Vec<P>>> = ones.into_iter().filter(|o| !twos.iter().any(|t| inside(o, t))).chain(twos.iter().cloned()).collect();
    let mut users: HashMap<Id, Vec<usize>> = HashMap::new();
    for i in (0..x.nodes.len()).filter(|i| live[*i]) {
        match x.nodes[i] {
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Uf(_, a, b) => {
                users.entry(a).or_default().push(i);
                users.entry(b).or_default().push(i);
            }
            Node::AddC(a, _) | Node::Scale(a, _) | Node::Inv(a) | Node::Uf1(_, a) => users.entry(a).or_default().push(i),
            _ => {}
        }
    }
    let mut found = vec![];
    for g in all.iter().take(8) {
        let member: Vec<bool> = loc.iter().map(|l| l.as_ref().is_some_and(|l| inside(&l.span, g))).collect();
        let cut: Vec<usize> = (0..x.nodes.len())
            .filter(|i| live[*i] && member[*i] && !loc[*i].as_ref().unwrap().span.is_empty())
            .filter(|i| outs.contains(&(*i as Id)) || users.get(&(*i as Id)).is_some_and(|u| u.iter().any(|u| !member[*u])))
            .collect();
        let top = cut.iter().map(|c| loc[*c].as_ref().unwrap().deg).max().unwrap_or(0) as usize;
        if cut.is_empty() || (g.len() == 2 && top > 6) {
            continue;
        }
        // directions that move one form of the group each and no form of the others
        let mut dirs = vec![];
        for k in 0..g.len() {
            let rows: Vec<Vec<P>> = all.iter().filter(|o| key(o) != key(g)).flatten().chain(g.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, r)| r)).cloned().collect();
            dirs.extend(kernel(rows, n));
        }
        if dirs.len() != g.len() {
            continue;
        }
        let last = *cut.iter().max().unwrap();
        for _ in 0..8 {
            let base: Vec<P> = (0..n).map(|_| rand_elem(&mut seed)).collect();
            let point = |a: P, b: P| -> Vec<P> { (0..n).map(|j| base[j] + a * dirs[0][j] + if dirs.len() > 1 { b * dirs[1][j] } else { P::zero() }).collect() };
            let eval = |a: P, b: P| -> Vec<P> {
                let v = point(a, b);
                let mut val: Vec<P> = Vec::with_capacity(last + 1);
                for i in 0..=last {
                    let r = match (pos.get(&(i as Id)), x.nodes[i]) {
                        (Some(k), _) => v[*k],
                        (None, Node::Var(_)) => x.vals[i][0],
                        (None, nd) if live[i] => x.eval_one(&nd, &|j| val[j as usize]),
                        _ => P::zero(),
                    };
                    val.push(r);
                }
                cut.iter().map(|c| val[*c]).collect()
            };
            let m = top + 1;
            // value at (i, j) for i, j in 0..m, less the value at the base
            let here = eval(P::zero(), P::zero());
            let grid = |b: P| -> Vec<Vec<P>> {
                let ev: Vec<Vec<P>> = (0..m).map(|i| eval(P::from(i as u64), b)).collect();
                (0..cut.len()).map(|c| crate::roots::interpolate(&ev.iter().map(|e| e[c] - here[c]).collect::<Vec<P>>())).collect()
            };
            let mut hits: Vec<(P, P)> = vec![];
            let common = |fs: &[Vec<P>], seed: &mut u64| -> Vec<P> {
                let Some(f) = fs.iter().filter(|f| !f.is_empty()).min_by_key(|f| f.len()) else { return vec![P::one()] };
                crate::roots::roots(f, seed, 12).into_iter().filter(|r| fs.iter().all(|f| at(f, *r).is_zero())).collect()
            };
            if g.len() == 1 {
                hits.extend(common(&grid(P::zero()), &mut seed).into_iter().map(|a| (a, P::zero())));
            } else {
                // polynomials in the first coordinate whose coefficients are polynomials in the second
                let rows: Vec<Vec<Vec<P>>> = (0..m).map(|j| grid(P::from(j as u64))).collect();
                let coef = |c: usize, i: usize| -> Vec<P> { crate::roots::interpolate(&rows.iter().map(|r| r[c].get(i).copied().unwrap_or(P::zero())).collect::<Vec<P>>()) };
                let poly: Vec<Vec<Vec<P>>> = (0..cut.len()).map(|c| (0..m).map(|i| coef(c, i)).collect()).collect();
                let slice = |c: usize, b: P| -> Vec<P> { poly[c].iter().map(|f| at(f, b)).collect() };
                let mut bs = vec![P::zero()];
                if cut.len() == 1 {
                    bs.push(P::one());
                    bs.push(rand_elem(&mut seed));
                } else {
                    let deg = |c: usize| (0..m).rev().find(|i| !poly[c][*i].is_empty()).unwrap_or(0);
                    let (d0, d1) = (deg(0), deg(1));
                    if d0 == 0 || d1 == 0 {
                        continue;
                    }
                    let ys: Vec<P> = (0..=(2 * top * top + 2) as u64)
                        .map(|b| {
                            let (f, h) = (slice(0, P::from(b)), slice(1, P::from(b)));
                            let mut s = vec![vec![P::zero(); d0 + d1]; d0 + d1];
                            for r in 0..d1 {
                                for i in 0..=d0 {
                                    s[r][r + i] = f[d0 - i];
                                }
                            }
                            for r in 0..d0 {
                                for i in 0..=d1 {
                                    s[d1 + r][r + i] = h[d1 - i];
                                }
                            }
                            det(s)
                        })
                        .collect();
                    bs.extend(crate::roots::roots(&crate::roots::interpolate(&ys), &mut seed, 20));
                }
                for b in bs {
                    let fs: Vec<Vec<P>> = (0..cut.len())
                        .map(|c| {
                            let mut f = slice(c, b);
                            while f.last().is_some_and(|v| v.is_zero()) {
                                f.pop();
                            }
                            f
                        })
                        .collect();
                    hits.extend(common(&fs, &mut seed).into_iter().map(|a| (a, b)));
                }
            }
            for (a, b) in hits {
                if !(a.is_zero() && b.is_zero()) && eval(a, b) == here {
                    found.push((base.clone(), point(a, b)));
                }
            }
            if found.len() > 3 {
                return found;
            }
        }
    }
    found
}
