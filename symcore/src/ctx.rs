//! Symbolic store: a hash-consed DAG of the field operations the real code performs,
//! with a few concrete evaluation lanes per node (lane 0 drives the concolic path).
use ark_ff::PrimeField;
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;

pub const LANES: usize = 4;
pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Id), // index into consts
    Var(u32),
    Add(Id, Id),
    Sub(Id, Id),
    AddC(Id, Id),  // node, const index
    Scale(Id, Id), // node, const index
    Mul(Id, Id),
    Inv(Id),
    Uf(u32, Id, Id), // function tag, args
    Uf1(u32, Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    IsZero(Id),
    Lt(Id, Id),
    Bit(Id, u32),
}

#[derive(Clone, Debug)]
pub struct Decision {
    pub pred: Pred,
    pub taken: bool,
    pub forced: bool,
}

#[derive(Clone)]
pub struct Obligation {
    pub label: String,
    pub a: Id,
    pub b: Id,
    pub negated: bool, // a != b must hold
}

pub struct Ctx<P: PrimeField> {
    pub nodes: Vec<Node>,
    pub vals: Vec<[P; LANES]>,
    pub consts: Vec<P>,
    const_ix: HashMap<Vec<u64>, Id>,
    dedup: HashMap<Node, Id>,
    pub var_names: Vec<String>,
    pub var_nodes: Vec<Id>,
    pub inputs: HashMap<String, [P; LANES]>,
    pub alive: [bool; LANES],
    pub decisions: Vec<Decision>,
    decided: HashMap<Pred, bool>,
    pub script: Vec<Option<bool>>,
    pub obligations: Vec<Obligation>,
    pub failures: Vec<String>,
    pub notes: Vec<String>,
    pub concretised: Vec<Id>,
    pub rng_words: Vec<u64>,
    pub rand_count: usize,
    pub rng: u64,
    pub concrete: bool,
    pub quiet_fmt: bool,
    pub node_limit: usize,
    pub uf_tags: Vec<String>,
    pub uf_apps: usize,
    pub fix_draws: bool,
}

thread_local! {
    static ACTIVE: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
}

pub fn install<P: PrimeField>(c: Ctx<P>) {
    ACTIVE.with(|a| *a.borrow_mut() = Some(Box::new(c)));
}
pub fn take<P: PrimeField>() -> Ctx<P> {
    ACTIVE.with(|a| *a.borrow_mut().take().expect("no ctx").downcast::<Ctx<P>>().expect("ctx type"))
}
pub fn with<P: PrimeField, R>(f: impl FnOnce(&mut Ctx<P>) -> R) -> R {
    ACTIVE.with(|a| {
        let mut g = a.borrow_mut();
        let c = g.as_mut().expect("symbolic value used outside a run").downcast_mut::<Ctx<P>>().expect("ctx type");
        f(c)
    })
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn rand_elem<P: PrimeField>(s: &mut u64) -> P {
    let mut b = [0u8; 48];
    for i in 0..6 {
        b[i * 8..i * 8 + 8].copy_from_slice(&splitmix(s).to_le_bytes());
    }
    P::from_le_bytes_mod_order(&b)
}
pub fn limbs<P: PrimeField>(p: &P) -> Vec<u64> {
    p.into_bigint().as_ref().to_vec()
}

/// The concrete interpretation used for uninterpreted functions in evaluation lanes and replays.
pub fn uf_eval<P: PrimeField>(tag: &str, x: P, y: P) -> P {
    let mut s = 0xfeed_u64;
    for b in tag.trim_end_matches('\'').bytes() {
        s = s.wrapping_mul(0x100000001b3).wrapping_add(b as u64);
    }
    let (a, b, c, d): (P, P, P, P) = (rand_elem(&mut s), rand_elem(&mut s), rand_elem(&mut s), rand_elem(&mut s));
    let u = x * a + y * b + c;
    let v = x * d + y + a;
    u * u * u + v * v + x * y * b + c
}

impl<P: PrimeField> Ctx<P> {
    pub fn new(seed: u64) -> Self {
        Ctx {
            nodes: vec![],
            vals: vec![],
            consts: vec![],
            const_ix: HashMap::new(),
            dedup: HashMap::new(),
            var_names: vec![],
            var_nodes: vec![],
            inputs: HashMap::new(),
            alive: [true; LANES],
            decisions: vec![],
            decided: HashMap::new(),
            script: vec![],
            obligations: vec![],
            failures: vec![],
            notes: vec![],
            concretised: vec![],
            rng_words: vec![],
            rand_count: 0,
            rng: seed ^ 0xabcdef,
            concrete: false,
            quiet_fmt: false,
            node_limit: 6_000_000,
            uf_tags: vec![],
            uf_apps: 0,
            fix_draws: false,
        }
    }
    pub fn constant_ix(&mut self, v: P) -> Id {
        let k = limbs(&v);
        if let Some(i) = self.const_ix.get(&k) {
            return *i;
        }
        let i = self.consts.len() as Id;
        self.consts.push(v);
        self.const_ix.insert(k, i);
        i
    }
    fn eval(&self, n: &Node) -> [P; LANES] {
        let mut r = [P::zero(); LANES];
        for l in 0..LANES {
            r[l] = self.eval_one(n, &|i| self.vals[i as usize][l]);
        }
        r
    }
    pub fn eval_one(&self, n: &Node, get: &dyn Fn(Id) -> P) -> P {
        match *n {
            Node::Const(c) => self.consts[c as usize],
            Node::Var(_) => unreachable!(),
            Node::Add(a, b) => get(a) + get(b),
            Node::Sub(a, b) => get(a) - get(b),
            Node::AddC(a, c) => get(a) + self.consts[c as usize],
            Node::Scale(a, c) => get(a) * self.consts[c as usize],
            Node::Mul(a, b) => get(a) * get(b),
            Node::Inv(a) => get(a).inverse().unwrap_or(P::zero()),
            Node::Uf(t, a, b) => uf_eval(&self.uf_tags[t as usize], get(a), get(b)),
            Node::Uf1(t, a) => uf_eval(&self.uf_tags[t as usize], get(a), P::zero()),
        }
    }
    pub fn push(&mut self, n: Node) -> Id {
        let n = match n {
            Node::Add(a, b) if b < a => Node::Add(b, a),
            Node::Mul(a, b) if b < a => Node::Mul(b, a),
            n => n,
        };
        if let Some(i) = self.dedup.get(&n) {
            return *i;
        }
        if self.nodes.len() >= self.node_limit {
            panic!("SYMX-LIMIT: node limit reached");
        }
        let v = self.eval(&n);
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.vals.push(v);
        self.dedup.insert(n, id);
        id
    }
    pub fn const_node(&mut self, v: P) -> Id {
        let c = self.constant_ix(v);
        self.push(Node::Const(c))
    }
    pub fn var(&mut self, name: &str) -> Id {
        if let Some(k) = self.var_names.iter().position(|n| n == name) {
            return self.var_nodes[k];
        }
        let v = match self.inputs.get(name) {
            Some(v) => *v,
            None => {
                let mut v = [P::zero(); LANES];
                for x in v.iter_mut() {
                    *x = rand_elem(&mut self.rng);
                }
                self.inputs.insert(name.to_string(), v);
                v
            }
        };
        let ix = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        let id = self.nodes.len() as Id;
        self.nodes.push(Node::Var(ix));
        self.vals.push(v);
        self.dedup.insert(Node::Var(ix), id);
        self.var_nodes.push(id);
        id
    }
    /// Variable name and coefficients if the node is affine in exactly one variable.
    pub fn affine_var(&self, i: Id) -> Option<(String, P, P)> {
        let (mut cur, mut a, mut b) = (i, P::one(), P::zero());
        loop {
            match self.nodes[cur as usize] {
                Node::Var(v) => return Some((self.var_names[v as usize].clone(), a, b)).filter(|_| !a.is_zero()),
                Node::AddC(x, q) => {
                    b += a * self.consts[q as usize];
                    cur = x;
                }
                Node::Scale(x, q) => {
                    a *= self.consts[q as usize];
                    cur = x;
                }
                _ => return None,
            }
        }
    }
    /// The element as a polynomial of low degree in the only variable it depends on.
    pub fn one_var(&self, i: Id) -> Option<(Id, Vec<P>)> {
        const TOP: usize = 24;
        let mut live = std::collections::BTreeSet::new();
        let mut st = vec![i];
        let mut var = None;
        while let Some(n) = st.pop() {
            if live.len() > 200 || !live.insert(n) {
                continue;
            }
            match self.nodes[n as usize] {
                Node::Var(_) if var.is_some_and(|v| v != n) => return None,
                Node::Var(_) => var = Some(n),
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => st.extend([a, b]),
                Node::AddC(a, _) | Node::Scale(a, _) => st.push(a),
                Node::Const(_) => {}
                _ => return None,
            }
        }
        if live.len() > 200 {
            return None;
        }
        let v = var?;
        let ys: Vec<P> = (0..TOP as u64)
            .map(|z| {
                let mut m: HashMap<Id, P> = HashMap::new();
                for n in &live {
                    let y = if *n == v { P::from(z) } else { self.eval_one(&self.nodes[*n as usize], &|k| m[&k]) };
                    m.insert(*n, y);
                }
                m[&i]
            })
            .collect();
        let f = crate::roots::interpolate(&ys);
        (f.len() < TOP - 2).then_some((v, f))
    }
    pub fn uf_tag(&mut self, name: &str) -> u32 {
        if let Some(i) = self.uf_tags.iter().position(|t| t == name) {
            return i as u32;
        }
        self.uf_tags.push(name.to_string());
        (self.uf_tags.len() - 1) as u32
    }
    pub fn pred_on(&self, p: &Pred, get: &dyn Fn(Id) -> P) -> bool {
        match *p {
            Pred::IsZero(a) => get(a).is_zero(),
            Pred::Lt(a, b) => get(a) < get(b),
            Pred::Bit(a, i) => {
                use ark_ff::BigInteger;
                get(a).into_bigint().get_bit(i as usize)
            }
        }
    }
    /// A branch of the real code that depends on symbolic data.
    pub fn decide(&mut self, p: Pred) -> bool {
        if let Some(b) = self.decided.get(&p) {
            return *b;
        }
        let ix = self.decisions.len();
        let own = self.pred_on(&p, &|i| self.vals[i as usize][0]);
        let (taken, forced) = match self.script.get(ix) {
            Some(Some(b)) => (*b, *b != own),
            _ => (own, false),
        };
        for l in 0..LANES {
            let r = self.pred_on(&p, &|i| self.vals[i as usize][l]);
            if r != taken {
                self.alive[l] = false;
            }
        }
        self.decisions.push(Decision { pred: p, taken, forced });
        self.decided.insert(p, taken);
        taken
    }
}
