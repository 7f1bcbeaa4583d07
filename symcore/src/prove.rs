//! Equality prover over one recorded path: SMT sweeping.  Nodes with equal evaluation
//! signatures are candidate equalities; each candidate is decided by an SMT query over the
//! integers modulo p (unsat = equal for all values), and proved pairs are merged before the
//! nodes above them are looked at.  The final obligations are decided by an SMT query as well.
use crate::ctx::*;
use crate::solver::{self, Answer};
use crate::symf::dec;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

pub type Form<P> = (BTreeMap<Id, P>, P);

pub struct Prover<P: PrimeField> {
    pub x: Ctx<P>,
    rep: Vec<Id>,
    rep0: Vec<Id>, // merges that hold without the path condition
    eqs: Vec<(Id, Form<P>)>, // pivot atom, monic form == 0 (path condition)
    pcs_zero: Vec<Id>,
    pcs_nonzero: Vec<Id>,
    pub infeasible: bool,
    pub merges: usize,
    pub max_atoms: usize,
    pub timeout: u64,
    pub nl_spent: f64,
    pub nl_budget: f64,
    p: String,
}

pub enum Verdict {
    Holds,
    Differs(BTreeMap<String, String>), // solver model over atoms, if any
    Undecided(String),
}

impl<P: PrimeField> Prover<P> {
    /// `upto`: use only the first `upto` decisions as path condition.
    pub fn new(x: Ctx<P>, upto: usize) -> Self {
        let n = x.nodes.len();
        let mut pcs_zero = vec![];
        let mut pcs_nonzero = vec![];
        for d in x.decisions.iter().take(upto) {
            if let Pred::IsZero(e) = d.pred {
                if d.taken {
                    pcs_zero.push(e)
                } else {
                    pcs_nonzero.push(e)
                }
            }
        }
        let pm: BigUint = P::MODULUS.into();
        Prover {
            x,
            rep: (0..n as Id).collect(),
            rep0: vec![],
            eqs: vec![],
            pcs_zero,
            pcs_nonzero,
            infeasible: false,
            merges: 0,
            max_atoms: 0,
            timeout: 20_000,
            nl_spent: 0.0,
            nl_budget: 40.0,
            p: pm.to_string(),
        }
    }
    fn find(&self, mut i: Id) -> Id {
        while (i as usize) < self.rep.len() && self.rep[i as usize] != i {
            i = self.rep[i as usize];
        }
        i
    }
    fn const_of(&self, i: Id) -> Option<P> {
        match self.x.nodes[self.find(i) as usize] {
            Node::Const(c) => Some(self.x.consts[c as usize]),
            _ => None,
        }
    }
    fn new_const(&mut self, v: P) -> Id {
        let id = self.x.const_node(v);
        while self.rep.len() < self.x.nodes.len() {
            self.rep.push(self.rep.len() as Id);
        }
        id
    }
    /// Linear form of a node over atoms (variables and non-linear nodes), modulo proved merges.
    pub fn form(&self, n: Id) -> Form<P> {
        let mut work: BTreeMap<Id, P> = BTreeMap::new();
        let mut out = BTreeMap::new();
        let mut k = P::zero();
        work.insert(self.find(n), P::one());
        fn put<P: PrimeField>(w: &mut BTreeMap<Id, P>, i: Id, c: P) {
            let e = w.entry(i).or_insert_with(P::zero);
            *e += c;
        }
        // representatives are never larger than the node they stand for, except constants
        while let Some((i, c)) = work.pop_last() {
            if c.is_zero() {
                continue;
            }
            match self.x.nodes[i as usize] {
                Node::Const(q) => k += c * self.x.consts[q as usize],
                Node::Add(a, b) => {
                    put(&mut work, self.find(a), c);
                    put(&mut work, self.find(b), c);
                }
                Node::Sub(a, b) => {
                    put(&mut work, self.find(a), c);
                    put(&mut work, self.find(b), -c);
                }
                Node::AddC(a, q) => {
                    put(&mut work, self.find(a), c);
                    k += c * self.x.consts[q as usize];
                }
                Node::Scale(a, q) => put(&mut work, self.find(a), c * self.x.consts[q as usize]),
                Node::Mul(a, b) => match (self.const_of(a), self.const_of(b)) {
                    (Some(u), Some(v)) => k += c * u * v,
                    (Some(u), None) => put(&mut work, self.find(b), c * u),
                    (None, Some(v)) => put(&mut work, self.find(a), c * v),
                    _ => {
                        out.insert(i, c);
                    }
                },
                _ => {
                    out.insert(i, c);
                }
            }
        }
        (out, k)
    }
    fn reduce(&self, f: &mut Form<P>) {
        for (piv, e) in &self.eqs {
            if let Some(c) = f.0.get(piv).copied() {
                for (a, q) in &e.0 {
                    let s = f.0.entry(*a).or_insert_with(P::zero);
                    *s -= c * q;
                    if s.is_zero() {
                        f.0.remove(a);
                    }
                }
                f.1 -= c * e.1;
            }
        }
    }
    fn diff(&self, a: &Form<P>, b: &Form<P>) -> Form<P> {
        let mut d = a.clone();
        for (i, c) in &b.0 {
            let s = d.0.entry(*i).or_insert_with(P::zero);
            *s -= c;
            if s.is_zero() {
                d.0.remove(i);
            }
        }
        d.1 -= b.1;
        self.reduce(&mut d);
        d
    }
    fn num(&self, c: &P) -> String {
        // symmetric representative: small coefficients stay small
        let v: BigUint = (*c).into();
        let m: BigUint = P::MODULUS.into();
        if &v + &v > m {
            format!("(- {})", &m - &v)
        } else {
            v.to_string()
        }
    }
    fn form_smt(&self, f: &Form<P>) -> String {
        let mut s = String::from("(+ 0 ");
        for (i, c) in &f.0 {
            if c.is_one() {
                let _ = write!(s, "a{} ", i);
            } else {
                let _ = write!(s, "(* {} a{}) ", self.num(c), i);
            }
        }
        s.push_str(&self.num(&f.1));
        s.push(')');
        s
    }
    fn hyps(&self, atoms: &mut BTreeSet<Id>, body: &mut String) {
        for (j, (_, e)) in self.eqs.iter().enumerate() {
            atoms.extend(e.0.keys());
            let _ = writeln!(body, "(declare-const hk{} Int)\n(assert (= {} (* {} hk{})))", j, self.form_smt(e), self.p, j);
        }
    }
    /// unsat <=> every pair of forms agrees modulo p for all atom values (under the eq-PCs)
    fn ask_forms(&self, pairs: &[(Form<P>, Form<P>)]) -> Answer {
        let mut atoms = BTreeSet::new();
        let mut body = String::new();
        for (a, b) in pairs {
            atoms.extend(a.0.keys());
            atoms.extend(b.0.keys());
        }
        self.hyps(&mut atoms, &mut body);
        let mut decl = String::new();
        for a in &atoms {
            let _ = writeln!(decl, "(declare-const a{} Int)", a);
        }
        let mut ors = String::new();
        for (j, (a, b)) in pairs.iter().enumerate() {
            let _ = writeln!(body, "(declare-const q{j} Int)\n(declare-const r{j} Int)");
            let _ = writeln!(body, "(assert (= (- {} {}) (+ (* {} q{j}) r{j})))", self.form_smt(a), self.form_smt(b), self.p);
            let _ = writeln!(body, "(assert (and (<= 0 r{j}) (< r{j} {})))", self.p);
            let _ = write!(ors, " (< 0 r{j})");
        }
        let _ = writeln!(body, "(assert (or false{}))", ors);
        decl.push_str(&body);
        let vars: Vec<String> = atoms.iter().map(|a| format!("a{}", a)).collect();
        solver::check(&decl, &vars, self.timeout)
    }

    // ---- raw / non-linear encoding of a pair of nodes
    fn enc(&self, m: Id, k: u32, e: &mut Enc) -> String {
        let m = self.find(m);
        if let Some(s) = e.memo.get(&(m, k, false)) {
            return s.clone();
        }
        let r = match self.x.nodes[m as usize] {
            Node::Const(q) => return self.num(&self.x.consts[q as usize]),
            Node::Add(a, b) => {
                let (a, b) = (self.enc(a, k, e), self.enc(b, k, e));
                e.def(format!("(+ {} {})", a, b))
            }
            Node::Sub(a, b) => {
                let (a, b) = (self.enc(a, k, e), self.enc(b, k, e));
                e.def(format!("(- {} {})", a, b))
            }
            Node::AddC(a, q) => {
                let a = self.enc(a, k, e);
                e.def(format!("(+ {} {})", a, self.num(&self.x.consts[q as usize])))
            }
            Node::Scale(a, q) => {
                let a = self.enc(a, k, e);
                e.def(format!("(* {} {})", self.num(&self.x.consts[q as usize]), a))
            }
            Node::Mul(a, b) => {
                let (ca, cb) = (self.const_of(a), self.const_of(b));
                if ca.is_some() || cb.is_some() {
                    let (a, b) = (self.enc(a, k, e), self.enc(b, k, e));
                    e.def(format!("(* {} {})", a, b))
                } else if k == 0 {
                    e.atom(m)
                } else {
                    let (a, b) = (self.encop(a, k, e), self.encop(b, k, e));
                    e.def(format!("(* {} {})", a, b))
                }
            }
            Node::Inv(a) if k > 0 => {
                let s = e.atom(m);
                if e.inv_done.insert(m) {
                    let a = self.encop(a, k, e);
                    let j = e.inv_done.len();
                    let _ = writeln!(e.post, "(declare-const ik{j} Int)\n(assert (= (* {} {}) (+ 1 (* {} ik{j}))))", a, s, self.p);
                }
                s
            }
            _ => e.atom(m),
        };
        e.memo.insert((m, k, false), r.clone());
        r
    }
    fn encop(&self, a: Id, k: u32, e: &mut Enc) -> String {
        let a = self.find(a);
        match self.x.nodes[a as usize] {
            Node::Mul(..) | Node::Var(_) | Node::Const(_) | Node::Inv(_) => self.enc(a, k, e),
            _ if k <= 1 => e.atom(a),
            _ => self.enc(a, k - 2, e),
        }
    }
    fn ask_raw(&self, a: Id, b: Id, k: u32, timeout: u64) -> Answer {
        let mut e = Enc::default();
        let (u, v) = (self.enc(a, k, &mut e), self.enc(b, k, &mut e));
        if e.defs > 4000 {
            return Answer::Unknown("cone too large".into());
        }
        // path-condition hypotheses, encoded at the same cut
        let hz: Vec<String> = self.pcs_zero.iter().filter(|_| !self.eqs.is_empty()).map(|z| self.enc_hyp(*z, k, &mut e)).collect();
        let mut body = String::new();
        for a in &e.atoms {
            let _ = writeln!(body, "(declare-const a{} Int)", a);
        }
        body.push_str(&e.body);
        body.push_str(&e.post);
        for (j, h) in hz.iter().enumerate() {
            let _ = writeln!(body, "(declare-const hz{j} Int)\n(assert (= {} (* {} hz{j})))", h, self.p);
        }
        let _ = writeln!(body, "(declare-const q Int)\n(declare-const r Int)\n(assert (= (- {} {}) (+ (* {} q) r)))\n(assert (and (< 0 r) (< r {})))", u, v, self.p, self.p);
        if k > 0 && e.inv_done.is_empty() && hz.is_empty() {
            return solver::check_som(&body, timeout);
        }
        let vars: Vec<String> = e.atoms.iter().map(|a| format!("a{}", a)).collect();
        solver::check(&body, &vars, timeout)
    }
    // a hypothesis node was merged with 0; encode its own definition instead
    fn enc_hyp(&self, z: Id, k: u32, e: &mut Enc) -> String {
        match self.x.nodes[z as usize] {
            Node::Add(a, b) => format!("(+ {} {})", self.enc(a, k, e), self.enc(b, k, e)),
            Node::Sub(a, b) => format!("(- {} {})", self.enc(a, k, e), self.enc(b, k, e)),
            Node::AddC(a, q) => format!("(+ {} {})", self.enc(a, k, e), self.num(&self.x.consts[q as usize])),
            Node::Scale(a, q) => format!("(* {} {})", self.num(&self.x.consts[q as usize]), self.enc(a, k, e)),
            _ => e.atom(z),
        }
    }

    // ---- polynomial / rational identities.  A normal form is searched by expanding definitions,
    // latest first, until the difference vanishes; the solver then decides the query with exactly
    // those definitions expanded (everything else an unconstrained atom).
    /// Expand `d` until it vanishes.  If it does not, try to write it as a combination of the
    /// path's zero conditions.  Returns the definitions expanded and the combination.
    fn poly_expand(&self, d: Form<P>, cap: usize, combine: bool) -> Option<(BTreeSet<Id>, Vec<(Id, Poly<P>)>)> {
        let mut used = BTreeSet::new();
        let mut start = Poly::new();
        for (i, c) in d.0 {
            padd(&mut start, vec![i], c);
        }
        padd(&mut start, vec![], d.1);
        let mut rest = self.expand_all(start, cap, &mut used)?;
        if rest.is_empty() {
            return Some((used, vec![]));
        }
        if !combine {
            return None;
        }
        let mut comb = vec![];
        for z in &self.pcs_zero {
            let mut p = Poly::new();
            // the condition's own definition
            for (m, c) in self.own_form(*z) {
                padd(&mut p, m, c);
            }
            let p = self.expand_all(p, cap, &mut used)?;
            if p.is_empty() {
                continue;
            }
            let (q, r) = pdiv(rest, &p, cap)?;
            rest = r;
            if !q.is_empty() {
                comb.push((*z, q));
            }
            if rest.is_empty() {
                return Some((used, comb));
            }
        }
        None
    }
    fn own_form(&self, z: Id) -> Poly<P> {
        let mut p = Poly::new();
        let put = |p: &mut Poly<P>, n: Id, c: P| {
            let f = self.form(n);
            for (i, k) in f.0 {
                padd(p, vec![i], k * c);
            }
            padd(p, vec![], f.1 * c);
        };
        match self.x.nodes[z as usize] {
            Node::Add(a, b) => {
                put(&mut p, a, P::one());
                put(&mut p, b, P::one());
            }
            Node::Sub(a, b) => {
                put(&mut p, a, P::one());
                put(&mut p, b, -P::one());
            }
            Node::AddC(a, q) => {
                put(&mut p, a, P::one());
                padd(&mut p, vec![], self.x.consts[q as usize]);
            }
            Node::Scale(a, q) => put(&mut p, a, self.x.consts[q as usize]),
            Node::Mul(..) | Node::Var(_) => padd(&mut p, vec![z], P::one()),
            _ => {}
        }
        p
    }
    fn lin(&self, n: Id, open: bool) -> Poly<P> {
        let mut p = Poly::new();
        // an operand: sums stay opaque until their own turn
        if !open && self.is_sum(n) {
            padd(&mut p, vec![self.find(n)], P::one());
            return p;
        }
        let f = self.form(n);
        for (i, c) in f.0 {
            padd(&mut p, vec![i], c);
        }
        padd(&mut p, vec![], f.1);
        p
    }
    fn expand_all(&self, mut poly: Poly<P>, cap: usize, used: &mut BTreeSet<Id>) -> Option<Poly<P>> {
        let mut small: HashMap<Id, bool> = HashMap::new();
        loop {
            if poly.is_empty() {
                return Some(poly);
            }
            let expandable = |i: Id| matches!(self.x.nodes[i as usize], Node::Mul(..) | Node::Inv(..)) || self.is_sum(i) || self.eqs.iter().any(|e| e.0 == i);
            let mut top = None;
            let mut tiny = None;
            for i in poly.keys().flatten().copied() {
                if !expandable(i) {
                    continue;
                }
                top = top.max(Some(i));
                if self.is_sum(i) && *small.entry(i).or_insert_with(|| self.form(i).0.len() <= 2) {
                    tiny = tiny.max(Some(i));
                }
            }
            let Some(top) = tiny.or(top) else { return Some(poly) };
            let mut groups: BTreeMap<usize, Poly<P>> = BTreeMap::new();
            for (m, c) in poly {
                let e = m.iter().filter(|i| **i == top).count();
                let rest: Vec<Id> = m.into_iter().filter(|i| *i != top).collect();
                padd(groups.entry(e).or_default(), rest, c);
            }
            let emax = *groups.keys().last()?;
            if emax > 12 {
                return None;
            }
            let (sub, inverse): (Poly<P>, bool) = if let Some((_, f)) = self.eqs.iter().find(|e| e.0 == top) {
                let mut p = Poly::new();
                for (i, c) in &f.0 {
                    if *i != top {
                        padd(&mut p, vec![*i], -*c);
                    }
                }
                padd(&mut p, vec![], -f.1);
                (p, false)
            } else {
                used.insert(top);
                match self.x.nodes[top as usize] {
                    Node::Mul(a, b) => (pmul(&self.lin(a, false), &self.lin(b, false), cap)?, false),
                    Node::Inv(a) => (self.lin(a, false), true),
                    _ => (self.lin(top, true), false),
                }
            };
            let mut pw: Vec<Poly<P>> = vec![HashMap::from([(vec![], P::one())])];
            for _ in 0..emax {
                pw.push(pmul(pw.last().unwrap(), &sub, cap)?);
            }
            let mut out = Poly::new();
            for (e, g) in groups {
                let q = pmul(&g, &pw[if inverse { emax - e } else { e }], cap)?;
                for (m, c) in q {
                    padd(&mut out, m, c);
                }
                if out.len() > cap {
                    return None;
                }
            }
            poly = out;
        }
    }
    fn is_sum(&self, n: Id) -> bool {
        matches!(self.x.nodes[self.find(n) as usize], Node::Add(..) | Node::Sub(..) | Node::AddC(..) | Node::Scale(..))
    }
    fn encf_op(&self, m: Id, set: &BTreeSet<Id>, e: &mut Enc) -> Fr {
        if self.is_sum(m) && !set.contains(&self.find(m)) {
            return (e.atom(self.find(m)), BTreeMap::new());
        }
        self.encf(m, set, e)
    }
    // numerators over the least common product of the inverted elements
    fn scale_to(&self, e: &mut Enc, x: &Fr, to: &BTreeMap<usize, u32>) -> String {
        let mut n = x.0.clone();
        for (k, v) in to {
            let have = x.1.get(k).copied().unwrap_or(0);
            for _ in have..*v {
                let d = e.dens[*k].clone();
                n = e.def(format!("(* {} {})", n, d));
            }
        }
        n
    }
    fn fr_add(&self, e: &mut Enc, x: Fr, y: Fr, op: &str) -> Fr {
        let mut m = x.1.clone();
        for (k, v) in &y.1 {
            let c = m.entry(*k).or_insert(0);
            *c = (*c).max(*v);
        }
        let (a, b) = (self.scale_to(e, &x, &m), self.scale_to(e, &y, &m));
        (e.def(format!("({op} {} {})", a, b)), m)
    }
    fn encf(&self, m: Id, set: &BTreeSet<Id>, e: &mut Enc) -> Fr {
        let m = self.find(m);
        if let Some(s) = e.fmemo.get(&m) {
            return s.clone();
        }
        let plain = |s: String| (s, BTreeMap::new());
        if let Some((_, f)) = self.eqs.iter().find(|q| q.0 == m) {
            // path condition: this atom is a linear combination of others
            let mut r: Fr = plain(self.num(&-f.1));
            for (i, c) in f.0.clone() {
                if i != m {
                    let t = self.encf(i, set, e);
                    let t = (e.def(format!("(* {} {})", self.num(&-c), t.0)), t.1);
                    r = self.fr_add(e, r, t, "+");
                }
            }
            e.fmemo.insert(m, r.clone());
            return r;
        }
        let r = self.encf_def(m, set, e);
        e.fmemo.insert(m, r.clone());
        r
    }
    fn encf_def(&self, m: Id, set: &BTreeSet<Id>, e: &mut Enc) -> Fr {
        let plain = |s: String| (s, BTreeMap::new());
        match self.x.nodes[m as usize] {
            Node::Const(q) => plain(self.num(&self.x.consts[q as usize])),
            Node::Add(a, b) => {
                let (a, b) = (self.encf(a, set, e), self.encf(b, set, e));
                self.fr_add(e, a, b, "+")
            }
            Node::Sub(a, b) => {
                let (a, b) = (self.encf(a, set, e), self.encf(b, set, e));
                self.fr_add(e, a, b, "-")
            }
            Node::AddC(a, q) => {
                let a = self.encf(a, set, e);
                let c = plain(self.num(&self.x.consts[q as usize]));
                self.fr_add(e, a, c, "+")
            }
            Node::Scale(a, q) => {
                let a = self.encf(a, set, e);
                (e.def(format!("(* {} {})", self.num(&self.x.consts[q as usize]), a.0)), a.1)
            }
            Node::Mul(a, b) if set.contains(&m) || self.const_of(a).is_some() || self.const_of(b).is_some() => {
                let (a, b) = if set.contains(&m) { (self.encf_op(a, set, e), self.encf_op(b, set, e)) } else { (self.encf(a, set, e), self.encf(b, set, e)) };
                let n = e.def(format!("(* {} {})", a.0, b.0));
                let mut d = a.1;
                for (k, v) in b.1 {
                    *d.entry(k).or_insert(0) += v;
                }
                (n, d)
            }
            Node::Inv(a) if set.contains(&m) => {
                let a = self.encf_op(a, set, e);
                let mut n = "1".to_string();
                for (k, v) in &a.1 {
                    for _ in 0..*v {
                        let d = e.dens[*k].clone();
                        n = e.def(format!("(* {} {})", n, d));
                    }
                }
                e.dens.push(a.0);
                (n, BTreeMap::from([(e.dens.len() - 1, 1)]))
            }
            _ => plain(e.atom(m)),
        }
    }
    /// Decide a == b with the definitions in `set` expanded (denominators are non-zero on the path),
    /// given the zero conditions combined as in `comb`.
    fn ask_expanded(&self, a: Id, b: Id, set: &BTreeSet<Id>, comb: &[(Id, Poly<P>)], timeout: u64) -> Answer {
        let mut e = Enc::default();
        let (u, v) = (self.encf(a, set, &mut e), self.encf(b, set, &mut e));
        let diff = self.fr_add(&mut e, u, v, "-");
        let mut goal = diff.0.clone();
        if !comb.is_empty() {
            // numerators only: the zero conditions' numerators are zero as well.  The combination was
            // found for some common multiple; let the solver see goal * c = sum q_j h_j for constants.
            let mut sum = String::from("0");
            for (z, q) in comb {
                let h = self.encf_def(*z, set, &mut e);
                let mut qs = String::from("(+ 0");
                for (m, c) in q {
                    let mut t = self.num(c);
                    for i in m {
                        let at = e.atom(*i);
                        t = format!("(* {} {})", t, at);
                    }
                    let _ = write!(qs, " {}", t);
                }
                qs.push(')');
                sum = e.def(format!("(+ {} (* {} {}))", sum, qs, h.0));
            }
            goal = e.def(format!("(- {} {})", goal, sum));
        }
        if e.defs > 6000 {
            return Answer::Unknown("too large".into());
        }
        let mut body = String::new();
        for a in &e.atoms {
            let _ = writeln!(body, "(declare-const a{} Int)", a);
        }
        body.push_str(&e.body);
        let _ = writeln!(body, "(declare-const q Int)\n(declare-const r Int)\n(assert (= {} (+ (* {} q) r)))\n(assert (and (< 0 r) (< r {})))", goal, self.p, self.p);
        solver::check_som(&body, timeout)
    }

    fn cone_size(&self, n: Id, cap: usize) -> usize {
        let mut seen = BTreeSet::new();
        let mut st = vec![self.find(n)];
        while let Some(i) = st.pop() {
            if !seen.insert(i) {
                continue;
            }
            if seen.len() > cap {
                return cap + 1;
            }
            match self.x.nodes[i as usize] {
                Node::Add(a, b) | Node::Sub(a, b) => {
                    st.push(self.find(a));
                    st.push(self.find(b));
                }
                Node::AddC(a, _) | Node::Scale(a, _) => st.push(self.find(a)),
                _ => {}
            }
        }
        seen.len()
    }

    /// Decide a == b (for all values, under the path condition).
    pub fn prove_eq(&mut self, a: Id, b: Id, effort: u32) -> bool {
        let (ra, rb) = (self.find(a), self.find(b));
        if ra == rb {
            return true;
        }
        let (fa, fb) = (self.form(a), self.form(b));
        self.max_atoms = self.max_atoms.max(fa.0.len()).max(fb.0.len());
        let d = self.diff(&fa, &fb);
        if d.0.is_empty() {
            if !d.1.is_zero() {
                return false; // differ by a non-zero constant
            }
            let ans = if self.eqs.is_empty() && self.cone_size(a, 150) + self.cone_size(b, 150) <= 150 {
                self.ask_raw(a, b, 0, self.timeout)
            } else {
                self.ask_forms(&[(fa, fb)])
            };
            return ans == Answer::Unsat;
        }
        if effort == 0 {
            return false;
        }
        if self.nl_spent > self.nl_budget && effort < 3 {
            return false;
        }
        let t0 = std::time::Instant::now();
        let mut ok = false;
        let cap = if effort < 3 { 800 } else { 6000 };
        if let Some((set, comb)) = self.poly_expand(d, cap, false) {
            let r = self.ask_expanded(a, b, &set, &comb, 5_000 * effort as u64);
            if std::env::var("SYMX_DEBUG").is_ok() {
                eprintln!("POLY {a} {b} expanded {:?} -> {:?} {:?}", set.len(), r, t0.elapsed());
            }
            ok = r == Answer::Unsat;
        }
        if !ok && !self.pcs_zero.is_empty() && !self.rep0.is_empty() {
            // forget what was merged because of the path condition; use the condition explicitly
            let rep0 = self.rep0.clone();
            let rep = std::mem::replace(&mut self.rep, rep0);
            let eqs = std::mem::take(&mut self.eqs);
            let d = self.diff(&self.form(a), &self.form(b));
            if let Some((set, comb)) = self.poly_expand(d, cap, true) {
                let r = self.ask_expanded(a, b, &set, &comb, 5_000 * effort as u64);
                if std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("COMB {a} {b} expanded {:?} comb {} -> {:?} {:?}", set.len(), comb.len(), r, t0.elapsed());
                }
                ok = r == Answer::Unsat;
            }
            self.rep = rep;
            self.eqs = eqs;
        }
        self.nl_spent += t0.elapsed().as_secs_f64();
        ok
    }

    fn tag_class(&self, t: u32) -> u64 {
        let n = self.x.uf_tags[t as usize].trim_end_matches('\'');
        self.x.uf_tags.iter().position(|u| u.trim_end_matches('\'') == n).unwrap() as u64
    }
    fn cone_mask(&self) -> Vec<bool> {
        let n = self.x.nodes.len();
        let mut m = vec![false; n];
        for o in &self.x.obligations {
            m[o.a as usize] = true;
            m[o.b as usize] = true;
        }
        for z in self.pcs_zero.iter().chain(&self.pcs_nonzero) {
            m[*z as usize] = true;
        }
        for i in (0..n).rev() {
            if m[i] {
                for c in children(&self.x.nodes[i]) {
                    m[c as usize] = true;
                }
            }
        }
        m
    }

    fn sig(&self, i: Id) -> Vec<u64> {
        let any = self.x.alive.iter().any(|b| *b);
        let mut v = vec![];
        for l in 0..LANES {
            if self.x.alive[l] || !any {
                v.extend(limbs(&self.x.vals[i as usize][l]));
            }
        }
        v
    }

    pub fn sweep(&mut self) {
        let mask = self.cone_mask();
        self.sweep_pass(&mask, 2);
        if !self.pcs_zero.is_empty() {
            for _ in 0..3 {
                let before = self.merges;
                self.load_eqs();
                if self.infeasible {
                    return;
                }
                self.sweep_pass(&mask, 1);
                if self.merges == before {
                    break;
                }
            }
            self.load_eqs();
        }
    }
    fn load_eqs(&mut self) {
        self.eqs.clear();
        for z in self.pcs_zero.clone() {
            // the node's own definition, not the constant it may have been merged with
            let saved = self.rep[z as usize];
            self.rep[z as usize] = z;
            let mut f = self.form(z);
            self.rep[z as usize] = saved;
            self.reduce(&mut f);
            let piv = match f.0.iter().next_back() {
                Some((i, c)) => (*i, *c),
                None => {
                    if !f.1.is_zero() {
                        self.infeasible = true;
                    }
                    continue;
                }
            };
            let inv = piv.1.inverse().unwrap();
            for c in f.0.values_mut() {
                *c *= inv;
            }
            f.1 *= inv;
            // keep the system reduced
            let eqs = std::mem::take(&mut self.eqs);
            self.eqs = vec![(piv.0, f)];
            let mut out = vec![];
            for (p, mut e) in eqs {
                self.reduce(&mut e);
                out.push((p, e));
            }
            self.eqs.extend(out);
        }
    }
    fn sweep_pass(&mut self, mask: &[bool], effort: u32) {
        let n = mask.len();
        let mut key = vec![false; n];
        for i in 0..n {
            if !mask[i] {
                continue;
            }
            match self.x.nodes[i] {
                Node::Mul(a, b) | Node::Uf(_, a, b) => {
                    key[i] = true;
                    key[a as usize] = true;
                    key[b as usize] = true;
                }
                Node::Inv(a) | Node::Uf1(_, a) => {
                    key[i] = true;
                    key[a as usize] = true;
                }
                _ => {}
            }
        }
        for o in &self.x.obligations {
            key[o.a as usize] = true;
            key[o.b as usize] = true;
        }
        let alive = self.x.alive.iter().filter(|b| **b).count();
        let consts_ok = alive >= 2;
        let mut table: HashMap<(u8, u64, Id, Id), Id> = HashMap::new();
        let mut bysig: HashMap<Vec<u64>, Vec<Id>> = HashMap::new();
        let mut fails = 0usize;
        for i in 0..n {
            if !mask[i] {
                continue;
            }
            let id = i as Id;
            if self.find(id) != id {
                continue;
            }
            // congruence and folding
            let nd = self.x.nodes[i];
            let f = |s: &Self, a: Id| s.find(a);
            let k = match nd {
                Node::Add(a, b) => {
                    let (a, b) = (f(self, a), f(self, b));
                    (1, 0, a.min(b), a.max(b))
                }
                Node::Sub(a, b) => (2, 0, f(self, a), f(self, b)),
                Node::AddC(a, q) => (3, q as u64, f(self, a), 0),
                Node::Scale(a, q) => (4, q as u64, f(self, a), 0),
                Node::Mul(a, b) => {
                    let (a, b) = (f(self, a), f(self, b));
                    (5, 0, a.min(b), a.max(b))
                }
                Node::Inv(a) => (6, 0, f(self, a), 0),
                Node::Uf(t, a, b) => (7, self.tag_class(t), f(self, a), f(self, b)),
                Node::Uf1(t, a) => (8, self.tag_class(t), f(self, a), 0),
                Node::Const(_) => continue,
                Node::Var(v) => (9, v as u64, 0, 0),
            };
            let folded = match nd {
                Node::Var(_) | Node::Const(_) => None,
                Node::Uf(_, a, b) if self.const_of(a).is_none() || self.const_of(b).is_none() => None,
                _ => {
                    let ch = children(&nd);
                    if ch.iter().all(|c| self.const_of(*c).is_some()) {
                        Some(self.x.eval_one(&nd, &|j| self.const_of(j).unwrap()))
                    } else if let Node::Mul(a, b) = nd {
                        if self.const_of(a).is_some_and(|c| c.is_zero()) || self.const_of(b).is_some_and(|c| c.is_zero()) {
                            Some(P::zero())
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
            };
            if let (Some(c), false) = (folded, matches!(nd, Node::Uf(..) | Node::Uf1(..))) {
                let cn = self.new_const(c);
                self.rep[i] = cn;
                self.merges += 1;
                continue;
            }
            if let Some(j) = table.get(&k) {
                if *j != id {
                    self.rep[i] = *j;
                    self.merges += 1;
                    continue;
                }
            }
            table.insert(k, id);
            if !key[i] {
                continue;
            }
            let sig = self.sig(id);
            if consts_ok && fails < 400 {
                let v0 = self.x.alive.iter().position(|b| *b).map(|l| self.x.vals[i][l]).unwrap();
                if (0..LANES).all(|l| !self.x.alive[l] || self.x.vals[i][l] == v0) {
                    let cn = self.new_const(v0);
                    if self.prove_eq(id, cn, effort) {
                        self.rep[i] = cn;
                        self.merges += 1;
                        continue;
                    }
                    fails += 1;
                }
            }
            let cands = bysig.get(&sig).cloned().unwrap_or_default();
            let mut done = false;
            for c in cands.iter().take(3) {
                if fails > 400 {
                    break;
                }
                let ok = self.prove_eq(id, *c, effort);
                if !ok && std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("FAIL {} {:?} vs {} {:?}\n  {:?}\n  {:?}", id, self.x.nodes[i], c, self.x.nodes[*c as usize], self.form(id).0.keys().map(|k| (k, self.x.nodes[*k as usize])).collect::<Vec<_>>(), self.form(*c).0.keys().map(|k| (k, self.x.nodes[*k as usize])).collect::<Vec<_>>());
                }
                if ok {
                    self.rep[i] = *c;
                    self.merges += 1;
                    done = true;
                    break;
                }
                fails += 1;
            }
            if !done {
                bysig.entry(sig).or_default().push(id);
            }
        }
        if self.rep0.is_empty() && !self.pcs_zero.is_empty() {
            self.rep0 = self.rep.clone();
        }
        // asserted path conditions
        for z in self.pcs_zero.clone() {
            if self.const_of(z).is_none() {
                let c = self.new_const(P::zero());
                if self.rep[z as usize] == z && !matches!(self.x.nodes[z as usize], Node::Const(_)) {
                    self.rep[z as usize] = c;
                    self.merges += 1;
                }
            }
        }
    }

    /// Is the path condition contradictory?
    fn pc_contradiction(&self) -> bool {
        if self.pcs_zero.is_empty() {
            return false;
        }
        // some node required non-zero is forced to zero
        for z in &self.pcs_nonzero {
            let mut f = self.form(*z);
            self.reduce(&mut f);
            if f.0.is_empty() && f.1.is_zero() {
                return self.ask_forms(&[(self.form(*z), (BTreeMap::new(), P::zero()))]) == Answer::Unsat;
            }
        }
        false
    }

    /// Decide all obligations of this path.
    pub fn discharge(&mut self) -> Verdict {
        if self.infeasible || self.pc_contradiction() {
            return Verdict::Holds;
        }
        let mut obs = self.x.obligations.clone();
        if self.eqs.is_empty() && self.x.uf_apps > 0 {
            let pairs: Vec<(Id, Id)> = obs.iter().filter(|o| !o.negated).map(|o| (o.a, o.b)).collect();
            match self.ask_uf(&pairs) {
                Some(Answer::Unsat) => obs.retain(|o| o.negated),
                // the function symbols are arbitrary: a difference of terms is a difference for some hash
                Some(Answer::Sat(m)) => return Verdict::Differs(m),
                _ => {}
            }
        }
        let mut hard: Vec<usize> = vec![];
        let mut easy: Vec<usize> = vec![];
        for (j, o) in obs.iter().enumerate() {
            if o.negated {
                hard.push(j);
                continue;
            }
            let d = self.diff(&self.form(o.a), &self.form(o.b));
            if d.0.is_empty() && d.1.is_zero() {
                easy.push(j);
            } else {
                hard.push(j);
            }
        }
        for chunk in easy.chunks(64) {
            let pairs: Vec<_> = chunk.iter().map(|j| (self.form(obs[*j].a), self.form(obs[*j].b))).collect();
            match self.ask_forms(&pairs) {
                Answer::Unsat => {}
                Answer::Sat(m) => return Verdict::Differs(m),
                Answer::Unknown(e) => return Verdict::Undecided(format!("final query: {}", e)),
            }
        }
        for j in hard {
            let o = &obs[j];
            if std::env::var("SYMX_DEBUG").is_ok() {
                let d = self.diff(&self.form(o.a), &self.form(o.b));
                for k in d.0.keys() {
                    eprintln!("HARD {} atom {}: {:?} {:?}", o.label, k, self.x.nodes[*k as usize], children(&self.x.nodes[*k as usize]).iter().map(|c| (self.find(*c), self.x.nodes[self.find(*c) as usize])).collect::<Vec<_>>());
                }
            }
            if o.negated {
                if !self.prove_ne(o.a, o.b) {
                    return Verdict::Undecided(format!("{}: disequality not shown", o.label));
                }
                continue;
            }
            if self.prove_eq(o.a, o.b, 3) {
                continue;
            }
            // a real difference: let the solver exhibit it on the atoms
            let r = self.ask_forms(&[(self.form(o.a), self.form(o.b))]);
            return match r {
                Answer::Sat(m) => Verdict::Differs(m),
                _ => Verdict::Undecided(format!("{}: equality neither shown nor refuted", o.label)),
            };
        }
        Verdict::Holds
    }
    /// Terms built from uninterpreted functions only: one query over the theory of uninterpreted
    /// functions.  A trailing ' on a tag marks the specification's copy of the same function.
    fn ask_uf(&self, pairs: &[(Id, Id)]) -> Option<Answer> {
        let mut order = BTreeSet::new();
        let mut st: Vec<Id> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
        let mut ufs = 0;
        while let Some(i) = st.pop() {
            if !order.insert(i) {
                continue;
            }
            match self.x.nodes[i as usize] {
                Node::Uf(..) | Node::Uf1(..) => ufs += 1,
                Node::Var(_) | Node::Const(_) => {}
                _ => return None,
            }
            st.extend(children(&self.x.nodes[i as usize]));
        }
        if ufs == 0 {
            return None;
        }
        let mut body = String::from("(set-logic UFLIA)\n");
        let name = |t: u32| self.x.uf_tags[t as usize].trim_end_matches('\'').to_string();
        let mut declared = BTreeSet::new();
        for i in order {
            match self.x.nodes[i as usize] {
                Node::Var(_) => {
                    let _ = writeln!(body, "(declare-const a{i} Int)");
                }
                Node::Const(q) => {
                    let _ = writeln!(body, "(define-fun a{i} () Int {})", self.num(&self.x.consts[q as usize]));
                }
                Node::Uf(t, x, y) => {
                    if declared.insert(name(t)) {
                        let _ = writeln!(body, "(declare-fun |{}| (Int Int) Int)", name(t));
                    }
                    let _ = writeln!(body, "(define-fun a{i} () Int (|{}| a{x} a{y}))", name(t));
                }
                Node::Uf1(t, x) => {
                    if declared.insert(name(t)) {
                        let _ = writeln!(body, "(declare-fun |{}| (Int) Int)", name(t));
                    }
                    let _ = writeln!(body, "(define-fun a{i} () Int (|{}| a{x}))", name(t));
                }
                _ => {}
            }
        }
        body.push_str("(assert (or false");
        for (a, b) in pairs {
            let _ = write!(body, " (not (= a{a} a{b}))");
        }
        body.push_str("))\n");
        Some(solver::check(&body, &[], self.timeout))
    }
    /// a - b is non-zero on every value: follows from a recorded non-zero decision.
    pub fn prove_ne(&mut self, a: Id, b: Id) -> bool {
        let d = self.diff(&self.form(a), &self.form(b));
        if d.0.is_empty() {
            return !d.1.is_zero();
        }
        let mut atoms: BTreeSet<Id> = d.0.keys().copied().collect();
        let mut body = String::new();
        self.hyps(&mut atoms, &mut body);
        for (j, z) in self.pcs_nonzero.iter().enumerate() {
            let f = self.form(*z);
            if f.0.keys().any(|k| !d.0.contains_key(k)) {
                continue;
            }
            let _ = writeln!(body, "(declare-const nq{j} Int)\n(declare-const nr{j} Int)\n(assert (= {} (+ (* {} nq{j}) nr{j})))\n(assert (and (< 0 nr{j}) (< nr{j} {})))", self.form_smt(&f), self.p, self.p);
        }
        let _ = writeln!(body, "(declare-const q Int)\n(assert (= {} (* {} q)))", self.form_smt(&d), self.p);
        let mut decl = String::new();
        for a in &atoms {
            let _ = writeln!(decl, "(declare-const a{} Int)", a);
        }
        decl.push_str(&body);
        solver::check(&decl, &[], self.timeout) == Answer::Unsat
    }
    /// Vacuity guard: the same final query with one side shifted by 1 must be satisfiable.
    pub fn vacuity_twin(&self) -> bool {
        for o in &self.x.obligations {
            if o.negated {
                continue;
            }
            let a = self.form(o.a);
            let mut b = self.form(o.b);
            b.1 += P::one();
            return matches!(self.ask_forms(&[(a, b)]), Answer::Sat(_));
        }
        true
    }
    #[allow(dead_code)]
    pub fn show(&self, i: Id) -> String {
        format!("{:?} {:?}", self.x.nodes[i as usize], self.x.vals[i as usize].iter().map(dec).collect::<Vec<_>>())
    }
}

pub fn children(n: &Node) -> Vec<Id> {
    match *n {
        Node::Const(_) | Node::Var(_) => vec![],
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Uf(_, a, b) => vec![a, b],
        Node::AddC(a, _) | Node::Scale(a, _) | Node::Inv(a) | Node::Uf1(_, a) => vec![a],
    }
}

type Fr = (String, BTreeMap<usize, u32>);
type Poly<P> = HashMap<Vec<Id>, P>; // monomials sorted descending
fn padd<P: PrimeField>(p: &mut Poly<P>, m: Vec<Id>, c: P) {
    if c.is_zero() {
        return;
    }
    match p.entry(m) {
        std::collections::hash_map::Entry::Occupied(mut o) => {
            *o.get_mut() += c;
            if o.get().is_zero() {
                o.remove();
            }
        }
        std::collections::hash_map::Entry::Vacant(v) => {
            v.insert(c);
        }
    }
}
fn pmul<P: PrimeField>(a: &Poly<P>, b: &Poly<P>, cap: usize) -> Option<Poly<P>> {
    let mut r = Poly::new();
    if a.len() * b.len() > 20 * cap {
        return None;
    }
    for (m, c) in a {
        for (n, q) in b {
            let mut v: Vec<Id> = m.iter().chain(n).copied().collect();
            v.sort_unstable_by(|x, y| y.cmp(x));
            padd(&mut r, v, *c * q);
        }
    }
    if r.len() > cap {
        return None;
    }
    Some(r)
}
/// a = q*b + r, lexicographic leading terms
fn pdiv<P: PrimeField>(mut a: Poly<P>, b: &Poly<P>, cap: usize) -> Option<(Poly<P>, Poly<P>)> {
    let (lm, lc) = b.iter().max_by(|x, y| x.0.cmp(y.0)).map(|x| (x.0.clone(), *x.1))?;
    let inv = lc.inverse()?;
    let (mut q, mut r) = (Poly::new(), Poly::new());
    let mut steps = 0;
    while let Some((m, c)) = a.iter().max_by(|x, y| x.0.cmp(y.0)).map(|x| (x.0.clone(), *x.1)) {
        steps += 1;
        if steps > 4 * cap {
            return None;
        }
        // m divisible by lm?
        let mut quo = m.clone();
        let ok = lm.iter().all(|i| quo.iter().position(|x| x == i).map(|p| quo.remove(p)).is_some());
        if ok {
            let k = c * inv;
            for (n, d) in b {
                let mut v: Vec<Id> = n.iter().chain(&quo).copied().collect();
                v.sort_unstable_by(|x, y| y.cmp(x));
                padd(&mut a, v, -(k * d));
            }
            padd(&mut q, quo, k);
        } else {
            a.remove(&m);
            padd(&mut r, m, c);
        }
    }
    Some((q, r))
}
#[derive(Default)]
struct Enc {
    fmemo: HashMap<Id, Fr>,
    dens: Vec<String>,
    atoms: BTreeSet<Id>,
    memo: HashMap<(Id, u32, bool), String>,
    body: String,
    post: String,
    defs: usize,
    inv_done: BTreeSet<Id>,
}
impl Enc {
    fn atom(&mut self, i: Id) -> String {
        self.atoms.insert(i);
        format!("a{}", i)
    }
    fn def(&mut self, e: String) -> String {
        let n = format!("n{}", self.defs);
        self.defs += 1;
        let _ = writeln!(self.body, "(define-fun {} () Int {})", n, e);
        n
    }
}
