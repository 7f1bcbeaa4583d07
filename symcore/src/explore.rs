//! Path exploration: run the driver on the real code, decide its obligations on the path taken,
//! then flip the data-dependent branches it met and go on, up to a stated number of paths.
use crate::ctx::{self, *};
use crate::env::*;
use crate::prove::{children, Prover, Verdict};
use crate::roots;
use crate::symf::dec;
use ark_ff::PrimeField;
use std::collections::{BTreeSet, HashMap};
use std::marker::PhantomData;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct PathStats {
    pub paths: usize,
    pub infeasible: usize,
    pub unexplored: usize,
    pub decisions: usize,
    pub nodes: usize,
    pub vars: usize,
    pub merges: usize,
    pub obligations: usize,
    pub max_atoms: usize,
    pub concretised: usize,
    pub wall: f64,
    pub sample: String,
}
#[derive(Clone, Debug)]
pub enum Status {
    Holds,
    Violated { inputs: Vec<(String, String)>, what: Vec<String>, replay: String },
    Undecided(String),
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub id: String,
    pub status: Status,
    pub st: PathStats,
    pub functions: Vec<&'static str>,
}

struct Spec<P: PrimeField> {
    inputs: HashMap<String, [P; LANES]>,
    script: Vec<Option<bool>>,
    depth: usize,
    witness: bool,
}

pub struct Limits {
    pub seed: u64,
    pub deadline: Instant,
    pub max_paths_mult: usize,
}

fn run_once<P: PrimeField, D: Driver<P>>(d: &D, spec: &Spec<P>, seed: u64) -> Result<Ctx<P>, String> {
    let mut c = Ctx::<P>::new(seed);
    c.inputs = spec.inputs.clone();
    c.script = spec.script.clone();
    ctx::install(c);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.drive(&mut SymEnv::<P>(PhantomData))));
    let c = ctx::take::<P>();
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        // real code runs under a guard, so this is a limit of the machinery or a mistake in the driver
        return Err(m);
    }
    Ok(c)
}

pub fn lane_inputs<P: PrimeField>(c: &Ctx<P>, l: usize) -> HashMap<String, P> {
    c.inputs.iter().map(|(n, v)| (n.clone(), v[l])).collect()
}

/// Confirm a candidate counterexample on the real code with concrete values.
pub fn confirm<P: PrimeField, D: Driver<P>>(d: &D, inp: &HashMap<String, P>) -> Option<(Vec<String>, String)> {
    if !d.uses_rand() {
        let f = run_native::<P, D>(d, inp);
        if !f.is_empty() {
            return Some((f, "native".into()));
        }
        return None;
    }
    let f = run_concrete::<P, D>(d, inp);
    if !f.is_empty() {
        return Some((f, "concrete values, scripted randomness".into()));
    }
    None
}

pub fn explore<P: PrimeField, D: Driver<P>>(d: &D, lim: &Limits) -> Outcome {
    let t0 = Instant::now();
    let mut st = PathStats::default();
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(Spec::<P> { inputs: HashMap::new(), script: vec![], depth: 0, witness: true });
    let budget = d.max_paths() * lim.max_paths_mult;
    let mut undecided: Option<String> = None;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let done = |status: Status, mut st: PathStats| {
        st.wall = t0.elapsed().as_secs_f64();
        Outcome { id: d.id(), status, st, functions: d.functions() }
    };
    while let Some(spec) = queue.pop_front() {
        if st.paths >= budget || (st.paths > 0 && Instant::now() > lim.deadline) {
            st.unexplored += 1 + queue.len();
            break;
        }
        let c = match run_once::<P, D>(d, &spec, lim.seed) {
            Ok(c) => c,
            Err(m) => {
                undecided = Some(m);
                continue;
            }
        };
        st.paths += 1;
        st.decisions += c.decisions.len();
        st.nodes += c.nodes.len();
        st.vars = st.vars.max(c.var_names.len());
        st.obligations += c.obligations.len();
        st.concretised += c.concretised.len();
        if st.sample.is_empty() {
            st.sample = format!("{} variables, {} operation nodes, {} data-dependent branches, {} obligations", c.var_names.len(), c.nodes.len(), c.decisions.len(), c.obligations.len());
        }
        // a failure already visible on the witness lane
        if !c.failures.is_empty() && (spec.witness || c.decisions.iter().all(|x| !x.forced)) {
            let inp = lane_inputs(&c, 0);
            return match confirm::<P, D>(d, &inp) {
                Some((what, how)) => done(violated(&inp, what, how), st),
                None => done(Status::Undecided(format!("candidate did not reproduce: {:?}", &c.failures[..c.failures.len().min(3)])), st),
            };
        }
        // branches to flip
        let from = spec.script.len();
        let ndec = c.decisions.len();
        let mut prefix: Vec<Option<bool>> = c.decisions.iter().map(|x| Some(x.taken)).collect();
        let struct_fail = !c.failures.is_empty(); // forced path without witness
        let mut pr = Prover::new(c, usize::MAX);
        pr.sweep();
        st.merges += pr.merges;
        st.max_atoms = st.max_atoms.max(pr.max_atoms);
        if struct_fail {
            undecided = Some(format!("path without witness fails: {:?}", pr.x.failures));
        } else {
            match pr.discharge() {
                Verdict::Holds => {
                    if st.paths == 1 && d.check_vacuity() && !pr.vacuity_twin() {
                        return done(Status::Undecided("vacuity twin not satisfiable".into()), st);
                    }
                }
                Verdict::Differs(model) => {
                    // solver model if it speaks about inputs, otherwise the evaluation lanes
                    let mut cands: Vec<HashMap<String, P>> = vec![];
                    if !model.is_empty() {
                        let mut m = lane_inputs(&pr.x, 0);
                        for (k, v) in &model {
                            if let Ok(id) = k[1..].parse::<usize>() {
                                if let Node::Var(ix) = pr.x.nodes[id] {
                                    if let Some(val) = parse_mod::<P>(v) {
                                        m.insert(pr.x.var_names[ix as usize].clone(), val);
                                    }
                                }
                            }
                        }
                        cands.push(m);
                    }
                    for l in 0..LANES {
                        cands.push(lane_inputs(&pr.x, l));
                    }
                    for inp in cands {
                        if let Some((what, how)) = confirm::<P, D>(d, &inp) {
                            return done(violated(&inp, what, how), st);
                        }
                    }
                    undecided = Some("solver found a difference that did not reproduce".into());
                }
                Verdict::Undecided(m) => undecided = Some(m),
            }
        }
        let c = pr.x;
        if spec.depth >= 3 {
            st.unexplored += ndec.saturating_sub(from);
            continue;
        }
        let mut flips = 0;
        // first, last, then the rest: rare branches tend to sit at the ends
        let mut order: Vec<usize> = (from..ndec).collect();
        if order.len() > 12 {
            let mut s = lim.seed ^ 0x51ed;
            for i in (1..order.len()).rev() {
                let j = (splitmix(&mut s) % (i as u64 + 1)) as usize;
                order.swap(i, j);
            }
            if let Some(p) = order.iter().position(|i| *i == from) {
                order.swap(0, p);
            }
        }
        // branches on the caller's data before branches on drawn randomness
        let on_input: Vec<bool> = c.decisions.iter().map(|d| {
            let roots: Vec<Id> = match d.pred {
                Pred::IsZero(e) | Pred::Bit(e, _) => vec![e],
                Pred::Lt(a, b) => vec![a, b],
            };
            cone(&c, &roots).vars.iter().any(|v| !c.var_names[*v as usize].starts_with("rand["))
        }).collect();
        order.sort_by_key(|i| !on_input[*i]);
        let cc = std::cell::RefCell::new(c);
        for i in order {
            if flips >= budget || Instant::now() > lim.deadline {
                st.unexplored += 1;
                continue;
            }
            flips += 1;
            prefix.truncate(ndec);
            let mut script: Vec<Option<bool>> = prefix[..i].to_vec();
            script.push(Some(!prefix[i].unwrap()));
            let key = format!("{:?}", script);
            if !seen.insert(key) {
                continue;
            }
            match solve_flip(&cc, i, lim.seed.wrapping_add(st.paths as u64 * 77 + i as u64)) {
                Flip::Lanes(inputs) => queue.push_back(Spec { inputs, script, depth: spec.depth + 1, witness: true }),
                Flip::Infeasible => st.infeasible += 1,
                Flip::Unknown => queue.push_back(Spec { inputs: HashMap::new(), script, depth: spec.depth + 1, witness: false }),
            }
        }
        // values the code looked at bit by bit: run it again on boundary values of them
        let c = cc.into_inner();
        if spec.depth == 0 {
            for n in c.concretised.iter().take(6) {
                for v in [P::zero(), P::one(), -P::one()] {
                    let mut seed = lim.seed ^ (*n as u64) << 8;
                    if let Some(inputs) = solve_lanes(&c, &[(*n, v)], 0, &mut seed) {
                        queue.push_back(Spec { inputs, script: vec![], depth: 3, witness: true });
                    }
                }
            }
        }
    }
    match undecided {
        Some(m) => done(Status::Undecided(m), st),
        None => done(Status::Holds, st),
    }
}

fn violated<P: PrimeField>(inp: &HashMap<String, P>, what: Vec<String>, how: String) -> Status {
    let mut v: Vec<(String, String)> = inp.iter().map(|(k, v)| (k.clone(), dec(v))).collect();
    v.sort();
    Status::Violated { inputs: v, what, replay: how }
}
pub fn parse_mod<P: PrimeField>(s: &str) -> Option<P> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t.trim()),
        None => (false, s),
    };
    let b: num_bigint::BigUint = t.parse().ok()?;
    let v = P::from(b);
    Some(if neg { -v } else { v })
}

enum Flip<P: PrimeField> {
    Lanes(HashMap<String, [P; LANES]>),
    Infeasible,
    Unknown,
}

fn solve_flip<P: PrimeField>(cc: &std::cell::RefCell<Ctx<P>>, i: usize, seed: u64) -> Flip<P> {
    let mut seed = seed;
    let uni = |e: Id| unify(&mut cc.borrow_mut(), e);
    let tail = {
        let d = cc.borrow().decisions[i].clone();
        match (d.pred, d.taken) {
            (Pred::IsZero(e), false) => uni(e),
            _ => None,
        }
    };
    let mut head: HashMap<Id, Vec<Id>> = HashMap::new();
    for k in 0..i {
        let d = cc.borrow().decisions[k].clone();
        if let (Pred::IsZero(e), true) = (d.pred, d.taken) {
            if let Some(v) = uni(e) {
                head.insert(e, v);
            }
        }
    }
    {
        let c = cc.borrow();
        let mut want: Vec<(Id, P)> = vec![];
        for d in &c.decisions[..i] {
            if let (Pred::IsZero(e), true) = (d.pred, d.taken) {
                match head.get(&e) {
                    Some(v) => want.extend(v.iter().map(|x| (*x, P::zero()))),
                    None => want.push((e, P::zero())),
                }
            }
        }
        let d = &c.decisions[i];
        let extra: Vec<Vec<(Id, P)>> = match (d.pred, d.taken) {
            (Pred::IsZero(e), false) => vec![match &tail {
                Some(v) => v.iter().map(|x| (*x, P::zero())).collect(),
                None => vec![(e, P::zero())],
            }],
            (Pred::IsZero(_), true) => vec![vec![]],
            (Pred::Lt(a, b), _) => vec![vec![], vec![(a, P::zero())], vec![(b, P::zero())], vec![(a, -P::one())], vec![(b, -P::one())]],
            (Pred::Bit(a, _), _) => vec![vec![], vec![(a, P::zero())], vec![(a, P::one())]],
        };
        for ex in extra {
            let mut w = want.clone();
            w.extend(ex);
            if let Some(inputs) = solve_lanes(&c, &w, i + 1, &mut seed) {
                return Flip::Lanes(inputs);
            }
        }
    }
    // no witness found: is the flipped prefix contradictory?
    let d = cc.borrow().decisions[i].clone();
    if let Pred::IsZero(e) = d.pred {
        let mut c = cc.replace(Ctx::new(0));
        let saved = std::mem::take(&mut c.obligations);
        let res;
        if d.taken {
            // want e != 0: infeasible iff e == 0 under the prefix
            let z = c.const_node(P::zero());
            c.obligations = vec![Obligation { label: "flip".into(), a: e, b: z, negated: false }];
            let mut pr = Prover::new(c, i);
            pr.sweep();
            res = matches!(pr.discharge(), Verdict::Holds);
            c = pr.x;
        } else {
            let z = c.const_node(P::zero());
            c.obligations = vec![Obligation { label: "flip".into(), a: e, b: z, negated: true }];
            let mut pr = Prover::new(c, i);
            pr.sweep();
            res = matches!(pr.discharge(), Verdict::Holds);
            c = pr.x;
        }
        c.obligations = saved;
        cc.replace(c);
        if res {
            return Flip::Infeasible;
        }
    }
    Flip::Unknown
}

/// f(a, b) - f(c, d) with an uninterpreted f is zero when a - c and b - d are: the differences of
/// the arguments, down to where no function is left.
fn unify<P: PrimeField>(c: &mut Ctx<P>, e: Id) -> Option<Vec<Id>> {
    let Node::Sub(x, y) = c.nodes[e as usize] else { return None };
    if !matches!(c.nodes[x as usize], Node::Uf(..) | Node::Uf1(..)) {
        return None;
    }
    let (mut todo, mut out) = (vec![(x, y)], vec![]);
    while let Some((x, y)) = todo.pop() {
        if x == y {
            continue;
        }
        match (c.nodes[x as usize], c.nodes[y as usize]) {
            (Node::Uf(s, a, b), Node::Uf(t, p, q)) if s == t => todo.extend([(a, p), (b, q)]),
            (Node::Uf1(s, a), Node::Uf1(t, p)) if s == t => todo.push((a, p)),
            _ => out.push(c.push(Node::Sub(x, y))),
        }
        if out.len() + todo.len() > 600 {
            return None;
        }
    }
    out.sort();
    out.dedup();
    Some(out)
}

/// Find inputs, one assignment per lane, with every `want` node equal to its value and the first
/// `ndec` decisions as recorded except the last one, which must come out the other way.
fn solve_lanes<P: PrimeField>(c: &Ctx<P>, want: &[(Id, P)], ndec: usize, seed: &mut u64) -> Option<HashMap<String, [P; LANES]>> {
    let t0 = Instant::now();
    let mut lanes: Vec<Vec<P>> = vec![];
    let mut tries = 0;
    while lanes.len() < LANES && tries < 3 * LANES && t0.elapsed() < Duration::from_secs(20) {
        tries += 1;
        if let Some(v) = solve_one(c, want, ndec, seed) {
            lanes.push(v);
        } else if tries >= 4 && lanes.is_empty() {
            break;
        }
    }
    if lanes.is_empty() {
        return None;
    }
    while lanes.len() < LANES {
        lanes.push(lanes[0].clone());
    }
    let mut m = c.inputs.clone();
    for (k, n) in c.var_names.iter().enumerate() {
        let mut a = [P::zero(); LANES];
        for l in 0..LANES {
            a[l] = lanes[l][k];
        }
        m.insert(n.clone(), a);
    }
    Some(m)
}

struct Cone {
    order: Vec<Id>,
    vars: Vec<u32>,
}
fn cone<P: PrimeField>(c: &Ctx<P>, roots: &[Id]) -> Cone {
    let mut m = BTreeSet::new();
    let mut st: Vec<Id> = roots.to_vec();
    while let Some(i) = st.pop() {
        if m.insert(i) {
            st.extend(children(&c.nodes[i as usize]));
        }
    }
    let mut vars = vec![];
    for i in &m {
        if let Node::Var(v) = c.nodes[*i as usize] {
            vars.push(v);
        }
    }
    Cone { order: m.into_iter().collect(), vars }
}
fn eval_cone<P: PrimeField>(c: &Ctx<P>, k: &Cone, asg: &[P], buf: &mut HashMap<Id, P>) {
    buf.clear();
    for i in &k.order {
        let v = match c.nodes[*i as usize] {
            Node::Var(v) => asg[v as usize],
            ref n => c.eval_one(n, &|j| buf[&j]),
        };
        buf.insert(*i, v);
    }
}
/// Degree reported for an element that divides by the variable.
const INVERSE: u64 = 1 << 40;
/// Numerator of the element as a rational function of one variable, the others fixed.
fn numerator<P: PrimeField>(c: &Ctx<P>, k: &Cone, v: u32, root: Id, asg: &[P], target: P) -> Option<Vec<P>> {
    type Q<P> = (Vec<P>, Vec<P>);
    fn trim<P: PrimeField>(mut a: Vec<P>) -> Vec<P> {
        while a.last().map_or(false, |x| x.is_zero()) {
            a.pop();
        }
        a
    }
    fn mul<P: PrimeField>(a: &[P], b: &[P]) -> Vec<P> {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![P::zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                r[i + j] += *x * y;
            }
        }
        trim(r)
    }
    fn add<P: PrimeField>(a: &Q<P>, b: &Q<P>, sg: P) -> Q<P> {
        let (x, y, d) = if a.1 == b.1 { (a.0.clone(), b.0.clone(), a.1.clone()) } else { (mul(&a.0, &b.1), mul(&b.0, &a.1), mul(&a.1, &b.1)) };
        let n = (0..x.len().max(y.len())).map(|i| x.get(i).copied().unwrap_or(P::zero()) + sg * y.get(i).copied().unwrap_or(P::zero())).collect();
        (trim(n), d)
    }
    let mut m: HashMap<Id, Q<P>> = HashMap::new();
    let one = vec![P::one()];
    for i in &k.order {
        let q: Q<P> = match c.nodes[*i as usize] {
            Node::Var(w) if w == v => (vec![P::zero(), P::one()], one.clone()),
            Node::Var(w) => (trim(vec![asg[w as usize]]), one.clone()),
            Node::Add(a, b) => add(&m[&a], &m[&b], P::one()),
            Node::Sub(a, b) => add(&m[&a], &m[&b], -P::one()),
            Node::Mul(a, b) => (mul(&m[&a].0, &m[&b].0), mul(&m[&a].1, &m[&b].1)),
            Node::Inv(a) => (m[&a].1.clone(), m[&a].0.clone()),
            ref n => {
                let ch = children(n);
                if ch.iter().any(|j| m[j].0.len() > 1 || m[j].1.len() > 1) {
                    // affine node: f(x) = f(0) + x (f(1) - f(0))
                    match *n {
                        Node::AddC(a, _) | Node::Scale(a, _) => {
                            let f0 = c.eval_one(n, &|_| P::zero());
                            let f1 = c.eval_one(n, &|_| P::one()) - f0;
                            let s = (trim(m[&a].0.iter().map(|x| *x * f1).collect()), m[&a].1.clone());
                            add(&s, &(trim(vec![f0]), one.clone()), P::one())
                        }
                        _ => return None,
                    }
                } else {
                    for j in &ch {
                        if m[j].1.is_empty() {
                            return None;
                        }
                    }
                    let r = c.eval_one(n, &|j| m[&j].0.first().copied().unwrap_or(P::zero()) * m[&j].1[0].inverse().unwrap());
                    (trim(vec![r]), one.clone())
                }
            }
        };
        if q.0.len() > 200 || q.1.len() > 200 || q.1.is_empty() {
            return None;
        }
        m.insert(*i, q);
    }
    Some(add(&m[&root], &(trim(vec![target]), one), -P::one()).0)
}
fn degree_in<P: PrimeField>(c: &Ctx<P>, k: &Cone, v: u32, root: Id, class: &[usize]) -> u64 {
    let mut d: HashMap<Id, u64> = HashMap::new();
    for i in &k.order {
        let x = match c.nodes[*i as usize] {
            Node::Const(_) => 0,
            Node::Var(w) => (class[w as usize] == class[v as usize]) as u64,
            Node::Add(a, b) | Node::Sub(a, b) => d[&a].max(d[&b]),
            Node::AddC(a, _) | Node::Scale(a, _) => d[&a],
            Node::Mul(a, b) => d[&a].saturating_add(d[&b]),
            Node::Inv(a) => if d[&a] > 0 { INVERSE } else { 0 },
            Node::Uf1(_, a) => if d[&a] > 0 { u64::MAX / 4 } else { 0 },
            Node::Uf(_, a, b) => if d[&a].max(d[&b]) > 0 { u64::MAX / 4 } else { 0 },
        };
        d.insert(*i, x.min(u64::MAX / 4));
    }
    d[&root]
}

fn solve_one<P: PrimeField>(c: &Ctx<P>, want: &[(Id, P)], ndec: usize, seed: &mut u64) -> Option<Vec<P>> {
    let nv = c.var_names.len();
    let mut asg: Vec<P> = (0..nv).map(|_| rand_elem(seed)).collect();
    let mut buf = HashMap::new();
    // variables wanted equal move together
    let mut class: Vec<usize> = (0..nv).collect();
    for (e, t) in want {
        if let Node::Sub(a, b) = c.nodes[*e as usize] {
            if let (Node::Var(a), Node::Var(b), true) = (c.nodes[a as usize], c.nodes[b as usize], t.is_zero()) {
                let (x, y) = (class[a as usize], class[b as usize]);
                if x != y {
                    class.iter_mut().for_each(|z| if *z == y { *z = x });
                }
            }
        }
    }
    for v in 0..nv {
        asg[v] = asg[class[v]];
    }
    let mut members: HashMap<usize, Vec<usize>> = HashMap::new();
    for v in 0..nv {
        members.entry(class[v]).or_default().push(v);
    }
    let put = |asg: &mut Vec<P>, v: u32, x: P| members[&class[v as usize]].iter().for_each(|w| asg[*w] = x);
    let mut locked: BTreeSet<u32> = BTreeSet::new(); // variables earlier constraints depend on
    let cones: Vec<Cone> = want.iter().map(|(e, _)| cone(c, &[*e])).collect();
    for (j, (e, target)) in want.iter().enumerate() {
        let k = &cones[j];
        eval_cone(c, k, &asg, &mut buf);
        if buf[e] != *target {
            let mut cand: Vec<(u64, u32)> = k.vars.iter().filter(|v| !locked.contains(v)).map(|v| (degree_in(c, k, *v, *e, &class), *v)).collect();
            cand.retain(|(dg, _)| *dg > 0 && (*dg <= 350 || *dg >= INVERSE && *dg < u64::MAX / 8));
            // shuffle, then by degree
            for i in (1..cand.len()).rev() {
                let q = (splitmix(seed) % (i as u64 + 1)) as usize;
                cand.swap(i, q);
            }
            cand.sort_by_key(|x| x.0);
            let mut ok = false;
            for (dg, v) in cand.into_iter().take(4) {
                let old = asg[v as usize];
                let poly = if dg >= INVERSE {
                    match numerator(c, k, v, *e, &asg, *target) {
                        Some(p) => p,
                        None => continue,
                    }
                } else {
                    let mut ys = vec![];
                    for pt in 0..=dg {
                        put(&mut asg, v, P::from(pt));
                        eval_cone(c, k, &asg, &mut buf);
                        ys.push(buf[e] - target);
                    }
                    roots::interpolate(&ys)
                };
                let rs = roots::roots(&poly, seed, if dg >= INVERSE { 8 } else { 3 });
                for r in &rs {
                    put(&mut asg, v, *r);
                    eval_cone(c, k, &asg, &mut buf);
                    if buf[e] == *target {
                        ok = true;
                        break;
                    }
                }
                if ok {
                    break;
                }
                put(&mut asg, v, old);
            }
            if !ok {
                return None;
            }
        }
        locked.extend(k.vars.iter().copied());
        // keep at least the most recent variables free for later constraints
        if j + 1 < want.len() {
            let free: Vec<u32> = cones[j + 1].vars.iter().copied().filter(|v| !locked.contains(v)).collect();
            if free.is_empty() {
                // relax: allow variables that do not disturb the earlier ones (checked at the end)
                for v in &cones[j + 1].vars {
                    if want[..=j].iter().zip(&cones).all(|((e, _), kk)| degree_in(c, kk, *v, *e, &class) == 0) {
                        locked.remove(v);
                    }
                }
            }
        }
    }
    // verify the constraints and the prefix
    let mut rootsv: Vec<Id> = want.iter().map(|w| w.0).collect();
    for d in &c.decisions[..ndec] {
        match d.pred {
            Pred::IsZero(e) | Pred::Bit(e, _) => rootsv.push(e),
            Pred::Lt(a, b) => {
                rootsv.push(a);
                rootsv.push(b)
            }
        }
    }
    let k = cone(c, &rootsv);
    eval_cone(c, &k, &asg, &mut buf);
    for (e, t) in want {
        if buf[e] != *t {
            return None;
        }
    }
    for (i, d) in c.decisions[..ndec].iter().enumerate() {
        let r = c.pred_on(&d.pred, &|j| buf[&j]);
        let need = if i + 1 == ndec { !d.taken } else { d.taken };
        if r != need {
            return None;
        }
    }
    Some(asg)
}
