//! Generated parameters: every one its own fresh draw, in its valid range.
use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::{BigInteger, One, PrimeField, Zero};
use std::collections::{BTreeMap, BTreeSet};
use zkhash::fields::utils::{random_scalar, random_scalar_without_0};
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;

/// `items`: (label, element, offset known to have been added)
fn fresh<P: PrimeField, E: Env<P>>(e: &mut E, items: &[(String, E::F)]) {
    let mut used: BTreeMap<usize, String> = BTreeMap::new();
    let mut opaque: Vec<(String, E::F)> = vec![];
    if !e.concrete() {
        for (l, x) in items {
            match e.affine_draw(x) {
                Some((k, a, b)) => {
                    let want = e.draw(k) * e.c(a) + e.c(b);
                    e.eq(&format!("{l} is a draw of its own"), x, &want);
                    if let Some(o) = used.insert(k, l.clone()) {
                        e.expect(&format!("{l} and {o} are the same draw"), false);
                    }
                }
                None => opaque.push((l.clone(), *x)),
            }
        }
    } else {
        opaque = items.to_vec();
    }
    // entries that are concrete: they must at least differ from each other and fill the field
    let idents: Vec<(String, String)> = opaque.iter().map(|(l, x)| (l.clone(), e.ident(x))).collect();
    let mut by: BTreeMap<String, String> = BTreeMap::new();
    let mut repeated = 0;
    for (l, id) in idents {
        if let Some(o) = by.insert(id, l.clone()) {
            repeated += 1;
            // in a 31-bit field a few equal values are no evidence
            if P::MODULUS_BIT_SIZE > 48 || repeated > 3 {
                e.expect(&format!("{l} equals {o}"), false);
            }
        }
    }
    if opaque.len() >= 8 && opaque.iter().all(|(_, x)| e.ident(x).starts_with('c')) {
        let top = opaque.iter().map(|(_, x)| x.into_bigint().num_bits()).max().unwrap_or(0);
        e.expect("the drawn values stay far below the modulus", top + 12 > P::MODULUS_BIT_SIZE);
    }
    if !e.concrete() && !opaque.is_empty() {
        let seen = e.failed();
        e.twin_draws(&opaque);
        if e.failed() > seen {
            return;
        }
        e.give_up("entries not drawn through the field type");
    }
}
/// A zero draw may be thrown away only for a parameter that must not be zero.
fn filtered<P: PrimeField, E: Env<P>>(e: &mut E, items: &[(String, E::F)]) {
    if E::NATIVE {
        return;
    }
    let n = e.draws();
    let mut owner: BTreeMap<usize, &String> = BTreeMap::new();
    if e.concrete() {
        let at: BTreeMap<String, usize> = (0..n).map(|k| (e.ident(&e.draw(k)), k)).collect();
        for (l, x) in items {
            if let Some(k) = at.get(&e.ident(x)).or(at.get(&e.ident(&(*x + E::F::one())))) {
                owner.insert(*k, l);
            }
        }
    } else {
        for (l, x) in items {
            if let Some((k, ..)) = e.affine_draw(x) {
                owner.insert(k, l);
            }
        }
    }
    for k in 0..n {
        if !owner.contains_key(&k) && e.zero_here(&e.draw(k)) {
            if let Some((_, l)) = owner.range(k..).next() {
                if !l.contains("diagonal") && !l.contains("non-zero") {
                    e.expect(&format!("{l} is drawn again when the draw is zero, so it is not uniform"), false);
                }
            }
        }
    }
}
/// Draws that a path or a replay forces to be equal say nothing about the generator.
fn forced_equal<P: PrimeField, E: Env<P>>(e: &E) -> bool {
    if !e.concrete() || E::NATIVE {
        return false;
    }
    let n = e.draws();
    let s: BTreeSet<String> = (0..n).map(|k| e.ident(&e.draw(k))).collect();
    s.len() != n
}
fn words<P: PrimeField, E: Env<P>>(e: &mut E) {
    let w = e.rng_words();
    let s: BTreeSet<u64> = w.iter().copied().collect();
    e.expect("the generator behind the draws repeats itself", s.len() + w.len() / 1000 >= w.len());
}
pub struct GmDraw {
    pub field: &'static str,
    pub t: usize,
    pub rounds: usize,
}
impl<P: PrimeField> Driver<P> for GmDraw {
    fn id(&self) -> String {
        format!("gmimc/{}/t{}/r{}", self.field, self.t, self.rounds)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["GmimcParams::new (instantiate_rc)", "fields::utils::random_scalar"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let mut items = vec![];
        for o in 0..2 {
            let Some(p) = e.run("GmimcParams::new", || GmimcParams::<E::F>::new(self.t, 5, self.rounds)) else { return };
            let Some(rc) = gmimc_rc::<P, E, _>(e, &p, self.rounds) else { return e.expect("a constant for every round", false) };
            items.extend(rc.iter().enumerate().map(|(i, x)| (format!("object {o} constant {i}"), *x)));
        }
        words::<P, E>(e);
        if !forced_equal::<P, E>(e) {
            filtered::<P, E>(e, &items);
            fresh::<P, E>(e, &items);
        }
    }
}
pub struct NepDraw {
    pub field: &'static str,
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
}
impl<P: PrimeField> Driver<P> for NepDraw {
    fn id(&self) -> String {
        format!("neptune/{}/t{}/rf{}/rp{}", self.field, self.t, self.rf, self.rp)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["NeptuneParams::new (instantiate_rc, instantiate_mu, instantiate_abc, instantiate_external_matrix, circ_mat)", "fields::utils::{random_scalar,random_scalar_without_0}"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn max_paths(&self) -> usize {
        60
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, rf, rp) = (self.t, self.rf, self.rp);
        let mut items = vec![];
        for o in 0..2 {
            let Some(p) = e.run("NeptuneParams::new", || NeptuneParams::<E::F>::new(t, 5, rf, rp)) else { return };
            let Some(h) = neptune_held::<P, E, _>(e, &p, t, rf + rp) else { return e.expect("parameters of the right shape", false) };
            for (r, row) in h.rc.iter().enumerate() {
                items.extend(row.iter().enumerate().map(|(i, x)| (format!("object {o} constant {r}/{i}"), *x)));
            }
            let (zero, one) = (e.u(0), e.u(1));
            e.eq("alpha is one", &h.abc[0], &one);
            e.eq("beta is one", &h.abc[1], &one);
            items.push((format!("object {o} gamma"), h.abc[2]));
            for (i, m) in h.mu.iter().enumerate() {
                let diag = *m + E::F::one();
                e.ne(&format!("object {o}: diagonal entry {i} is not zero"), &diag, &zero);
                items.push((format!("object {o} diagonal entry {i}"), *m));
            }
            let fixed: Option<(Vec<Vec<E::F>>, Vec<Vec<E::F>>)> = match t {
                4 => Some((refs::circ(&[2, 1]), refs::circ(&[1, 2]))),
                8 => Some((refs::circ(&[3, 2, 1, 1]), refs::circ(&[1, 1, 2, 3]))),
                _ => None,
            };
            for i in 0..t {
                for j in 0..t {
                    let x = h.m_e[i][j];
                    if i % 2 != j % 2 {
                        e.eq(&format!("external matrix [{i}][{j}] is zero"), &x, &zero);
                    } else if let Some((a, b)) = &fixed {
                        let w = if i % 2 == 0 { a[i / 2][j / 2] } else { b[i / 2][j / 2] };
                        e.eq(&format!("external matrix [{i}][{j}]"), &x, &w);
                    } else {
                        items.push((format!("object {o} external matrix [{i}][{j}]"), x));
                    }
                }
            }
        }
        words::<P, E>(e);
        if !forced_equal::<P, E>(e) {
            filtered::<P, E>(e, &items);
            fresh::<P, E>(e, &items);
        }
    }
}
pub struct Scalars {
    pub field: &'static str,
}
impl<P: PrimeField> Driver<P> for Scalars {
    fn id(&self) -> String {
        format!("scalars/{}", self.field)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["fields::utils::random_scalar", "fields::utils::random_scalar_without_0"]
    }
    fn uses_rand(&self) -> bool {
        true
    }
    fn max_paths(&self) -> usize {
        60
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let mut items = vec![];
        let zero = E::F::zero();
        for i in 0..6 {
            if let Some(x) = e.run("random_scalar", random_scalar::<E::F>) {
                items.push((format!("scalar {i}"), x));
            }
            if let Some(x) = e.run("random_scalar_without_0", random_scalar_without_0::<E::F>) {
                e.ne(&format!("non-zero scalar {i}"), &x, &zero);
                items.push((format!("non-zero scalar {i}"), x));
            }
        }
        words::<P, E>(e);
        if !forced_equal::<P, E>(e) {
            filtered::<P, E>(e, &items);
            fresh::<P, E>(e, &items);
        }
    }
}
/// First draws of a new process: printed by `symx probe`, compared between processes.
pub fn probe() -> String {
    use crate::ctx::{self, Ctx};
    type P = zkhash::fields::bls12::FpBLS12;
    ctx::install(Ctx::<P>::new(1));
    let _ = GmimcParams::<crate::symf::SymF<P>>::new(3, 5, 4);
    let _ = NeptuneParams::<crate::symf::SymF<P>>::new(4, 5, 2, 2);
    let c = ctx::take::<P>();
    let native = GmimcParams::<P>::new(3, 5, 4);
    format!("{:?} {:?}", c.rng_words, native)
}
pub struct Processes;
impl<P: PrimeField> Driver<P> for Processes {
    fn id(&self) -> String {
        "processes".into()
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["GmimcParams::new", "NeptuneParams::new"]
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let run = || std::process::Command::new(std::env::current_exe().ok()?).arg("probe").output().ok().map(|o| o.stdout);
        let (a, b) = (run(), run());
        if let (Some(a), Some(b)) = (a, b) {
            e.expect("two processes generate the same parameters", a.is_empty() || a != b);
        }
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![task::<zkhash::fields::bls12::FpBLS12, _>(Processes)];
    for f in 0..6 {
        v.push(by_field(f, |field| Scalars { field }));
        for (t, rounds) in [(2usize, 1usize), (3, 9), (8, 20), (24, 60)] {
            v.push(by_field(f, |field| GmDraw { field, t, rounds }));
        }
        for (t, rf, rp) in [(2usize, 2usize, 1usize), (4, 2, 2), (4, 6, 10), (6, 2, 3), (8, 2, 2), (10, 4, 1), (12, 2, 2)] {
            if t >= 10 && f % 3 != 0 && q {
                continue;
            }
            v.push(by_field(f, |field| NepDraw { field, t, rf, rp }));
        }
    }
    v.push(by_field(0, |field| GmDraw { field, t: 3, rounds: 226 }));
    v.push(by_field(4, |field| NepDraw { field, t: 24, rf: 2, rp: 1 }));
    v
}
