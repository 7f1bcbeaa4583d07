use crate::dbg::{self, V};
use crate::env::*;
use ark_ff::PrimeField;

/// A Cauchy (hence MDS) matrix over the field, from distinct small points.
pub fn cauchy<P: PrimeField, E: Env<P>>(e: &E, t: usize, seed: u64) -> Vec<Vec<E::F>> {
    (0..t).map(|i| (0..t).map(|j| e.c((P::from(seed + i as u64) + P::from(1000 + 7 * seed + (j * j + j) as u64)).inverse().unwrap())).collect()).collect()
}
/// Round-constant rows, all entries symbolic.
pub fn rc_sym<P: PrimeField, E: Env<P>>(e: &mut E, rounds: usize, t: usize) -> Vec<Vec<E::F>> {
    (0..rounds).map(|r| e.vars(&format!("rc{r}"), t)).collect()
}
pub fn debug_of<P: PrimeField, E: Env<P>, T: std::fmt::Debug>(e: &E, t: &T) -> Option<V> {
    dbg::parse(&e.debug(t))
}
pub fn gmimc_rc<P: PrimeField, E: Env<P>, T: std::fmt::Debug>(e: &E, p: &T, rounds: usize) -> Option<Vec<E::F>> {
    let Some(v) = debug_of::<P, E, T>(e, p) else { e.give_up("Debug output not readable") };
    if let Some(x) = v.get("round_constants").and_then(|x| x.vec::<P, E>(e)) {
        return if x.len() >= rounds { Some(x[..rounds].to_vec()) } else { None };
    }
    match v.find_vec(&[], rounds).and_then(|x| x.vec::<P, E>(e)) {
        Some(x) => Some(x),
        None => e.give_up("round constants not found in the Debug output"),
    }
}
pub struct NeptuneHeld<F> {
    pub rc: Vec<Vec<F>>,
    pub m_e: Vec<Vec<F>>,
    pub mu: Vec<F>, // diagonal of the internal matrix minus one
    pub abc: Vec<F>,
}
pub fn neptune_held<P: PrimeField, E: Env<P>, T: std::fmt::Debug>(e: &E, p: &T, t: usize, rounds: usize) -> Option<NeptuneHeld<E::F>> {
    let Some(v) = debug_of::<P, E, T>(e, p) else { e.give_up("Debug output not readable") };
    let read = || -> Option<NeptuneHeld<E::F>> {
        Some(NeptuneHeld {
            rc: v.get("round_constants").or(v.find_mat(&[], rounds, t))?.mat::<P, E>(e)?,
            m_e: v.get("m_e").or(v.find_mat(&[], t, t))?.mat::<P, E>(e)?,
            mu: v.get("mu").or(v.find_vec(&[], t))?.vec::<P, E>(e)?,
            abc: match v.get("abc").or(v.find_vec(&[], 3)) {
                Some(x) => x.vec::<P, E>(e)?,
                None => [e.u(1), e.u(1), v.get("gamma")?.elem::<P, E>(e)?].to_vec(),
            },
        })
    };
    let Some(mut h) = read() else { e.give_up("parameters not found in the Debug output") };
    if h.rc.len() < rounds || h.rc.iter().any(|r| r.len() != t) || h.m_e.len() != t || h.m_e.iter().any(|r| r.len() != t) || h.mu.len() != t || h.abc.len() != 3 {
        return None;
    }
    h.rc.truncate(rounds);
    Some(h)
}
/// all-ones plus diagonal
pub fn ones_plus<F: PrimeField>(mu_m1: &[F]) -> Vec<Vec<F>> {
    let t = mu_m1.len();
    (0..t).map(|i| (0..t).map(|j| if i == j { mu_m1[i] + F::one() } else { F::one() }).collect()).collect()
}
