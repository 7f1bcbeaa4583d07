use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

pub struct P2Gen {
    pub field: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub sym_diag: bool,
}
/// Poseidon2 parameters with symbolic constants: (params, internal matrix, round constants)
pub fn p2_sym<P: PrimeField, E: Env<P>>(e: &mut E, t: usize, rf: usize, rp: usize, sym_diag: bool) -> (Vec<E::F>, Vec<Vec<E::F>>, Vec<Vec<E::F>>) {
    let diag: Vec<E::F> = match t {
        2 => vec![e.u(1), e.u(2)],
        3 => vec![e.u(1), e.u(1), e.u(2)],
        _ if sym_diag => e.vars("diag", t),
        _ => (0..t).map(|i| e.u(1 + 3 * i as u64 * i as u64)).collect(),
    };
    let m_i = refs::p2_internal(t, &diag);
    let rc: Vec<Vec<E::F>> = (0..rf + rp)
        .map(|r| {
            if r < rf / 2 || r >= rf / 2 + rp {
                e.vars(&format!("rc{r}"), t)
            } else {
                // documented layout: partial-round rows are zero past the first entry
                let mut v = vec![e.u(0); t];
                v[0] = e.var(&format!("rc{r}[0]"));
                v
            }
        })
        .collect();
    (diag, m_i, rc)
}
impl<P: PrimeField> Driver<P> for P2Gen {
    fn id(&self) -> String {
        format!("{}/t{}/d{}/rf{}/rp{}{}", self.field, self.t, self.d, self.rf, self.rp, if self.sym_diag { "/symdiag" } else { "" })
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["Poseidon2Params::new", "Poseidon2::new", "Poseidon2::permutation (round schedule, S-box, external and internal linear layers)", "Poseidon2::get_t"]
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, d, rf, rp) = (self.t, self.d, self.rf, self.rp);
        let (diag, m_i, rc) = p2_sym::<P, E>(e, t, rf, rp, self.sym_diag);
        let x = e.vars("in", t);
        let Some((out, gt)) = e.run("Poseidon2", || {
            let h = Poseidon2::new(&Arc::new(Poseidon2Params::new(t, d, rf, rp, &diag, &m_i, &rc)));
            (h.permutation(&x), h.get_t())
        }) else {
            return;
        };
        e.expect("get_t", gt == t);
        let want = refs::poseidon2(t, d, rf, rp, &diag, &rc, &x);
        e.eqv("permutation", &out, &want);
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    for (i, t) in [2usize, 3, 4, 8, 12, 16, 20, 24].into_iter().enumerate() {
        for (j, d) in [3usize, 5, 7, 11].into_iter().enumerate() {
            let splits: &[(usize, usize)] = if q { &[(2, 2), (4, 1), (0, 3), (2, 0)] } else { &[(2, 2), (4, 1), (0, 3), (2, 0), (0, 0), (4, 4), (6, 5), (8, 13)] };
            for (k, (rf, rp)) in splits.iter().enumerate() {
                for s in [true, false] {
                    if t < 4 && s {
                        continue;
                    }
                    if s && q && k > 1 {
                        continue;
                    }
                    let f = (i + j + k) % 6;
                    v.push(by_field(f, move |field| P2Gen { field, t, d, rf: *rf, rp: *rp, sym_diag: s }));
                }
            }
        }
        // a long schedule per state size
        for (d, rf, rp) in [(5, 8, 56), (7, 8, 22)] {
            if q && t > 8 && d == 5 {
                continue;
            }
            v.push(by_field(if d == 5 { i % 4 } else { 4 + i % 2 }, move |field| P2Gen { field, t, d, rf, rp, sym_diag: false }));
        }
    }
    v
}
