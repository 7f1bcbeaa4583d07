//! The derivation helpers, with an arbitrary function on the first element of every partial round.
use super::util::*;
use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::{PrimeField, Zero};
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    P2Rc,
    P1Rc,
    P1Mat,
    P1Both,
}
pub struct Derive {
    pub field: &'static str,
    pub what: What,
    pub t: usize,
    pub rb: usize,
    pub rp: usize,
    pub sym: bool,
}
fn add<F: PrimeField>(s: &[F], c: &[F]) -> Vec<F> {
    s.iter().enumerate().map(|(i, x)| if i < c.len() { *x + c[i] } else { *x }).collect()
}
impl<P: PrimeField> Driver<P> for Derive {
    fn id(&self) -> String {
        let w = match self.what {
            What::P2Rc => "poseidon2-constants",
            What::P1Rc => "poseidon-constants",
            What::P1Mat => "poseidon-matrices",
            What::P1Both => "poseidon-both",
        };
        format!("{w}/{}/t{}/rb{}/rp{}{}", self.field, self.t, self.rb, self.rp, if self.sym { "/symbolic-matrix" } else { "" })
    }
    fn functions(&self) -> Vec<&'static str> {
        match self.what {
            What::P2Rc => vec!["Poseidon2Params::equivalent_round_constants", "Poseidon2Params::mat_vec_mul", "utils::mat_inverse"],
            What::P1Rc => vec!["PoseidonParams::equivalent_round_constants", "PoseidonParams::mat_vec_mul", "utils::mat_inverse"],
            What::P1Mat => vec!["PoseidonParams::equivalent_matrices", "PoseidonParams::{mat_vec_mul,mat_mat_mul}", "utils::{mat_inverse,mat_transpose}"],
            What::P1Both => vec!["PoseidonParams::equivalent_matrices", "PoseidonParams::equivalent_round_constants"],
        }
    }
    fn max_paths(&self) -> usize {
        if self.sym {
            6
        } else {
            16
        }
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (t, rb, rp) = (self.t, self.rb, self.rp);
        let m: Vec<Vec<E::F>> = if self.sym {
            (0..t).map(|i| e.vars(&format!("m{i}"), t)).collect()
        } else if self.what == What::P2Rc {
            // all-ones plus a diagonal, as the internal matrices are
            (0..t).map(|i| (0..t).map(|j| e.u(if i == j { 3 + (i * i) as u64 } else { 1 })).collect()).collect()
        } else {
            cauchy::<P, E>(e, t, 3)
        };
        if self.sym {
            // stay on matrices the derivation accepts without row exchanges or singular blocks
        }
        let rc = rc_sym::<P, E>(e, rb + rp + 1, t);
        let x = e.vars("s", t);
        // original partial rounds
        let with_rc = self.what != What::P1Mat;
        let mut want = x.clone();
        for r in 0..rp {
            if with_rc {
                want = add(&want, &rc[rb + r]);
            }
            want[0] = e.uf1(&format!("f{r}"), &want[0]);
            want = refs::matvec(&m, &want);
        }
        let opt = match self.what {
            What::P2Rc => attempt(|| Poseidon2Params::<E::F>::equivalent_round_constants(&rc, &m, rb, rp)),
            What::P1Rc | What::P1Both => attempt(|| PoseidonParams::<E::F>::equivalent_round_constants(&rc, &m, rb, rp)),
            What::P1Mat => Ok(vec![]),
        };
        let mats = match self.what {
            What::P1Mat | What::P1Both => attempt(|| PoseidonParams::<E::F>::equivalent_matrices(&m, t, rp)).map(Some),
            _ => Ok(None),
        };
        let (opt, mats) = match (opt, mats) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => {
                // a symbolic matrix may be singular on this path
                if !self.sym {
                    let m = a.err().or(b.err()).unwrap();
                    e.expect(&format!("derivation panicked: {m}"), false);
                }
                return;
            }
        };
        if with_rc {
            e.expect("a row for the state and one per round", opt.len() >= rp && opt[0].len() == t && opt[1..rp].iter().all(|r| !r.is_empty()));
        }
        let mut s = x;
        if with_rc {
            s = add(&s, &opt[0]);
        }
        if let Some((mi, _, _)) = &mats {
            s = refs::matvec(mi, &s);
        }
        for r in 0..rp {
            s[0] = e.uf1(&format!("f{r}'"), &s[0]);
            if with_rc && r + 1 < opt.len() {
                s = add(&s, &opt[r + 1]);
            }
            s = match &mats {
                None => refs::matvec(&m, &s),
                Some((_, v, w)) => {
                    let k = rp - 1 - r;
                    if v.len() <= k || w.len() <= k || v[k].len() + 1 != t || w[k].len() + 1 != t {
                        return e.expect("one sparse matrix per round", false);
                    }
                    let mut n = vec![E::F::zero(); t];
                    n[0] = m[0][0] * s[0];
                    for i in 1..t {
                        n[0] += w[k][i - 1] * s[i];
                        n[i] = v[k][i - 1] * s[0] + s[i];
                    }
                    n
                }
            };
        }
        e.eqv("state after the partial rounds", &s, &want);
    }
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    let mut k = 0;
    for what in [What::P2Rc, What::P1Rc, What::P1Mat, What::P1Both] {
        for t in [2usize, 3, 4, 5, 8, 12, 16, 20, 24] {
            let rps = if q { vec![1usize, 2, 3, 5] } else { vec![1, 2, 3, 4, 5, 8, 13, 22] };
            for rp in rps {
                for rb in [0usize, 4] {
                    if rb == 4 && rp > 3 && q {
                        continue;
                    }
                    k += 1;
                    v.push(by_field(k % 6, |field| Derive { field, what, t, rb, rp, sym: false }));
                }
            }
        }
        for t in [3usize, 8] {
            k += 1;
            v.push(by_field(k % 6, |field| Derive { field, what, t, rb: 4, rp: 22, sym: false }));
        }
        for rp in [1usize, 2] {
            k += 1;
            v.push(by_field(k % 6, |field| Derive { field, what, t: 2, rb: 1, rp, sym: true }));
        }
    }
    v
}
