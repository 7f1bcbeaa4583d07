use crate::env::*;
use crate::refs;
use crate::tasks::*;
use ark_ff::{One, PrimeField, Zero};
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils::{mat_inverse, mat_transpose};

pub enum Shape {
    /// every entry symbolic
    Full,
    /// product of a permutation, a symbolic unit lower triangle and a symbolic diagonal
    PermLowerDiag(Vec<usize>),
    /// permutation times symbolic diagonal
    Monomial(Vec<usize>),
    /// symbolic last row or column over a concrete invertible block
    Border(bool),
    /// concrete dense invertible matrix times symbolic scalar, rows exchanged
    ScaledDense(u64),
    /// concrete dense matrix, rows exchanged by the permutation, one symbolic entry at (row, column)
    Entry(Vec<usize>, usize, usize),
    /// row r of a concrete dense matrix times a symbolic scalar
    ScaledRow(usize),
    /// row i equals row j (symbolic entries): must be rejected
    Twin(usize, usize),
}
pub struct Inverse {
    pub field: &'static str,
    pub n: usize,
    pub shape: Shape,
    pub tag: String,
}
fn mm<F: PrimeField>(a: &[Vec<F>], b: &[Vec<F>]) -> Vec<Vec<F>> {
    let n = b[0].len();
    a.iter().map(|r| (0..n).map(|j| r.iter().zip(b).fold(F::zero(), |s, (x, row)| s + *x * row[j])).collect()).collect()
}
fn det<F: PrimeField>(m: &[Vec<F>]) -> F {
    if m.len() == 1 {
        return m[0][0];
    }
    let mut s = F::zero();
    for j in 0..m.len() {
        let sub: Vec<Vec<F>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|x| *x.1).collect()).collect();
        let t = m[0][j] * det(&sub);
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}
fn cdet<P: PrimeField>(mut m: Vec<Vec<P>>) -> P {
    let n = m.len();
    let mut d = P::one();
    for i in 0..n {
        let Some(p) = (i..n).find(|r| !m[*r][i].is_zero()) else { return P::zero() };
        if p != i {
            m.swap(p, i);
            d = -d;
        }
        d *= m[i][i];
        let inv = m[i][i].inverse().unwrap();
        for r in i + 1..n {
            let f = m[r][i] * inv;
            for c in i..n {
                let t = m[i][c] * f;
                m[r][c] -= t;
            }
        }
    }
    d
}
impl<P: PrimeField> Driver<P> for Inverse {
    fn id(&self) -> String {
        format!("inverse/{}/n{}/{}", self.field, self.n, self.tag)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["utils::mat_inverse"]
    }
    fn max_paths(&self) -> usize {
        40
    }
    fn check_vacuity(&self) -> bool {
        false
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let n = self.n;
        let z = e.u(0);
        let mut must_fail = false;
        // (matrix, elements that make it invertible when non-zero)
        let (m, nonzero): (Vec<Vec<E::F>>, Option<Vec<E::F>>) = match &self.shape {
            Shape::Full => {
                let m: Vec<Vec<E::F>> = (0..n).map(|i| e.vars(&format!("m{i}"), n)).collect();
                let d = det(&m);
                (m, Some(vec![d]))
            }
            Shape::Monomial(p) => {
                let d = e.vars("d", n);
                let mut m = vec![vec![z; n]; n];
                for i in 0..n {
                    m[i][p[i]] = d[i];
                }
                (m, Some(d))
            }
            Shape::PermLowerDiag(p) => {
                let d = e.vars("d", n);
                let mut l = vec![vec![z; n]; n];
                for i in 0..n {
                    l[i][i] = d[i];
                    for j in 0..i {
                        l[i][j] = e.var(&format!("l{i}[{j}]"));
                    }
                }
                let m = (0..n).map(|i| l[p[i]].clone()).collect();
                (m, Some(d))
            }
            Shape::Border(row) => {
                let mut m: Vec<Vec<E::F>> = (0..n).map(|i| (0..n).map(|j| e.u(((3 * i + 5 * j * j + i * j * 7 + 2) % 23) as u64)).collect()).collect();
                let v = e.vars("v", n);
                for i in 0..n {
                    if *row {
                        m[n - 1][i] = v[i];
                    } else {
                        m[i][n - 1] = v[i];
                    }
                }
                (m, None)
            }
            Shape::ScaledDense(s) => {
                let k = e.var("k");
                let m: Vec<Vec<E::F>> = (0..n).map(|i| (0..n).map(|j| k * e.c((P::from(s + i as u64) + P::from(1000 + 3 * s + (j * j + j) as u64)).inverse().unwrap())).collect()).collect();
                (m, Some(vec![k]))
            }
            Shape::Entry(p, r, c) => {
                // unit lower triangle times unit upper triangle: every leading minor is 1
                let g = |i: usize, j: usize| P::from(((7 * i * i + 11 * j + i * j * 3 + 5) % 29) as u64);
                let base: Vec<Vec<P>> = (0..n).map(|i| (0..n).map(|j| (0..=i.min(j)).map(|k| (if k == i { P::one() } else { g(i, k) }) * (if k == j { P::one() } else { g(j + 3, k) })).sum()).collect()).collect();
                let mut m: Vec<Vec<E::F>> = (0..n).map(|i| base[p[i]].iter().map(|x| e.c(*x)).collect()).collect();
                m[*r][*c] = e.var("x");
                // the determinant is affine in x: its two coefficients, on concrete values
                let at = |v: u64| {
                    let mut b: Vec<Vec<P>> = (0..n).map(|i| base[p[i]].clone()).collect();
                    b[*r][*c] = P::from(v);
                    cdet(b)
                };
                let (d0, d1) = (at(0), at(1));
                let d = e.c(d0) + e.c(d1 - d0) * m[*r][*c];
                (m, Some(vec![d]))
            }
            Shape::ScaledRow(r) => {
                let k = e.var("k");
                let mut m: Vec<Vec<E::F>> = (0..n).map(|i| (0..n).map(|j| e.c((P::from(7 + i as u64) + P::from(1000 + (j * j + j) as u64)).inverse().unwrap())).collect()).collect();
                for x in m[*r].iter_mut() {
                    *x = *x * k;
                }
                (m, Some(vec![k]))
            }
            Shape::Twin(a, b) => {
                let mut m: Vec<Vec<E::F>> = (0..n).map(|i| e.vars(&format!("m{i}"), n)).collect();
                m[*b] = m[*a].clone();
                must_fail = true;
                (m, None)
            }
        };
        match attempt(|| mat_inverse(&m)) {
            Ok(inv) => {
                e.expect("a singular matrix was inverted", !must_fail);
                e.expect("shape", inv.len() == n && inv.iter().all(|r| r.len() == n));
                for (side, pr) in [("m*inv", mm(&m, &inv)), ("inv*m", mm(&inv, &m))] {
                    for i in 0..n {
                        for j in 0..n {
                            let w = if i == j { E::F::one() } else { E::F::zero() };
                            e.eq(&format!("{side}[{i}][{j}]"), &pr[i][j], &w);
                        }
                    }
                }
            }
            Err(msg) => {
                if must_fail {
                    return;
                }
                // rejected: only right if the matrix is singular on this path
                match nonzero {
                    Some(v) => {
                        let p = v.iter().fold(E::F::one(), |a, b| a * b);
                        e.eq(&format!("rejected an invertible matrix ({msg})"), &p, &z);
                    }
                    None => e.eq(&format!("rejected an invertible matrix ({msg})"), &det(&m), &z),
                }
            }
        }
    }
}
pub struct Products {
    pub field: &'static str,
    pub r: usize,
    pub c: usize,
}
impl<P: PrimeField> Driver<P> for Products {
    fn id(&self) -> String {
        format!("products/{}/{}x{}", self.field, self.r, self.c)
    }
    fn functions(&self) -> Vec<&'static str> {
        vec!["utils::mat_transpose", "PoseidonParams::mat_vec_mul", "PoseidonParams::mat_mat_mul", "Poseidon2Params::mat_vec_mul"]
    }
    fn drive<E: Env<P>>(&self, e: &mut E) {
        let (r, c) = (self.r, self.c);
        let m: Vec<Vec<E::F>> = (0..r).map(|i| e.vars(&format!("m{i}"), c)).collect();
        if let Some(t) = e.run("mat_transpose", || mat_transpose(&m)) {
            e.expect("transpose shape", t.len() == c && t.iter().all(|x| x.len() == r));
            for i in 0..r {
                for j in 0..c {
                    if let Some(x) = t.get(j).and_then(|v| v.get(i)) {
                        e.eq(&format!("transpose[{j}][{i}]"), x, &m[i][j]);
                    }
                }
            }
        }
        if r == c {
            let x = e.vars("x", c);
            let want = refs::matvec(&m, &x);
            if let Some(y) = e.run("PoseidonParams::mat_vec_mul", || PoseidonParams::mat_vec_mul(&m, &x)) {
                e.eqv("PoseidonParams::mat_vec_mul", &y, &want);
            }
            if let Some(y) = e.run("Poseidon2Params::mat_vec_mul", || Poseidon2Params::mat_vec_mul(&m, &x)) {
                e.eqv("Poseidon2Params::mat_vec_mul", &y, &want);
            }
            let b: Vec<Vec<E::F>> = (0..r).map(|i| e.vars(&format!("b{i}"), c)).collect();
            let want = mm(&m, &b);
            if let Some(y) = e.run("mat_mat_mul", || PoseidonParams::mat_mat_mul(&m, &b)) {
                e.expect("product shape", y.len() == r);
                for i in 0..r {
                    e.eqv(&format!("mat_mat_mul row {i}"), &y[i], &want[i]);
                }
            }
        }
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
pub fn tasks(q: bool) -> Vec<Task> {
    let mut v = vec![];
    let mut k = 0usize;
    let mut inv = |n: usize, tag: String, mk: &dyn Fn() -> Shape, v: &mut Vec<Task>| {
        k += 1;
        v.push(by_field(k % 6, |field| Inverse { field, n, shape: mk(), tag: tag.clone() }));
    };
    for n in 1..=if q { 2 } else { 3 } {
        inv(n, "full".into(), &|| Shape::Full, &mut v);
    }
    for n in 2..=if q { 4 } else { 5 } {
        for p in perms(n) {
            inv(n, format!("monomial{:?}", p), &|| Shape::Monomial(p.clone()), &mut v);
        }
    }
    for n in 2..=if q { 3 } else { 4 } {
        for p in perms(n) {
            // the identities behind these two are beyond the quick tier's prover
            if q && (p == [2, 1, 0] || p == [2, 0, 1]) {
                continue;
            }
            inv(n, format!("permlower{:?}", p), &|| Shape::PermLowerDiag(p.clone()), &mut v);
        }
    }
    for n in 2..=if q { 4 } else { 8 } {
        inv(n, "bordertrue".into(), &|| Shape::Border(true), &mut v);
        if n <= 3 {
            inv(n, "borderfalse".into(), &|| Shape::Border(false), &mut v);
        }
    }
    for n in if q { vec![3usize, 4, 8] } else { vec![3, 4, 5, 6, 8, 12] } {
        inv(n, "dense".into(), &|| Shape::ScaledDense(n as u64), &mut v);
    }
    for n in [2usize, 3, 4, 5, 6, 8, 12, 16, 20, 24] {
        let ident: Vec<usize> = (0..n).collect();
        let rev: Vec<usize> = (0..n).rev().collect();
        let rot: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
        for (pn, p) in [("id", ident), ("rev", rev), ("rot", rot)] {
            for (r, c) in [(n - 1, n - 1), (0, 0), (n - 1, 0), (n / 2, n / 2), (0, n - 1)] {
                // quick: the last entry at every size, the other places at small sizes
                if q && if (r, c) == (n - 1, n - 1) { n > 16 } else { n > 4 || r == c } {
                    continue;
                }
                inv(n, format!("entry-{pn}-{r}-{c}"), &|| Shape::Entry(p.clone(), r, c), &mut v);
            }
        }
        for r in [0, n / 2, n - 1] {
            if n <= 8 || r == n - 1 || !q {
                inv(n, format!("scaledrow{r}"), &|| Shape::ScaledRow(r), &mut v);
            }
        }
    }
    inv(2, "twin".into(), &|| Shape::Twin(0, 1), &mut v);
    if !q {
        inv(3, "twin".into(), &|| Shape::Twin(0, 2), &mut v);
    }
    let top = if q { 5 } else { 8 };
    for r in 1..=top {
        for c in 1..=top {
            v.push(by_field((r + c) % 6, |field| Products { field, r, c }));
        }
    }
    for n in [8usize, 12, 24] {
        v.push(by_field(n % 6, |field| Products { field, r: n, c: n }));
    }
    v
}
