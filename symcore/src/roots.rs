//! Univariate root finding over a prime field (used to find inputs that take a given branch).
use crate::ctx::rand_elem;
use ark_ff::PrimeField;
use num_bigint::BigUint;

pub type Poly<P> = Vec<P>;

fn trim<P: PrimeField>(p: &mut Poly<P>) {
    while p.last().is_some_and(|c| c.is_zero()) {
        p.pop();
    }
}
fn rem<P: PrimeField>(a: &[P], m: &[P]) -> Poly<P> {
    let mut r = a.to_vec();
    trim(&mut r);
    let dm = m.len() - 1;
    let li = m[dm].inverse().unwrap();
    while r.len() > dm {
        let c = *r.last().unwrap() * li;
        let s = r.len() - 1 - dm;
        for i in 0..=dm {
            r[s + i] -= c * m[i];
        }
        trim(&mut r);
    }
    r
}
fn mulmod<P: PrimeField>(a: &[P], b: &[P], m: &[P]) -> Poly<P> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![P::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    rem(&r, m)
}
fn powmod<P: PrimeField>(base: &[P], e: &BigUint, m: &[P]) -> Poly<P> {
    let mut r = vec![P::one()];
    r = rem(&r, m);
    for i in (0..e.bits()).rev() {
        r = mulmod(&r, &r, m);
        if e.bit(i) {
            r = mulmod(&r, base, m);
        }
    }
    r
}
fn gcd<P: PrimeField>(a: &[P], b: &[P]) -> Poly<P> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = rem(&a, &b);
        a = b;
        b = r;
    }
    if let Some(l) = a.last().copied() {
        let li = l.inverse().unwrap();
        for c in a.iter_mut() {
            *c *= li;
        }
    }
    a
}
/// Up to `want` roots of the polynomial.
pub fn roots<P: PrimeField>(f: &[P], seed: &mut u64, want: usize) -> Vec<P> {
    let mut f = f.to_vec();
    trim(&mut f);
    if f.len() <= 1 {
        return vec![];
    }
    let p: BigUint = P::MODULUS.into();
    let x = vec![P::zero(), P::one()];
    let mut xp = powmod(&x, &p, &f);
    while xp.len() < 2 {
        xp.push(P::zero());
    }
    xp[1] -= P::one();
    trim(&mut xp);
    let g = if xp.is_empty() { f.clone() } else { gcd(&f, &xp) };
    let mut out = vec![];
    let mut st = vec![g];
    let h = (&p - 1u32) / 2u32;
    while let Some(g) = st.pop() {
        if out.len() >= want {
            break;
        }
        if g.len() <= 1 {
            continue;
        }
        if g.len() == 2 {
            out.push(-g[0] * g[1].inverse().unwrap());
            continue;
        }
        let mut split = false;
        for _ in 0..20 {
            let s = vec![rand_elem::<P>(seed), P::one()];
            let mut w = powmod(&s, &h, &g);
            if w.is_empty() {
                w.push(P::zero());
            }
            w[0] -= P::one();
            let d = gcd(&g, &w);
            if d.len() > 1 && d.len() < g.len() {
                // quotient
                let mut q = vec![];
                let mut r = g.clone();
                let dl = d.len() - 1;
                while r.len() > dl {
                    let c = *r.last().unwrap();
                    q.push(c);
                    let sft = r.len() - 1 - dl;
                    for i in 0..=dl {
                        r[sft + i] -= c * d[i];
                    }
                    r.pop();
                }
                q.reverse();
                st.push(q);
                st.push(d);
                split = true;
                break;
            }
        }
        if !split {
            break;
        }
    }
    out
}
/// Interpolate values at 0,1,..,n-1.
pub fn interpolate<P: PrimeField>(ys: &[P]) -> Poly<P> {
    // Newton's divided differences on 0..n
    let n = ys.len();
    let mut dd = ys.to_vec();
    for k in 1..n {
        let inv = P::from(k as u64).inverse().unwrap();
        for i in (k..n).rev() {
            dd[i] = (dd[i] - dd[i - 1]) * inv;
        }
    }
    let mut poly: Poly<P> = vec![];
    for k in (0..n).rev() {
        // poly = poly*(x-k) + dd[k]
        let mut np = vec![P::zero(); poly.len() + 1];
        for (i, c) in poly.iter().enumerate() {
            np[i + 1] += c;
            np[i] -= *c * P::from(k as u64);
        }
        np[0] += dd[k];
        poly = np;
    }
    trim(&mut poly);
    poly
}
