//! Reference definitions, written from the papers / the parameter script, with explicit matrices.
use ark_ff::PrimeField;

pub fn power<F: PrimeField>(x: F, d: usize) -> F {
    let mut r: Option<F> = None;
    for b in (0..usize::BITS).rev() {
        if let Some(v) = r {
            r = Some(v * v);
        }
        if d >> b & 1 == 1 {
            r = Some(match r {
                Some(v) => v * x,
                None => x,
            });
        }
    }
    r.unwrap()
}
/// y_i = sum_j m[i][j] x_j
pub fn matvec<F: PrimeField>(m: &[Vec<F>], x: &[F]) -> Vec<F> {
    m.iter()
        .map(|row| {
            let mut acc: Option<F> = None;
            for (a, b) in row.iter().zip(x) {
                let p = *a * b;
                acc = Some(match acc {
                    Some(s) => s + p,
                    None => p,
                });
            }
            acc.unwrap()
        })
        .collect()
}
fn int<F: PrimeField>(m: &[&[u64]]) -> Vec<Vec<F>> {
    m.iter().map(|r| r.iter().map(|v| F::from(*v)).collect()).collect()
}
pub fn circ<F: PrimeField>(row: &[u64]) -> Vec<Vec<F>> {
    let n = row.len();
    (0..n).map(|i| (0..n).map(|j| F::from(row[(j + n - i) % n])).collect()).collect()
}
pub fn p2_external<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    match t {
        2 => circ(&[2, 1]),
        3 => circ(&[2, 1, 1]),
        _ => {
            assert!(t % 4 == 0);
            let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
            (0..t)
                .map(|i| {
                    (0..t)
                        .map(|j| {
                            let v = m4[i % 4][j % 4];
                            F::from(if t > 4 && i / 4 == j / 4 { 2 * v } else { v })
                        })
                        .collect()
                })
                .collect()
        }
    }
}
pub fn p2_internal<F: PrimeField>(t: usize, diag_m1: &[F]) -> Vec<Vec<F>> {
    match t {
        2 => int(&[&[2, 1], &[1, 3]]),
        3 => int(&[&[2, 1, 1], &[1, 2, 1], &[1, 1, 3]]),
        _ => (0..t).map(|i| (0..t).map(|j| if i == j { diag_m1[i] + F::one() } else { F::one() }).collect()).collect(),
    }
}
/// (J + diag(v)) x for the all-ones matrix J
pub fn ones_plus_diag<F: PrimeField>(v: &[F], x: &[F]) -> Vec<F> {
    let sum: F = x[1..].iter().fold(x[0], |a, b| a + b);
    x.iter().zip(v).map(|(x, d)| *d * x + sum).collect()
}
pub fn poseidon2<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, diag_m1: &[F], rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let m_e = p2_external::<F>(t);
    let mut s = matvec(&m_e, input);
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            s = (0..t).map(|i| power(s[i] + rc[r][i], d)).collect();
            s = matvec(&m_e, &s);
        } else {
            s[0] = power(s[0] + rc[r][0], d);
            s = if t < 4 { matvec(&p2_internal(t, &[]), &s) } else { ones_plus_diag(diag_m1, &s) };
        }
    }
    s
}
pub fn poseidon<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let mut s = input.to_vec();
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] += rc[r][i];
        }
        if r < rf / 2 || r >= rf / 2 + rp {
            s = s.iter().map(|x| power(*x, d)).collect();
        } else {
            s[0] = power(s[0], d);
        }
        s = matvec(mds, &s);
    }
    s
}
/// GMiMC_erf: x_j += (x_0 + c_r)^d for j > 0, then rotate right; no rotation after the last round.
pub fn gmimc<F: PrimeField>(t: usize, d: usize, rc: &[F], input: &[F]) -> Vec<F> {
    let mut s = input.to_vec();
    let rounds = rc.len();
    for (r, c) in rc.iter().enumerate() {
        let p = power(s[0] + c, d);
        let mut n = s.clone();
        for j in 1..t {
            n[j] = s[j] + p;
        }
        if r + 1 < rounds {
            for j in 0..t {
                s[(j + 1) % t] = n[j];
            }
        } else {
            s = n;
        }
    }
    s
}
/// Neptune with alpha = beta = 1: pairwise degree-4 S-box
/// (x1,x2) -> (2x1+x2+3z^2+w^2, x1+3x2+4z^2+w^2), z = x1-x2, w = x1-2x2-z^2+gamma.
pub fn neptune_sbox<F: PrimeField>(x1: F, x2: F, gamma: F) -> (F, F) {
    let z = x1 - x2;
    let z2 = z * z;
    let w = x1 - F::from(2u64) * x2 - z2 + gamma;
    let w2 = w * w;
    (F::from(2u64) * x1 + x2 + F::from(3u64) * z2 + w2, x1 + F::from(3u64) * x2 + F::from(4u64) * z2 + w2)
}
/// `mu_m1`: diagonal of the internal matrix minus one.
#[allow(clippy::too_many_arguments)]
pub fn neptune<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, m_e: &[Vec<F>], mu_m1: &[F], gamma: F, rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let mut s = matvec(m_e, input);
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            let mut n = vec![];
            for i in 0..t / 2 {
                let (a, b) = neptune_sbox(s[2 * i], s[2 * i + 1], gamma);
                n.push(a);
                n.push(b);
            }
            s = matvec(m_e, &n);
        } else {
            s[0] = power(s[0], d);
            s = ones_plus_diag(mu_m1, &s);
        }
        for i in 0..t {
            s[i] += rc[r][i];
        }
    }
    s
}
