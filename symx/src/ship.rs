//! The shipped parameter objects, and the committed tables of the published instances.
use crate::dbg::{self, V};
use ark_ff::PrimeField;
use serde_json::{json, Value};
use std::any::Any;
use std::sync::{Arc, OnceLock};
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::gmimc::*;
use zkhash::neptune::neptune_instances::*;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon::*;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::poseidon2::*;

/// Calls the macro with every shipped object: (method, field index, name, object).
macro_rules! poseidon2_all {
    ($f:ident) => {
        $f!(0, FpBLS12, "bls12-t2", poseidon2_instance_bls12::POSEIDON2_BLS_2_PARAMS);
        $f!(0, FpBLS12, "bls12-t3", poseidon2_instance_bls12::POSEIDON2_BLS_3_PARAMS);
        $f!(0, FpBLS12, "bls12-t4", poseidon2_instance_bls12::POSEIDON2_BLS_4_PARAMS);
        $f!(0, FpBLS12, "bls12-t8", poseidon2_instance_bls12::POSEIDON2_BLS_8_PARAMS);
        $f!(1, FpBN256, "bn256-t3", poseidon2_instance_bn256::POSEIDON2_BN256_PARAMS);
        $f!(2, FpPallas, "pallas-t3", poseidon2_instance_pallas::POSEIDON2_PALLAS_3_PARAMS);
        $f!(2, FpPallas, "pallas-t4", poseidon2_instance_pallas::POSEIDON2_PALLAS_4_PARAMS);
        $f!(2, FpPallas, "pallas-t8", poseidon2_instance_pallas::POSEIDON2_PALLAS_8_PARAMS);
        $f!(3, FpVesta, "vesta-t3", poseidon2_instance_vesta::POSEIDON2_VESTA_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t8", poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_8_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t12", poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_12_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t16", poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_16_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t20", poseidon2_instance_goldilocks::POSEIDON2_GOLDILOCKS_20_PARAMS);
        $f!(5, FpBabyBear, "babybear-t16", poseidon2_instance_babybear::POSEIDON2_BABYBEAR_16_PARAMS);
        $f!(5, FpBabyBear, "babybear-t24", poseidon2_instance_babybear::POSEIDON2_BABYBEAR_24_PARAMS);
    };
}
macro_rules! poseidon_all {
    ($f:ident) => {
        $f!(0, FpBLS12, "bls12-t2", poseidon_instance_bls12::POSEIDON_BLS_2_PARAMS);
        $f!(0, FpBLS12, "bls12-t3", poseidon_instance_bls12::POSEIDON_BLS_3_PARAMS);
        $f!(0, FpBLS12, "bls12-t4", poseidon_instance_bls12::POSEIDON_BLS_4_PARAMS);
        $f!(0, FpBLS12, "bls12-t8", poseidon_instance_bls12::POSEIDON_BLS_8_PARAMS);
        $f!(1, FpBN256, "bn256-t3", poseidon_instance_bn256::POSEIDON_BN_PARAMS);
        $f!(2, FpPallas, "pallas-t3", poseidon_instance_pallas::POSEIDON_PALLAS_3_PARAMS);
        $f!(2, FpPallas, "pallas-t4", poseidon_instance_pallas::POSEIDON_PALLAS_4_PARAMS);
        $f!(2, FpPallas, "pallas-t8", poseidon_instance_pallas::POSEIDON_PALLAS_8_PARAMS);
        $f!(3, FpVesta, "vesta-t3", poseidon_instance_vesta::POSEIDON_VESTA_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t8", poseidon_instance_goldilocks::POSEIDON_GOLDILOCKS_8_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t12", poseidon_instance_goldilocks::POSEIDON_GOLDILOCKS_12_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t16", poseidon_instance_goldilocks::POSEIDON_GOLDILOCKS_16_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks-t20", poseidon_instance_goldilocks::POSEIDON_GOLDILOCKS_20_PARAMS);
        $f!(5, FpBabyBear, "babybear-t16", poseidon_instance_babybear::POSEIDON_BABYBEAR_16_PARAMS);
        $f!(5, FpBabyBear, "babybear-t24", poseidon_instance_babybear::POSEIDON_BABYBEAR_24_PARAMS);
    };
}
macro_rules! gmimc_all {
    ($f:ident) => {
        gmimc_all!(@ $f 0 FpBLS12 "bls12" gmimc_instance_bls12: 2 GMIMC_BLS_2_PARAMS, 3 GMIMC_BLS_3_PARAMS, 4 GMIMC_BLS_4_PARAMS, 5 GMIMC_BLS_5_PARAMS, 8 GMIMC_BLS_8_PARAMS, 9 GMIMC_BLS_9_PARAMS, 12 GMIMC_BLS_12_PARAMS, 16 GMIMC_BLS_16_PARAMS, 20 GMIMC_BLS_20_PARAMS, 24 GMIMC_BLS_24_PARAMS);
        gmimc_all!(@ $f 1 FpBN256 "bn256" gmimc_instance_bn256: 3 GMIMC_BN_3_PARAMS, 4 GMIMC_BN_4_PARAMS, 5 GMIMC_BN_5_PARAMS, 8 GMIMC_BN_8_PARAMS, 9 GMIMC_BN_9_PARAMS, 12 GMIMC_BN_12_PARAMS, 16 GMIMC_BN_16_PARAMS, 20 GMIMC_BN_20_PARAMS, 24 GMIMC_BN_24_PARAMS);
        gmimc_all!(@ $f 2 FpPallas "pallas" gmimc_instance_pallas: 3 GMIMC_PALLAS_3_PARAMS, 4 GMIMC_PALLAS_4_PARAMS, 5 GMIMC_PALLAS_5_PARAMS, 8 GMIMC_PALLAS_8_PARAMS, 9 GMIMC_PALLAS_9_PARAMS, 12 GMIMC_PALLAS_12_PARAMS, 16 GMIMC_PALLAS_16_PARAMS, 20 GMIMC_PALLAS_20_PARAMS, 24 GMIMC_PALLAS_24_PARAMS);
        gmimc_all!(@ $f 3 FpVesta "vesta" gmimc_instance_vesta: 3 GMIMC_VESTA_3_PARAMS, 4 GMIMC_VESTA_4_PARAMS, 5 GMIMC_VESTA_5_PARAMS, 8 GMIMC_VESTA_8_PARAMS, 9 GMIMC_VESTA_9_PARAMS, 12 GMIMC_VESTA_12_PARAMS, 16 GMIMC_VESTA_16_PARAMS, 20 GMIMC_VESTA_20_PARAMS, 24 GMIMC_VESTA_24_PARAMS);
        gmimc_all!(@ $f 4 FpGoldiLocks "goldilocks" gmimc_instance_goldilocks: 8 GMIMC_GOLDILOCKS_8_PARAMS, 12 GMIMC_GOLDILOCKS_12_PARAMS, 16 GMIMC_GOLDILOCKS_16_PARAMS, 20 GMIMC_GOLDILOCKS_20_PARAMS);
        gmimc_all!(@ $f 5 FpBabyBear "babybear" gmimc_instance_babybear: 16 GMIMC_BABYBEAR_16_PARAMS, 24 GMIMC_BABYBEAR_24_PARAMS);
    };
    (@ $f:ident $i:literal $t:ident $n:literal $m:ident: $($s:literal $p:ident),*) => { $( $f!($i, $t, $n, $s, $m::$p); )* };
}
macro_rules! neptune_all {
    ($f:ident) => {
        $f!(1, FpBN256, "bn256", 4, NEPTUNE_BN_PARAMS);
        $f!(0, FpBLS12, "bls12", 4, NEPTUNE_BLS_4_PARAMS);
        $f!(0, FpBLS12, "bls12", 8, NEPTUNE_BLS_8_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks", 8, NEPTUNE_GOLDILOCKS_8_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks", 12, NEPTUNE_GOLDILOCKS_12_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks", 16, NEPTUNE_GOLDILOCKS_16_PARAMS);
        $f!(4, FpGoldiLocks, "goldilocks", 20, NEPTUNE_GOLDILOCKS_20_PARAMS);
        $f!(5, FpBabyBear, "babybear", 16, NEPTUNE_BABYBEAR_16_PARAMS);
        $f!(5, FpBabyBear, "babybear", 24, NEPTUNE_BABYBEAR_24_PARAMS);
        $f!(2, FpPallas, "pallas", 4, NEPTUNE_PALLAS_4_PARAMS);
        $f!(2, FpPallas, "pallas", 8, NEPTUNE_PALLAS_8_PARAMS);
        $f!(3, FpVesta, "vesta", 4, NEPTUNE_VESTA_PARAMS);
    };
}
pub(crate) use {gmimc_all, neptune_all, poseidon2_all, poseidon_all};

pub fn cast<A: Copy + 'static, B: Copy + 'static>(a: &A) -> B {
    *(a as &dyn Any).downcast_ref::<B>().expect("same type")
}
pub fn cast_vec<A: Copy + 'static, B: Copy + 'static>(a: &[A]) -> Vec<B> {
    a.iter().map(cast).collect()
}

/// Native values of a Debug element.
pub fn elem<P: PrimeField>(v: &V) -> Option<P> {
    match v {
        V::Tuple(n, x) if n == "BigInt" => {
            if let V::List(l) = x.first()? {
                let mut bytes = vec![];
                for y in l {
                    if let V::Num(s) = y {
                        bytes.extend(s.parse::<u64>().ok()?.to_le_bytes());
                    } else {
                        return None;
                    }
                }
                return Some(P::from_le_bytes_mod_order(&bytes));
            }
            None
        }
        V::Tuple(_, x) if x.len() == 1 => elem(&x[0]),
        _ => None,
    }
}
pub fn elems<P: PrimeField>(v: &V) -> Option<Vec<P>> {
    match v {
        V::List(l) => l.iter().map(elem).collect(),
        _ => None,
    }
}
pub fn rows<P: PrimeField>(v: &V) -> Option<Vec<Vec<P>>> {
    match v {
        V::List(l) => l.iter().map(elems).collect(),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Held<P: PrimeField> {
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    /// diagonal minus one (Poseidon2) or nothing
    pub diag: Vec<P>,
    /// internal matrix (Poseidon2) or MDS matrix (Poseidon)
    pub mat: Vec<Vec<P>>,
    pub rc: Vec<Vec<P>>,
}
fn num(v: &V, n: &[&str]) -> Option<usize> {
    n.iter().find_map(|n| v.get(n)).and_then(|x| x.usize())
}
pub fn held2<P: PrimeField>(s: &str) -> Option<Held<P>> {
    let v = dbg::parse(s)?;
    let t = num(&v, &["t"])?;
    let (rb, re, rp) = v.schedule()?;
    let diag: Vec<P> = elems(&v.find_vec(&["mat_internal_diag_m_1"], t)?)?;
    let mat = ["_mat_internal", "mat_internal"].iter().find_map(|n| v.get(n)).and_then(|m| rows(&m));
    Some(Held {
        t,
        d: num(&v, &["d", "degree", "alpha"])?,
        rf: rb + re,
        rp,
        mat: mat.unwrap_or_else(|| (0..t).map(|i| (0..t).map(|j| if i == j { diag[i] + P::one() } else { P::one() }).collect()).collect()),
        diag,
        rc: rows(&v.get("round_constants").or(v.find_mat(&["rc"], rb + re + rp, t))?)?,
    })
}
pub fn held1<P: PrimeField>(s: &str) -> Option<Held<P>> {
    let v = dbg::parse(s)?;
    let t = num(&v, &["t"])?;
    let (rb, re, rp) = v.schedule()?;
    Some(Held {
        t,
        d: num(&v, &["d", "degree", "alpha"])?,
        rf: rb + re,
        rp,
        diag: vec![],
        mat: rows(&v.find_mat(&["mds"], t, t)?)?,
        rc: rows(&v.get("round_constants").or(v.find_mat(&["rc"], rb + re + rp, t))?)?,
    })
}
fn js<P: PrimeField>(x: &P) -> Value {
    json!(crate::symf::dec(x))
}
fn jm<P: PrimeField>(m: &[Vec<P>]) -> Value {
    json!(m.iter().map(|r| r.iter().map(js).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn to_json<P: PrimeField>(h: &Held<P>) -> Value {
    json!({"p": P::MODULUS.to_string(), "t": h.t, "d": h.d, "rf": h.rf, "rp": h.rp, "diag_m1": h.diag.iter().map(js).collect::<Vec<_>>(), "mat": jm(&h.mat), "rc": jm(&h.rc)})
}
/// Used once, on the pinned commit, to make golden/*.json (then checked against the published generator).
pub fn dump(dir: &str) {
    macro_rules! d2 {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            std::fs::write(format!("{dir}/poseidon2-{}.json", $n), serde_json::to_string(&to_json(&held2::<$t>(&format!("{:?}", **$s)).unwrap())).unwrap()).unwrap();
        };
    }
    macro_rules! d1 {
        ($i:expr, $t:ty, $n:expr, $s:expr) => {
            std::fs::write(format!("{dir}/poseidon-{}.json", $n), serde_json::to_string(&to_json(&held1::<$t>(&format!("{:?}", **$s)).unwrap())).unwrap()).unwrap();
        };
    }
    poseidon2_all!(d2);
    poseidon_all!(d1);
}
pub struct Golden<P: PrimeField> {
    pub p: String,
    pub h: Held<P>,
}
pub fn golden<P: PrimeField>(name: &str) -> Golden<P> {
    static DIR: OnceLock<String> = OnceLock::new();
    let dir = DIR.get_or_init(|| format!("{}/../golden", env!("CARGO_MANIFEST_DIR")));
    let v: Value = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/{name}.json")).expect("golden file")).expect("golden json");
    let el = |x: &Value| symcore::explore::parse_mod::<P>(x.as_str().unwrap()).unwrap();
    let vecs = |x: &Value| x.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(el).collect()).collect::<Vec<Vec<P>>>();
    let n = |k: &str| v[k].as_u64().unwrap() as usize;
    Golden { p: v["p"].as_str().unwrap().into(), h: Held { t: n("t"), d: n("d"), rf: n("rf"), rp: n("rp"), diag: v["diag_m1"].as_array().unwrap().iter().map(el).collect(), mat: vecs(&v["mat"]), rc: vecs(&v["rc"]) } }
}
pub type P2<P> = Arc<Poseidon2Params<P>>;
pub type P1<P> = Arc<PoseidonParams<P>>;
pub type Gm<P> = Arc<GmimcParams<P>>;
pub type Np<P> = Arc<NeptuneParams<P>>;
