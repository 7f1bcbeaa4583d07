use crate::env::Driver;
pub use symcore::runner::{task, Task};
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};

pub const FIELDS: [&str; 6] = ["bls12", "bn256", "pallas", "vesta", "goldilocks", "babybear"];

pub fn by_field<D>(f: usize, mk: impl Fn(&'static str) -> D) -> Task
where
    D: Driver<FpBLS12> + Driver<FpBN256> + Driver<FpPallas> + Driver<FpVesta> + Driver<FpGoldiLocks> + Driver<FpBabyBear> + 'static,
{
    let d = mk(FIELDS[f]);
    match f {
        0 => task::<FpBLS12, D>(d),
        1 => task::<FpBN256, D>(d),
        2 => task::<FpPallas, D>(d),
        3 => task::<FpVesta, D>(d),
        4 => task::<FpGoldiLocks, D>(d),
        _ => task::<FpBabyBear, D>(d),
    }
}
