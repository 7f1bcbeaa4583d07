pub extern crate group;
pub mod arithmetic {
    pub use ff::{Field, PrimeField};
}
symbase::base!(Fp, symbase::PallasP, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 255, 32, 5);
pub mod pallas {
    pub type Base = super::Fp;
}
pub mod vesta {
    pub type Scalar = super::Fp;
}
