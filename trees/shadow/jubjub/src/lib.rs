pub use group;
symbase::base!(Fq, symbase::BlsP, "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 255, 32, 7);
pub type Base = Fq;
