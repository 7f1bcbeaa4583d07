//! Harness bodies.  Under Kani every value a body reads is symbolic; natively it is read from a list,
//! so that a counterexample can be run again on the real code.
pub mod bodies;
pub mod wide {
    pub const L: usize = 5;
    pub const N: usize = 5;
    pub const BITS: u32 = 320;
    pub const MODULUS: [u64; N] = [u64::MAX, u64::MAX, u64::MAX, u64::MAX, u64::MAX];
    include!("wide_impl.rs");
}
pub mod small {
    pub const L: usize = 1;
    pub const N: usize = 1;
    pub const BITS: u32 = 64;
    pub const MODULUS: [u64; N] = [u64::MAX];
    include!("wide_impl.rs");
}
pub mod f31 {
    pub const L: usize = 5;
    pub const N: usize = 1;
    pub const BITS: u32 = 31;
    pub const MODULUS: [u64; N] = [0x78000001];
    include!("wide_impl.rs");
}
pub mod f64 {
    pub const L: usize = 5;
    pub const N: usize = 1;
    pub const BITS: u32 = 64;
    pub const MODULUS: [u64; N] = [0xffffffff00000001];
    include!("wide_impl.rs");
}
pub mod f254 {
    pub const L: usize = 5;
    pub const N: usize = 4;
    pub const BITS: u32 = 254;
    pub const MODULUS: [u64; N] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
    include!("wide_impl.rs");
}
pub mod f255 {
    pub const L: usize = 5;
    pub const N: usize = 4;
    pub const BITS: u32 = 255;
    pub const MODULUS: [u64; N] = [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0, 0x4000000000000000];
    include!("wide_impl.rs");
}
pub mod f255b {
    pub const L: usize = 5;
    pub const N: usize = 4;
    pub const BITS: u32 = 255;
    pub const MODULUS: [u64; N] = [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];
    include!("wide_impl.rs");
}

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u64(&mut self) -> u64;
    fn usize(&mut self) -> usize;
    fn assume(&mut self, ok: bool);
}
/// Recorded values, one little-endian byte vector per read.
pub struct Rec {
    pub vals: Vec<Vec<u8>>,
    pub at: usize,
    pub broken: bool,
}
impl Rec {
    fn next(&mut self, n: usize) -> u64 {
        let mut r = 0u64;
        match self.vals.get(self.at) {
            Some(v) if v.len() == n => {
                for (i, b) in v.iter().enumerate() {
                    r |= (*b as u64) << (8 * i);
                }
            }
            _ => self.broken = true,
        }
        self.at += 1;
        r
    }
}
impl Src for Rec {
    fn u8(&mut self) -> u8 {
        self.next(1) as u8
    }
    fn u64(&mut self) -> u64 {
        self.next(8)
    }
    fn usize(&mut self) -> usize {
        self.next(8) as usize
    }
    fn assume(&mut self, ok: bool) {
        if !ok {
            self.broken = true;
            std::panic::panic_any("assumption")
        }
    }
}

#[cfg(kani)]
pub struct Any;
#[cfg(kani)]
impl Src for Any {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn assume(&mut self, ok: bool) {
        kani::assume(ok)
    }
}

macro_rules! harnesses {
    ($(hold $name:ident = $body:expr, unwind $u:expr;)* ---
     $(reject $rname:ident = $rbody:expr, unwind $ru:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;

            $(
                #[kani::proof]
                #[kani::unwind($u)]
                fn $name() {
                    let r: bool = $body(&mut Any, false);
                    assert!(r, "PROPERTY");
                }
            )*
            $(
                #[kani::proof]
                #[kani::unwind($ru)]
                fn $rname() {
                    let _ = $rbody(&mut Any, false);
                    assert!(false, "RETURNED");
                }
            )*
        }
        pub fn rejecting(name: &str) -> bool {
            [$(stringify!($rname)),*].contains(&name)
        }
        /// (rejecting?, outcome) of a native run on recorded values.
        pub fn native(name: &str, s: &mut Rec) -> Option<(bool, bool)> {
            match name {
                $(stringify!($name) => Some((false, $body(s, true))),)*
                $(stringify!($rname) => { let _ = $rbody(s, true); Some((true, false)) })*
                _ => None,
            }
        }
    };
}
use bodies as b;
harnesses! {
    // every string of this many digits
    hold hex_0 = b::hex_ok::<_, 2, 2, 2>, unwind 4;
    hold hex_2 = b::hex_ok::<_, 4, 2, 4>, unwind 6;
    hold hex_4 = b::hex_ok::<_, 6, 2, 6>, unwind 8;
    hold hex_6 = b::hex_ok::<_, 8, 2, 8>, unwind 10;
    hold hex_8 = b::hex_ok::<_, 10, 2, 10>, unwind 12;
    hold hex_16 = b::hex_ok::<_, 18, 2, 18>, unwind 20;
    hold hex_32 = b::hex_ok::<_, 34, 2, 34>, unwind 36;
    hold hex_64 = b::hex_ok::<_, 66, 2, 66>, unwind 68;
    hold hex_66 = b::hex_ok::<_, 68, 2, 68>, unwind 70;
    // 80 digits, eight of them arbitrary: the first, the last, and some in between
    hold hex_80_top = b::hex_ok::<_, 82, 2, 10>, unwind 84;
    hold hex_80_mid = b::hex_ok::<_, 82, 12, 20>, unwind 84;
    hold hex_80_low = b::hex_ok::<_, 82, 74, 82>, unwind 84;
    // any two characters in front
    hold hex_prefix = b::hex_prefix::<_, 8>, unwind 10;
    // the same for code that asks for the size of the field
    hold hex_f31_8 = b::hex_field::<_, f31::W, 10>, unwind 12;
    hold hex_f31_12 = b::hex_field::<_, f31::W, 14>, unwind 16;
    hold hex_f64_20 = b::hex_field::<_, f64::W, 22>, unwind 24;
    hold hex_f31_32 = b::hex_field::<_, f31::W, 34>, unwind 36;
    hold hex_f64_16 = b::hex_field::<_, f64::W, 18>, unwind 20;
    hold hex_f64_32 = b::hex_field::<_, f64::W, 34>, unwind 36;
    hold hex_f254_32 = b::hex_field::<_, f254::W, 34>, unwind 36;
    hold hex_f255_32 = b::hex_field::<_, f255::W, 34>, unwind 36;
    hold hex_f255b_32 = b::hex_field::<_, f255b::W, 34>, unwind 36;
    hold hex_f255b_66 = b::hex_field::<_, f255b::W, 68>, unwind 70;
    ---
    reject hex_bad_1 = b::hex_bad::<_, 3, 2, 3>, unwind 6;
    reject hex_bad_2 = b::hex_bad::<_, 4, 2, 4>, unwind 6;
    reject hex_bad_3 = b::hex_bad::<_, 5, 2, 5>, unwind 8;
    reject hex_bad_4 = b::hex_bad::<_, 6, 2, 6>, unwind 8;
    reject hex_bad_5 = b::hex_bad::<_, 7, 2, 7>, unwind 9;
    reject hex_bad_6 = b::hex_bad::<_, 8, 2, 8>, unwind 10;
    reject hex_bad_7 = b::hex_bad::<_, 9, 2, 9>, unwind 11;
    reject hex_bad_16 = b::hex_bad::<_, 18, 2, 18>, unwind 20;
    reject hex_bad_32 = b::hex_bad::<_, 34, 2, 34>, unwind 36;
    reject hex_bad_63 = b::hex_bad::<_, 65, 2, 65>, unwind 67;
    reject hex_bad_64 = b::hex_bad::<_, 66, 2, 66>, unwind 68;
    reject hex_bad_65 = b::hex_bad::<_, 67, 2, 67>, unwind 69;
    reject hex_bad_80_top = b::hex_bad::<_, 82, 2, 10>, unwind 84;
    reject hex_bad_80_low = b::hex_bad::<_, 82, 74, 82>, unwind 84;
    reject p2_degree = b::p2_degree, unwind 8;
    reject p2_rounds = b::p2_rounds, unwind 8;
    reject gmimc_degree = b::gmimc_degree, unwind 8;
    reject neptune_degree = b::neptune_degree, unwind 8;
    reject neptune_rounds = b::neptune_rounds, unwind 8;
}
