//! Stand-in for the operating system's generator: the model checker has no system calls.
use crate::{CryptoRng, Error, RngCore};

/// A counter run through a mixing function.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    n: u64,
}
/// Stand-in for the thread's generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { n: 1 }
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.n = self.n.wrapping_add(0x9E3779B97F4A7C15);
        let z = self.n ^ (self.n >> 30);
        z | 1
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}
