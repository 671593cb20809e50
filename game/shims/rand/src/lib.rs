//! `rand` whose random bits come from a hook, so that every draw is a choice of the explorer.
pub use real::*;
use std::sync::Mutex;

/// Gives the next 32 bits
pub type Source = Box<dyn FnMut() -> u32 + Send>;
static SOURCE: Mutex<Option<Source>> = Mutex::new(None);
pub fn drive(source: Option<Source>) -> Option<Source> {
    std::mem::replace(&mut *SOURCE.lock().unwrap_or_else(|e| e.into_inner()), source)
}
fn bits() -> u32 {
    let mut s = SOURCE.lock().unwrap_or_else(|e| e.into_inner());
    (s.as_mut().expect("a draw outside of a run"))()
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Driven;
impl RngCore for Driven {
    fn next_u32(&mut self) -> u32 {
        bits()
    }
    fn next_u64(&mut self) -> u64 {
        let b = bits() as u64;
        b << 32 | b
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            c.copy_from_slice(&bits().to_le_bytes()[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    Driven.gen()
}
pub fn thread_rng() -> Driven {
    Driven
}
pub mod rngs {
    pub use super::Driven as ThreadRng;
    pub use real::rngs::*;
}
pub mod prelude {
    pub use super::{random, thread_rng, Driven as ThreadRng};
    pub use real::prelude::{CryptoRng, Distribution, IteratorRandom, Rng, RngCore, SeedableRng, SliceRandom};
}
