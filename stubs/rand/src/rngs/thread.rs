//! Verification model of the thread-local generator: every draw is a symbolic value.
use crate::{CryptoRng, Error, RngCore};
use core::marker::PhantomData;
use std::rc::Rc;

/// The (modelled) thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    rng: PhantomData<Rc<()>>,
}

/// Retrieve the (modelled) thread-local generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { rng: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        crate::sym_bits(32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        crate::sym_bits(64)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = crate::sym_bits(8) as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
