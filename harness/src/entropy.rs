//! The random generator handed to the server. Its entropy comes from the case seed and it can be
//! told to produce a constant, which makes anything derived from it recognisable.

use crate::rng::{mix, R};
use rand::{CryptoRng, RngCore, SeedableRng};
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static CONSTANT: Cell<Option<u8>> = const { Cell::new(None) };
    static DRAWN: Cell<u64> = const { Cell::new(0) };
}

pub fn reset(seed: u64) {
    STATE.with(|s| s.set(mix(seed ^ 0x5eed)));
    CONSTANT.with(|s| s.set(None));
    DRAWN.with(|s| s.set(0));
}

pub fn set_constant(c: Option<u8>) {
    CONSTANT.with(|s| s.set(c));
}

pub fn drawn() -> u64 {
    DRAWN.with(|s| s.get())
}

pub struct SrvRng(R);

impl SeedableRng for SrvRng {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        SrvRng(R::new(crate::rng::hash_bytes(&seed)))
    }
    fn from_entropy() -> Self {
        let s = STATE.with(|s| {
            let v = mix(s.get());
            s.set(v);
            v
        });
        SrvRng(R::new(mix(s ^ 0xe47)))
    }
}

impl RngCore for SrvRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        DRAWN.with(|s| s.set(s.get() + dest.len() as u64));
        match CONSTANT.with(|s| s.get()) {
            Some(c) => dest.iter_mut().for_each(|d| *d = c),
            None => self.0.fill_bytes(dest),
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for SrvRng {}
