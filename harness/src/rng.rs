//! Deterministic random source of the harness (splitmix64).

use rand::{CryptoRng, RngCore};

/// Set when an interpreter runs the workload, which is some 10000 times slower.
pub static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn small() -> bool {
    SMALL.load(std::sync::atomic::Ordering::Relaxed)
}

/// The second if time matters.
pub fn sized<T>(big: T, little: T) -> T {
    if small() {
        little
    } else {
        big
    }
}

#[derive(Clone)]
pub struct R(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl R {
    pub fn new(seed: u64) -> Self {
        R(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn fork(&mut self) -> R {
        R::new(self.u64())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Interesting u32 values.
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 1 << self.below(32),
            4 => (1u32 << self.below(32)).wrapping_sub(1),
            5 => self.below(300) as u32,
            _ => self.u32(),
        }
    }
}

impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let b = self.bytes(dest.len());
        dest.copy_from_slice(&b);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for R {}
