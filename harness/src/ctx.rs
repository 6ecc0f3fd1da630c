//! What a case of a check sees and reports.

use crate::rng::{hash_bytes, R};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Cov {
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub foreign: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub r: R,
    pub case: u64,
    pub thorough: bool,
    pub cov: Cov,
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.cov.counters.get_mut(k) {
            *v += n;
        } else {
            self.cov.counters.insert(k.to_string(), n);
        }
    }
    /// A distinct, non-trivial thing that was evaluated.
    pub fn sig(&mut self, b: &[u8]) {
        // Bounded memory: beyond this the count is a lower bound.
        if self.cov.sigs.len() < 4_000_000 {
            self.cov.sigs.insert(hash_bytes(b));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.case < 3 && self.cov.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.cov.samples.push(s);
        }
    }
}

/// Err: the property is violated.
pub type CaseResult = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> CaseResult,
    /// Cases in the quick and thorough tier.
    pub cases: (u64, u64),
    pub rule: &'static str,
    pub evaluations: &'static str,
    /// Counters that must not be zero at the end, or the run decided nothing.
    pub needs: &'static [&'static str],
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}
