//! The workloads of the core checks, to be run under Miri and AddressSanitizer (C27).
//! usage: memsafe SEED FIRST COUNT: runs cases FIRST..FIRST+COUNT of every core check.

#![allow(dead_code)]

mod misuse;
#[path = "../../harness/src/bridge.rs"]
mod bridge;
#[path = "../../harness/src/core_checks.rs"]
mod core_checks;
#[path = "../../harness/src/crypto.rs"]
mod crypto;
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/entropy.rs"]
mod entropy;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/wire.rs"]
mod wire;
mod run {
    pub use crate::ctx::*;
}

use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().expect("number")).collect();
    if a.len() != 3 {
        return;
    }
    rng::SMALL.store(cfg!(miri), std::sync::atomic::Ordering::Relaxed);
    let mut total = std::collections::BTreeMap::new();
    let mut work: Vec<(&str, fn(&mut ctx::Ctx) -> ctx::CaseResult)> = core_checks::CHECKS.iter().map(|c| (c.id, c.run)).collect();
    work.push(("C06", core_checks::c06_core));
    work.push(("C08", core_checks::c08_core));
    work.push(("misuse", misuse::misuse));
    let mut cov = ctx::Cov::default();
    for case in a[1]..a[1] + a[2] {
        for (id, run) in &work {
            let seed = rng::mix(a[0] ^ rng::hash_bytes(id.as_bytes())) ^ case.wrapping_mul(0x9e3779b97f4a7c15);
            entropy::reset(seed);
            // Case numbers select small or exhaustive variants in some checks; spread them.
            let mut x = ctx::Ctx { r: rng::R::new(seed), case: 1000 + case, thorough: false, cov: std::mem::take(&mut cov) };
            let t0 = std::env::var_os("MEMSAFE_TIME").map(|_| std::time::Instant::now());
            let r = catch_unwind(AssertUnwindSafe(|| run(&mut x)));
            cov = x.cov;
            if let Some(t) = t0 {
                eprintln!("{} {:?}", id, t.elapsed());
            }
            *total.entry(format!("{} workload", id)).or_insert(0u64) += 1;
            match r {
                Ok(Ok(())) => {}
                // Somebody else's property.
                Ok(Err(_)) => *total.entry("functional differences".to_string()).or_insert(0) += 1,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("PANIC case {} of {}: {}", case, id, m.replace('\n', " "));
                }
            }
        }
    }
    for (k, v) in total.iter().chain(cov.counters.iter()) {
        println!("OBS {} {}", v, k);
    }
    println!("END {}", cov.sigs.len());
}
