//! Runs the cases of a check, collects what was observed and decides the verdict.

use crate::rng::{hash_bytes, mix, R};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use crate::ctx::*;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    pub static CASE_SEED: Cell<u64> = const { Cell::new(0) };
}

pub enum Verdict {
    Held,
    Violated { case: u64, text: String },
    Harness(String),
}

fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())) ^ case.wrapping_mul(0x9e3779b97f4a7c15))
}

fn cpu_time(t: libc::pthread_t) -> Option<f64> {
    unsafe {
        let mut clock = 0;
        if libc::pthread_getcpuclockid(t, &mut clock) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if IN_CASE.with(|c| c.get()) {
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            });
        } else {
            eprintln!("panic at {}: {}", loc, msg);
        }
    }));
}

/// Run one case. Panics in the harness itself are errors of the harness.
fn run_one(check: &Check, seed: u64, case: u64, thorough: bool, cov: Cov) -> (Cov, Verdict) {
    let s = case_seed(seed, check.id, case);
    CASE_SEED.with(|c| c.set(s));
    crate::entropy::reset(s);
    let mut ctx = Ctx { r: R::new(s), case, thorough, cov };
    IN_CASE.with(|c| c.set(true));
    let ret = catch_unwind(AssertUnwindSafe(|| (check.run)(&mut ctx)));
    IN_CASE.with(|c| c.set(false));
    let panic = PANIC.with(|p| p.borrow_mut().take());
    let v = match ret {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(text)) => Verdict::Violated { case, text },
        Err(_) => {
            let (loc, msg) = panic.unwrap_or_default();
            let own = loc.starts_with("src/") || loc.contains("/verif/harness/") || msg.starts_with("harness");
            if own && !msg.starts_with("invalid str") {
                Verdict::Harness(format!("case {}: panic in the harness at {}: {}", case, loc, msg))
            } else {
                Verdict::Violated { case, text: format!("panic at {}: {}", loc, msg) }
            }
        }
    };
    (ctx.cov, v)
}

pub struct Outcome {
    pub cov: Cov,
    pub cases: u64,
    pub verdict: Verdict,
}

/// CPU seconds a single case may use; they need milliseconds.
const CASE_CPU_LIMIT: f64 = 120.0;

pub fn run_all(check: &'static Check, seed: u64, thorough: bool, only: Option<u64>, deadline: Duration) -> Outcome {
    let total = if thorough { check.cases.1 } else { check.cases.0 };
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((total as f64 * scale) as u64).max(1);
    let threads = if only.is_some() { 1 } else { 8 };
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<Verdict>>> = Arc::new(Mutex::new(None));
    let merged: Arc<Mutex<Cov>> = Arc::new(Mutex::new(Cov::default()));
    let start = Instant::now();
    // Per worker: current case and CPU time when it started.
    let current: Arc<Vec<Mutex<Option<(u64, f64, libc::pthread_t)>>>> =
        Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let alive = Arc::new(AtomicUsize::new(threads));
    let mut handles = Vec::new();
    for w in 0..threads {
        let (next, done, bad, merged, current, alive) =
            (next.clone(), done.clone(), bad.clone(), merged.clone(), current.clone(), alive.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut cov = Cov::default();
                    loop {
                        let case = match only {
                            Some(c) => {
                                // The code under test has random choices of its own (futures::select!),
                                // so repeat.
                                if done.load(SeqCst) >= 200 {
                                    break;
                                }
                                c
                            }
                            None => next.fetch_add(1, SeqCst),
                        };
                        if only.is_none() && (case >= total || start.elapsed() > deadline) {
                            break;
                        }
                        if bad.lock().unwrap().is_some() {
                            break;
                        }
                        let me = unsafe { libc::pthread_self() };
                        *current[w].lock().unwrap() = Some((case, cpu_time(me).unwrap_or(0.0), me));
                        let t = Instant::now();
                        let (c, v) = run_one(check, seed, case, thorough, std::mem::take(&mut cov));
                        if std::env::var_os("VH_SLOW").is_some() && t.elapsed().as_millis() > 1500 {
                            eprintln!("case {} took {:?}", case, t.elapsed());
                        }
                        *current[w].lock().unwrap() = None;
                        cov = c;
                        done.fetch_add(1, SeqCst);
                        if !matches!(v, Verdict::Held) {
                            let mut b = bad.lock().unwrap();
                            // A violation is more informative than a later one; keep the first.
                            if b.is_none() {
                                *b = Some(v);
                            }
                            break;
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    for (k, v) in cov.counters {
                        let e = m.counters.entry(k.clone()).or_insert(0);
                        if k.starts_with("most_") || k.starts_with("largest_") || k.starts_with("longest_") {
                            *e = (*e).max(v);
                        } else {
                            *e += v;
                        }
                    }
                    for (k, v) in cov.foreign {
                        *m.foreign.entry(k).or_insert(0) += v;
                    }
                    m.sigs.extend(cov.sigs);
                    m.samples.extend(cov.samples);
                    alive.fetch_sub(1, SeqCst);
                })
                .unwrap(),
        );
    }
    let mut stuck = None;
    while alive.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(50));
        for c in current.iter() {
            if let Some((case, t0, th)) = *c.lock().unwrap() {
                if cpu_time(th).map_or(false, |t| t - t0 > CASE_CPU_LIMIT) {
                    stuck = Some(case);
                }
            }
        }
        if stuck.is_some() {
            break;
        }
    }
    let verdict = if let Some(case) = stuck {
        Verdict::Violated {
            case,
            text: format!("case did not terminate: more than {} s of CPU time", CASE_CPU_LIMIT),
        }
    } else {
        for h in handles {
            let _ = h.join();
        }
        bad.lock().unwrap().take().unwrap_or(Verdict::Held)
    };
    let cov = std::mem::take(&mut *merged.lock().unwrap());
    Outcome { cov, cases: done.load(SeqCst), verdict }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
