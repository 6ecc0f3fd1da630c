//! C27: the core workloads under Miri and AddressSanitizer.

use crate::run::{CaseResult, Check, Ctx};
use std::process::{Command, Stdio};

/// Cases below this run under Miri, the others under AddressSanitizer.
const MIRI: (u64, u64) = (8, 64);

fn c27(ctx: &mut Ctx) -> CaseResult {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let shards = if ctx.thorough { MIRI.1 } else { MIRI.0 };
    let miri = ctx.case < shards;
    let mut c;
    if miri {
        let n = 3;
        c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path"])
            .arg(format!("{}/memsafe/Cargo.toml", dir))
            .arg("--target-dir")
            .arg(format!("{}/target/miri", dir))
            .arg("--")
            .args([&seed, &(ctx.case * n).to_string(), &n.to_string()])
            .env("RUSTFLAGS", "--cfg chacha20_force_soft");
    } else {
        let n = 2500;
        c = Command::new(format!("{}/target/asan/x86_64-unknown-linux-gnu/debug/memsafe", dir));
        c.args([&seed, &(10_000 + (ctx.case - shards) * n).to_string(), &n.to_string()])
            .env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0");
    }
    let tool = if miri { "miri" } else { "asan" };
    let out = c.stdin(Stdio::null()).output().unwrap_or_else(|e| panic!("harness: {}: {}", tool, e));
    let (so, se) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
    let cut = |s: &str, pat: &str| -> String {
        let i = s.find(pat).unwrap_or(0);
        s[i..].lines().take(25).collect::<Vec<_>>().join("\n")
    };
    if se.contains("Undefined Behavior") {
        return Err(format!("{}: {}", tool, cut(&se, "error: Undefined")));
    }
    if se.contains("ERROR: AddressSanitizer") {
        return Err(format!("{}: {}", tool, cut(&se, "ERROR: AddressSanitizer")));
    }
    if se.contains("unsafe precondition(s) violated") {
        return Err(format!("{}: {}", tool, cut(&se, "unsafe precondition")));
    }
    for l in so.lines() {
        if let Some(p) = l.strip_prefix("PANIC ") {
            // Only these are this property's; others belong to the functional checks.
            if p.contains("overflow") || p.contains("out of bounds") || p.contains("out of range") || p.contains("attempt to") || p.contains("invalid str") {
                return Err(format!("{}: {}\n{}", tool, p, se.lines().filter(|l| !l.starts_with("warning")).take(10).collect::<Vec<_>>().join("\n")));
            }
            ctx.count("other_panics", 1);
        }
    }
    let Some(end) = so.lines().find_map(|l| l.strip_prefix("END ")).and_then(|s| s.parse::<u64>().ok()) else {
        panic!("harness: {} gave no result: {} {}", tool, out.status, se.lines().rev().take(12).collect::<Vec<_>>().join("\n"));
    };
    for l in so.lines() {
        if let Some((n, k)) = l.strip_prefix("OBS ").and_then(|l| l.split_once(' ')) {
            ctx.count(&format!("{}: {}", tool, k), n.parse().unwrap_or(0));
        }
    }
    ctx.count("executions_of_workloads", so.lines().filter_map(|l| l.strip_prefix("OBS ")).filter(|l| l.ends_with("workload")).filter_map(|l| l.split(' ').next().unwrap().parse::<u64>().ok()).sum());
    for i in 0..end.min(100_000) {
        // Each shard counts its own distinct inputs; seeds differ, so do the inputs.
        ctx.sig(format!("{} {} {}", tool, ctx.case, i).as_bytes());
    }
    let case = ctx.case;
    ctx.sample(|| format!("{} shard {}: {}", tool, case, so.lines().take(20).collect::<Vec<_>>().join("; ")));
    Ok(())
}

pub const CHECKS: &[Check] = &[Check {
    id: "C27",
    run: c27,
    cases: (16, 96),
    rule: "the workloads of the core checks (every message kind, hostile bytes, all buffer sizes, framing, encryption, forgeries, key derivation, exchange hash) and misuse of the interface (buffers too small for anything, \
           closures claiming wrong lengths, changed length fields; panics are fine there) \
           in shards under Miri and AddressSanitizer with overflow checks; distinct = distinct inputs per shard",
    evaluations: "executions_of_workloads",
    needs: &["miri: derivations", "miri: messages", "miri: packets", "miri: byte_strings", "miri: exchange_hashes", "miri: misuse", "asan: misuse", "asan: derivations", "asan: messages", "asan: packets", "asan: forgeries"],
    level: "exploration",
    assumptions: &["Miri and AddressSanitizer report what they detect", "SIMD code of the cryptographic crates is replaced by portable code under Miri"],
}];
