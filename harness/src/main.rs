mod alloc;
mod attack;
mod bridge;
mod client;
mod core_checks;
mod crypto;
mod ctx;
mod entropy;
mod helper;
mod hostile;
mod mem;
mod procs;
mod resources;
mod rng;
mod run;
mod scp;
mod server_checks;
mod sim;
mod sshd;
mod tcp;
mod wire;
mod work;

use run::{json_str, Check, Verdict};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn checks() -> Vec<&'static Check> {
    let mut v: Vec<&'static Check> = Vec::new();
    v.extend(core_checks::CHECKS.iter());
    v.extend(server_checks::CHECKS.iter());
    v.extend(resources::CHECKS.iter());
    v.extend(scp::CHECKS.iter());
    v.extend(sshd::CHECKS.iter());
    v.extend(mem::CHECKS.iter());
    v
}

fn main() {
    helper::maybe();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("usage: vh ID [--case N]").clone();
    let only = match args.get(2).map(|s| &s[..]) {
        Some("--case") => Some(args[3].parse::<u64>().expect("case")),
        _ => None,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let check = match checks().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no such check: {}", id);
            std::process::exit(3);
        }
    };
    if let Err(e) = crypto::self_test() {
        eprintln!("HARNESS ERROR {}", e);
        std::process::exit(3);
    }
    run::install_panic_hook();
    let start = Instant::now();
    let deadline = Duration::from_secs(if thorough { 3000 } else { 300 });
    let out = run::run_all(check, seed, thorough, only, deadline);
    let wall = start.elapsed().as_secs_f64();
    procs::cleanup();

    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let evdir = format!("{}/evidence", dir);
    let _ = std::fs::create_dir_all(format!("{}/replay", evdir));

    let cov = &out.cov;
    let ev = cov.counters.get(check.evaluations).copied().unwrap_or(0);
    let mut missing: Vec<&str> = check
        .needs
        .iter()
        .filter(|k| cov.counters.get(**k).copied().unwrap_or(0) == 0)
        .copied()
        .collect();
    if ev == 0 {
        missing.push(check.evaluations);
    }

    let mut j = String::new();
    j.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
        json_str(check.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        json_str(check.level)
    ));
    j.push_str(&format!("  \"evaluations\": {},\n", ev));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", cov.sigs.len()));
    j.push_str(&format!("  \"rule\": {},\n", json_str(check.rule)));
    j.push_str(&format!("  \"executions\": {},\n", out.cases));
    j.push_str("  \"observed\": {");
    j.push_str(
        &cov.counters
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    j.push_str("},\n  \"other_properties\": {");
    j.push_str(
        &cov.foreign
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    j.push_str("},\n  \"samples\": [");
    j.push_str(&cov.samples.iter().take(6).map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j.push_str("]\n },\n \"assumptions\": [");
    j.push_str(&check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let violated = matches!(out.verdict, Verdict::Violated { .. });
    j.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violated as u32));
    if let Err(e) = std::fs::write(format!("{}/{}.json", evdir, check.id), j) {
        eprintln!("HARNESS ERROR cannot write evidence: {}", e);
        std::process::exit(3);
    }

    println!(
        "{}: {} executions, {} evaluations, {} distinct, {:.1} s",
        check.id,
        out.cases,
        ev,
        cov.sigs.len(),
        wall
    );
    match out.verdict {
        Verdict::Violated { case, text } => {
            let path = format!("{}/replay/{}-{}.txt", evdir, check.id, case);
            let _ = std::fs::write(
                &path,
                format!(
                    "property {}\nreplay: VERIF_SEED={} VERIF_TIER={} {}/check.sh {} --case {}\n\n{}\n",
                    check.id,
                    seed,
                    if thorough { "thorough" } else { "quick" },
                    dir,
                    check.id,
                    case,
                    text
                ),
            );
            // The whole text is in the replay file.
            println!("{}", text.lines().take(60).map(|l| l.chars().take(1000).map(|c| if c == '\t' || (' '..='~').contains(&c) { c } else { '?' }).collect::<String>()).collect::<Vec<_>>().join("\n"));
            println!("VIOLATION property={} replay={}", check.id, path);
            std::process::exit(1);
        }
        Verdict::Harness(e) => {
            eprintln!("HARNESS ERROR {}", e);
            std::process::exit(3);
        }
        Verdict::Held if only.is_none() && !missing.is_empty() => {
            eprintln!("INCONCLUSIVE: nothing observed for {:?}", missing);
            std::process::exit(4);
        }
        Verdict::Held => std::process::exit(0),
    }
}
