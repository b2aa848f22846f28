//! Deterministic simulation of reqtrace.
mod checks;
mod engine;
mod model;
mod project;
mod reports;
mod rng;
mod shrink;
mod world;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_owned());
    let verif = PathBuf::from(env("VSIM_VERIF", "/verif"));
    let tier = env("VERIF_TIER", "quick");
    let mut o = engine::Options {
        property: args.get(1).cloned().unwrap_or_default(),
        tier: if tier == "thorough" { tier } else { "quick".to_owned() },
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        runs: 0,
        workers: env("VSIM_WORKERS", "0").parse().unwrap_or(0),
        wall: env("VSIM_WALL", "720").parse().unwrap_or(720),
        binary: PathBuf::from(env("VSIM_BINARY", "/verif/build/repo/release/reqtrace")),
        lib: PathBuf::from(env("VSIM_LIB", "/verif/build/libsim.so")),
        verif,
    };
    if o.workers == 0 {
        o.workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    }
    if let Some(c) = checks::by_id(&o.property) {
        o.runs = if o.tier == "thorough" { c.quick * 100 } else { c.quick };
    }
    if let Ok(n) = std::env::var("VSIM_RUNS") {
        o.runs = n.parse().unwrap_or(o.runs);
    }
    let code = match args.first().map(String::as_str) {
        Some("check") => engine::check(&o),
        Some("replay") => {
            let p = PathBuf::from(&o.property);
            engine::replay(&o, &p)
        }
        Some("dump") => {
            let i = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            engine::dump(&o, i);
            0
        }
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vsim check ID | replay FILE | dump ID INDEX | list");
            3
        }
    };
    std::process::exit(code);
}
