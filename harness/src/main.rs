//! Drives the real library and records what it does, one JSON object per call.
mod model;
mod profiles;
mod sweeps;
mod util;

use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: driver PROFILE OUTDIR [SCENARIOS]");
        std::process::exit(2);
    }
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let cfg = util::Cfg {
        out: args[2].clone(),
        shards: env("SHARDS", "8").parse().expect("SHARDS"),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        thorough: env("VERIF_TIER", "quick") == "thorough",
        threads: if std::env::var("CAREFUL").is_ok() { 1 } else { env("THREADS", "8").parse().expect("THREADS") },
    };
    std::panic::set_hook(Box::new(|info| {
        // panics of the library are recorded; the driver's own end the run
        if !util::in_call() || std::env::var("LOUD").is_ok() {
            eprintln!("{info}");
        }
    }));
    util::watchdog(cfg.out.clone(), Duration::from_secs(env("HANG_S", "20").parse().expect("HANG_S")));
    let scen = args.get(3).map(|p| std::fs::read_to_string(p).expect("scenarios"));
    profiles::run(&args[1], &cfg, scen.as_deref());
}
