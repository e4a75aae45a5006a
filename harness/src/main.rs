//! Runtime monitors for sile/prometrics.
//!
//! vmon run <ID|UB> --tier T --seed N --shard I/N --out FILE [--only WORKLOAD --case K] [--scale F] [--cap SECONDS] [--concurrent]
//! vmon child ...      (parts that need a process of their own)
//! vmon micro NAME     (scenarios of known findings)

#![allow(clippy::all)]

#[macro_use]
mod core;
mod alloc;
mod lin;
mod model;
mod promtext;
mod rng;
mod vclock;
mod w_builder;
mod w_counter;
mod w_gather;
mod w_gauge;
mod w_hist;
mod w_labels;
mod w_long;
mod w_misc;
mod w_process;
mod w_registry;
mod w_render;
mod w_summary;
mod w_time;
mod w_ub;
mod w_values;
mod w_world;

use crate::core::{guard, install_panic_hook, start_watchdog, while_unwinding, Run, Stats, R};
use std::process::ExitCode;
use std::time::Duration;

const ALL: [(&str, fn(&mut Run)); 32] = [
    ("C01", w_counter::c01),
    ("C02", w_counter::c02),
    ("C03", w_gauge::c03),
    ("C04", w_hist::c04),
    ("C05", w_hist::c05),
    ("C06", w_hist::c06),
    ("C07", w_summary::c07),
    ("C08", w_summary::c08),
    ("C09", w_summary::c09),
    ("C10", w_gather::c10),
    ("C11", w_gather::c11),
    ("C12", w_gather::c12),
    ("C13", w_gather::c13),
    ("C14", w_registry::c14),
    ("C15", w_registry::c15),
    ("C16", w_registry::c16),
    ("C17", w_labels::c17),
    ("C18", w_labels::c18),
    ("C19", w_labels::c19),
    ("C20", w_labels::c20),
    ("C22", w_time::c22),
    ("C23", w_gauge::c23),
    ("C24", w_time::c24),
    ("C25", w_process::c25),
    ("C26", w_builder::c26),
    ("C27", w_misc::c27),
    ("C28", w_misc::c28),
    ("C29", w_misc::c29),
    ("C30", w_values::c30),
    ("C31", w_values::c31),
    ("C32", w_render::c32),
    ("C33", w_world::c33),
];

fn child(args: &[String]) -> R<String> {
    let num = |i: usize| args.get(i).and_then(|a| a.parse::<u64>().ok()).unwrap_or(0);
    match args.first().map(|s| s.as_str()) {
        Some("default-registry") if num(1) % 8 == 0 => while_unwinding(|| w_registry::default_registry_child(num(1))),
        Some("default-registry") => w_registry::default_registry_child(num(1)),
        Some("process") => w_process::process_child(num(1)),
        Some("process-contended") => w_process::process_contended_child(num(1)),
        Some("process-exhausted") => w_process::process_exhausted_child(num(1)),
        Some("burn") => {
            w_process::burn(num(1) as f64 / 1000.0);
            Ok("burnt".into())
        }
        x => Err(format!("unknown child {:?}", x)),
    }
}

fn main() -> ExitCode {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {}
        Some("child") => {
            start_watchdog(String::new());
            return match guard(|| child(&args[1..])) {
                Ok(t) => {
                    println!("{}", t);
                    ExitCode::SUCCESS
                }
                Err(t) => {
                    println!("{}", t);
                    ExitCode::from(1)
                }
            };
        }
        Some("micro") => {
            println!("micro {:?}", w_ub::micro(&args[1]));
            return ExitCode::SUCCESS;
        }
        _ => {
            eprintln!("usage: vmon run|child|micro ...");
            return ExitCode::from(2);
        }
    }
    let id = args[1].clone();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let shard = opt("--shard").unwrap_or("0/1".into());
    let (i, n) = shard.split_once('/').unwrap_or(("0", "1"));
    let mut run = Run {
        id: id.clone(),
        thorough: opt("--tier").map_or(false, |t| t == "thorough"),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        shard: i.parse().unwrap_or(0),
        shards: n.parse().unwrap_or(1),
        only: opt("--only").map(|w| (w, opt("--case").and_then(|k| k.parse().ok()).unwrap_or(0))),
        stats: Stats::default(),
        out: opt("--out").unwrap_or("-".into()),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        cap: Duration::from_secs_f64(opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(3600.0)),
        budget: opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(1e9),
        started: crate::core::real_now(),
        tolerant: id == "UB",
        concurrent_only: args.iter().any(|a| a == "--concurrent"),
    };
    if cfg!(all(feature = "plain", not(miri))) && !vclock::works() {
        eprintln!("the clocks cannot be controlled");
        return ExitCode::from(2);
    }
    start_watchdog(run.out.clone());
    if id == "UB" {
        if !args.iter().any(|a| a == "--no-tour") {
            w_ub::tour(&mut run);
        }
        let picked: Option<Vec<String>> = opt("--parts").map(|p| p.split(',').map(|s| s.to_string()).collect());
        for (name, f) in ALL {
            if name == "C25" {
                continue; // (the kernel's side is no memory question; covered by the tour of the other checks)
            }
            if picked.as_ref().map_or(true, |p| p.iter().any(|x| x == name)) {
                f(&mut run);
            }
        }
    } else {
        match ALL.iter().find(|x| x.0 == id) {
            Some((_, f)) => {
                f(&mut run);
                w_long::more(&id, &mut run);
                w_world::more(&id, &mut run);
            }
            None => {
                eprintln!("unknown property {}", id);
                return ExitCode::from(2);
            }
        }
    }
    run.write();
    if run.stats.violations.is_empty() || run.tolerant {
        ExitCode::SUCCESS
    } else {
        ExitCode::from(1)
    }
}
