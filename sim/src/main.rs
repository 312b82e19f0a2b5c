#![feature(alloc_error_hook)]
//! Deterministic simulation of rusty-rtree with fault injection.
mod alloc;
mod cursor;
mod exec;
mod geo;
mod hooks;
mod plain;
mod probe;
mod report;
mod rng;
mod run;
mod sched;
mod spec;
mod structure;
mod sup;
mod types;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    hooks::install();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") => sup::check(&a[2..]),
        Some("worker") => run::worker(&a[2..]),
        Some("run-seed") => run::run_seed(&a[2..]),
        Some("replay") => run::replay(&a[2..]),
        Some("hash") => run::hash(&a[2..]),
        Some("selftest") => sup::selftest(&a[2..]),
        _ => {
            eprintln!("usage: rtree-sim check PROP TIER | replay FILE | run-seed PROP SEED [OUT] | selftest");
            3
        }
    };
    std::process::exit(code);
}
