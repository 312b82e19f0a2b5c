//! Single runs: from a seed, from a replay file, and long series of them in a
//! worker process.
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::Instant;

use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::SAABB;
use rusty_rtree::vector::SVec;

use crate::exec::{cov, run_world, RunOut};
use crate::geo::{BoxFl, LineFl, PtFl};
use crate::plain::{run_plain, GenKey, GenVal, NoKey, NoVal, WideKey, WideVal};
use crate::hooks::{SITE_NAMES, STATS};
use crate::report::CTX;
use crate::rng::mix;
use crate::spec::{generate, Spec, KINDS};

pub fn dispatch(spec: &Spec) -> RunOut {
    match spec.cfg.flavor {
        0 => run_world::<BoxFl<i32, 2>>(spec),
        1 => run_world::<PtFl<i32, 2>>(spec),
        2 => run_world::<PtFl<N64, 3>>(spec),
        3 => run_world::<BoxFl<N64, 1>>(spec),
        4 => run_world::<LineFl<N64, 2>>(spec),
        5 => run_world::<BoxFl<N32, 3>>(spec),
        6 => run_plain::<NoKey, NoVal>(spec),
        7 => run_plain::<WideKey, WideVal>(spec),
        8 => run_plain::<SVec<u8, 2>, u16>(spec),
        9 => run_plain::<NoKey, WideVal>(spec),
        10 => run_plain::<GenKey, GenVal>(spec),
        11 => run_plain::<SAABB<i32, 2>, ()>(spec),
        12 => run_plain::<SVec<u32, 2>, u16>(spec),
        _ => run_plain::<SAABB<N64, 2>, u16>(spec),
    }
}
pub const FLAVORS: [&str; 14] = [
    "boxes i32 2-d",
    "points i32 2-d",
    "points f64 3-d",
    "boxes f64 1-d",
    "lines f64 2-d",
    "boxes f32 3-d",
    "nothing to store",
    "over-aligned keys and values",
    "byte points",
    "no key, over-aligned values",
    "entries without destructor",
    "wide boxes, no value",
    "wide unsigned points",
    "boxes of floats of every magnitude",
];

/// Seed of run i of a batch.
pub fn seed_of(base: u64, i: u64) -> u64 {
    mix(mix(base).wrapping_add(i)) >> 8
}

pub fn one(prop: &str, seed: u64, record: Option<String>) -> RunOut {
    let spec = generate(prop, seed);
    let c = CTX.get();
    c.prop = prop.to_string();
    c.seed = seed;
    c.spec_text = if record.is_some() { spec.text(false) } else { String::new() };
    c.record = record;
    dispatch(&spec)
}

/// run-seed PROP SEED [OUT]
pub fn run_seed(a: &[&str]) -> i32 {
    let o = one(a[0], a[1].parse().unwrap(), a.get(2).map(|s| s.to_string()));
    println!("OK evhash={:016x} events={} foreign={}", o.evhash, o.events, o.foreign);
    0
}

/// hash PROP BASE START STEP COUNT: event hashes of a series of runs.
pub fn hash(a: &[&str]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    for i in 0..n(4) {
        let k = n(2) + i * n(3);
        let o = one(a[0], seed_of(n(1), k), None);
        println!("{k} {:016x} {}", o.evhash, o.events);
    }
    0
}

/// replay FILE [--record OUT]: exit 10 when it violates.
pub fn replay(a: &[&str]) -> i32 {
    let text = match std::fs::read_to_string(a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", a[0]);
            return 3;
        }
    };
    if let Some(l) = text.lines().find(|l| l.starts_with("series ")) {
        // A failure that needs the runs before it in the same process.
        let f: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| f[i].parse::<u64>().unwrap();
        for i in 0..=n(5) {
            one(f[1], seed_of(n(2), n(3) + i * n(4)), None);
        }
        println!("OK series finished");
        return 0;
    }
    let (spec, expect) = match Spec::parse(&text) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {e}", a[0]);
            return 3;
        }
    };
    let c = CTX.get();
    c.prop = spec.cfg.prop.clone();
    c.seed = spec.cfg.seed;
    c.spec_text = Spec { sched: None, ..spec.clone() }.text(false);
    c.record = if a.get(1) == Some(&"--record") { a.get(2).map(|s| s.to_string()) } else { None };
    c.verbose = a.contains(&"--trace");
    if a.contains(&"--hash") {
        c.print_hash = true;
    }
    let o = dispatch(&spec);
    println!("OK evhash={:016x} events={} foreign={} expected={}", o.evhash, o.events, o.foreign, expect.unwrap_or_default());
    0
}

/// worker PROP BASE START STEP COUNT SECONDS PROGRESS DUMP
/// Keeps the tasks of this process on one processor: one runs at a time, and
/// hand-overs are cheaper there.
fn pin(k: usize) {
    extern "C" {
        fn sched_getaffinity(pid: i32, n: usize, set: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, n: usize, set: *const u64) -> i32;
    }
    let mut set = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, set.as_mut_ptr()) } < 0 {
        return;
    }
    let cpus: Vec<usize> = (0..1024).filter(|i| set[i / 64] >> (i % 64) & 1 == 1).collect();
    if cpus.len() < 2 {
        return;
    }
    let c = cpus[k % cpus.len()];
    let mut one = [0u64; 16];
    one[c / 64] = 1 << (c % 64);
    unsafe { sched_setaffinity(0, 128, one.as_ptr()) };
}

pub fn worker(a: &[&str]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (prop, base, start, step, count, secs) = (a[0], n(1), n(2), n(3), n(4), n(5));
    pin(start as usize);
    let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(a[6]).expect("progress file");
    let t0 = Instant::now();
    let mut hashes: Vec<(u64, u64, u64)> = Vec::new();
    let mut done = 0;
    for i in 0..count {
        if i % 8 == 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
        let _ = progress.write_at(&(i + 1).to_le_bytes(), 0);
        let k = start + i * step;
        let o = one(prop, seed_of(base, k), None);
        hashes.push((k, o.evhash, o.events));
        done += 1;
    }
    let mut b = Vec::new();
    b.extend_from_slice(&(hashes.len() as u64).to_le_bytes());
    for h in &hashes {
        for x in [h.0, h.1, h.2] {
            b.extend_from_slice(&x.to_le_bytes());
        }
    }
    let c = cov();
    for h in &c.shapes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(a[7], b).expect("dump file");
    let mut o = String::new();
    let mut p = |k: &str, v: u64| o.push_str(&format!("STAT\t{k}\t{v}\n"));
    let s = STATS.get();
    p("runs", done);
    p("multi_task_runs", c.multi_runs);
    for (i, k) in KINDS.iter().enumerate() {
        p(&format!("op.{k:?}"), c.ops[i]);
    }
    for (k, v) in &c.cursors {
        p(&format!("cursor.{}", k.replace(' ', "_")), *v);
    }
    for i in 0..SITE_NAMES.len() {
        if s.sites[i] > 0 {
            p(&format!("site.{}", SITE_NAMES[i]), s.sites[i]);
        }
        if s.switch_at[i] > 0 {
            p(&format!("switch.{}", SITE_NAMES[i]), s.switch_at[i]);
        }
        if s.fired[i] > 0 {
            let kind = if SITE_NAMES[i] == "alloc" { "alloc_failure".to_string() } else { format!("unwind_in_{}", SITE_NAMES[i]) };
            p(&format!("fault.{kind}"), s.fired[i]);
        }
    }
    p("points", s.points);
    p("items", c.items);
    p("cursors_completed", c.completed);
    p("fault.cursor_cancelled", c.cancelled);
    p("cursors.consumed_at_once", c.consumed);
    p("faults.rehearsed", c.rehearsed);
    let (plain, atomic) = crate::hooks::race::counts();
    p("race.plain", plain);
    p("race.atomic", atomic);
    p("fault.cursor_forgotten", c.forgotten);
    p("max.height", c.maxheight as u64);
    p("max.entries", c.maxlen as u64);
    p("degraded_trees", c.degraded);
    p("degraded_panics", c.degraded_panics);
    p("unreadable_debug", c.unreadable);
    p("interrupted_reads", c.read_faults);
    p("interrupted_writes", c.write_faults);
    p("reentrant_reads", c.reentrant);
    p("held_refs", c.held_refs);
    p("twin_histories", c.twins);
    p("clone_from_calls", c.clone_froms);
    p("lookups_judged", c.lookups);
    p("runs_cut_short", c.cut);
    p("content_checks", c.checks);
    p("runs_with_other_property_mismatch", c.foreign);
    for (i, f) in FLAVORS.iter().enumerate() {
        p(&format!("flavor.{f}"), c.flavors[i]);
    }
    p("micros", t0.elapsed().as_micros() as u64);
    p("done", 1);
    let mut so = std::io::stdout().lock();
    let _ = so.write_all(o.as_bytes());
    0
}
