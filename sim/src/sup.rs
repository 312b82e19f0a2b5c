//! Supervisor: worker processes, watchdog, confirmation of failures in fresh
//! processes, minimisation, replay files and evidence.
use crate::rng::HashSet;
use std::collections::BTreeMap;
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::run::{seed_of, FLAVORS};
use crate::spec::{generate, Spec};

const WORKERS: u64 = 8;
/// A run that makes no progress for this long is looked at.
const STALL: Duration = Duration::from_secs(90);

/// (runs quick, runs thorough) and the wall-clock caps of the search.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C11" => 12_000,
        "C05" | "C06" => 16_000,
        _ => 36_000,
    };
    if tier == "thorough" {
        (quick * 60, 780)
    } else {
        (quick, 40)
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(d)
}

fn me() -> PathBuf {
    std::env::current_exe().expect("own path")
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// None: finished without a violation
    pub viol: Option<(String, String)>,
    pub hash: String,
    /// the harness itself failed
    pub broken: Option<String>,
}

/// Runs the simulator once in a fresh process.
fn spawn_wait(args: &[String], limit: Duration) -> (Option<std::process::ExitStatus>, String, String) {
    let mut ch = Command::new(me())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let (so, se) = readers(&mut ch);
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
    };
    (st, so.join().unwrap(), se.join().unwrap())
}

type Reader = std::thread::JoinHandle<String>;
fn readers(ch: &mut Child) -> (Reader, Reader) {
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    (
        std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = so.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        }),
        std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = se.read_to_end(&mut b);
            let s = String::from_utf8_lossy(&b).into_owned();
            s.chars().take(4000).collect()
        }),
    )
}

fn judge(st: Option<std::process::ExitStatus>, so: &str, se: &str) -> Outcome {
    use std::os::unix::process::ExitStatusExt;
    let hash = so.lines().find(|l| l.starts_with("HASH\t")).map(|l| l[5..].replace('\t', " ")).unwrap_or_default();
    let ok = |viol, broken| Outcome { viol, hash: hash.clone(), broken };
    if let Some(l) = so.lines().find(|l| l.starts_with("VIOL\t")) {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        return ok(Some((f[2].to_string(), f[3].to_string())), None);
    }
    let tail: String = se.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
    match st {
        None => ok(Some(("hang".into(), "the run did not end".into())), None),
        Some(s) if s.code() == Some(0) => ok(None, None),
        Some(s) => match s.signal() {
            // The sandbox ends big processes; that says nothing about the code.
            Some(9) => ok(None, Some("process was killed".into())),
            Some(n) => ok(Some(("crash".into(), format!("the process died of signal {n}: {tail}"))), None),
            None => ok(None, Some(format!("exit code {:?}: {tail}", s.code()))),
        },
    }
}

fn run_file(path: &Path, limit: u64) -> Outcome {
    let (st, so, se) = spawn_wait(&["replay".into(), path.display().to_string(), "--hash".into()], Duration::from_secs(limit));
    judge(st, &so, &se)
}

struct Known {
    prop: String,
    kind: String,
    needle: String,
    text: String,
}

/// Lines `known: property=<id> kind=<kind> match=<text> :: <description>`.
fn known_findings(root: &Path, prop: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
            let f = |k: &str| head.split_once(k).map(|x| x.1);
            let p = f("property=").and_then(|x| x.split(' ').next()).unwrap_or("");
            let kind = f("kind=").and_then(|x| x.split(' ').next()).unwrap_or("");
            let needle = f("match=").unwrap_or("");
            if p == prop && !needle.is_empty() {
                v.push(Known { prop: p.into(), kind: kind.into(), needle: needle.into(), text: text.into() });
            }
        }
    }
    v
}

enum Found {
    /// run index, kind, message
    Viol(u64, String, String),
    Broken(String),
}

struct Batch {
    stats: BTreeMap<String, u64>,
    hashes: Vec<(u64, u64, u64)>,
    shapes: HashSet<u64>,
    known: Vec<String>,
    found: Option<(u64, Found)>,
}

struct W {
    ch: Child,
    so: Option<Reader>,
    se: Option<Reader>,
    start: u64,
    left: u64,
    prog: PathBuf,
    dump: PathBuf,
    last: u64,
    since: Instant,
    done: bool,
}

fn progress(p: &Path) -> u64 {
    fs::read(p).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0)
}

fn batch(prop: &str, base: u64, count: u64, secs: u64, tmp: &Path, known: &[Known]) -> Batch {
    let t0 = Instant::now();
    let mut b = Batch { stats: BTreeMap::new(), hashes: Vec::new(), shapes: HashSet::default(), known: Vec::new(), found: None };
    let serial = AtomicUsize::new(0);
    let start = |from: u64, left: u64| -> W {
        let n = serial.fetch_add(1, Ordering::Relaxed);
        let prog = tmp.join(format!("progress-{n}"));
        let dump = tmp.join(format!("dump-{n}"));
        let spent = t0.elapsed().as_secs();
        let mut ch = Command::new(me())
            .args(["worker", prop])
            .args([base, from, WORKERS, left, secs.saturating_sub(spent)].map(|x| x.to_string()))
            .arg(&prog)
            .arg(&dump)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let (so, se) = readers(&mut ch);
        W { ch, so: Some(so), se: Some(se), start: from, left, prog, dump, last: 0, since: Instant::now(), done: false }
    };
    let mut ws: Vec<W> = (0..WORKERS).map(|w| start(w, count.div_ceil(WORKERS))).collect();
    let mut restarts = 0;
    loop {
        let mut live = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let mut stalled = false;
            let st = match w.ch.try_wait() {
                Ok(Some(st)) => Some(st),
                _ => {
                    let p = progress(&w.prog);
                    if p != w.last {
                        w.last = p;
                        w.since = Instant::now();
                    }
                    if w.since.elapsed() > STALL {
                        stalled = true;
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        None
                    } else {
                        live = true;
                        continue;
                    }
                }
            };
            w.done = true;
            let so = w.so.take().unwrap().join().unwrap();
            let se = w.se.take().unwrap().join().unwrap();
            for l in so.lines().filter(|l| l.starts_with("STAT\t")) {
                let f: Vec<&str> = l.split('\t').collect();
                let v: u64 = f[2].parse().unwrap_or(0);
                let e = b.stats.entry(f[1].to_string()).or_insert(0);
                if f[1].starts_with("max.") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
            if let Ok(d) = fs::read(&w.dump) {
                let x: Vec<u64> = d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                if let Some(n) = x.first().map(|n| *n as usize) {
                    for c in x[1..1 + 3 * n].chunks_exact(3) {
                        b.hashes.push((c[0], c[1], c[2]));
                    }
                    b.shapes.extend(&x[1 + 3 * n..]);
                }
            }
            let p = progress(&w.prog).max(1) - 1;
            let idx = w.start + p * WORKERS;
            let o = if stalled {
                Outcome { viol: Some(("hang".into(), "the run did not end".into())), hash: String::new(), broken: None }
            } else {
                judge(st, &so, &se)
            };
            if let Some((kind, msg)) = o.viol {
                if let Some(k) = known.iter().find(|k| k.kind == kind && msg.contains(&k.needle)) {
                    let line = format!("KNOWN-FINDING: property={} {}", k.prop, k.text);
                    if !b.known.contains(&line) {
                        b.known.push(line);
                    }
                    restarts += 1;
                    if restarts < 2000 && w.left > p + 1 {
                        *w = start(idx + WORKERS, w.left - p - 1);
                        live = true;
                    }
                    continue;
                }
                if b.found.as_ref().map_or(true, |f| idx < f.0) {
                    b.found = Some((idx, Found::Viol(idx, kind, msg)));
                }
            } else if let Some(m) = o.broken {
                if b.found.is_none() {
                    b.found = Some((u64::MAX, Found::Broken(format!("run {idx} (seed {}): {m}", seed_of(base, idx)))));
                }
            }
        }
        if !live || b.found.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut().filter(|w| !w.done) {
        let _ = w.ch.kill();
        let _ = w.ch.wait();
        w.done = true;
    }
    b
}

/// Turns a failing run into a confirmed, minimised replay file. None when a
/// fresh process does not reproduce it.
fn confirm(prop: &str, base: u64, idx: u64, kind: &str, tmp: &Path, out: &Path) -> Option<(PathBuf, String, String)> {
    let seed = seed_of(base, idx);
    let rec = tmp.join("recorded");
    let (st, so, se) =
        spawn_wait(&["run-seed".into(), prop.into(), seed.to_string(), rec.display().to_string()], Duration::from_secs(120));
    let o = judge(st, &so, &se);
    let dest = out.join(format!("{prop}-{seed}.replay"));
    if let Some((k, m)) = &o.viol {
        let seeded = k == "crash" || !rec.exists();
        let spec = if seeded {
            generate(prop, seed)
        } else {
            match Spec::parse(&fs::read_to_string(&rec).unwrap_or_default()) {
                Ok((s, _)) => s,
                Err(_) => generate(prop, seed),
            }
        };
        let limit = if k == "hang" { 20 } else { 120 };
        let (best, n) = minimise(spec, k, tmp, limit);
        let text = best.text(best.sched.is_none());
        fs::write(&dest, &text).ok()?;
        let f = run_file(&dest, limit);
        let (fk, fm) = f.viol.unwrap_or((k.clone(), m.clone()));
        let tail = format!("# violation {fk}: {fm}\nexpect kind={fk} hash={}\n", f.hash.replace(' ', ","));
        fs::write(&dest, text + &tail).ok()?;
        eprintln!("minimised with {n} replays: {} operations, {} hand-overs", best.ops.len(), best.sched.as_ref().map_or(0, |s| s.len()));
        return Some((dest, fk, fm));
    }
    // Maybe it needs the runs before it in the same process.
    let w = idx % WORKERS;
    let text = format!("# rusty-rtree simulation replay: a series of runs in one process\nseries {prop} {base} {w} {WORKERS} {}\nexpect kind={kind}\n", idx / WORKERS);
    fs::write(&dest, text).ok()?;
    for _ in 0..2 {
        if let Some((k, m)) = run_file(&dest, 300).viol {
            return Some((dest, k, m));
        }
    }
    let _ = fs::remove_file(&dest);
    None
}

struct Shrink<'a> {
    kind: &'a str,
    tmp: &'a Path,
    limit: u64,
    tries: usize,
    until: Instant,
}

impl Shrink<'_> {
    /// First candidate (in order) that still fails the same way.
    fn first(&mut self, cands: Vec<Spec>) -> Option<Spec> {
        let mut it = cands.into_iter();
        loop {
            let group: Vec<Spec> = it.by_ref().take(8).collect();
            if group.is_empty() || Instant::now() > self.until {
                return None;
            }
            self.tries += group.len();
            let hit: Mutex<Vec<bool>> = Mutex::new(vec![false; group.len()]);
            std::thread::scope(|s| {
                for (i, c) in group.iter().enumerate() {
                    let hit = &hit;
                    let me = &*self;
                    s.spawn(move || {
                        let p = me.tmp.join(format!("cand-{i}"));
                        if fs::write(&p, c.text(c.sched.is_none())).is_ok() {
                            let o = run_file(&p, me.limit);
                            if o.viol.is_some_and(|v| v.0 == me.kind) {
                                hit.lock().unwrap()[i] = true;
                            }
                        }
                    });
                }
            });
            let h = hit.into_inner().unwrap();
            if let Some(i) = h.iter().position(|x| *x) {
                return group.into_iter().nth(i);
            }
        }
    }
}

fn minimise(spec: Spec, kind: &str, tmp: &Path, limit: u64) -> (Spec, usize) {
    let mut sh = Shrink { kind, tmp, limit, tries: 0, until: Instant::now() + Duration::from_secs(40) };
    let mut best = spec;
    // One task, no preemption.
    if best.cfg.ntasks > 1 {
        let mut c = best.clone();
        c.cfg.ntasks = 1;
        c.sched = Some(vec![]);
        let mut d = best.clone();
        d.sched = Some(vec![]);
        if let Some(x) = sh.first(vec![c, d]) {
            best = x;
        }
    }
    // Operations, in shrinking chunks; whatever is after the failure goes first.
    let mut chunk = best.ops.len().div_ceil(2).max(1);
    loop {
        let mut any = false;
        loop {
            let n = best.ops.len();
            let mut cands = Vec::new();
            let mut i = n;
            while i > 0 {
                let lo = i.saturating_sub(chunk);
                let mut c = best.clone();
                c.ops.drain(lo..i);
                if !c.ops.is_empty() {
                    cands.push(c);
                }
                i = lo;
            }
            match sh.first(cands) {
                Some(x) => {
                    best = x;
                    any = true;
                }
                None => break,
            }
        }
        if chunk == 1 {
            if !any {
                break;
            }
        } else {
            chunk = chunk.div_ceil(2);
            continue;
        }
        if Instant::now() > sh.until {
            break;
        }
    }
    // Hand-overs.
    if best.sched.as_ref().is_some_and(|s| !s.is_empty()) {
        let mut chunk = best.sched.as_ref().unwrap().len().div_ceil(2).max(1);
        loop {
            loop {
                let n = best.sched.as_ref().unwrap().len();
                let mut cands = Vec::new();
                let mut i = n;
                while i > 0 {
                    let lo = i.saturating_sub(chunk);
                    let mut c = best.clone();
                    c.sched.as_mut().unwrap().drain(lo..i);
                    cands.push(c);
                    i = lo;
                }
                match sh.first(cands) {
                    Some(x) => best = x,
                    None => break,
                }
            }
            if chunk == 1 || Instant::now() > sh.until {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    // Arguments and faults.
    for round in 0..2 {
        let mut changed = false;
        for i in 0..best.ops.len() {
            if Instant::now() > sh.until {
                break;
            }
            let o = &best.ops[i];
            let mut cands = Vec::new();
            let mut with = |f: &dyn Fn(&mut crate::spec::Op)| {
                let mut c = best.clone();
                f(&mut c.ops[i]);
                cands.push(c);
            };
            if o.fk != 0 {
                with(&|o| o.fk = 0);
                if o.fnth < 0 {
                    with(&|o| o.fnth = 1);
                    with(&|o| o.fnth = -1);
                    with(&|o| o.fnth /= 2);
                }
                if o.fnth > 1 {
                    with(&|o| o.fnth = 1);
                    with(&|o| o.fnth = o.fnth / 2);
                    with(&|o| o.fnth -= 1);
                }
            }
            if o.n > 1 && o.n < 100_000 {
                with(&|o| o.n = 1);
                with(&|o| o.n = o.n / 2);
                with(&|o| o.n -= 1);
            }
            if matches!(o.k, crate::spec::K::Session) && o.sel > 1 {
                with(&|o| o.sel /= 2);
                with(&|o| o.sel -= 1);
            }
            if round == 0 && o.c.iter().any(|x| *x != 0) {
                with(&|o| o.c = [0; 8]);
                with(&|o| o.c.iter_mut().for_each(|x| *x /= 2));
            }
            if let Some(x) = sh.first(cands) {
                best = x;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    (best, sh.tries)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn group(stats: &BTreeMap<String, u64>, prefix: &str) -> String {
    let v: Vec<String> =
        stats.iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| format!("\"{}\": {v}", esc(k)))).collect();
    format!("{{{}}}", v.join(", "))
}

/// check PROP [TIER]
pub fn check(a: &[&str]) -> i32 {
    let t0 = Instant::now();
    let prop = a[0];
    let tier = a.get(1).map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = env_u64("VERIF_SEED", 1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let out = root.join("out");
    let tmp = out.join(format!("tmp-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&tmp).expect("out directory");
    let (mut count, mut secs) = budget(prop, tier);
    count = env_u64("SIM_RUNS", count);
    secs = env_u64("SIM_SECS", secs);
    println!("seed {seed}: property {prop}, {tier}: up to {count} simulated runs, {secs} s, {WORKERS} processes");
    let known = known_findings(&root, prop);
    let mut b = batch(prop, seed, count, secs, &tmp, &known);
    for k in &b.known {
        println!("{k}");
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    match b.found.take() {
        None => {}
        Some((_, Found::Broken(m))) => {
            eprintln!("HARNESS ERROR: {m}");
            code = 3;
        }
        Some((_, Found::Viol(idx, kind, msg))) => {
            println!("run {idx}: {kind}: {msg}");
            match confirm(prop, seed, idx, &kind, &tmp, &out) {
                Some((path, kind, msg)) => {
                    println!("{kind}: {msg}");
                    println!("VIOLATION property={prop} replay={}", path.display());
                    violations = 1;
                    code = 1;
                }
                None => {
                    eprintln!("HARNESS ERROR: run {idx} ({kind}: {msg}) does not reproduce");
                    code = 3;
                }
            }
        }
    }
    // Determinism: a sample again, in a fresh process and in another order.
    let (mut rechecked, mut mismatched) = (0u64, 0u64);
    if code == 0 {
        let n = b.hashes.len() as u64;
        let k = 64.min(n);
        if k > 0 {
            let map: BTreeMap<u64, (u64, u64)> = b.hashes.iter().map(|h| (h.0, (h.1, h.2))).collect();
            let step = (n / k).max(1) | 1;
            let (_, so, _) = spawn_wait(
                &["hash".to_string(), prop.to_string(), seed.to_string(), "0".to_string(), step.to_string(), k.to_string()],
                Duration::from_secs(60),
            );
            for l in so.lines() {
                let f: Vec<&str> = l.split(' ').collect();
                if f.len() == 3 {
                    if let (Ok(i), Ok(h), Ok(e)) = (f[0].parse::<u64>(), u64::from_str_radix(f[1], 16), f[2].parse::<u64>()) {
                        if let Some(x) = map.get(&i) {
                            rechecked += 1;
                            if *x != (h, e) {
                                mismatched += 1;
                            }
                        }
                    }
                }
            }
            if mismatched > 0 {
                eprintln!("WARNING: {mismatched} of {rechecked} re-executed runs differ from the first execution");
            }
        }
    }
    let _ = fs::remove_dir_all(&tmp);
    evidence(prop, tier, seed, &root, &b, t0.elapsed().as_secs_f64(), search_s, violations, rechecked, mismatched);
    if code == 0 {
        println!(
            "property {prop}: no violation in {} runs ({:.1} s)",
            b.stats.get("runs").copied().unwrap_or(0),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    root: &Path,
    b: &Batch,
    wall: f64,
    search: f64,
    violations: u64,
    rechecked: u64,
    mismatched: u64,
) {
    let st = |k: &str| b.stats.get(k).copied().unwrap_or(0);
    let distinct: HashSet<u64> = b.hashes.iter().filter(|h| h.2 > 200).map(|h| h.1).collect();
    let runs = b.hashes.len() as u64;
    let events: u64 = b.hashes.iter().map(|h| h.2).sum();
    let hours = (search / 3600.0).max(1e-9);
    let mut samples = Vec::new();
    for i in 0..2 {
        let s = generate(prop, seed_of(seed, i));
        let mut t = s.text(true);
        if t.len() > 2500 {
            t.truncate(2500);
            t.push_str(" ...");
        }
        samples.push(format!("\"run {i}: {}\"", esc(&t)));
    }
    let switches: u64 = b.stats.iter().filter(|(k, _)| k.starts_with("switch.")).map(|x| x.1).sum();
    let j = format!(
        r#"{{
 "property": "{prop}",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {},
  "rule": "One evaluation is one simulated run: a configuration, per-task operation scripts, a schedule and faults drawn from one seed. A run counts as distinct and non-trivial when it recorded more than 200 events (callbacks, yielded entries, checks, hand-overs, faults) and no other run has the same hash over its whole event sequence.",
  "samples": [{}],
  "runs_per_hour": {},
  "seeds_per_hour": {},
  "simulated_time": "the code has no clock; simulated time is counted in events and scheduling points",
  "events": {events},
  "scheduling_points": {},
  "hand_overs": {switches},
  "hand_overs_by_site": {},
  "multi_task_runs": {},
  "faults_injected": {},
  "interrupted_reads": {},
  "interrupted_writes": {},
  "trees_checked_after_interruption": {},
  "operations": {},
  "cursors_opened": {},
  "cursors_run_to_the_end": {},
  "entries_yielded": {},
  "callback_sites_reached": {},
  "content_checks_against_model": {},
  "distinct_tree_shapes": {},
  "tallest_tree": {},
  "largest_tree": {},
  "reentrant_reads": {},
  "cursors_consumed_at_once": {},
  "faults_placed_by_rehearsal": {},
  "memory_accesses_checked_for_races": {},
  "atomic_accesses_by_the_library": {},
  "held_mutable_references": {},
  "twin_histories": {},
  "unreadable_debug_outputs": {},
  "panics_on_interrupted_trees": {},
  "runs_with_mismatch_of_another_property": {},
  "key_flavours": {},
  "runs_reexecuted_for_determinism": {rechecked},
  "reexecutions_that_differed": {mismatched},
  "real_components": ["all of /repo/src, rebuilt from the working tree with basic-block instrumentation", "the crate's own bounds, filters, rankings and geometry behind the callbacks"],
  "simulated_components": ["thread scheduling", "reader/writer locks between callers", "memory allocator and allocation error handler", "callbacks of keys, values, bounds, filters, rankings (instrumented, delegating)"]
 }},
 "assumptions": ["sampled, not enumerated", "faults in modifications are limited to C07 (clones), C09 and C12", "caller threads are serialised: hardware memory reordering is not simulated"],
 "wall_s": {wall:.2},
 "violations": {violations}
}}
"#,
        distinct.len(),
        samples.join(", "),
        (runs as f64 / hours) as u64,
        (runs as f64 / hours) as u64,
        st("points"),
        group(&b.stats, "switch."),
        st("multi_task_runs"),
        group(&b.stats, "fault."),
        st("interrupted_reads"),
        st("interrupted_writes"),
        st("degraded_trees"),
        group(&b.stats, "op."),
        group(&b.stats, "cursor."),
        st("cursors_completed"),
        st("items"),
        group(&b.stats, "site."),
        st("content_checks"),
        b.shapes.len(),
        st("max.height"),
        st("max.entries"),
        st("reentrant_reads"),
        st("cursors.consumed_at_once"),
        st("faults.rehearsed"),
        st("race.plain"),
        st("race.atomic"),
        st("held_refs"),
        st("twin_histories"),
        st("unreadable_debug"),
        st("degraded_panics"),
        st("runs_with_other_property_mismatch"),
        group(&b.stats, "flavor."),
    );
    let dir = root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{prop}.json")), j).expect("evidence file");
    let _ = FLAVORS;
}

/// selftest [RUNS]: every property's runs twice, in different process
/// groupings; the event sequences must be identical.
pub fn selftest(a: &[&str]) -> i32 {
    let runs: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let mut bad = 0;
    for p in 1..=14 {
        let prop = format!("C{p:02}");
        let jobs: Vec<(u64, u64)> = vec![(1, 0), (3, 0), (3, 1), (3, 2), (7, 0), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6)];
        let res: Vec<(u64, String)> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|(step, off)| {
                    let prop = &prop;
                    s.spawn(move || {
                        let n = (runs - off).div_ceil(*step);
                        let args = ["hash".into(), prop.clone(), "77".into(), off.to_string(), step.to_string(), n.to_string()];
                        let (st, so, se) = spawn_wait(&args, Duration::from_secs(600));
                        if st.map_or(true, |s| !s.success()) {
                            eprintln!("{prop}: {st:?} {} {se}", so.lines().last().unwrap_or(""));
                        }
                        (*step, so)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut by: BTreeMap<u64, HashSet<String>> = BTreeMap::new();
        for (_, so) in &res {
            for l in so.lines() {
                if let Some((i, r)) = l.split_once(' ') {
                    if let Ok(i) = i.parse() {
                        by.entry(i).or_default().insert(r.to_string());
                    }
                }
            }
        }
        let diff = by.values().filter(|s| s.len() > 1).count();
        println!("{prop}: {} runs executed 3 times each in processes of 1, 3 and 7 strides: {diff} differ", by.len());
        bad += diff;
    }
    (bad > 0) as i32
}
