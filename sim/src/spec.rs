//! A run: configuration, per-task operation scripts and (for replays) the
//! schedule. Everything is derived from one seed or read from a replay file.
use crate::hooks::*;
use crate::rng::Rng;
use crate::sched::Sw;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub flavor: usize,
    pub ntasks: usize,
    /// (max_children, min_children) of each tree slot
    pub slots: Vec<(usize, usize)>,
    /// coordinates are drawn from 0..dom
    pub dom: i64,
    pub ext: i64,
    pub style: usize,
    pub loose: i64,
    pub mean: u64,
    pub bb: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum K {
    Insert,
    InsertUnique,
    Remove,
    Get,
    Bulk,
    BulkRemove,
    Mut,
    Session,
    CloneInto,
    Reset,
    Swap,
    Full,
    BadConfig,
}
pub const KINDS: [K; 13] = [
    K::Insert,
    K::InsertUnique,
    K::Remove,
    K::Get,
    K::Bulk,
    K::BulkRemove,
    K::Mut,
    K::Session,
    K::CloneInto,
    K::Reset,
    K::Swap,
    K::Full,
    K::BadConfig,
];

#[derive(Clone, Debug)]
pub struct Op {
    pub task: usize,
    pub k: K,
    pub slot: usize,
    pub slot2: usize,
    /// >= 0: pick an existing key by rank; -1: use the coordinates
    pub sel: i64,
    pub n: i64,
    pub sd: u64,
    pub c: [i64; 8],
    pub fk: u8,
    pub fmask: u64,
    /// the fault fires at this matching point of the op; negative: counted from
    /// the end of the op, as a rehearsal on a copy of the tree measures it
    pub fnth: i32,
}

impl Op {
    pub fn is_write(&self) -> bool {
        !matches!(self.k, K::Get | K::Session | K::Full | K::BadConfig)
    }
    pub fn text(&self) -> String {
        let mut s = format!(
            "op task={} kind={:?} slot={} slot2={} sel={} n={} sd={} c=",
            self.task, self.k, self.slot, self.slot2, self.sel, self.n, self.sd
        );
        s.push_str(&self.c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        if self.fk != FK_NONE {
            s.push_str(&format!(
                " fault={} sites={:x} nth={}",
                if self.fk == FK_PANIC { "unwind" } else { "alloc" },
                self.fmask,
                self.fnth
            ));
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    /// explicit hand-overs; None: drawn from the seed
    pub sched: Option<Vec<Sw>>,
}

impl Spec {
    pub fn text(&self, seeded: bool) -> String {
        let c = &self.cfg;
        let mut s = String::from("# rusty-rtree simulation replay\n");
        s.push_str(&format!(
            "config prop={} seed={} flavor={} ntasks={} dom={} ext={} style={} loose={} mean={} bb={} slots={} sched={}\n",
            c.prop,
            c.seed,
            c.flavor,
            c.ntasks,
            c.dom,
            c.ext,
            c.style,
            c.loose,
            c.mean,
            c.bb as u8,
            c.slots.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(","),
            if seeded { "seeded" } else { "explicit" }
        ));
        for o in &self.ops {
            s.push_str(&o.text());
            s.push('\n');
        }
        if !seeded {
            for w in self.sched.iter().flatten() {
                s.push_str(&format!("switch task={} point={} to={}\n", w.task, w.point, w.target));
            }
        }
        s
    }

    pub fn parse(t: &str) -> Result<(Spec, Option<String>), String> {
        let mut cfg = None;
        let mut seeded = false;
        let mut ops = Vec::new();
        let mut sw = Vec::new();
        let mut expect = None;
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let mut it = line.split_whitespace();
            let head = it.next().unwrap();
            let mut get = std::collections::BTreeMap::new();
            for kv in it {
                if let Some((k, v)) = kv.split_once('=') {
                    get.insert(k, v);
                }
            }
            let i = |k: &str| -> Result<i64, String> {
                get.get(k).ok_or(format!("missing {k}"))?.parse::<i64>().map_err(|e| format!("{k}: {e}"))
            };
            let u = |k: &str| -> Result<u64, String> {
                get.get(k).ok_or(format!("missing {k}"))?.parse::<u64>().map_err(|e| format!("{k}: {e}"))
            };
            match head {
                "config" => {
                    seeded = get.get("sched") == Some(&"seeded");
                    cfg = Some(Cfg {
                        prop: get.get("prop").ok_or("prop")?.to_string(),
                        seed: u("seed")?,
                        flavor: u("flavor")? as usize,
                        ntasks: u("ntasks")? as usize,
                        slots: get
                            .get("slots")
                            .ok_or("slots")?
                            .split(',')
                            .map(|s| {
                                let (a, b) = s.split_once(':').ok_or("slot")?;
                                Ok((a.parse().map_err(|_| "slot")?, b.parse().map_err(|_| "slot")?))
                            })
                            .collect::<Result<Vec<_>, String>>()?,
                        dom: i("dom")?,
                        ext: i("ext")?,
                        style: u("style")? as usize,
                        loose: i("loose")?,
                        mean: u("mean")?,
                        bb: u("bb")? != 0,
                    })
                }
                "op" => {
                    let kn = *get.get("kind").ok_or("kind")?;
                    let k = *KINDS.iter().find(|k| format!("{k:?}") == kn).ok_or("bad kind")?;
                    let mut c = [0i64; 8];
                    for (j, x) in get.get("c").ok_or("c")?.split(',').enumerate().take(8) {
                        c[j] = x.parse().map_err(|_| "coord")?;
                    }
                    let (mut fk, mut fmask, mut fnth) = (FK_NONE, 0, 0);
                    if let Some(f) = get.get("fault") {
                        fk = if *f == "unwind" { FK_PANIC } else { FK_ALLOC };
                        fmask = u64::from_str_radix(get.get("sites").unwrap_or(&"0"), 16).map_err(|_| "sites")?;
                        fnth = i("nth")? as i32;
                    }
                    ops.push(Op {
                        task: u("task")? as usize,
                        k,
                        slot: u("slot")? as usize,
                        slot2: u("slot2")? as usize,
                        sel: i("sel")?,
                        n: i("n")?,
                        sd: u("sd")?,
                        c,
                        fk,
                        fmask,
                        fnth,
                    });
                }
                "switch" => sw.push(Sw { task: u("task")? as u8, point: u("point")?, target: u("to")? as u8 }),
                "expect" => expect = get.get("kind").map(|s| s.to_string()),
                _ => return Err(format!("unknown line {head}")),
            }
        }
        let cfg = cfg.ok_or("no config line")?;
        Ok((Spec { cfg, ops, sched: if seeded { None } else { Some(sw) } }, expect))
    }
}

// ------------------------------------------------------------ generation

/// Coordinates in the style of the run.
pub fn gen_coords(r: &mut Rng, c: &Cfg, i: u64) -> [i64; 8] {
    let mut o = [0i64; 8];
    let dom = c.dom.max(1);
    let style = if c.style == 6 { r.us(6) } else { c.style };
    for d in 0..4 {
        o[d] = match style {
            // uniform
            0 => r.range(0, dom - 1),
            // few clusters
            1 => {
                let cl = r.below(3) as i64;
                (cl * dom / 3 + r.range(0, (dom / 12).max(1))).min(dom - 1)
            }
            // diagonal sweep
            2 => (i as i64 * dom / 50 + r.range(0, 2)) % dom,
            // very few distinct coordinates (many duplicates)
            3 => r.range(0, 3) * dom / 4,
            // flat in all but one dimension
            4 => {
                if d == 0 {
                    r.range(0, dom - 1)
                } else {
                    dom / 2
                }
            }
            // one point
            7 => dom / 2,
            // falling sweep
            _ => (dom - 1 - (i as i64 * dom / 40) % dom).max(0),
        };
        o[4 + d] = if c.ext == 0 || c.style == 7 || r.pct(25) {
            0
        } else if r.pct(6) {
            r.range(0, dom)
        } else {
            r.range(0, c.ext)
        };
    }
    o
}

/// Packs generated position and extent into the key's own coordinate order.
pub fn key_coords(o: &[i64; 8], d: usize) -> [i64; 8] {
    let mut k = [0; 8];
    for i in 0..d {
        k[i] = o[i];
        k[d + i] = o[4 + i];
    }
    k
}

const READ_SITES: u64 = (1 << Site::FTestB as u64)
    | (1 << Site::FTestK as u64)
    | (1 << Site::RankB as u64)
    | (1 << Site::RankK as u64)
    | (1 << Site::MetCmp as u64)
    | (1 << Site::JTestB as u64)
    | (1 << Site::JTestK as u64)
    | (1 << Site::JClone as u64)
    | (1 << Site::QBounds as u64)
    | (1 << Site::KeyEq as u64)
    | (1 << Site::KeyBounds as u64)
    | (1 << Site::BContains as u64);
const WRITE_SITES: u64 = (1 << Site::KeyBounds as u64)
    | (1 << Site::KeyEq as u64)
    | (1 << Site::Union as u64)
    | (1 << Site::UnionAll as u64)
    | (1 << Site::BContains as u64)
    | (1 << Site::BIntersects as u64)
    | (1 << Site::Volume as u64)
    | (1 << Site::BClone as u64)
    | (1 << Site::KClone as u64)
    | (1 << Site::VClone as u64)
    | (1 << Site::KDrop as u64)
    | (1 << Site::VDrop as u64)
    | (1 << Site::BDrop as u64)
    | (1 << Site::QBounds as u64);

const CLONE_SITES: u64 = (1 << Site::BClone as u64) | (1 << Site::KClone as u64) | (1 << Site::VClone as u64);

fn one_site(r: &mut Rng, mask: u64) -> u64 {
    if r.pct(35) {
        return mask;
    }
    let n = mask.count_ones() as u64;
    let mut k = r.below(n);
    for b in 0..64 {
        if (mask >> b) & 1 == 1 {
            if k == 0 {
                return 1 << b;
            }
            k -= 1;
        }
    }
    mask
}

struct Prof {
    /// weights in the order of KINDS
    w: [u32; 13],
    /// percent of ops with a fault: writers, readers
    fw: u64,
    fr: u64,
    alloc: bool,
    /// percent of runs with more than one task
    multi: u64,
    /// percent of runs with basic-block preemption
    bb: u64,
    big: u64,
}

fn profile(p: &str) -> Prof {
    //                     Ins InU Rem Get Blk BlR Mut Ses Cln Rst Swp Ful Bad
    let base = Prof { w: [20, 12, 20, 8, 6, 4, 2, 6, 2, 1, 1, 4, 0], fw: 0, fr: 3, alloc: false, multi: 50, bb: 30, big: 25 };
    match p {
        "C01" => Prof { w: [22, 20, 28, 14, 6, 5, 2, 2, 1, 1, 1, 3, 0], ..base },
        "C02" => Prof { w: [16, 6, 18, 1, 8, 5, 2, 16, 2, 2, 1, 10, 0], ..base },
        "C03" => Prof { w: [12, 5, 12, 1, 8, 4, 6, 34, 1, 1, 1, 1, 0], fr: 5, ..base },
        "C04" => Prof { w: [12, 5, 12, 1, 8, 4, 8, 34, 1, 1, 1, 1, 0], fr: 5, ..base },
        "C05" => Prof { w: [12, 5, 12, 1, 10, 4, 1, 34, 2, 2, 2, 1, 0], fr: 5, big: 15, ..base },
        "C06" => Prof { w: [12, 5, 12, 1, 10, 4, 1, 34, 2, 2, 2, 1, 0], fr: 8, big: 15, ..base },
        "C07" => Prof { w: [16, 8, 16, 2, 6, 4, 8, 8, 22, 2, 3, 4, 0], fr: 2, ..base },
        "C08" => Prof { w: [18, 12, 22, 1, 6, 5, 4, 14, 6, 6, 3, 2, 0], fr: 10, ..base },
        "C09" => Prof { w: [18, 12, 20, 3, 7, 5, 5, 14, 8, 10, 2, 3, 0], fw: 30, fr: 25, multi: 35, bb: 20, ..base },
        "C10" => Prof { w: [22, 12, 26, 0, 8, 6, 1, 1, 2, 2, 1, 12, 2], fr: 1, multi: 35, ..base },
        "C11" => Prof { w: [6, 3, 6, 14, 6, 2, 2, 44, 3, 1, 1, 4, 0], fr: 4, multi: 100, bb: 75, big: 15, ..base },
        "C12" => Prof { w: [18, 12, 16, 1, 7, 4, 5, 22, 8, 10, 2, 3, 0], fw: 30, fr: 40, alloc: true, multi: 35, bb: 20, ..base },
        "C13" => Prof { w: [12, 5, 12, 4, 8, 4, 14, 30, 1, 1, 1, 1, 0], fr: 2, multi: 35, ..base },
        "C14" => Prof { w: [14, 5, 12, 10, 8, 4, 36, 8, 2, 1, 1, 4, 0], fr: 6, ..base },
        _ => base,
    }
}

pub fn generate(prop: &str, seed: u64) -> Spec {
    let mut r = Rng::sub(seed, 1);
    let p = profile(prop);
    let mut flavor = r.weighted(&[30, 14, 14, 14, 14, 14]);
    // Plain types of unusual layout; see plain.rs.
    let plain = !matches!(prop, "C09" | "C10" | "C11" | "C12" | "C13") && r.pct(7);
    if plain {
        flavor = 6 + r.weighted(&[2, 3, 3, 1, 3, 2, 3, 3]);
    }
    let ntasks = if plain {
        1
    } else if r.pct(p.multi) { 2 + r.us(3) } else { 1 };
    let nslots = match prop {
        "C05" | "C06" | "C07" => 2 + r.us(2),
        _ => 1 + r.weighted(&[50, 35, 15]),
    };
    let pick_cfg = |r: &mut Rng| -> (usize, usize) {
        let max = if r.pct(15) { 2 + r.us(40) } else { *r.pick(&[2usize, 3, 4, 4, 4, 5, 6, 8, 9, 16, 32]) };
        let top = max / 2;
        let min = match r.below(4) {
            0 => 1,
            1 => top,
            _ => 1 + r.us(top),
        };
        (max, min.min(top).max(1))
    };
    let mut slots: Vec<_> = (0..nslots).map(|_| pick_cfg(&mut r)).collect();
    if plain && r.pct(40) {
        // Large nodes.
        for s in &mut slots {
            let max = if r.pct(25) { 33 + r.us(300) } else { *r.pick(&[64usize, 100, 255, 256, 257, 300]) };
            *s = (max, 1 + r.us(max / 2));
        }
        // Now and then, one node holds more entries than 16 bits can count.
        if r.pct(4) {
            slots[0] = (70_000, 1 + r.us(1000));
        }
    }
    // Trees of hundreds of levels: nodes of at most two children, and volumes
    // that are all zero, make a tree one level taller with each entry.
    let tall = Rng::sub(seed, 7).below(1000) < if matches!(prop, "C10" | "C11" | "C13") { 1 } else { 3 };
    if tall {
        slots[0] = (2, 1);
    }
    // Trees of large nodes.
    let mut rw = Rng::sub(seed, 9);
    let wide = !tall && !plain && rw.below(1000) < 6;
    if wide {
        let max = if rw.pct(30) { 42 + rw.us(260) } else { *rw.pick(&[64usize, 100, 128, 255, 256, 257, 300]) };
        slots[0] = (max, if rw.pct(50) { max / 2 } else { 1 + rw.us(max / 2) });
    }
    let first_bulk = match (tall, wide) {
        (true, _) => 257 + rw.below(40) as i64,
        (_, true) => (slots[0].0 + 1 + rw.us(slots[0].0)) as i64,
        _ => 0,
    };
    let dom = *r.pick(&[4i64, 8, 16, 40, 100, 390]);
    let ext = match r.below(4) {
        0 => 0,
        1 => 2,
        2 => dom / 8 + 1,
        _ => dom / 3 + 1,
    };
    let style = *r.pick(&[0usize, 0, 0, 1, 2, 3, 4, 5, 6, 6]);
    let style = if tall { 7 } else { style };
    let loose = if r.pct(15) { *r.pick(&[2i64, 5, 16]) } else { 0 };
    let bb = ntasks > 1 && r.pct(p.bb);
    let mean = if bb { *r.pick(&[5u64, 40, 300, 2000]) } else { *r.pick(&[2u64, 8, 40, 200]) };
    // Point-in-call preemption counts basic blocks as well, so soft-point
    // schedules need a larger distance.
    let mean = if bb { mean } else { mean * 30 };
    let cfg = Cfg { prop: prop.to_string(), seed, flavor, ntasks, slots: slots.clone(), dom, ext, style, loose, mean, bb };

    let big = r.pct(p.big);
    let nops = if big { 30 + r.us(60) } else { 4 + r.us(40) };
    let nops = if slots[0].0 > 1000 || tall || wide { nops.min(if wide { 16 } else { 8 }) } else { nops };
    let mut w = p.w;
    // Swarm: switch some operation kinds off in this run.
    if r.pct(50) {
        for (i, x) in w.iter_mut().enumerate() {
            if ![K::Insert as usize, K::Session as usize, K::Mut as usize, K::CloneInto as usize].contains(&i) && r.pct(25) {
                *x = 0;
            }
        }
    }
    // Growing, shrinking and steady phases.
    let phases = r.us(3);
    let mut ops = Vec::new();
    let mut cnt = 0u64;
    // Most runs start from a populated tree.
    let prefill = r.pct(70) || first_bulk > 0;
    let mut r2 = Rng::sub(seed, 2);
    let mut push = |r: &mut Rng, k: K, task: usize, first: bool| {
        let slot = r.us(nslots);
        let slot2 = r.us(nslots);
        let gc = gen_coords(r, &cfg, cnt);
        cnt += 1;
        let sel = match k {
            K::Insert => {
                if r.pct(12) {
                    r.below(1000) as i64
                } else {
                    -1
                }
            }
            K::InsertUnique => {
                if r.pct(45) {
                    r.below(1000) as i64
                } else {
                    -1
                }
            }
            K::Remove => {
                if r.pct(88) {
                    r.below(1000) as i64
                } else {
                    -1
                }
            }
            K::Get => {
                if r.pct(70) {
                    r.below(1000) as i64
                } else {
                    -1
                }
            }
            K::Session => {
                let top = if r.pct(30) { 15 } else { 400 };
                1 + r.below(top) as i64
            }
            _ => r.below(1000) as i64,
        };
        let n = match k {
            K::Bulk => {
                if big {
                    10 + r.below(90) as i64
                } else {
                    3 + r.below(25) as i64
                }
            }
            K::BulkRemove => {
                if r.pct(25) {
                    100_000
                } else {
                    2 + r.below(if big { 60 } else { 15 }) as i64
                }
            }
            K::Session => 1 + r.below(5) as i64,
            K::Mut => 1 + r.below(20) as i64,
            _ => 0,
        };
        let mut op = Op { task, k, slot, slot2, sel, n, sd: r.u64() >> 16, c: gc, fk: FK_NONE, fmask: 0, fnth: 0 };
        if k == K::Reset {
            // Often with another configuration.
            let (a, b) = pick_cfg(r);
            op.c = [0; 8];
            op.c[0] = a as i64;
            op.c[1] = b as i64;
        }
        let write = op.is_write() && k != K::Mut;
        // Cloning lends the source, so C07 interrupts clones although it
        // interrupts no other modification.
        let clone_only = prop == "C07" && k == K::CloneInto;
        let rate = if clone_only {
            15
        } else if write {
            p.fw
        } else {
            p.fr
        };
        if !first && r2.pct(rate) && !plain {
            let long = matches!(k, K::Bulk | K::BulkRemove | K::Session | K::CloneInto | K::Full);
            let nth = match r2.below(4) {
                0 => 1 + r2.below(3),
                1 => 1 + r2.below(12),
                2 => 1 + r2.below(50),
                _ => 1 + r2.below(if long { 600 } else { 120 }),
            } as i32;
            if p.alloc {
                op.fk = FK_ALLOC;
                op.fnth = if long { 1 + (nth - 1) % 40 } else { 1 + (nth - 1) % 6 };
            } else {
                op.fk = FK_PANIC;
                op.fnth = nth;
                op.fmask = if clone_only { one_site(&mut r2, CLONE_SITES) } else if write { one_site(&mut r2, WRITE_SITES) } else { one_site(&mut r2, READ_SITES) };
                if op.fmask.count_ones() == 1 {
                    // rare sites: place the fault early
                    op.fnth = 1 + (nth - 1) % if long { 60 } else { 12 };
                }
            }
            // The last steps of a modification, where the root may change.
            if matches!(k, K::Insert | K::InsertUnique | K::Remove | K::CloneInto) && r2.pct(35) {
                let most = if r2.pct(60) { 3 } else { 12 };
                op.fnth = -(1 + r2.below(most) as i32);
            }
        }
        op
    };
    if prefill {
        for _ in 0..nslots {
            let o = push(&mut r, K::Bulk, 0, true);
            ops.push(o);
        }
        for (i, o) in ops.iter_mut().enumerate() {
            o.slot = i;
            if first_bulk > 0 {
                o.n = if i == 0 { first_bulk } else { o.n.min(6) };
            }
        }
    }
    for i in 0..nops {
        let mut ww = w;
        match phases {
            1 => {
                // grow then shrink
                if i < nops / 2 {
                    ww[K::Remove as usize] /= 3;
                    ww[K::BulkRemove as usize] = 0;
                } else {
                    ww[K::Insert as usize] /= 3;
                    ww[K::InsertUnique as usize] /= 2;
                    ww[K::Bulk as usize] = 0;
                }
            }
            2 => {
                ww[K::Remove as usize] *= 2;
            }
            _ => {}
        }
        let k = KINDS[r.weighted(&ww)];
        let task = r.us(ntasks);
        let o = push(&mut r, k, task, false);
        ops.push(o);
    }
    Spec { cfg, ops, sched: None }
}
