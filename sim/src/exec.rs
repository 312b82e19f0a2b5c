//! Runs one specification: trees with their reference models, simulated
//! reader/writer locks, operations and their checks.
use crate::rng::{HashMap, HashSet};
use std::collections::BTreeMap;

use rusty_rtree::RTreeConfig;

use crate::alloc::{self, AST};
use crate::cursor;
use crate::geo::{Fl, GBox, Tri};
use crate::hooks::*;
use crate::report::{prop_is, viol, violation, CTX};
use crate::rng::Rng;
use crate::sched;
use crate::spec::{gen_coords, key_coords, Op, Spec, K, KINDS};
use crate::structure;
use crate::types::*;

pub struct Ent<F: Fl> {
    pub g: F::G,
    pub gbox: GBox,
    pub v: u32,
    pub pay: u64,
}
pub type Model<F> = BTreeMap<u32, Ent<F>>;

pub struct Slot<F: Fl> {
    pub tree: Option<Box<Tree<F>>>,
    pub m: Model<F>,
    pub cfg: (usize, usize),
    /// a mutator was interrupted: contents were re-read, bounds may be stale
    pub degraded: bool,
    pub faulted: bool,
    pub cloned: bool,
    pub mutated: bool,
    lock: i32,
}

impl<F: Fl> Slot<F> {
    /// The tree, for a session that holds the slot's lock.
    pub fn t(&self) -> &'static Tree<F> {
        unsafe { &*(&**self.tree.as_ref().unwrap() as *const Tree<F>) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn tm(&mut self) -> &'static mut Tree<F> {
        unsafe { &mut *(&mut **self.tree.as_mut().unwrap() as *mut Tree<F>) }
    }
}

pub struct World<F: Fl> {
    pub spec: *const Spec,
    pub slots: Vec<Slot<F>>,
    pub leaks_ok: bool,
}

#[derive(Default)]
pub struct Cov {
    pub runs: u64,
    pub multi_runs: u64,
    pub ops: [u64; KINDS.len()],
    pub cursors: BTreeMap<&'static str, u64>,
    pub items: u64,
    pub completed: u64,
    pub cancelled: u64,
    pub rehearsed: u64,
    pub consumed: u64,
    pub forgotten: u64,
    pub shapes: HashSet<u64>,
    pub maxheight: usize,
    pub maxlen: usize,
    pub degraded_panics: u64,
    pub degraded: u64,
    pub unreadable: u64,
    pub read_faults: u64,
    pub write_faults: u64,
    pub reentrant: u64,
    pub held_refs: u64,
    pub twins: u64,
    pub clone_froms: u64,
    pub lookups: u64,
    pub cut: u64,
    pub checks: u64,
    pub flavors: [u64; 16],
    pub foreign: u64,
}
pub static COV: Racy<Option<Cov>> = Racy::new(None);
pub fn cov() -> &'static mut Cov {
    COV.get().get_or_insert_with(Cov::default)
}

pub struct Wp<F: Fl>(*mut World<F>);
impl<F: Fl> Clone for Wp<F> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<F: Fl> Copy for Wp<F> {}
unsafe impl<F: Fl> Send for Wp<F> {}
unsafe impl<F: Fl> Sync for Wp<F> {}
impl<F: Fl> Wp<F> {
    pub fn w(&self) -> &'static mut World<F> {
        unsafe { &mut *self.0 }
    }
    pub fn spec(&self) -> &'static Spec {
        unsafe { &*(*self.0).spec }
    }
    pub fn slot(&self, i: usize) -> &'static mut Slot<F> {
        &mut self.w().slots[i]
    }
    pub fn multi(&self) -> bool {
        self.spec().cfg.ntasks > 1
    }
}

/// A call of the code under test during which the operation's fault may fire.
pub fn armed<R>(op: &Op, f: impl FnOnce() -> R) -> Result<R, Unw> {
    let t = tls();
    if t.fired == 0 {
        t.fault_kind = op.fk;
    }
    let r = sut(f);
    let t = tls();
    t.fault_kind = FK_NONE;
    if op.fk == FK_ALLOC && t.fired == 1 && t.alloc_reported == 0 {
        violation(
            "alloc-report",
            "alloc_unreported",
            &format!("an allocation of {} bytes failed and the allocation error handler was not called", t.failed_size),
        );
    }
    r
}

/// Places a fault that is counted from the end of the call: the call is first
/// made on a copy of the tree, uninterrupted, to learn how many points it has.
fn rehearses<F: Fl>(op: &Op, s: &Slot<F>) -> bool {
    op.fk != FK_NONE && op.fnth < 0 && !s.degraded && s.m.len() <= 600 && tls().fired == 0
}

fn rehearse<F: Fl>(op: &Op, s: &Slot<F>, call: &mut dyn FnMut(&mut Tree<F>)) {
    let tree = match sut(|| s.t().clone()) {
        Ok(t) => t,
        Err(u) => return unexpected(&u, false, "clone"),
    };
    let mut tree = Box::new(tree);
    let t = tls();
    t.fault_seen = 0;
    t.fault_nth = u32::MAX;
    t.fault_kind = op.fk;
    let r = sut(|| call(&mut tree));
    let t = tls();
    t.fault_kind = FK_NONE;
    let n = t.fault_seen;
    t.fault_seen = 0;
    t.fault_nth = (n + 1).saturating_sub(op.fnth.unsigned_abs()).max(1);
    if let Err(u) = r {
        unexpected(&u, false, "the call, on a copy of the tree,");
    }
    if let Err(u) = sut(move || drop(tree)) {
        unexpected(&u, false, "dropping a copy of the tree");
    }
    cov().rehearsed += 1;
}

/// What to do when a call that was not interrupted on purpose unwound.
pub fn unexpected(u: &Unw, degraded: bool, what: &str) {
    if let Unw::Panic(m) = u {
        if degraded {
            cov().degraded_panics += 1;
        } else {
            violation("panic", "panic", &format!("{what} panicked: {m} at {}", LAST_PANIC.get()));
        }
    }
}

pub fn content_tags<F: Fl>(wp: Wp<F>, s: &Slot<F>) -> Vec<&'static str> {
    let mut t = vec!["C01", "C02"];
    if s.cloned {
        t.push("C07");
    }
    if s.mutated {
        t.push("C14");
    }
    if wp.multi() {
        t.push("C11");
    }
    if s.faulted {
        t.push("C09");
        t.push("C12");
    }
    t
}

pub struct Got {
    pub k: u32,
    pub v: u32,
    pub pay: u64,
}

pub fn enumerate<F: Fl>(s: &Slot<F>) -> Vec<Got> {
    let mut out = Vec::new();
    let t = s.t();
    let r = sut(|| {
        for (k, v) in t.iter() {
            let (kt, vt) = (k.check("enumeration"), v.check("enumeration"));
            let pay = v.pay;
            masked(|| out.push(Got { k: kt, v: vt, pay }));
        }
    });
    if let Err(u) = r {
        unexpected(&u, false, "enumeration");
    }
    out
}

/// Compares the tree's contents with its model.
pub fn verify<F: Fl>(wp: Wp<F>, s: &Slot<F>, after: &str) {
    cov().checks += 1;
    let got = enumerate(s);
    let tags = content_tags(wp, s);
    let mut seen = HashSet::default();
    for g in &got {
        ev(0x800 ^ ((g.k as u64) << 8) ^ ((g.v as u64) << 36));
        if !seen.insert(g.k) {
            viol(&tags, "duplicate_entry", &format!("after {after}: key token {} enumerated twice", g.k));
            if prop_is("C08") {
                violation("prop", "duplicate_entry", &format!("after {after}: key token {} is owned twice", g.k));
            }
        }
        match s.m.get(&g.k) {
            None => viol(&tags, "foreign_entry", &format!("after {after}: key token {} enumerated but not in the tree", g.k)),
            Some(e) => {
                if e.v != g.v {
                    viol(&tags, "wrong_value", &format!("after {after}: key token {} has value token {} instead of {}", g.k, g.v, e.v));
                } else if e.pay != g.pay {
                    let mut tg = tags.clone();
                    tg.push("C14");
                    viol(&tg, "wrong_payload", &format!("after {after}: value token {} reads {} instead of {}", g.v, g.pay, e.pay));
                }
            }
        }
    }
    for (k, e) in &s.m {
        if !seen.contains(k) {
            viol(&tags, "lost_entry", &format!("after {after}: key token {k} at {:?} is missing from the enumeration", e.gbox));
            if !tok_live(*k) || !tok_live(e.v) {
                viol(&["C08"], "dropped_early", &format!("after {after}: key token {k} or its value was dropped while in the tree"));
            }
        }
    }
    let t = s.t();
    let n = if s.degraded { got.len() } else { s.m.len() };
    if !s.degraded {
        match sut(|| (t.len(), t.is_empty())) {
            Ok((l, e)) => {
                if l != n || e != (n == 0) {
                    viol(&tags, "wrong_len", &format!("after {after}: len() = {l}, is_empty() = {e} with {n} entries"));
                }
            }
            Err(u) => unexpected(&u, s.degraded, "len"),
        }
    }
    let c = cov();
    c.maxlen = c.maxlen.max(n);
}

pub fn debug_text<F: Fl>(s: &Slot<F>) -> Option<String> {
    let t = s.t();
    match sut(|| format!("{t:?}")) {
        Ok(x) => Some(x),
        Err(u) => {
            unexpected(&u, s.degraded, "formatting the tree");
            None
        }
    }
}

pub fn read_structure<F: Fl>(s: &Slot<F>) -> Option<structure::Structure> {
    let text = debug_text(s)?;
    let st = structure::parse::<F>(&text);
    match st {
        None => {
            cov().unreadable += 1;
            None
        }
        Some(st) => {
            let c = cov();
            if c.shapes.len() < 400_000 {
                c.shapes.insert(st.shape());
            }
            c.maxheight = c.maxheight.max(st.height());
            ev(st.shape());
            Some(st)
        }
    }
}

pub fn check_structure<F: Fl>(s: &Slot<F>, after: &str) {
    if s.degraded {
        return;
    }
    if let Some(st) = read_structure(s) {
        let kb = |k: u32| s.m.get(&k).map(|e| e.gbox);
        if let Some((kind, msg)) = st.check(s.cfg.0, s.cfg.1, *LOOSE.get() == 0, &kb) {
            viol(&["C10"], kind, &format!("after {after} (max {} min {}): {msg}", s.cfg.0, s.cfg.1));
        }
        if st.leaf_of.len() != s.m.len() {
            viol(&["C10"], "structure_entries", &format!("after {after}: {} entries in the hierarchy, {} in the tree", st.leaf_of.len(), s.m.len()));
        }
    }
}

/// Runs in which nothing looks at a tree between its modifications but the
/// history's own reading calls, so that the first of those come from callers,
/// possibly several at once.
fn unobserved(spec: &Spec) -> bool {
    let pct = if spec.cfg.prop == "C11" { 60 } else { 12 };
    Rng::sub(spec.cfg.seed, 9).pct(pct)
}

fn after_write<F: Fl>(wp: Wp<F>, s: &Slot<F>, what: &str) {
    if unobserved(wp.spec()) && !s.degraded {
        return;
    }
    verify(wp, s, what);
    if prop_is("C10") {
        check_structure(s, what);
    }
}

/// A modification was interrupted: everything still reachable must be live,
/// unique and known; the model restarts from what is there.
fn degrade<F: Fl>(wp: Wp<F>, s: &mut Slot<F>, inflight: Vec<(u32, Ent<F>)>, alt: &[(u32, u32)], what: &str) {
    s.degraded = true;
    s.faulted = true;
    wp.w().leaks_ok = true;
    cov().degraded += 1;
    let got = enumerate(s);
    let mut old: HashMap<u32, Ent<F>> = std::mem::take(&mut s.m).into_iter().collect();
    for (k, e) in inflight {
        old.insert(k, e);
    }
    for g in got {
        let ok_alt = alt.contains(&(g.k, g.v));
        match old.remove(&g.k) {
            None => {
                if s.m.contains_key(&g.k) {
                    viol(&["C09", "C12", "C08"], "duplicate_entry", &format!("after interrupted {what}: key token {} is in the tree twice", g.k));
                } else {
                    viol(&["C09", "C12"], "foreign_entry", &format!("after interrupted {what}: key token {} was never in the tree", g.k));
                }
            }
            Some(mut e) => {
                if e.v != g.v && !ok_alt {
                    viol(&["C09", "C12"], "wrong_value", &format!("after interrupted {what}: key token {} has value token {} instead of {}", g.k, g.v, e.v));
                }
                e.v = g.v;
                e.pay = g.pay;
                s.m.insert(g.k, e);
            }
        }
    }
    let mut vs = HashSet::default();
    for e in s.m.values() {
        if !vs.insert(e.v) {
            viol(&["C09", "C12"], "duplicate_value", &format!("after interrupted {what}: value token {} is in the tree twice", e.v));
        }
    }
}

/// Handles the outcome of a modification that did not return. True when the
/// model was resynchronised.
fn interrupted<F: Fl>(wp: Wp<F>, s: &mut Slot<F>, u: &Unw, inflight: Vec<(u32, Ent<F>)>, alt: &[(u32, u32)], what: &str) {
    unexpected(u, s.degraded, what);
    cov().write_faults += 1;
    ev(0x900);
    degrade(wp, s, inflight, alt, what);
}

pub fn nth_key<F: Fl>(m: &Model<F>, n: u64) -> Option<u32> {
    if m.is_empty() {
        return None;
    }
    m.keys().nth((n % m.len() as u64) as usize).copied()
}

/// The entry that "the first entry with this key" denotes.
pub fn first_equal<F: Fl>(s: &Slot<F>, g: &F::G) -> Option<u32> {
    let mut it = s.m.iter().filter(|(_, e)| e.g == *g);
    let first = *it.next()?.0;
    if it.next().is_none() {
        return Some(first);
    }
    enumerate(s).iter().find(|x| s.m.get(&x.k).is_some_and(|e| e.g == *g)).map(|x| x.k)
}

fn any_equal<F: Fl>(s: &Slot<F>, g: &F::G) -> bool {
    s.m.values().any(|e| e.g == *g)
}

static PAY: Racy<u64> = Racy::new(0);
pub fn next_pay() -> u64 {
    let p = PAY.get();
    *p += 1;
    *p
}

fn key_from<F: Fl>(wp: Wp<F>, op: &Op, s: &Slot<F>) -> F::G {
    let _ = wp;
    if op.sel >= 0 {
        if let Some(k) = nth_key(&s.m, op.sel as u64) {
            return s.m[&k].g.clone();
        }
    }
    F::g(&key_coords(&op.c, F::D)[..])
}

fn do_insert<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>, g: F::G) -> bool {
    let gbox = F::gbox(&g);
    if rehearses(op, s) {
        let mut kv = Some((SimKey::<F>::new(g.clone()), SimVal::new(0)));
        rehearse(op, s, &mut |t| {
            if let Some((k, v)) = kv.take() {
                t.insert(k, v)
            }
        });
    }
    let key = SimKey::<F>::new(g.clone());
    let pay = next_pay();
    let val = SimVal::new(pay);
    let (k, v) = (key.check("new"), val.check("new"));
    ev(0xA00 ^ ((k as u64) << 16));
    let ent = Ent { g, gbox, v, pay };
    let t = s.tm();
    match armed(op, || t.insert(key, val)) {
        Ok(()) => {
            s.m.insert(k, ent);
            if s.degraded {
                resync_quiet(s);
            }
            true
        }
        Err(u) => {
            interrupted(wp, s, &u, vec![(k, ent)], &[], "insert");
            false
        }
    }
}

/// Degraded trees keep only the safety guarantees: re-read after each step.
fn resync_quiet<F: Fl>(s: &mut Slot<F>) {
    let got = enumerate(s);
    let mut old = std::mem::take(&mut s.m);
    for g in got {
        match old.remove(&g.k) {
            Some(mut e) => {
                if e.v != g.v {
                    viol(&["C09", "C12"], "wrong_value", &format!("key token {} has value token {} instead of {}", g.k, g.v, e.v));
                }
                e.pay = g.pay;
                s.m.insert(g.k, e);
            }
            None => {
                let kind = if s.m.contains_key(&g.k) { "duplicate_entry" } else { "foreign_entry" };
                viol(&["C09", "C12"], kind, &format!("key token {} is in a tree it was not given to or twice", g.k));
            }
        }
    }
}

/// A lookup whose comparisons are checked against the nodes (C13).
pub fn look_begin<F: Fl>(s: &Slot<F>) -> Option<structure::Structure> {
    let task = tls().task as usize;
    let all = LOOKED.get();
    if !prop_is("C13") || s.degraded || s.m.len() > 600 || all.get(task).is_some_and(|l| l.is_some()) {
        return None;
    }
    let st = read_structure(s)?;
    let all = LOOKED.get();
    while all.len() <= task {
        all.push(None);
    }
    all[task] = Some(Vec::new());
    Some(st)
}

pub fn look_end<F: Fl>(st: Option<structure::Structure>, g: &F::G, what: &str) {
    let st = match st {
        Some(st) => st,
        None => return,
    };
    let keys = LOOKED.get()[tls().task as usize].take().unwrap_or_default();
    let gbox = F::gbox(g);
    cov().lookups += 1;
    for k in keys {
        let mut n = match st.leaf_of.get(&k) {
            Some(n) => *n,
            None => continue,
        };
        // The bounds of the root need not be looked at.
        while st.nodes[n].parent != structure::NOPARENT {
            if !st.nodes[n].bx.is_some_and(|b| b.intersects(&gbox)) {
                viol(
                    &["C13"],
                    "lookup_unpruned",
                    &format!("{what} at {gbox:?} compared key token {k}, which lies under bounds {:?}", st.nodes[n].bx),
                );
            }
            n = st.nodes[n].parent;
        }
    }
}

fn do_insert_unique<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>, g: F::G) -> bool {
    let gbox = F::gbox(&g);
    let first = if s.degraded { None } else { first_equal(s, &g) };
    if rehearses(op, s) {
        let mut kv = Some((SimKey::<F>::new(g.clone()), SimVal::new(0)));
        let mut ret = None;
        rehearse(op, s, &mut |t| {
            if let Some((k, v)) = kv.take() {
                ret = t.insert_unique(k, v)
            }
        });
    }
    let key = SimKey::<F>::new(g.clone());
    let pay = next_pay();
    let val = SimVal::new(pay);
    let (k, v) = (key.check("new"), val.check("new"));
    ev(0xA10 ^ ((k as u64) << 16));
    let ent = Ent { g: g.clone(), gbox, v, pay };
    let look = if op.k == K::InsertUnique { look_begin(s) } else { None };
    let t = s.tm();
    let r = armed(op, || t.insert_unique(key, val));
    look_end::<F>(look, &g, "insert_unique");
    match r {
        Ok(ret) => {
            let rv = ret.as_ref().map(|x| (x.check("returned value"), x.pay));
            if s.degraded {
                // Either outcome is possible when stale bounds hide entries.
                match rv {
                    None => {
                        s.m.insert(k, ent);
                    }
                    Some((rv, _)) => match s.m.iter().find(|(_, e)| e.v == rv).map(|(k, _)| *k) {
                        Some(x) => {
                            let e = s.m.get_mut(&x).unwrap();
                            e.v = v;
                            e.pay = pay;
                        }
                        None => viol(&["C09", "C12"], "foreign_value", "insert_unique returned a value that was not in the tree"),
                    },
                }
                drop(ret);
                resync_quiet(s);
                return true;
            }
            match (first, rv) {
                (None, None) => {
                    s.m.insert(k, ent);
                }
                (Some(x), Some((rv, rp))) => {
                    let e = s.m.get_mut(&x).unwrap();
                    if e.v != rv || e.pay != rp {
                        viol(
                            &["C01"],
                            "wrong_replaced",
                            &format!("insert_unique returned value token {rv} instead of {} of the first equal entry", e.v),
                        );
                    }
                    e.v = v;
                    e.pay = pay;
                    if tok_live(k) {
                        viol(&["C08"], "not_dropped", "insert_unique kept the surplus key alive");
                    }
                }
                (None, Some((rv, _))) => {
                    viol(&["C01"], "phantom", &format!("insert_unique returned value token {rv} though no equal key was present"));
                }
                (Some(x), None) => {
                    viol(&["C01"], "not_unique", &format!("insert_unique added a second entry although key token {x} is equal"));
                    s.m.insert(k, ent);
                }
            }
            drop(ret);
            true
        }
        Err(u) => {
            let alt: Vec<(u32, u32)> = s.m.iter().filter(|(_, e)| e.g == g).map(|(k, _)| (*k, v)).collect();
            interrupted(wp, s, &u, vec![(k, ent)], &alt, "insert_unique");
            false
        }
    }
}

fn do_remove<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>, g: F::G, owned: bool) -> bool {
    let first = if s.degraded { None } else { first_equal(s, &g) };
    ev(0xA20 ^ ((first.unwrap_or(0xffff) as u64) << 16));
    if rehearses(op, s) {
        let (q, mut ret) = (Body::<F>::query(g.clone()), None);
        rehearse(op, s, &mut |t| ret = t.remove::<Body<F>>(&q));
    }
    let look = if op.k == K::Remove { look_begin(s) } else { None };
    let t = s.tm();
    let r = if owned {
        let q = SimKey::<F>::new(g.clone());
        let r = armed(op, || t.remove::<SimKey<F>>(&q));
        q.check("lookup key");
        r
    } else {
        let q = Body::<F>::query(g.clone());
        armed(op, || t.remove::<Body<F>>(&q))
    };
    look_end::<F>(look, &g, "remove");
    match r {
        Ok(ret) => {
            let rv = ret.as_ref().map(|x| (x.check("removed value"), x.pay));
            if s.degraded {
                if let Some((rv, _)) = rv {
                    match s.m.iter().find(|(_, e)| e.v == rv).map(|(k, e)| (*k, e.g == g)) {
                        Some((x, true)) => {
                            s.m.remove(&x);
                        }
                        Some((x, false)) => viol(&["C09", "C12"], "wrong_removed", &format!("remove took out key token {x}, which is not equal")),
                        None => viol(&["C09", "C12"], "foreign_value", "remove returned a value that was not in the tree"),
                    }
                }
                drop(ret);
                resync_quiet(s);
                return true;
            }
            match (first, rv) {
                (None, None) => {}
                (Some(x), Some((rv, rp))) => {
                    let (ev_, ep) = (s.m[&x].v, s.m[&x].pay);
                    if ev_ != rv || ep != rp {
                        viol(
                            &["C01"],
                            "wrong_removed",
                            &format!("remove returned value token {rv} instead of {ev_}, the first equal entry in iteration order"),
                        );
                    }
                    let y = s.m.iter().find(|(_, e)| e.v == rv).map(|(k, _)| *k).unwrap_or(x);
                    s.m.remove(&y);
                    if tok_live(y) {
                        viol(&["C08"], "not_dropped", &format!("remove did not drop key token {y}"));
                    }
                }
                (None, Some((rv, _))) => {
                    viol(&["C01"], "phantom", &format!("remove returned value token {rv} though no equal key was present"));
                }
                (Some(x), None) => {
                    viol(&["C01"], "not_found", &format!("remove did not find key token {x} at {:?}", s.m[&x].gbox));
                }
            }
            drop(ret);
            true
        }
        Err(u) => {
            interrupted(wp, s, &u, vec![], &[], "remove");
            false
        }
    }
}

pub fn do_get<F: Fl>(wp: Wp<F>, s: &Slot<F>, g: &F::G, owned: bool, run: &dyn Fn(&mut dyn FnMut()) -> Result<(), Unw>) -> bool {
    let t = s.t();
    let any = any_equal(s, g);
    let first = if s.degraded { None } else { first_equal(s, g) };
    let mut out: Option<(u32, u64)> = None;
    let look = look_begin(s);
    let r = if owned {
        let q = SimKey::<F>::new(g.clone());
        run(&mut || out = t.get::<SimKey<F>>(&q).map(|v| (v.check("get"), v.pay)))
    } else {
        let q = Body::<F>::query(g.clone());
        run(&mut || out = t.get::<Body<F>>(&q).map(|v| (v.check("get"), v.pay)))
    };
    look_end::<F>(look, g, "get");
    match r {
        Ok(()) => {
            let mut tags = vec!["C01"];
            if wp.multi() {
                tags.push("C11");
            }
            ev(0xA30 ^ ((out.map_or(0xffff, |x| x.0) as u64) << 16));
            if s.degraded {
                if let Some((v, _)) = out {
                    if !s.m.values().any(|e| e.v == v && e.g == *g) {
                        viol(&["C09", "C12"], "foreign_value", "get returned a value that is not held under that key");
                    }
                }
                return true;
            }
            match (first, out) {
                (None, None) => {}
                (Some(x), Some((v, p))) => {
                    let e = &s.m[&x];
                    if e.v != v || e.pay != p {
                        viol(&tags, "wrong_get", &format!("get returned value token {v} instead of {} of the first equal entry", e.v));
                    }
                }
                (None, Some((v, _))) => viol(&tags, "phantom", &format!("get returned value token {v} though no equal key is present")),
                (Some(x), None) => viol(&tags, "not_found", &format!("get did not find key token {x} at {:?}", s.m[&x].gbox)),
            }
            let _ = any;
            true
        }
        Err(u) => {
            unexpected(&u, s.degraded, "get");
            cov().read_faults += 1;
            false
        }
    }
}

fn new_tree<F: Fl>(cfg: (usize, usize)) -> Box<Tree<F>> {
    match sut(|| Tree::<F>::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 })) {
        Ok(t) => Box::new(t),
        Err(u) => {
            unexpected(&u, false, "RTree::new");
            unreachable!()
        }
    }
}

fn drop_tree<F: Fl>(wp: Wp<F>, op: Option<&Op>, s: &mut Slot<F>, what: &str) {
    let t = match s.tree.take() {
        Some(t) => *t,
        None => return,
    };
    let r = match op {
        Some(op) => armed(op, || drop(t)),
        None => sut(|| drop(t)),
    };
    match r {
        Ok(()) => {
            if !s.degraded {
                for (k, e) in &s.m {
                    if tok_live(*k) || tok_live(e.v) {
                        viol(&["C08"], "not_dropped", &format!("{what} did not drop key token {k} or its value"));
                    }
                }
            }
        }
        Err(u) => {
            unexpected(&u, s.degraded, what);
            wp.w().leaks_ok = true;
            cov().write_faults += 1;
        }
    }
    s.m.clear();
}

fn do_reset<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>) {
    drop_tree(wp, Some(op), s, "dropping the tree");
    s.cfg = ((op.c[0].max(2)) as usize, (op.c[1].max(1)) as usize);
    s.cfg.1 = s.cfg.1.min(s.cfg.0 / 2).max(1);
    s.degraded = false;
    s.faulted = false;
    s.cloned = false;
    s.mutated = false;
    let cfg = s.cfg;
    match armed(op, || Tree::<F>::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 })) {
        Ok(t) => s.tree = Some(Box::new(t)),
        Err(u) => {
            unexpected(&u, false, "RTree::new");
            wp.w().leaks_ok = true;
            s.tree = Some(new_tree(cfg));
        }
    }
    verify(wp, s, "RTree::new");
}

/// Clones the tree of a slot; checks it against the source.
pub fn do_clone<F: Fl>(wp: Wp<F>, op: &Op, s: &Slot<F>) -> Option<(Box<Tree<F>>, Model<F>)> {
    let before = if s.degraded { None } else { debug_text(s) };
    let src = enumerate(s);
    if rehearses(op, s) {
        rehearse(op, s, &mut |t| drop((*t).clone()));
    }
    let mark = REG.get().len();
    let t = s.t();
    let c = match armed(op, || t.clone()) {
        Ok(c) => Box::new(c),
        Err(u) => {
            unexpected(&u, s.degraded, "clone");
            wp.w().leaks_ok = true;
            cov().write_faults += 1;
            return None;
        }
    };
    let made = if wp.multi() { None } else { Some(REG.get().len() - mark) };
    let (tree, m) = check_clone(wp, s, c, src, before, made);
    Some((tree, m))
}

/// `clone_from`: the target becomes a clone of the source and its former
/// content is dropped.
fn do_clone_from<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>, d: &mut Slot<F>) {
    cov().clone_froms += 1;
    let before = if s.degraded { None } else { debug_text(s) };
    let src = enumerate(s);
    if rehearses(op, s) && rehearses(op, d) {
        rehearse(op, d, &mut |t| (*t).clone_from(s.t()));
    }
    let mark = REG.get().len();
    let was = d.degraded;
    match armed(op, || d.tm().clone_from(s.t())) {
        Ok(()) => {
            if !was {
                for (k, e) in &d.m {
                    if tok_live(*k) || tok_live(e.v) {
                        viol(&["C08", "C07"], "not_dropped", &format!("clone_from kept key token {k} or its value, which were in the target"));
                    }
                }
            }
            let made = if wp.multi() { None } else { Some(REG.get().len() - mark) };
            let (tree, m) = check_clone(wp, s, d.tree.take().unwrap(), src, before, made);
            d.tree = Some(tree);
            d.m = m;
            d.cfg = s.cfg;
            d.degraded = s.degraded;
            d.faulted = s.faulted;
            d.cloned = true;
            d.mutated = false;
        }
        Err(u) => {
            // Either what it held, or clones of the source's entries.
            let made: Vec<(u32, Ent<F>)> = enumerate(d)
                .iter()
                .filter_map(|g| {
                    let e = s.m.get(&tok_origin(g.k))?;
                    if g.k == tok_origin(g.k) || e.v != tok_origin(g.v) {
                        return None;
                    }
                    Some((g.k, Ent { g: e.g.clone(), gbox: e.gbox, v: g.v, pay: g.pay }))
                })
                .collect();
            d.degraded |= was || s.degraded;
            let n = s.degraded || was;
            unexpected(&u, n, "clone_from");
            cov().write_faults += 1;
            degrade(wp, d, made, &[], "clone_from");
        }
    }
}

fn check_clone<F: Fl>(wp: Wp<F>, s: &Slot<F>, c: Box<Tree<F>>, src: Vec<Got>, before: Option<String>, made: Option<usize>) -> (Box<Tree<F>>, Model<F>) {
    let tmp = Slot { tree: Some(c), m: BTreeMap::new(), cfg: s.cfg, degraded: s.degraded, faulted: false, cloned: true, mutated: false, lock: 0 };
    let got = enumerate(&tmp);
    let mut tags = vec!["C07"];
    if wp.multi() {
        tags.push("C11");
    }
    let mut m: Model<F> = BTreeMap::new();
    if got.len() != src.len() {
        viol(&tags, "clone_entries", &format!("the clone enumerates {} entries, its source {}", got.len(), src.len()));
    }
    for (i, g) in got.iter().enumerate() {
        let (ok, ov) = (tok_origin(g.k), tok_origin(g.v));
        match src.get(i) {
            Some(x) if x.k == ok && x.v == ov && x.pay == g.pay => {}
            _ => viol(&tags, "clone_order", &format!("entry {i} of the clone is a copy of key token {ok}, not of the source's entry {i}")),
        }
        match s.m.get(&ok) {
            Some(e) => {
                if m.insert(g.k, Ent { g: e.g.clone(), gbox: e.gbox, v: g.v, pay: g.pay }).is_some() {
                    viol(&tags, "clone_dup", &format!("the clone holds key token {} twice", g.k));
                }
            }
            None => {
                if s.m.contains_key(&g.k) {
                    viol(&["C07", "C08", "C11"], "clone_alias", &format!("the clone shares key token {} with its source", g.k));
                }
                viol(&tags, "clone_foreign", &format!("the clone holds key token {}, which is no copy of a source key", g.k));
            }
        }
    }
    if let Some(n) = made {
        if n != 2 * src.len() {
            viol(&["C07"], "clone_count", &format!("cloning {} entries made {n} copies of keys and values", src.len()));
        }
    }
    if let Some(b) = before {
        if let Some(a) = debug_text(&tmp) {
            let wb = *LOOSE.get() == 0;
            let x = structure::normalized(&b, wb, &|id| id);
            let y = structure::normalized(&a, wb, &tok_origin);
            if x != y {
                viol(&["C07"], "clone_structure", "the clone's node structure differs from its source's");
            }
        }
        if let Some(b2) = debug_text(s) {
            if b2 != b {
                viol(&["C07"], "clone_source", "cloning changed the source");
            }
        }
    }
    let Slot { tree, .. } = tmp;
    (tree.unwrap(), m)
}

/// Clone and source behave alike under the same further operations.
fn do_twin<F: Fl>(wp: Wp<F>, op: &Op, s: &mut Slot<F>) {
    if s.degraded {
        return;
    }
    let (tree, m) = match do_clone(wp, op, s) {
        Some(x) => x,
        None => return verify(wp, s, "interrupted clone"),
    };
    cov().twins += 1;
    let mut c = Slot { tree: Some(tree), m, cfg: s.cfg, degraded: false, faulted: false, cloned: true, mutated: false, lock: 0 };
    let quiet = Op { fk: FK_NONE, ..op.clone() };
    let mut r = Rng::new(op.sd);
    let cfg = &wp.spec().cfg;
    for i in 0..8 + r.us(30) {
        let gc = key_coords(&gen_coords(&mut r, cfg, i as u64), F::D);
        if r.pct(45) && !s.m.is_empty() {
            let k = nth_key(&s.m, r.below(1000)).unwrap();
            let g = s.m[&k].g.clone();
            do_remove(wp, &quiet, s, g.clone(), false);
            do_remove(wp, &quiet, &mut c, g, false);
        } else {
            let g = F::g(&gc);
            do_insert(wp, &quiet, s, g.clone());
            do_insert(wp, &quiet, &mut c, g);
        }
    }
    s.cloned = true;
    verify(wp, s, "twin operations on the source");
    verify(wp, &c, "twin operations on the clone");
    if let (Some(a), Some(b)) = (debug_text(s), debug_text(&c)) {
        let wb = *LOOSE.get() == 0;
        let box_of = |m: &Model<F>, id: u32| m.get(&id).map_or(u32::MAX, |e| e.gbox.lo.iter().chain(e.gbox.hi.iter()).fold(7u32, |h, x| h.wrapping_mul(31).wrapping_add(*x as u32)));
        let x = structure::normalized(&a, wb, &|id| box_of(&s.m, id));
        let y = structure::normalized(&b, wb, &|id| box_of(&c.m, id));
        if x != y {
            viol(&["C07"], "twin_diverged", "after the same operations, a clone and its source have different node structures");
        }
    }
    drop_tree(wp, None, &mut c, "dropping the clone");
    after_write(wp, s, "dropping a clone");
}

fn lock<F: Fl>(wp: Wp<F>, want: &[(usize, bool)]) {
    loop {
        let free = want.iter().all(|(i, w)| {
            let l = wp.slot(*i).lock;
            if *w {
                l == 0
            } else {
                l >= 0
            }
        });
        if free {
            for (i, w) in want {
                if *w {
                    wp.slot(*i).lock = -1;
                } else {
                    wp.slot(*i).lock += 1;
                }
                race::lock(*i, *w);
            }
            return;
        }
        sched::block();
    }
}
fn unlock<F: Fl>(wp: Wp<F>, want: &[(usize, bool)]) {
    for (i, w) in want {
        race::unlock(*i, *w);
        if *w {
            wp.slot(*i).lock = 0;
        } else {
            wp.slot(*i).lock -= 1;
        }
    }
    sched::unblock_all();
}

fn run_op<F: Fl>(wp: Wp<F>, oi: usize) {
    let spec = wp.spec();
    let op = &spec.ops[oi];
    let ns = wp.w().slots.len();
    let (a, b) = (op.slot % ns, op.slot2 % ns);
    let task = tls().task as usize;
    CTX.get().op_desc[task % 8] = format!("#{oi} {}", op.text());
    if CTX.get().verbose {
        println!("task {task} #{oi} {}", op.text());
    }
    race::CUR_OP.get()[task % 8] = oi as u32 + 1;
    sched::yield_point(Site::OpBegin);
    ev(0xB00 + op.k as u64);
    let mut want: Vec<(usize, bool)> = match op.k {
        K::CloneInto if a != b => vec![(a, false), (b, true)],
        K::Swap if a != b => vec![(a, true), (b, true)],
        K::Session if a != b => vec![(a, false), (b, false)],
        K::Get | K::Session | K::Full => vec![(a, false)],
        K::BadConfig => vec![],
        _ => vec![(a, true)],
    };
    if prop_is("C07") && op.k == K::CloneInto && op.sd % 4 == 0 {
        want = vec![(a, true)];
    }
    lock(wp, &want);
    let t = tls();
    t.fired = 0;
    t.fault_seen = 0;
    t.alloc_reported = 0;
    t.failed_size = 0;
    t.fault_mask = op.fmask;
    t.fault_nth = op.fnth.unsigned_abs();
    t.fault_kind = FK_NONE;
    cov().ops[op.k as usize] += 1;
    let s = wp.slot(a);
    match op.k {
        K::Insert => {
            let g = key_from(wp, op, s);
            if do_insert(wp, op, s, g) {
                after_write(wp, s, "insert");
            }
        }
        K::InsertUnique => {
            let g = key_from(wp, op, s);
            if do_insert_unique(wp, op, s, g) {
                after_write(wp, s, "insert_unique");
            }
        }
        K::Remove => {
            let g = key_from(wp, op, s);
            if do_remove(wp, op, s, g, op.sd % 3 == 0) {
                after_write(wp, s, "remove");
            }
        }
        K::Get => {
            let g = key_from(wp, op, s);
            if !do_get(wp, s, &g, op.sd % 3 == 0, &|f| armed(op, f)) {
                s.faulted = true;
                verify(wp, s, "interrupted get");
            }
        }
        K::Bulk => {
            let mut r = Rng::new(op.sd);
            let mut ok = true;
            for i in 0..op.n {
                let gc = gen_coords(&mut r, &spec.cfg, i as u64);
                let g = F::g(&key_coords(&gc, F::D)[..]);
                ok = if r.pct(25) { do_insert_unique(wp, op, s, g) } else { do_insert(wp, op, s, g) };
                if !ok {
                    break;
                }
                if prop_is("C10") && i % 4 == 3 {
                    check_structure(s, "a bulk insert step");
                }
            }
            if ok {
                after_write(wp, s, "bulk insert");
            }
        }
        K::BulkRemove => {
            let mut r = Rng::new(op.sd);
            let mut ok = true;
            let order = r.below(3);
            for i in 0..op.n {
                let k = match nth_key(&s.m, match order {
                    0 => r.below(1000),
                    1 => 0,
                    _ => s.m.len().max(1) as u64 - 1,
                }) {
                    Some(k) => k,
                    None => break,
                };
                let g = s.m[&k].g.clone();
                let before = s.m.len();
                ok = do_remove(wp, op, s, g, r.pct(20));
                if !ok || s.m.len() == before {
                    break;
                }
                if prop_is("C10") && i % 2 == 1 {
                    check_structure(s, "a bulk remove step");
                }
            }
            if ok {
                after_write(wp, s, "bulk remove");
            }
        }
        K::Mut => cursor::mut_session(wp, op, a),
        K::Session => cursor::session(wp, op, a, b),
        K::CloneInto => {
            if prop_is("C07") && op.sd % 4 == 0 {
                do_twin(wp, op, s);
            } else if a != b && (op.sd >> 8) % 2 == 0 {
                let d = wp.slot(b);
                do_clone_from(wp, op, s, d);
                after_write(wp, d, "clone_from");
                verify(wp, s, "clone_from to another tree");
            } else {
                match do_clone(wp, op, s) {
                    None => {
                        s.faulted = true;
                        verify(wp, s, "interrupted clone");
                    }
                    Some((tree, m)) => {
                        s.cloned = true;
                        let (cfg, degraded, faulted) = (s.cfg, s.degraded, s.faulted);
                        let d = wp.slot(b);
                        drop_tree(wp, None, d, "dropping the tree");
                        d.tree = Some(tree);
                        d.m = m;
                        d.cfg = cfg;
                        d.degraded = degraded;
                        d.faulted = faulted;
                        d.cloned = true;
                        d.mutated = false;
                        after_write(wp, d, "clone");
                        if a != b {
                            verify(wp, s, "clone of it");
                        }
                    }
                }
            }
        }
        K::Reset => do_reset(wp, op, s),
        K::Swap => {
            if a != b {
                let (x, y) = (wp.slot(a), wp.slot(b));
                // Move the trees themselves, not the boxes holding them.
                std::mem::swap(&mut **x.tree.as_mut().unwrap(), &mut **y.tree.as_mut().unwrap());
                std::mem::swap(&mut x.m, &mut y.m);
                std::mem::swap(&mut x.cfg, &mut y.cfg);
                std::mem::swap(&mut x.degraded, &mut y.degraded);
                std::mem::swap(&mut x.faulted, &mut y.faulted);
                std::mem::swap(&mut x.cloned, &mut y.cloned);
                std::mem::swap(&mut x.mutated, &mut y.mutated);
                verify(wp, wp.slot(a), "moving the tree");
                verify(wp, wp.slot(b), "moving the tree");
            }
        }
        K::Full => {
            verify(wp, s, "nothing");
            check_structure(s, "nothing");
            let mut r = Rng::new(op.sd);
            if !s.m.is_empty() {
                for _ in 0..3 {
                    let k = nth_key(&s.m, r.below(1000)).unwrap();
                    let g = s.m[&k].g.clone();
                    do_get(wp, s, &g, false, &|f| sut(f));
                }
            }
        }
        K::BadConfig => {
            let max = (op.sd % 2) as usize;
            match sut(|| Tree::<F>::new(RTreeConfig { max_children: max, min_children: 0 })) {
                Err(Unw::Panic(_)) => {}
                Err(_) => {}
                Ok(t) => {
                    viol(&["C10"], "bad_capacity", &format!("RTree::new accepted max_children = {max}"));
                    let _ = sut(|| drop(t));
                }
            }
        }
    }
    tls().fault_kind = FK_NONE;
    unlock(wp, &want);
    sched::yield_point(Site::OpEnd);
}

pub struct RunOut {
    pub evhash: u64,
    pub events: u64,
    pub foreign: u64,
}

pub fn run_world<F: Fl>(spec: &Spec) -> RunOut {
    *sched::SCHED.get() = None;
    reset_registry();
    reset_uids();
    alloc::flush_quarantine();
    let ast = AST.get();
    ast.live = 0;
    ast.live_bytes = 0;
    *EVHASH.get() = 0;
    *EVCOUNT.get() = 0;
    *PAY.get() = 0;
    *LOOSE.get() = spec.cfg.loose;
    CTX.get().foreign = 0;
    for d in &mut CTX.get().op_desc {
        *d = "start".into();
    }
    tls().task = 0;
    if prop_is("C11") {
        crate::probe::check();
    }
    let n = spec.cfg.ntasks.clamp(1, sched::MAXT - 1);
    let mut w = World::<F> { spec, slots: Vec::new(), leaks_ok: false };
    for cfg in &spec.cfg.slots {
        w.slots.push(Slot {
            tree: Some(new_tree(*cfg)),
            m: BTreeMap::new(),
            cfg: *cfg,
            degraded: false,
            faulted: false,
            cloned: false,
            mutated: false,
            lock: 0,
        });
    }
    let wp = Wp(&mut w as *mut _);
    let scripts: Vec<Vec<usize>> =
        (0..n).map(|t| (0..spec.ops.len()).filter(|i| spec.ops[*i].task % n == t).collect()).collect();
    sched::init(n, Rng::sub(spec.cfg.seed, 3), spec.cfg.mean, spec.cfg.bb, spec.sched.as_deref());
    sched::run_tasks(n, &|t| {
        for i in &scripts[t] {
            if spent() {
                break;
            }
            run_op(wp, *i);
        }
    });
    tls().task = 0;
    CTX.get().op_desc[0] = "end of run".into();
    for i in 0..wp.w().slots.len() {
        let s = wp.slot(i);
        verify(wp, s, "the whole history");
        check_structure(s, "the whole history");
    }
    for i in 0..wp.w().slots.len() {
        drop_tree(wp, None, wp.slot(i), "dropping the tree at the end");
    }
    if !wp.w().leaks_ok {
        let live = LIVE_TOKENS.load(std::sync::atomic::Ordering::SeqCst);
        if live != 0 {
            viol(&["C08"], "token_leak", &format!("{live} keys and values were never dropped"));
        }
        let aux = LIVE_AUX.load(std::sync::atomic::Ordering::SeqCst);
        if aux != 0 {
            viol(&["C08"], "aux_leak", &format!("{aux} bounds, filters or rankings were never dropped"));
        }
        if AST.get().live != 0 {
            viol(
                &["C08"],
                "memory_leak",
                &format!("{} heap blocks ({} bytes) taken by the library were never released", AST.get().live, AST.get().live_bytes),
            );
        }
    }
    alloc::flush_quarantine();
    let c = cov();
    c.cut += spent() as u64;
    LOOKED.get().clear();
    c.runs += 1;
    c.multi_runs += (n > 1) as u64;
    c.flavors[spec.cfg.flavor % 16] += 1;
    c.foreign += (CTX.get().foreign > 0) as u64;
    RunOut { evhash: *EVHASH.get(), events: *EVCOUNT.get(), foreign: CTX.get().foreign }
}

pub fn tri_ok(t: Tri) -> bool {
    t != Tri::No
}
