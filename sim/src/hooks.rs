//! Per-thread simulator state, callback hooks, fault injection points and the
//! token registry that accounts for every key and value.
use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{self, AssertUnwindSafe};

use crate::report;
use crate::sched;

#[repr(C)]
pub struct TaskTls {
    pub on: u8,
    pub track: u8,
    pub active: u8,
    pub task: u8,
    pub fired: u8,
    pub fault_kind: u8,
    pub alloc_reported: u8,
    pub parked: u8,
    pub cnt: u64,
    pub next: u64,
    pub hang_at: u64,
    pub fault_mask: u64,
    pub fault_nth: u32,
    pub fault_seen: u32,
    pub failed_size: u64,
    pub failed_align: u64,
    pub cur_site: u64,
    pub sut_bbs: u64,
}

extern "C" {
    fn sim_tls_ptr() -> *mut TaskTls;
    fn sim_race_built() -> i32;
    fn sim_race_start(tasks: i32);
    fn sim_race_stop();
    fn sim_race_lock(task: u32, slot: u32, write: u32);
    fn sim_race_unlock(task: u32, slot: u32, write: u32);
    fn sim_race_stack(top: *const u8);
    fn sim_race_fresh(p: *mut u8, n: u64);
    static mut sim_race_accesses: u64;
    static mut sim_race_atomics: u64;
}

/// The memory-access hooks of race.c: only the build with SIM_RACE has them.
pub mod race {
    use super::*;
    pub static CUR_OP: Racy<[u32; 8]> = Racy::new([0; 8]);
    pub fn built() -> bool {
        unsafe { sim_race_built() != 0 }
    }
    pub fn start(tasks: usize) {
        if built() {
            unsafe { sim_race_start(tasks as i32) }
        }
    }
    pub fn stop() {
        unsafe { sim_race_stop() }
    }
    pub fn stack(top: *const u8) {
        unsafe { sim_race_stack(top) }
    }
    pub fn lock(slot: usize, write: bool) {
        unsafe { sim_race_lock(tls().task as u32, slot as u32, write as u32) }
    }
    pub fn unlock(slot: usize, write: bool) {
        unsafe { sim_race_unlock(tls().task as u32, slot as u32, write as u32) }
    }
    #[inline]
    pub fn fresh(p: *mut u8, n: usize) {
        unsafe { sim_race_fresh(p, n as u64) }
    }
    /// plain accesses and atomic accesses checked so far
    pub fn counts() -> (u64, u64) {
        unsafe { (sim_race_accesses, sim_race_atomics) }
    }
    #[no_mangle]
    pub extern "C" fn sim_cur_op() -> u32 {
        CUR_OP.get()[tls().task as usize % 8]
    }
    #[no_mangle]
    pub extern "C" fn sim_race_report(me: u8, other: u8, task: u32, op: u32, size: u32) {
        let what = |k: u8| match k {
            0 => "read",
            1 => "write",
            2 => "atomic read",
            4 => "atomic write",
            _ => "atomic read-modify-write",
        };
        let op = if op != 0 { format!(" (operation #{op})") } else { String::new() };
        masked(|| {
            if std::env::var_os("SIM_BACKTRACE").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
            report::viol(
                &["C11"],
                "data_race",
                &format!("a {} of {size} bytes by the library is not ordered with a {} of them by task {task}{op}", what(me), what(other)),
            )
        });
    }
}

#[inline(always)]
pub fn tls() -> &'static mut TaskTls {
    unsafe { &mut *sim_tls_ptr() }
}

/// A static that only the one running task touches.
pub struct Racy<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self {
        Racy(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    #[inline(always)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub const FK_NONE: u8 = 0;
pub const FK_PANIC: u8 = 1;
pub const FK_ALLOC: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Site {
    KeyBounds,
    KeyEq,
    Union,
    UnionAll,
    BContains,
    BIntersects,
    Volume,
    BClone,
    KClone,
    VClone,
    KDrop,
    VDrop,
    FTestB,
    FTestK,
    RankB,
    RankK,
    MetCmp,
    JTestB,
    JTestK,
    JClone,
    QBounds,
    Alloc,
    Dealloc,
    OpBegin,
    OpEnd,
    Step,
    Bb,
    Lock,
    BDrop,
}
pub const NSITES: usize = 29;
pub const SITE_NAMES: [&str; NSITES] = [
    "key_bounds", "key_eq", "union", "union_all", "bounds_contains", "bounds_intersects", "volume",
    "bounds_clone", "key_clone", "value_clone", "key_drop", "value_drop", "filter_bounds",
    "filter_key", "rank_bounds", "rank_key", "metric_cmp", "join_bounds", "join_key", "join_clone",
    "query_bounds", "alloc", "dealloc", "op_begin", "op_end", "cursor_step", "basic_block", "lock", "bounds_drop",
];

pub struct Stats {
    pub sites: [u64; NSITES],
    pub fired: [u64; NSITES],
    pub alloc_failed: u64,
    pub switch_at: [u64; NSITES],
    pub points: u64,
}
pub static STATS: Racy<Stats> = Racy::new(Stats {
    sites: [0; NSITES],
    fired: [0; NSITES],
    alloc_failed: 0,
    switch_at: [0; NSITES],
    points: 0,
});

/// Running hash over everything observable in a run.
pub static EVHASH: Racy<u64> = Racy::new(0);
pub static EVCOUNT: Racy<u64> = Racy::new(0);
/// Past so many events a run only winds down: a chance pile-up of long joins
/// must not pass for a hang.
pub fn spent() -> bool {
    *EVCOUNT.get() > 10_000_000
}
/// Optional full event log (determinism debugging).
pub static EVLOG: Racy<Option<Vec<u64>>> = Racy::new(None);

#[inline]
pub fn ev(x: u64) {
    let t = tls();
    let on = t.on;
    t.on = 0;
    let h = EVHASH.get();
    *h = (*h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (x >> 7);
    *EVCOUNT.get() += 1;
    if let Some(l) = EVLOG.get() {
        masked(|| l.push(x));
    }
    t.on = on;
}

pub struct FaultTok;
pub struct AllocFaultTok;

/// Called at the start of every callback the code under test makes.
#[inline]
pub fn cb(site: Site) {
    let t = tls();
    if t.active == 0 {
        return;
    }
    cb_slow(t, site);
}

fn cb_slow(t: &'static mut TaskTls, site: Site) {
    let (on, track) = (t.on, t.track);
    t.on = 0;
    t.track = 0;
    let s = STATS.get();
    s.sites[site as usize] += 1;
    ev(0x100 + site as u64);
    t.cur_site = site as u64;
    sched::soft_point(t);
    if t.fault_kind == FK_PANIC && t.fired == 0 && (t.fault_mask >> site as u8) & 1 == 1 {
        t.fault_seen += 1;
        if t.fault_seen >= t.fault_nth && !std::thread::panicking() {
            t.fired = 1;
            s.fired[site as usize] += 1;
            ev(0x200 + site as u64);
            t.on = on;
            panic::resume_unwind(Box::new(FaultTok));
        }
    }
    t.cur_site = Site::Bb as u64;
    t.on = on;
    t.track = track;
}

#[derive(Debug, Clone, PartialEq)]
pub enum Unw {
    /// An injected callback fault came out of the call.
    Fault,
    /// An injected allocation failure came out through the error handler.
    Alloc,
    /// The code under test panicked by itself.
    Panic(String),
}

pub static LAST_PANIC: Racy<String> = Racy::new(String::new());

/// Runs a call of the code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Unw> {
    let t = tls();
    let saved = (t.on, t.track, t.active, t.hang_at);
    t.active = 1;
    t.track = 1;
    t.hang_at = t.cnt + sched::HANG_LIMIT;
    sched::recompute_next(t);
    t.on = 1;
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    let t = tls();
    t.on = saved.0;
    t.track = saved.1;
    t.active = saved.2;
    t.hang_at = saved.3;
    match r {
        Ok(r) => Ok(r),
        Err(p) => Err(classify(p)),
    }
}

fn classify(p: Box<dyn Any + Send>) -> Unw {
    if p.is::<FaultTok>() {
        Unw::Fault
    } else if p.is::<AllocFaultTok>() {
        Unw::Alloc
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Unw::Panic(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Unw::Panic(s.clone())
    } else {
        Unw::Panic("unknown panic payload".into())
    }
}

/// Code of the simulator that runs inside a callback.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    let t = tls();
    let saved = (t.on, t.track, t.active);
    t.on = 0;
    t.track = 0;
    t.active = 0;
    let r = f();
    let t = tls();
    t.on = saved.0;
    t.track = saved.1;
    t.active = saved.2;
    r
}

pub fn install() {
    panic::set_hook(Box::new(|info| {
        let t = tls();
        let saved = (t.on, t.track);
        t.on = 0;
        t.track = 0;
        if t.active == 0 {
            eprintln!("HARNESS PANIC: {info}");
            unsafe { report::_exit(3) };
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.get() = loc;
        t.on = saved.0;
        t.track = saved.1;
    }));
    std::alloc::set_alloc_error_hook(|layout| {
        let t = tls();
        let (on, track) = (t.on, t.track);
        t.on = 0;
        t.track = 0;
        if t.active == 0 || t.failed_size == 0 {
            eprintln!("HARNESS: allocation of {} bytes failed", layout.size());
            unsafe { report::_exit(3) };
        }
        if t.failed_size != layout.size() as u64 || t.failed_align != layout.align() as u64 {
            report::violation(
                "alloc-report",
                "alloc_layout_mismatch",
                &format!(
                    "allocation error handler got layout {}/{} but the failed request was {}/{}",
                    layout.size(),
                    layout.align(),
                    t.failed_size,
                    t.failed_align
                ),
            );
        }
        t.alloc_reported = 1;
        ev(0x300);
        t.on = on;
        let _ = track;
        if std::thread::panicking() {
            report::violation("crash", "double_alloc_fail", "allocation failed while unwinding");
        }
        panic::resume_unwind(Box::new(AllocFaultTok));
    });
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TokState {
    Live,
    Dropped,
}
#[derive(Clone, Copy)]
pub struct TokInfo {
    pub state: TokState,
    pub is_key: bool,
    pub origin: u32,
}
pub static REG: Racy<Vec<TokInfo>> = Racy::new(Vec::new());
pub static LIVE_TOKENS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

const TOK_SALT: u32 = 0x9E37_79B1;
fn tok_magic(id: u32) -> u32 {
    (id ^ 0x5bd1_e995).wrapping_mul(TOK_SALT) ^ 0x00c0_ffee
}

/// Identity of one key or value object. Dropping it twice, dropping a bitwise
/// garbage copy or reading it after its drop is reported.
pub struct Token {
    id: u32,
    magic: u32,
}

impl Token {
    pub fn new(is_key: bool, origin: u32) -> Token {
        masked(|| {
            let reg = REG.get();
            let id = reg.len() as u32;
            reg.push(TokInfo { state: TokState::Live, is_key, origin });
            LIVE_TOKENS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            Token { id, magic: tok_magic(id) }
        })
    }
    #[inline]
    pub fn id(&self) -> u32 {
        self.id
    }
    /// Validates the object behind the reference.
    pub fn check(&self, is_key: bool, what: &str) -> u32 {
        masked(|| self.check_at(is_key, what))
    }
    fn check_at(&self, is_key: bool, what: &str) -> u32 {
        let reg = REG.get();
        let id = self.id;
        if self.magic != tok_magic(id) || id as usize >= reg.len() {
            masked(|| {
                report::violation(
                    "memory",
                    "garbage_object",
                    &format!("{what} reached memory that holds no {} (id field {id:#x})", if is_key { "key" } else { "value" }),
                )
            });
        }
        let i = reg[id as usize];
        if i.state == TokState::Dropped || i.is_key != is_key {
            masked(|| {
                report::violation(
                    "memory",
                    "use_after_drop",
                    &format!("{what} used {} token {id} after it was dropped", if is_key { "key" } else { "value" }),
                )
            });
        }
        id
    }
}

pub fn tok_live(id: u32) -> bool {
    masked(|| REG.get()[id as usize].state == TokState::Live)
}
pub fn tok_origin(id: u32) -> u32 {
    masked(|| REG.get()[id as usize].origin)
}

impl Drop for Token {
    fn drop(&mut self) {
        let is_key = masked(|| self.note_drop());
        cb(if is_key { Site::KDrop } else { Site::VDrop });
    }
}
impl Token {
    fn note_drop(&mut self) -> bool {
        let reg = REG.get();
        let id = self.id;
        let bad_magic = self.magic != tok_magic(id) || id as usize >= reg.len();
        if bad_magic {
            masked(|| {
                report::violation("memory", "drop_garbage", &format!("drop ran on memory that holds no key or value (id field {id:#x})"))
            });
        }
        let is_key = reg[id as usize].is_key;
        if reg[id as usize].state == TokState::Dropped {
            masked(|| {
                report::violation("memory", "double_drop", &format!("{} token {id} dropped twice", if is_key { "key" } else { "value" }))
            });
        }
        reg[id as usize].state = TokState::Dropped;
        LIVE_TOKENS.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        ev(0x400 + ((id as u64) << 12));
        self.magic = 0xdead_dead;
        is_key
    }
}

/// Liveness of the other objects the library is given or makes: bounds,
/// filters, rankings, join filters.
/// Atomic because a task may be switched out between the basic blocks the
/// bookkeeping is inlined into.
pub static LIVE_AUX: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

/// Generation per object slot; an object is alive while its slot still has the
/// generation it was made with.
struct Aux {
    gen: Vec<u32>,
    free: Vec<u32>,
}
static AUX: Racy<Aux> = Racy::new(Aux { gen: Vec::new(), free: Vec::new() });
const AUX_CAP: usize = 1 << 18;
const AUX_SALT: u32 = 0x71fe_0b1e;

pub struct Live {
    id: u32,
    gen: u32,
    bounds: bool,
}
impl Live {
    pub fn new(bounds: bool) -> Live {
        masked(|| {
            LIVE_AUX.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let a = AUX.get();
            let id = a.free.pop().unwrap_or_else(|| {
                a.gen.push(AUX_SALT);
                a.gen.len() as u32 - 1
            });
            Live { id, gen: a.gen[id as usize], bounds }
        })
    }
    fn dead(&self) -> bool {
        masked(|| AUX.get().gen.get(self.id as usize) != Some(&self.gen))
    }
    pub fn check(&self, what: &str) {
        if self.dead() {
            masked(|| report::violation("memory", "use_after_drop", &format!("{what} used an object after its drop, or garbage")));
        }
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        if self.dead() {
            let what = if self.bounds { "bounds" } else { "a filter or ranking" };
            masked(|| report::violation("memory", "double_drop", &format!("{what} dropped twice, or garbage dropped as such")));
        }
        masked(|| {
            let a = AUX.get();
            a.gen[self.id as usize] = self.gen.wrapping_add(0x9e37);
            a.free.push(self.id);
            LIVE_AUX.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        });
        if self.bounds {
            cb(Site::BDrop);
        }
    }
}

/// Token bookkeeping between runs (single threaded).
pub fn reset_registry() {
    // Never moves during a run: a task may be switched out while it reads it.
    REG.get().clear();
    REG.get().reserve(1 << 18);
    let a = AUX.get();
    a.gen.clear();
    a.gen.reserve(AUX_CAP);
    a.free.clear();
    a.free.reserve(AUX_CAP);
    LIVE_AUX.store(0, std::sync::atomic::Ordering::SeqCst);
    LIVE_TOKENS.store(0, std::sync::atomic::Ordering::SeqCst);
}
