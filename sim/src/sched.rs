//! Seeded scheduler. Simulated tasks are real threads of which exactly one
//! runs at a time; every hand-over is decided here and recorded.
use crate::rng::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::thread::Thread;

use crate::hooks::{ev, tls, Racy, Site, TaskTls, STATS};
use crate::report;
use crate::rng::Rng;

/// Points (callbacks, allocations, basic blocks) one call of the code under
/// test may pass before it counts as hanging.
pub const HANG_LIMIT: u64 = 1_000_000_000;
pub const MAXT: usize = 6;
const NEVER: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Ready,
    Blocked,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sw {
    pub task: u8,
    pub point: u64,
    pub target: u8,
}

pub struct Sched {
    n: usize,
    cur: usize,
    st: [St; MAXT],
    threads: Vec<Thread>,
    next_sw: [u64; MAXT],
    rng: Rng,
    mean: u64,
    /// basic blocks are preemption points
    pub bb: bool,
    explicit: Option<HashMap<(u8, u64), u8>>,
    explicit_pts: Vec<Vec<u64>>,
    pub rec: Vec<Sw>,
    pub nswitch: u64,
    pub max_switches: u64,
}

static GO: [AtomicBool; MAXT + 1] = [const { AtomicBool::new(false) }; MAXT + 1];
pub static SCHED: Racy<Option<Sched>> = Racy::new(None);

pub fn init(n: usize, rng: Rng, mean: u64, bb: bool, explicit: Option<&[Sw]>) {
    let mut pts = vec![Vec::new(); MAXT];
    let map = explicit.map(|l| {
        let mut m = HashMap::default();
        for s in l {
            m.insert((s.task, s.point), s.target);
            pts[s.task as usize % MAXT].push(s.point);
        }
        for p in &mut pts {
            p.sort();
        }
        m
    });
    for g in &GO {
        g.store(false, Ordering::Relaxed);
    }
    *SCHED.get() = Some(Sched {
        n,
        cur: MAXT,
        st: [St::Ready; MAXT],
        threads: Vec::new(),
        next_sw: [NEVER; MAXT],
        rng,
        mean,
        bb,
        explicit: map,
        explicit_pts: pts,
        rec: Vec::new(),
        nswitch: 0,
        max_switches: 4000,
    });
}

fn sched() -> &'static mut Sched {
    SCHED.get().as_mut().unwrap()
}

pub fn recorded_text() -> String {
    let mut s = String::new();
    if let Some(sc) = SCHED.get() {
        for w in &sc.rec {
            s.push_str(&format!("switch task={} point={} to={}\n", w.task, w.point, w.target));
        }
    }
    s
}

impl Sched {
    fn draw_next(&mut self, task: usize, cnt: u64) {
        self.next_sw[task] = if self.explicit.is_some() {
            *self.explicit_pts[task].iter().find(|p| **p > cnt).unwrap_or(&NEVER)
        } else if self.n <= 1 || self.nswitch >= self.max_switches {
            NEVER
        } else {
            // Mixture: mostly around the mean, sometimes back to back.
            let m = self.mean;
            let d = match self.rng.below(10) {
                0 => 1 + self.rng.below(3),
                1..=6 => 1 + self.rng.below(2 * m),
                _ => 1 + self.rng.below(8 * m),
            };
            cnt + d
        };
    }

    /// Chooses whom to hand over to; records the decision.
    fn choose(&mut self, task: usize, cnt: u64, forced: bool) -> Option<usize> {
        let ready: Vec<usize> = (0..self.n).filter(|i| *i != task && self.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            return None;
        }
        let target = if let Some(m) = &self.explicit {
            match m.get(&(task as u8, cnt)) {
                Some(t) if ready.contains(&(*t as usize)) => *t as usize,
                _ if forced => ready[0],
                _ => return None,
            }
        } else {
            ready[self.rng.us(ready.len())]
        };
        self.rec.push(Sw { task: task as u8, point: cnt, target: target as u8 });
        self.nswitch += 1;
        Some(target)
    }
}

pub fn recompute_next(t: &mut TaskTls) {
    let s = match SCHED.get().as_ref() {
        Some(s) => s,
        None => return,
    };
    let k = t.task as usize;
    // With basic-block preemption off, block counting still guards against
    // hangs, but switches happen at soft points only.
    let sw = if s.bb { s.next_sw[k % MAXT] } else { NEVER };
    t.next = sw.min(t.hang_at);
}

fn hand_over(me: usize, target: usize) {
    let s = sched();
    s.cur = target;
    ev(0x500 + ((me as u64) << 4) + ((target as u64) << 8));
    GO[target].store(true, Ordering::Release);
    s.threads[target].unpark();
}

fn wait_turn(me: usize) {
    tls().parked = 1;
    while !GO[me].swap(false, Ordering::Acquire) {
        std::thread::park();
    }
    tls().parked = 0;
}

fn switch(me: usize, target: usize) {
    hand_over(me, target);
    wait_turn(me);
}

/// Entered from the basic-block hook when a task reaches its next point.
#[no_mangle]
pub extern "C" fn sim_preempt() {
    let t = tls();
    let saved = (t.track, t.active);
    t.track = 0;
    t.active = 0;
    if t.cnt >= t.hang_at {
        report::violation("hang", "hang", "a call of the library did not finish within the step limit");
    }
    maybe_switch(t, Site::Bb as u64);
    let t = tls();
    recompute_next(t);
    t.track = saved.0;
    t.active = saved.1;
}

/// Before an atomic access of the code under test: schedules search around
/// these more densely than elsewhere.
#[no_mangle]
pub extern "C" fn sim_atomic_point() {
    let t = tls();
    let saved = (t.track, t.active);
    t.track = 0;
    t.active = 0;
    if let Some(s) = SCHED.get().as_mut() {
        if s.n > 1 && s.bb && s.explicit.is_none() && s.nswitch < s.max_switches && s.rng.pct(30) {
            s.next_sw[t.task as usize] = t.cnt + 1;
            t.active = saved.1;
            recompute_next(t);
        }
    }
    t.track = saved.0;
    t.active = saved.1;
}

/// The code under test waits for another thread: the turn goes to another task.
#[no_mangle]
pub extern "C" fn sim_futex_yield() {
    let t = tls();
    let saved = (t.track, t.active);
    t.track = 0;
    t.active = 0;
    t.cnt += 1000;
    if t.cnt >= t.hang_at {
        report::violation("hang", "hang", "a call of the library waited for another thread beyond the step limit");
    }
    if let Some(s) = SCHED.get().as_mut() {
        let me = t.task as usize;
        if s.n > 1 {
            if let Some(target) = s.choose(me, t.cnt, true) {
                STATS.get().switch_at[Site::Lock as usize] += 1;
                switch(me, target);
            }
            sched().draw_next(me, t.cnt);
        }
    }
    let t = tls();
    recompute_next(t);
    t.track = saved.0;
    t.active = saved.1;
}

fn maybe_switch(t: &mut TaskTls, site: u64) {
    let s = match SCHED.get().as_mut() {
        Some(s) => s,
        None => return,
    };
    let me = t.task as usize;
    if t.cnt < s.next_sw[me] {
        return;
    }
    if s.n > 1 {
        if let Some(target) = s.choose(me, t.cnt, false) {
            STATS.get().switch_at[site as usize] += 1;
            switch(me, target);
        }
    }
    sched().draw_next(me, t.cnt);
}

/// A scheduling point outside basic-block instrumentation. Caller has masked
/// instrumentation.
pub fn soft_point(t: &mut TaskTls) {
    t.cnt += 1;
    if let Some(s) = SCHED.get().as_ref() {
        if s.n > 1 && t.cnt >= s.next_sw[t.task as usize] {
            let site = t.cur_site;
            maybe_switch(t, site);
            recompute_next(tls());
        } else if t.active != 0 && t.cnt >= t.hang_at {
            report::violation("hang", "hang", "a call of the library did not finish within the step limit");
        }
    }
}

/// A scheduling point of the simulator itself (operation boundaries).
pub fn yield_point(site: Site) {
    let t = tls();
    t.cur_site = site as u64;
    ev(0x600 + site as u64);
    soft_point(t);
}

/// Gives the turn away until `unblock_all`.
pub fn block() {
    let t = tls();
    let me = t.task as usize;
    let s = sched();
    s.st[me] = St::Blocked;
    t.cnt += 1;
    match s.choose(me, t.cnt, true) {
        Some(target) => {
            STATS.get().switch_at[Site::Lock as usize] += 1;
            switch(me, target);
        }
        None => {
            eprintln!("HARNESS: simulated deadlock");
            unsafe { report::_exit(3) };
        }
    }
    sched().draw_next(me, t.cnt);
    recompute_next(t);
}

pub fn unblock_all() {
    let s = sched();
    for x in &mut s.st[..s.n] {
        if *x == St::Blocked {
            *x = St::Ready;
        }
    }
}

/// Runs one body per task under the schedule; returns when all are done.
pub fn run_tasks(n: usize, body: &(dyn Fn(usize) + Sync)) {
    if n == 1 {
        let t = tls();
        t.task = 0;
        t.cnt = 0;
        t.hang_at = NEVER;
        let s = sched();
        s.cur = 0;
        s.draw_next(0, 0);
        recompute_next(t);
        body(0);
        STATS.get().points += tls().cnt;
        return;
    }
    crate::hooks::race::start(n);
    std::thread::scope(|sc| {
        let main = std::thread::current();
        let handles: Vec<_> = (0..n)
            .map(|i| {
                sc.spawn(move || {
                    let base = 0u64;
                    crate::hooks::race::stack(std::hint::black_box(&base) as *const u64 as *const u8);
                    wait_turn(i);
                    let t = tls();
                    t.task = i as u8;
                    t.cnt = 0;
                    t.hang_at = NEVER;
                    sched().draw_next(i, 0);
                    recompute_next(t);
                    body(i);
                    let t = tls();
                    STATS.get().points += t.cnt;
                    let s = sched();
                    s.st[i] = St::Done;
                    t.cnt += 1;
                    match s.choose(i, t.cnt, true) {
                        Some(target) => hand_over(i, target),
                        None => {
                            if s.st[..s.n].contains(&St::Blocked) {
                                eprintln!("HARNESS: simulated deadlock at end");
                                unsafe { report::_exit(3) };
                            }
                            hand_over(i, MAXT);
                        }
                    }
                })
            })
            .collect();
        let s = sched();
        for h in &handles {
            s.threads.push(h.thread().clone());
        }
        while s.threads.len() < MAXT {
            s.threads.push(main.clone());
        }
        s.threads.push(main.clone());
        // The first task to run is a decision as well: "task" MAXT is main.
        let first = if let Some(m) = &s.explicit {
            match m.get(&(MAXT as u8, 0)) {
                Some(t) if (*t as usize) < n => *t as usize,
                _ => 0,
            }
        } else {
            s.rng.us(n)
        };
        s.rec.push(Sw { task: MAXT as u8, point: 0, target: first as u8 });
        hand_over(MAXT, first);
        wait_turn(MAXT);
        crate::hooks::race::stop();
    });
}
