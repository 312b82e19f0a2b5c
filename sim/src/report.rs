//! Violation reporting. A violation ends the process: the code under test may
//! be in any state.
use std::io::Write;

use crate::hooks::{tls, Racy, EVCOUNT, EVHASH};
use crate::sched;

extern "C" {
    pub fn _exit(code: i32) -> !;
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub record: Option<String>,
    pub spec_text: String,
    pub foreign: u64,
    pub op_desc: [String; 8],
    /// print every operation as it starts
    pub verbose: bool,
    pub print_hash: bool,
}
pub static CTX: Racy<Ctx> = Racy::new(Ctx {
    prop: String::new(),
    seed: 0,
    record: None,
    spec_text: String::new(),
    foreign: 0,
    op_desc: [const { String::new() }; 8],
    verbose: false,
    print_hash: false,
});

/// A violation of whatever property is being decided (memory errors, crashes,
/// hangs, panics nobody injected).
pub fn violation(_group: &str, kind: &str, msg: &str) -> ! {
    let t = tls();
    t.on = 0;
    t.track = 0;
    t.active = 0;
    let c = CTX.get();
    let line = format!(
        "VIOL\t{}\t{}\ttask {} during [{}]: {}\n",
        c.seed,
        kind,
        t.task,
        c.op_desc[t.task as usize % 8],
        msg.replace(['\n', '\t'], " ")
    );
    if let Some(path) = &c.record {
        let mut s = c.spec_text.clone();
        s.push_str(&sched::recorded_text());
        s.push_str(&format!("# violation {} {}\n", kind, msg.replace('\n', " ")));
        s.push_str(&format!("expect kind={} evhash={:016x} events={}\n", kind, EVHASH.get(), EVCOUNT.get()));
        let _ = std::fs::write(path, s);
    }
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    if c.print_hash {
        let _ = o.write_all(format!("HASH\t{:016x}\t{}\n", EVHASH.get(), EVCOUNT.get()).as_bytes());
    }
    let _ = o.flush();
    unsafe { _exit(10) }
}

/// A violation of specific properties; returns (and counts) when another
/// property is being decided.
pub fn viol(props: &[&str], kind: &str, msg: &str) {
    let c = CTX.get();
    if props.iter().any(|p| *p == c.prop) {
        violation("prop", kind, msg);
    }
    c.foreign += 1;
}

pub fn prop_is(p: &str) -> bool {
    CTX.get().prop == p
}
