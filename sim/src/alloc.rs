//! Global allocator: checks layouts, redzones, double frees and writes after
//! free on blocks taken by the code under test, counts them, and injects
//! allocation failure.
use std::alloc::{GlobalAlloc, Layout, System};

use crate::hooks::{cb, ev, tls, Racy, Site, FK_ALLOC, STATS};
use crate::report;

pub struct SimAlloc;

const HDR: usize = 48;
const MAGIC_LIVE: u64 = 0x51A1_10C8_ED00_0001;
const MAGIC_FREE: u64 = 0x51A1_10C8_ED00_0002;
const TAIL: usize = 16;
const FILL: u8 = 0xA5;
const POISON: u8 = 0xDE;
const RED: u8 = 0xFD;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u32,
    tracked: u32,
    base_off: u64,
    tag: u64,
    _pad: u64,
}

pub struct AllocStats {
    pub live: i64,
    pub live_bytes: i64,
    pub total: u64,
    pub freed: u64,
}
pub static AST: Racy<AllocStats> = Racy::new(AllocStats { live: 0, live_bytes: 0, total: 0, freed: 0 });

const QN: usize = 2048;
struct Quarantine {
    ring: [*mut u8; QN],
    pos: usize,
}
static QUAR: Racy<Quarantine> = Racy::new(Quarantine { ring: [std::ptr::null_mut(); QN], pos: 0 });

fn bad(kind: &str, msg: std::fmt::Arguments) -> ! {
    let t = tls();
    t.on = 0;
    t.track = 0;
    t.active = 0;
    report::violation("memory", kind, &format!("{msg}"));
}

unsafe fn raw_alloc(layout: Layout, tracked: bool) -> *mut u8 {
    let pre = HDR.max(layout.align());
    let tail = if tracked { TAIL } else { 0 };
    let al = layout.align().max(16);
    let full = match Layout::from_size_align(pre + layout.size() + tail, al) {
        Ok(l) => l,
        Err(_) => return std::ptr::null_mut(),
    };
    let base = System.alloc(full);
    if base.is_null() {
        return base;
    }
    let p = base.add(pre);
    crate::hooks::race::fresh(p, layout.size());
    let h = p.sub(HDR) as *mut Hdr;
    h.write(Hdr {
        magic: MAGIC_LIVE,
        size: layout.size() as u64,
        align: layout.align() as u32,
        tracked: tracked as u32,
        base_off: pre as u64,
        tag: 0,
        _pad: 0,
    });
    if tracked {
        std::ptr::write_bytes(p, FILL, layout.size());
        std::ptr::write_bytes(p.add(layout.size()), RED, TAIL);
    }
    p
}

unsafe fn raw_free(p: *mut u8, check_poison: bool) {
    let h = p.sub(HDR) as *mut Hdr;
    let (size, align, pre, tracked) = ((*h).size as usize, (*h).align as usize, (*h).base_off as usize, (*h).tracked != 0);
    if check_poison {
        if (*h).magic != MAGIC_FREE {
            bad("write_after_free", format_args!("header of a freed block of {size} bytes was overwritten"));
        }
        for i in 0..size {
            if *p.add(i) != POISON {
                bad("write_after_free", format_args!("byte {i} of a freed block of {size} bytes was overwritten"));
            }
        }
    }
    (*h).magic = 0;
    let al = align.max(16);
    let tail = if tracked { TAIL } else { 0 };
    System.dealloc(p.sub(pre), Layout::from_size_align_unchecked(pre + size + tail, al));
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let t = tls();
        if t.track == 0 {
            return raw_alloc(layout, false);
        }
        if layout.size() == 0 {
            bad("zero_size_alloc", format_args!("zero-size allocation requested from the global allocator"));
        }
        cb(Site::Alloc);
        if t.fault_kind == FK_ALLOC && t.fired == 0 {
            t.fault_seen += 1;
            if t.fault_seen >= t.fault_nth && !std::thread::panicking() {
                t.fired = 1;
                t.failed_size = layout.size() as u64;
                t.failed_align = layout.align() as u64;
                let on = t.on;
                t.on = 0;
                STATS.get().alloc_failed += 1;
                STATS.get().fired[Site::Alloc as usize] += 1;
                ev(0x301);
                t.on = on;
                return std::ptr::null_mut();
            }
        }
        let on = t.on;
        t.on = 0;
        let p = raw_alloc(layout, true);
        if !p.is_null() {
            let a = AST.get();
            a.live += 1;
            a.live_bytes += layout.size() as i64;
            a.total += 1;
        }
        t.on = on;
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let t = tls();
        let (on, track) = (t.on, t.track);
        t.on = 0;
        let h = p.sub(HDR) as *mut Hdr;
        let magic = (*h).magic;
        if magic != MAGIC_LIVE {
            if magic == MAGIC_FREE {
                bad("double_free", format_args!("heap block of {} bytes freed twice", layout.size()));
            }
            bad("invalid_free", format_args!("free of memory that is no heap block (layout {}/{})", layout.size(), layout.align()));
        }
        if (*h).size != layout.size() as u64 || (*h).align != layout.align() as u32 {
            bad(
                "dealloc_layout",
                format_args!(
                    "heap block taken with layout {}/{} released with layout {}/{}",
                    (*h).size,
                    (*h).align,
                    layout.size(),
                    layout.align()
                ),
            );
        }
        if (*h).tracked == 0 {
            raw_free(p, false);
            t.on = on;
            return;
        }
        for i in 0..TAIL {
            if *p.add(layout.size() + i) != RED {
                bad("heap_overflow", format_args!("write past the end of a heap block of {} bytes", layout.size()));
            }
        }
        std::ptr::write_bytes(p, POISON, layout.size());
        (*h).magic = MAGIC_FREE;
        let a = AST.get();
        a.live -= 1;
        a.live_bytes -= layout.size() as i64;
        a.freed += 1;
        let q = QUAR.get();
        let old = q.ring[q.pos];
        q.ring[q.pos] = p;
        q.pos = (q.pos + 1) % QN;
        if !old.is_null() {
            raw_free(old, true);
        }
        t.on = on;
        if track != 0 {
            cb(Site::Dealloc);
        }
    }
}

/// Verifies and empties the quarantine (end of a run).
pub fn flush_quarantine() {
    let q = QUAR.get();
    for i in 0..QN {
        let p = q.ring[i];
        if !p.is_null() {
            unsafe { raw_free(p, true) };
            q.ring[i] = std::ptr::null_mut();
        }
    }
    q.pos = 0;
}
