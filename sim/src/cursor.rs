//! Cursor sessions: several interleaved read cursors over one or two trees,
//! or one mutable cursor with lent references held and written in any order.
use std::cell::RefCell;
use crate::rng::{HashMap, HashSet};
use std::rc::Rc;

use crate::exec::*;
use crate::geo::{Fl, GBox, Tri, MD};
use crate::hooks::*;
use crate::report::{prop_is, viol};
use crate::rng::Rng;
use crate::sched;
use crate::spec::{gen_coords, Op};
use crate::structure::{Structure, NOPARENT};
use crate::types::*;

type KV<F> = (&'static SimKey<F>, &'static SimVal);
type EntryIt<F> = Box<dyn Cur<KV<F>>>;
type Pair<F> = (&'static (SimKey<F>, SimVal), &'static (SimKey<F>, SimVal));

enum It<F: Fl> {
    E(EntryIt<F>),
    J(Box<dyn Cur<Pair<F>>>),
    L(Box<dyn Cur<(KV<F>, EntryIt<F>)>>),
    M(MIt<F>),
}

type MIt<F> = Box<dyn Cur<(&'static SimKey<F>, &'static mut SimVal)>>;

/// The iterator methods a cursor may define for itself. The rest of the
/// standard adaptors are built from these.
trait Cur<T> {
    fn step(&mut self) -> Option<T>;
    fn skip_to(&mut self, n: usize) -> Option<T>;
    fn hint(&self) -> (usize, Option<usize>);
    /// Consumes the cursor, handing `f` some of its items; returns how many
    /// it passed over without showing them.
    fn consume(self: Box<Self>, how: u8, f: &mut dyn FnMut(T)) -> usize;
}

impl<T, I: Iterator<Item = T>> Cur<T> for I {
    fn step(&mut self) -> Option<T> {
        Iterator::next(self)
    }
    fn skip_to(&mut self, n: usize) -> Option<T> {
        Iterator::nth(self, n)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
    fn consume(self: Box<Self>, how: u8, f: &mut dyn FnMut(T)) -> usize {
        // The cursor's own methods, not those of its box
        let mut rest = *self;
        match how {
            0 => rest.for_each(f),
            1 => return rest.count(),
            2 => {
                let mut n = 0;
                // `last` is often defined by its own
                if let Some(x) = rest.inspect(|_| n += 1).last() {
                    f(x);
                    n -= 1;
                }
                return n;
            }
            _ => {
                // one by hand, the rest at once
                if let Some(x) = rest.next() {
                    f(x);
                }
                rest.fold((), |(), x| f(x));
            }
        }
        0
    }
}

/// A left join whose matches are cursors of this module.
struct LeftJoin<F: Fl, I>(I, std::marker::PhantomData<F>);

fn box_matches<F: Fl, M: Iterator<Item = KV<F>> + 'static>(x: (KV<F>, M)) -> (KV<F>, EntryIt<F>) {
    (x.0, masked(|| Box::new(x.1) as EntryIt<F>))
}

impl<F: Fl, M: Iterator<Item = KV<F>> + 'static, I: Iterator<Item = (KV<F>, M)>> Cur<(KV<F>, EntryIt<F>)> for LeftJoin<F, I> {
    fn step(&mut self) -> Option<(KV<F>, EntryIt<F>)> {
        self.0.next().map(box_matches::<F, M>)
    }
    fn skip_to(&mut self, n: usize) -> Option<(KV<F>, EntryIt<F>)> {
        self.0.nth(n).map(box_matches::<F, M>)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn consume(self: Box<Self>, how: u8, f: &mut dyn FnMut((KV<F>, EntryIt<F>))) -> usize {
        Cur::consume(Box::new(self.0), how, &mut |x| f(box_matches::<F, M>(x)))
    }
}

/// Node hierarchies a cursor's callbacks are checked against (C13).
struct Prune<F: Fl> {
    left: Option<Rc<Structure>>,
    right: Option<Rc<Structure>>,
    log: Log,
    pos: usize,
    /// filter verdict per node of `left`
    verdict: Vec<Option<bool>>,
    /// ranking lower bound per node
    low: Vec<Option<Option<i64>>>,
    searched: HashSet<usize>,
    /// right nodes rejected with each left node, and how many in all
    rejected: HashMap<usize, Vec<usize>>,
    n_rejected: usize,
    /// right nodes rejected with the bounds of a single left key
    key_rejected: HashMap<u32, Vec<usize>>,
    /// leaf pairs found to lie under no rejected pair, and at which count
    clear: HashMap<(usize, usize), usize>,
    /// largest lower bound of a searched node
    max_low: Option<i64>,
    refused: HashSet<(u32, u32)>,
    _f: std::marker::PhantomData<F>,
}

impl<F: Fl> Prune<F> {
    /// Whether the pair of nodes lies under a pair rejected before.
    fn under_rejected(&self, st: &Structure, rt: &Structure, x: usize, y: usize, also_itself: bool) -> bool {
        let mut a = x;
        while a != NOPARENT {
            if let Some(bs) = self.rejected.get(&a) {
                if bs.iter().any(|b| rt.is_above(*b, y) && (also_itself || (a, *b) != (x, y))) {
                    return true;
                }
            }
            a = st.nodes[a].parent;
        }
        false
    }
    fn key_under_rejected(&self, rt: &Structure, l: u32, y: usize, also_itself: bool) -> bool {
        self.key_rejected.get(&l).is_some_and(|bs| bs.iter().any(|b| rt.is_above(*b, y) && (also_itself || *b != y)))
    }
}

#[derive(Clone)]
struct FSpec {
    kind: usize,
    p: [i64; MD],
    e: [i64; MD],
    over: bool,
}

struct Cursor<F: Fl> {
    it: Option<It<F>>,
    name: &'static str,
    tags: Vec<&'static str>,
    a: usize,
    b: usize,
    flt: Option<FSpec>,
    rank: Option<Rank<F>>,
    join: Option<SimJoin<F>>,
    /// left entry of an inner left-join cursor
    lk: Option<GBox>,
    seen: HashSet<u64>,
    /// items passed over without being shown
    skipped: usize,
    last: Option<i64>,
    faulted: bool,
    ended: u8,
    prune: Option<Prune<F>>,
}

fn pick_query<F: Fl>(r: &mut Rng, wp: Wp<F>, s: &Slot<F>) -> ([i64; MD], [i64; MD]) {
    let cfg = &wp.spec().cfg;
    let o = gen_coords(r, cfg, r.clone().below(50));
    let mut p = [0; MD];
    let mut e = [0; MD];
    p.copy_from_slice(&o[..MD]);
    e.copy_from_slice(&o[MD..2 * MD]);
    let bx = |r: &mut Rng| nth_key(&s.m, r.below(1000)).map(|k| s.m[&k].gbox);
    match r.below(10) {
        // exactly the box of an entry
        0 | 1 => {
            if let Some(b) = bx(r) {
                for i in 0..F::D {
                    p[i] = b.lo[i];
                    e[i] = b.hi[i] - b.lo[i];
                }
            }
        }
        // from the corner of one entry to the corner of another
        2..=4 => {
            if let (Some(b), Some(c)) = (bx(r), bx(r)) {
                for i in 0..F::D {
                    let (x, y) = (if r.pct(50) { b.lo[i] } else { b.hi[i] }, if r.pct(50) { c.lo[i] } else { c.hi[i] });
                    p[i] = x.min(y);
                    e[i] = x.max(y) - x.min(y);
                }
            }
        }
        // everything, or next to everything
        5 => {
            for i in 0..F::D {
                p[i] = r.range(0, 2);
                e[i] = 2 * cfg.dom.max(1);
            }
        }
        // nothing
        6 => {
            for i in 0..F::D {
                p[i] = 3 * cfg.dom + 5;
                e[i] = r.range(0, 2);
            }
        }
        // large
        7 => {
            for x in e.iter_mut().take(F::D) {
                *x = r.range(0, cfg.dom);
            }
        }
        _ => {}
    }
    (p, e)
}

fn fspec<F: Fl>(r: &mut Rng, wp: Wp<F>, s: &Slot<F>) -> FSpec {
    let (p, e) = pick_query(r, wp, s);
    FSpec { kind: r.us(F::n_filters()), p, e, over: r.pct(10) }
}

fn expect_filter<F: Fl>(f: &FSpec, g: &F::G) -> Tri {
    F::expect(f.kind, &f.p, &f.e, g)
}

impl<F: Fl> Cursor<F> {
    fn new(name: &'static str, tag: &[&'static str], wp: Wp<F>, a: usize, b: usize) -> Self {
        let mut tags = tag.to_vec();
        if wp.multi() {
            tags.push("C11");
        }
        *cov().cursors.entry(name).or_insert(0) += 1;
        Cursor { tags, ..Self::quiet(name, a, b) }
    }

    fn quiet(name: &'static str, a: usize, b: usize) -> Self {
        Cursor {
            it: None,
            name,
            tags: Vec::new(),
            a,
            b,
            flt: None,
            rank: None,
            join: None,
            lk: None,
            seen: HashSet::default(),
            skipped: 0,
            last: None,
            faulted: false,
            ended: 0,
            prune: None,
        }
    }

    fn degraded(&self, wp: Wp<F>) -> bool {
        wp.slot(self.a).degraded || wp.slot(self.b).degraded
    }

    fn log(&self) -> Option<Log> {
        self.prune.as_ref().map(|p| p.log.clone())
    }

    fn v(&self, kind: &str, msg: String) {
        viol(&self.tags, kind, &format!("{}: {msg}", self.name));
    }

    fn expected(&self, g: &F::G, gb: &GBox) -> Tri {
        if let Some(lk) = &self.lk {
            return if self.join.as_ref().unwrap().expect(lk, gb) { Tri::Yes } else { Tri::No };
        }
        match &self.flt {
            Some(f) => expect_filter::<F>(f, g),
            None => Tri::Yes,
        }
    }

    /// Slot the yielded entries belong to.
    fn item_slot(&self) -> usize {
        if self.lk.is_some() {
            self.b
        } else {
            self.a
        }
    }

    fn check_entry(&self, wp: Wp<F>, slot: usize, k: &SimKey<F>, v: &SimVal) -> Option<u32> {
        let (kt, vt) = (k.check(self.name), v.check(self.name));
        ev(0xC00 ^ ((kt as u64) << 12) ^ ((vt as u64) << 40));
        match wp.slot(slot).m.get(&kt) {
            None => {
                self.v("foreign_item", format!("yielded key token {kt}, which is not in the tree"));
                None
            }
            Some(e) => {
                if e.v != vt || e.pay != v.pay {
                    self.v("wrong_value", format!("yielded value token {vt} ({}) for key token {kt} instead of {} ({})", v.pay, e.v, e.pay));
                }
                Some(kt)
            }
        }
    }

    fn on_entry(&mut self, wp: Wp<F>, k: &SimKey<F>, v: &SimVal) -> Option<u32> {
        cov().items += 1;
        let slot = self.item_slot();
        let kt = self.check_entry(wp, slot, k, v)?;
        if !self.seen.insert(kt as u64) {
            self.v("duplicate_item", format!("yielded key token {kt} twice"));
        }
        let e = &wp.slot(slot).m[&kt];
        if self.expected(&e.g, &e.gbox) == Tri::No {
            self.v("nonmatching", format!("yielded key token {kt} at {:?}, which does not match", e.gbox));
        }
        if let Some(r) = &self.rank {
            let m = r.metric(&e.gbox);
            if !self.faulted && !self.degraded(wp) {
                if let Some(l) = self.last {
                    if m < l {
                        self.v("order", format!("yielded key token {kt} with metric {m} after an entry with metric {l}"));
                    }
                }
            }
            self.last = Some(m);
        }
        self.prune_check(wp, Some((kt, u32::MAX)));
        Some(kt)
    }

    fn on_pair(&mut self, wp: Wp<F>, x: Pair<F>) {
        cov().items += 1;
        let l = self.check_entry(wp, self.a, &x.0 .0, &x.0 .1);
        let r = self.check_entry(wp, self.b, &x.1 .0, &x.1 .1);
        if let (Some(l), Some(r)) = (l, r) {
            if !self.seen.insert(((l as u64) << 32) | r as u64) {
                self.v("duplicate_item", format!("yielded the pair of key tokens {l}, {r} twice"));
            }
            let (gl, gr) = (wp.slot(self.a).m[&l].gbox, wp.slot(self.b).m[&r].gbox);
            if !self.join.as_ref().unwrap().expect(&gl, &gr) {
                self.v("nonmatching", format!("yielded the pair of key tokens {l}, {r} at {gl:?}, {gr:?}, which does not match"));
            }
            self.prune_check(wp, Some((l, r)));
        }
    }

    /// The cursor said it is exhausted.
    fn on_end(&mut self, wp: Wp<F>) {
        ev(0xC10);
        self.ended += 1;
        if self.ended > 1 {
            return;
        }
        cov().completed += 1;
        self.prune_check(wp, None);
        let strict_degraded = matches!(self.name, "iter" | "into_iter" | "iter_mut" | "into_iter_mut");
        if self.faulted || (self.degraded(wp) && !strict_degraded) {
            return;
        }
        // Every item not seen must have been passed over.
        let mut left = self.skipped;
        let wanting = self.unseen(wp, &mut |c, what| {
            if left == 0 {
                c.v("missing", format!("never yielded {what}"));
            }
            left = left.saturating_sub(1);
        });
        if wanting.0 + wanting.1 < self.skipped {
            self.v("too_many", format!("passed over {} items where at most {} were left", self.skipped, wanting.0 + wanting.1));
        }
    }

    /// How many items must and how many more may still be yielded.
    fn unseen(&self, wp: Wp<F>, on: &mut dyn FnMut(&Self, String)) -> (usize, usize) {
        let mut n = (0, 0);
        if matches!(self.name, "join") {
            let j = self.join.as_ref().unwrap();
            for (l, el) in &wp.slot(self.a).m {
                for (r, er) in &wp.slot(self.b).m {
                    if j.expect(&el.gbox, &er.gbox) && !self.seen.contains(&(((*l as u64) << 32) | *r as u64)) {
                        n.0 += 1;
                        on(self, format!("the pair of key tokens {l}, {r} at {:?}, {:?}", el.gbox, er.gbox));
                    }
                }
            }
            return n;
        }
        for (k, e) in &wp.slot(self.item_slot()).m {
            if !self.seen.contains(&(*k as u64)) {
                match self.expected(&e.g, &e.gbox) {
                    Tri::Yes => {
                        n.0 += 1;
                        on(self, format!("key token {k} at {:?}", e.gbox));
                    }
                    Tri::Maybe => n.1 += 1,
                    Tri::No => {}
                }
            }
        }
        n
    }

    /// `nth` found nothing after at most `n` items.
    fn on_nth_end(&mut self, wp: Wp<F>, n: usize) {
        if self.ended == 0 && !self.faulted && !self.degraded(wp) {
            let (must, _) = self.unseen(wp, &mut |_, _| {});
            let left = must.saturating_sub(self.skipped);
            if left > n {
                self.v("missing", format!("nth({n}) found nothing with {left} items left"));
            }
            self.skipped = self.skipped.max(must);
        }
        self.on_end(wp);
    }

    /// What a size hint promises must hold.
    fn on_hint(&self, wp: Wp<F>, (lo, hi): (usize, Option<usize>)) {
        if (lo == 0 && hi.is_none()) || self.faulted || self.degraded(wp) {
            return;
        }
        let (must, may) = if self.ended > 0 { (self.skipped, 0) } else { self.unseen(wp, &mut |_, _| {}) };
        let (must, may) = (must.saturating_sub(self.skipped), must + may - self.skipped.min(must + may));
        if lo > may || hi.is_some_and(|h| h < must) {
            self.v("size_hint", format!("size_hint() is ({lo}, {hi:?}) with {must} items left"));
        }
    }

    // ------------------------------------------------------------ pruning

    fn node_verdict(&mut self, n: usize) -> bool {
        let f = self.flt.clone();
        let p = self.prune.as_mut().unwrap();
        if p.verdict[n].is_none() {
            let v = match (&f, &p.left.as_ref().unwrap().nodes[n].bx) {
                (Some(f), Some(b)) => f.over || F::filter(f.kind, &f.p, &f.e).tb(&F::bx_of(b)),
                _ => true,
            };
            p.verdict[n] = Some(v);
        }
        p.verdict[n].unwrap()
    }
    /// Lower bound the ranking gives for a node; None when there is none.
    fn node_low(&mut self, n: usize) -> Option<i64> {
        if self.prune.as_ref().unwrap().low[n].is_none() {
            let ok = self.flt.is_none() || self.node_verdict(n);
            let p = self.prune.as_mut().unwrap();
            let v = match &p.left.as_ref().unwrap().nodes[n].bx {
                Some(b) if ok => Some(self.rank.as_ref().unwrap().bmin(&F::bx_of(b))),
                Some(_) => None,
                None => Some(i64::MIN),
            };
            p.low[n] = Some(v);
        }
        self.prune.as_ref().unwrap().low[n].unwrap()
    }

    /// Replays the callbacks logged since the last yield against the node
    /// hierarchy.
    fn prune_check(&mut self, wp: Wp<F>, yielded: Option<(u32, u32)>) {
        let _ = wp;
        let (events, st, rt) = match &mut self.prune {
            None => return,
            Some(p) => {
                let l = p.log.borrow();
                let e = l[p.pos..].to_vec();
                p.pos = l.len();
                (e, p.left.clone(), p.right.clone())
            }
        };
        let st = match st {
            Some(s) => s,
            None => return,
        };
        let c13 = ["C13"];
        for e in events {
            match e {
                LogEv::B(uid, _) | LogEv::RB(uid, _) => {
                    let n = match st.by_uid.get(&uid) {
                        Some((n, false)) => *n,
                        _ => continue,
                    };
                    self.searched(st.nodes[n].parent, &st);
                }
                LogEv::K(tok, v) => {
                    if !v {
                        self.prune.as_mut().unwrap().refused.insert((tok, u32::MAX));
                    }
                    if let Some(n) = st.leaf_of.get(&tok) {
                        self.searched(*n, &st);
                    }
                }
                LogEv::RK(tok, m) => {
                    if m.is_none() {
                        self.prune.as_mut().unwrap().refused.insert((tok, u32::MAX));
                    }
                    if let Some(n) = st.leaf_of.get(&tok) {
                        self.searched(*n, &st);
                    }
                }
                LogEv::JB(l, tok, r, v) => {
                    let rt = rt.as_ref().unwrap();
                    let y = match rt.by_uid.get(&r) {
                        Some((y, false)) => *y,
                        _ => continue,
                    };
                    let p = self.prune.as_mut().unwrap();
                    match (st.by_uid.get(&l), st.leaf_of.get(&tok)) {
                        (Some((x, false)), _) => {
                            let x = *x;
                            if p.under_rejected(&st, rt, x, y, false) {
                                viol(&c13, "under_rejected", &format!("{}: tested a pair of bounds under a rejected pair", self.name));
                            }
                            if !v {
                                p.rejected.entry(x).or_default().push(y);
                                p.n_rejected += 1;
                            }
                        }
                        // The bounds of a single left key: a left join's matches.
                        (None, Some(x)) => {
                            if p.under_rejected(&st, rt, *x, y, true) || p.key_under_rejected(rt, tok, y, false) {
                                viol(&c13, "under_rejected", &format!("{}: tested bounds of key token {tok} under a rejected pair", self.name));
                            }
                            if !v {
                                p.key_rejected.entry(tok).or_default().push(y);
                            }
                        }
                        _ => continue,
                    }
                }
                LogEv::JK(l, r, v) => {
                    let rt = rt.as_ref().unwrap();
                    let (x, y) = match (st.leaf_of.get(&l), rt.leaf_of.get(&r)) {
                        (Some(x), Some(y)) => (*x, *y),
                        _ => continue,
                    };
                    let p = self.prune.as_mut().unwrap();
                    if !v {
                        p.refused.insert((l, r));
                    }
                    if p.key_under_rejected(rt, l, y, true) {
                        viol(&c13, "under_rejected", &format!("{}: tested key tokens {l}, {r} under bounds rejected for the left key", self.name));
                    }
                    let now = p.n_rejected;
                    if p.clear.get(&(x, y)) == Some(&now) {
                        continue;
                    }
                    if p.under_rejected(&st, rt, x, y, true) {
                        viol(&c13, "under_rejected", &format!("{}: tested key tokens {l}, {r} under a rejected pair of bounds", self.name));
                    }
                    p.clear.insert((x, y), now);
                    if let (Some(bl), Some(br)) = (&st.nodes[x].bx, &rt.nodes[y].bx) {
                        if !self.join.as_ref().unwrap().tb(&F::bx_of(bl), &F::bx_of(br)) {
                            viol(&c13, "unpruned", &format!("{}: tested key tokens {l}, {r} of leaves whose bounds the filter rejects", self.name));
                        }
                    }
                }
            }
        }
        if let Some(y) = yielded {
            if self.prune.as_ref().unwrap().refused.contains(&y) {
                viol(&c13, "refused_yielded", &format!("{}: yielded key token {} which the filter rejected", self.name, y.0));
            }
            if let (Some(m), true, false) = (self.last, self.rank.is_some(), self.faulted) {
                if let Some(low) = self.prune.as_ref().unwrap().max_low.filter(|low| *low > m) {
                    viol(
                        &c13,
                        "not_best_first",
                        &format!("{}: searched a node with lower bound {low} before yielding an entry with metric {m}", self.name),
                    );
                }
            }
        }
    }

    /// Notes that the contents of a node, and so of all nodes above it, have
    /// been searched.
    fn searched(&mut self, mut n: usize, st: &Structure) {
        while n != NOPARENT {
            if !self.prune.as_mut().unwrap().searched.insert(n) {
                return;
            }
            if self.flt.is_some() && !self.node_verdict(n) {
                viol(&["C13"], "unpruned", &format!("{}: searched a node whose bounds the filter rejects", self.name));
            }
            if self.rank.is_some() {
                let low = self.node_low(n);
                if low.is_none() {
                    viol(&["C13"], "unpruned", &format!("{}: searched a node without a lower bound", self.name));
                }
                let p = self.prune.as_mut().unwrap();
                p.max_low = p.max_low.max(low);
            }
            n = st.nodes[n].parent;
        }
    }
}

struct Session<F: Fl> {
    wp: Wp<F>,
    op: &'static Op,
    a: usize,
    b: usize,
    r: Rng,
    sa: Option<Rc<Structure>>,
    sb: Option<Rc<Structure>>,
    faulted: bool,
    /// closed left joins, whose matches may still be read
    closed: Vec<Cursor<F>>,
}

impl<F: Fl> Session<F> {
    fn prune(&self, two: bool) -> Option<Prune<F>> {
        if !prop_is("C13") || self.sa.is_none() || (two && self.sb.is_none()) {
            return None;
        }
        let n = self.sa.as_ref().unwrap().nodes.len();
        Some(Prune {
            left: self.sa.clone(),
            right: if two { self.sb.clone() } else { None },
            log: Rc::new(RefCell::new(Vec::new())),
            pos: 0,
            verdict: vec![None; n],
            low: vec![None; n],
            searched: HashSet::default(),
            rejected: HashMap::default(),
            n_rejected: 0,
            key_rejected: HashMap::default(),
            clear: HashMap::default(),
            max_low: None,
            refused: HashSet::default(),
            _f: std::marker::PhantomData,
        })
    }

    /// A read of the same tree from inside a filter callback.
    fn reent(&mut self) -> Reent<'static> {
        if !self.r.pct(12) || self.wp.slot(self.a).degraded {
            return None;
        }
        let (wp, a, n) = (self.wp, self.a, self.r.below(1000));
        let count = std::cell::Cell::new(0u32);
        Some(Rc::new(move || {
            count.set(count.get() + 1);
            if count.get() > 6 {
                return;
            }
            cov().reentrant += 1;
            let s = wp.slot(a);
            let t = s.t();
            if let Some(k) = nth_key(&s.m, n + count.get() as u64) {
                let g = s.m[&k].g.clone();
                let t0 = tls();
                let saved = (t0.fired, t0.fault_kind);
                t0.fault_kind = FK_NONE;
                let first = do_get(wp, s, &g, false, &|f| sut(f));
                let l = sut(|| t.len());
                let t0 = tls();
                t0.fired = saved.0;
                t0.fault_kind = saved.1;
                let _ = first;
                if let Ok(l) = l {
                    if l != s.m.len() {
                        viol(&["C02", "C11"], "wrong_len", &format!("len() = {l} from inside a callback, with {} entries", s.m.len()));
                    }
                }
            }
        }))
    }

    fn fail(&mut self, u: &Unw, what: &str) {
        let degraded = self.wp.slot(self.a).degraded || self.wp.slot(self.b).degraded;
        unexpected(u, degraded, what);
        if *u == Unw::Fault || *u == Unw::Alloc {
            cov().read_faults += 1;
            self.faulted = true;
            self.wp.slot(self.a).faulted = true;
            self.wp.slot(self.b).faulted = true;
        }
        ev(0xC20);
    }

    fn boxed_filter(&mut self, f: &FSpec, log: Option<Log>) -> SimFilter<'static, F> {
        let reent = self.reent();
        SimFilter { inner: F::filter(f.kind, &f.p, &f.e), over: f.over, log, reent, live: Live::new(false) }
    }

    fn open(&mut self) -> Option<Cursor<F>> {
        let wp = self.wp;
        let w: [u32; 7] = match crate::report::CTX.get().prop.as_str() {
            "C02" => [30, 20, 8, 4, 4, 4, 4],
            "C03" => [3, 2, 60, 4, 4, 3, 3],
            "C04" => [3, 2, 6, 40, 40, 2, 2],
            "C05" => [2, 2, 4, 3, 3, 60, 5],
            "C06" => [2, 2, 4, 3, 3, 6, 60],
            "C13" => [1, 1, 36, 24, 20, 22, 18],
            _ => [10, 6, 20, 14, 14, 16, 18],
        };
        let kind = self.r.weighted(&w);
        let (a, b) = (self.a, self.b);
        let t = wp.slot(a).t();
        let t2 = wp.slot(b).t();
        let op = self.op;
        match kind {
            0 => {
                let mut c = Cursor::new("iter", &["C02"], wp, a, a);
                match armed(op, || {
                    let i = t.iter();
                    masked(|| Box::new(i) as EntryIt<F>)
                }) {
                    Ok(i) => c.it = Some(It::E(i)),
                    Err(u) => {
                        self.fail(&u, "iter");
                        return None;
                    }
                }
                Some(c)
            }
            1 => {
                let mut c = Cursor::new("into_iter", &["C02"], wp, a, a);
                match armed(op, || {
                    let i = t.into_iter();
                    masked(|| Box::new(i) as EntryIt<F>)
                }) {
                    Ok(i) => c.it = Some(It::E(i)),
                    Err(u) => {
                        self.fail(&u, "into_iter");
                        return None;
                    }
                }
                Some(c)
            }
            2 => {
                let mut c = Cursor::new("filter_iter", &["C03"], wp, a, a);
                c.prune = self.prune(false);
                let f = fspec(&mut self.r, wp, wp.slot(a));
                let filter = self.boxed_filter(&f, c.log());
                c.flt = Some(f);
                match armed(op, || {
                    let i = t.filter_iter::<Body<F>, _>(filter);
                    masked(|| Box::new(i) as EntryIt<F>)
                }) {
                    Ok(i) => c.it = Some(It::E(i)),
                    Err(u) => {
                        self.fail(&u, "filter_iter");
                        return None;
                    }
                }
                Some(c)
            }
            3 => {
                let mut c = Cursor::new("iter_asc_by", &["C04"], wp, a, a);
                c.prune = self.prune(false);
                let (kind, p) = (self.r.us(N_RANKS), pick_query(&mut self.r, wp, wp.slot(a)).0);
                let rank = Rank::<F>::new(kind, &p, c.log());
                c.rank = Some(Rank::new(kind, &p, None));
                match armed(op, || {
                    let i = t.iter_asc_by(rank);
                    masked(|| Box::new(i) as EntryIt<F>)
                }) {
                    Ok(i) => c.it = Some(It::E(i)),
                    Err(u) => {
                        self.fail(&u, "iter_asc_by");
                        return None;
                    }
                }
                Some(c)
            }
            4 => {
                let mut c = Cursor::new("filter_iter_asc_by", &["C04"], wp, a, a);
                c.prune = self.prune(false);
                let f = fspec(&mut self.r, wp, wp.slot(a));
                let (kind, p) = (self.r.us(N_RANKS), pick_query(&mut self.r, wp, wp.slot(a)).0);
                let rank = FRank::<F> {
                    rank: Rank::new(kind, &p, None),
                    filter: F::filter(f.kind, &f.p, &f.e),
                    over: f.over,
                    log: c.log(),
                };
                c.rank = Some(Rank::new(kind, &p, None));
                c.flt = Some(f);
                match armed(op, || {
                    let i = t.filter_iter_asc_by(rank);
                    masked(|| Box::new(i) as EntryIt<F>)
                }) {
                    Ok(i) => c.it = Some(It::E(i)),
                    Err(u) => {
                        self.fail(&u, "filter_iter_asc_by");
                        return None;
                    }
                }
                Some(c)
            }
            5 => {
                let mut c = Cursor::new("join", &["C05"], wp, a, b);
                c.prune = self.prune(true);
                let (kind, rad, over) = self.join_spec();
                c.join = Some(SimJoin::new(kind, rad, over, None));
                let j = SimJoin::<F>::new(kind, rad, over, c.log());
                match armed(op, || {
                    let i = t.join::<SimB<F>, SimKey<F>, SimVal, Body<F>, Body<F>, _>(t2, j);
                    masked(|| Box::new(i) as Box<dyn Cur<Pair<F>>>)
                }) {
                    Ok(i) => c.it = Some(It::J(i)),
                    Err(u) => {
                        self.fail(&u, "join");
                        return None;
                    }
                }
                Some(c)
            }
            _ => {
                let mut c = Cursor::new("left_join", &["C06"], wp, a, b);
                c.prune = self.prune(true);
                let (kind, rad, over) = self.join_spec();
                c.join = Some(SimJoin::new(kind, rad, over, None));
                let j = SimJoin::<F>::new(kind, rad, over, c.log());
                match armed(op, || {
                    let i = t.left_join::<SimB<F>, SimKey<F>, SimVal, Body<F>, Body<F>, _>(t2, j);
                    masked(|| Box::new(LeftJoin::<F, _>(i, std::marker::PhantomData)) as Box<dyn Cur<(KV<F>, EntryIt<F>)>>)
                }) {
                    Ok(i) => c.it = Some(It::L(i)),
                    Err(u) => {
                        self.fail(&u, "left_join");
                        return None;
                    }
                }
                Some(c)
            }
        }
    }

    fn join_spec(&mut self) -> (usize, i64, bool) {
        let kind = if self.r.pct(40) { 0 } else { self.r.us(N_JOINS) };
        let big = self.wp.slot(self.a).m.len() * self.wp.slot(self.b).m.len() > 3000;
        // The full product of large trees is rarely worth its time.
        let kind = if big && matches!(kind, 2 | 6) && self.r.pct(70) { 1 } else { kind };
        let rad = self.r.range(0, self.wp.spec().cfg.dom / 2);
        (kind, rad, self.r.pct(8) && !big)
    }

    /// One step of a cursor. A left join's step may open another cursor.
    fn step(&mut self, c: &mut Cursor<F>) -> Option<Cursor<F>> {
        let wp = self.wp;
        let op = self.op;
        let mut opened = None;
        let was_ended = c.ended;
        // Now and then skip some with `nth`.
        let most = if self.r.pct(80) { 4 } else { 200 };
        let nth = if self.r.pct(4) { Some(self.r.us(most)) } else { None };
        fn go<T>(i: &mut dyn Cur<T>, nth: Option<usize>) -> Option<T> {
            match nth {
                None => i.step(),
                Some(n) => i.skip_to(n),
            }
        }
        let skip = |c: &mut Cursor<F>| c.skipped += nth.unwrap_or(0);
        let hint = self.r.pct(3);
        match c.it.as_mut()? {
            It::E(i) => match armed(op, || go(&mut **i, nth)) {
                Ok(Some((k, v))) => {
                    if was_ended > 0 {
                        c.v("revived", "yielded an entry after it was exhausted".into());
                    }
                    skip(c);
                    c.on_entry(wp, k, v);
                }
                Ok(None) => c.on_nth_end(wp, nth.unwrap_or(0)),
                Err(u) => self.cur_fail(c, &u),
            },
            It::J(i) => match armed(op, || go(&mut **i, nth)) {
                Ok(Some(p)) => {
                    if was_ended > 0 {
                        c.v("revived", "yielded a pair after it was exhausted".into());
                    }
                    skip(c);
                    c.on_pair(wp, p);
                }
                Ok(None) => c.on_nth_end(wp, nth.unwrap_or(0)),
                Err(u) => self.cur_fail(c, &u),
            },
            It::L(i) => match armed(op, || go(&mut **i, nth)) {
                Ok(Some((kv, inner))) => {
                    if was_ended > 0 {
                        c.v("revived", "yielded an entry after it was exhausted".into());
                    }
                    skip(c);
                    opened = Some(Self::on_left(wp, c, kv, inner));
                }
                Ok(None) => c.on_nth_end(wp, nth.unwrap_or(0)),
                Err(u) => self.cur_fail(c, &u),
            },
            It::M(_) => unreachable!(),
        }
        if hint {
            let h = match c.it.as_ref()? {
                It::E(i) => armed(op, || i.hint()),
                It::J(i) => armed(op, || i.hint()),
                It::L(i) => armed(op, || i.hint()),
                It::M(_) => unreachable!(),
            };
            match h {
                Ok(h) => c.on_hint(wp, h),
                Err(u) => self.cur_fail(c, &u),
            }
        }
        opened
    }

    /// A left join yielded an entry with its matches.
    fn on_left(wp: Wp<F>, c: &mut Cursor<F>, (k, v): KV<F>, inner: EntryIt<F>) -> Cursor<F> {
        let kt = c.on_entry(wp, k, v);
        let mut n = Cursor::new("left_join matches", &["C06"], wp, c.a, c.b);
        let j = c.join.as_ref().unwrap();
        n.join = Some(SimJoin::new(j.kind, j.r, j.over, None));
        n.lk = Some(kt.map_or_else(|| F::gbox(&k.body.g), |kt| wp.slot(c.a).m[&kt].gbox));
        // A cursor handed out by a faulted outer cursor may be incomplete.
        n.faulted = c.faulted;
        n.it = Some(It::E(inner));
        n
    }

    /// Consumes what is left of a cursor in one call.
    fn finish(&mut self, c: &mut Cursor<F>) {
        let wp = self.wp;
        let op = self.op;
        // What `last` searched after its item would be held against the item.
        let how = self.r.below(4) as u8;
        let how = if how == 2 && c.prune.is_some() { 0 } else { how };
        // Too long for a single call
        if wp.slot(c.a).m.len() * wp.slot(c.b).m.len() > 3000 && matches!(c.it, Some(It::J(_))) {
            return;
        }
        let it = match c.it.take() {
            Some(it) => it,
            None => return,
        };
        cov().consumed += 1;
        let mut inner: Vec<Cursor<F>> = Vec::new();
        let r = match it {
            It::E(i) => armed(op, || i.consume(how, &mut |(k, v)| masked(|| { c.on_entry(wp, k, v); }))),
            It::J(i) => armed(op, || i.consume(how, &mut |p| masked(|| c.on_pair(wp, p)))),
            It::L(i) => armed(op, || {
                i.consume(how, &mut |(kv, m)| masked(|| {
                    let n = Self::on_left(wp, c, kv, m);
                    inner.push(n);
                }))
            }),
            It::M(_) => unreachable!(),
        };
        match r {
            Ok(n) => {
                c.skipped += n;
                c.on_end(wp);
            }
            Err(u) => self.cur_fail(c, &u),
        }
        if c.prune.is_some() && c.name == "left_join" {
            let mut done = Cursor::quiet(c.name, c.a, c.b);
            done.join = c.join.take();
            done.prune = c.prune.take();
            self.closed.push(done);
        }
        let quick = self.r.pct(30);
        while !inner.is_empty() {
            let mut n = inner.swap_remove(self.r.us(inner.len()));
            if quick {
                self.finish(&mut n);
            } else {
                while n.ended == 0 && n.it.is_some() {
                    self.step(&mut n);
                }
            }
            self.close(&mut n, false);
        }
    }

    fn cur_fail(&mut self, c: &mut Cursor<F>, u: &Unw) {
        self.fail(u, c.name);
        c.faulted = true;
        if matches!(u, Unw::Panic(_)) {
            // only tolerated on degraded trees; give the cursor up
            c.ended = 9;
        }
    }

    fn close(&mut self, c: &mut Cursor<F>, forget: bool) {
        if c.ended == 0 {
            cov().cancelled += 1;
        }
        if let Some(it) = c.it.take() {
            if forget {
                std::mem::forget(it);
                return;
            }
            let degraded = c.degraded(self.wp);
            match armed(self.op, || drop(it)) {
                Ok(()) => {}
                Err(u) => {
                    unexpected(&u, degraded, "dropping a cursor");
                }
            }
            if c.prune.is_some() && c.name == "left_join" {
                let mut done = Cursor::quiet(c.name, c.a, c.b);
                done.join = c.join.take();
                done.prune = c.prune.take();
                self.closed.push(done);
            }
        }
    }

    /// Checks the callbacks of a call that returned at once.
    fn oneshot_check(&mut self, c: &mut Cursor<F>, x: Option<(u32, u32, u64)>) {
        let kt = match x {
            Some((kt, _, _)) => kt,
            None => return c.prune_check(self.wp, None),
        };
        if let Some(e) = self.wp.slot(self.a).m.get(&kt) {
            c.last = c.rank.as_ref().map(|r| r.metric(&e.gbox));
            c.prune_check(self.wp, Some((kt, u32::MAX)));
        }
    }

    /// min_by, filter_min_by, get, len in the middle of other cursors' lives.
    fn oneshot(&mut self) {
        let wp = self.wp;
        let s = wp.slot(self.a);
        let t = s.t();
        let op = self.op;
        let mut tags = vec!["C04"];
        if wp.multi() {
            tags.push("C11");
        }
        match self.r.below(5) {
            0 => {
                if let Some(k) = nth_key(&s.m, self.r.below(1000)) {
                    let g = s.m[&k].g.clone();
                    let owned = self.r.pct(30);
                    if !do_get(wp, s, &g, owned, &|f| armed(op, f)) {
                        self.faulted = true;
                        s.faulted = true;
                    }
                }
            }
            1 => {
                let r = armed(op, || (t.len(), t.is_empty()));
                match r {
                    Ok((l, e)) => {
                        if !s.degraded && (l != s.m.len() || e != s.m.is_empty()) {
                            let mut tg = vec!["C02", "C01"];
                            if wp.multi() {
                                tg.push("C11");
                            }
                            viol(&tg, "wrong_len", &format!("len() = {l}, is_empty() = {e} with {} entries", s.m.len()));
                        }
                    }
                    Err(u) => self.fail(&u, "len"),
                }
            }
            2 | 3 => {
                let (kind, p) = (self.r.us(N_RANKS), pick_query(&mut self.r, wp, s).0);
                let mut c = Cursor::new("min_by", &["C04"], wp, self.a, self.a);
                c.prune = self.prune(false);
                let rank = Rank::<F>::new(kind, &p, c.log());
                let oracle = Rank::<F>::new(kind, &p, None);
                c.rank = Some(Rank::new(kind, &p, None));
                let r = armed(op, || t.min_by(rank).map(|(k, v)| (k.check("min_by"), v.check("min_by"), v.pay)));
                match r {
                    Ok(x) => {
                        self.check_min(&tags, "min_by", x, &oracle, None);
                        self.oneshot_check(&mut c, x);
                    }
                    Err(u) => self.fail(&u, "min_by"),
                }
            }
            _ => {
                let (kind, p) = (self.r.us(N_RANKS), pick_query(&mut self.r, wp, s).0);
                let f = fspec(&mut self.r, wp, s);
                let mut c = Cursor::new("filter_min_by", &["C04"], wp, self.a, self.a);
                c.prune = self.prune(false);
                let rank = FRank::<F> { rank: Rank::new(kind, &p, None), filter: F::filter(f.kind, &f.p, &f.e), over: f.over, log: c.log() };
                let oracle = Rank::<F>::new(kind, &p, None);
                c.rank = Some(Rank::new(kind, &p, None));
                c.flt = Some(f.clone());
                let r = armed(op, || t.filter_min_by(rank).map(|(k, v)| (k.check("filter_min_by"), v.check("filter_min_by"), v.pay)));
                match r {
                    Ok(x) => {
                        self.check_min(&tags, "filter_min_by", x, &oracle, Some(&f));
                        self.oneshot_check(&mut c, x);
                    }
                    Err(u) => self.fail(&u, "filter_min_by"),
                }
            }
        }
    }

    fn check_min(&self, tags: &[&str], what: &str, x: Option<(u32, u32, u64)>, rank: &Rank<F>, f: Option<&FSpec>) {
        let s = self.wp.slot(self.a);
        let mut least: Option<i64> = None;
        let mut maybe = false;
        for e in s.m.values() {
            match f.map_or(Tri::Yes, |f| expect_filter::<F>(f, &e.g)) {
                Tri::Yes => {
                    let m = rank.metric(&e.gbox);
                    least = Some(least.map_or(m, |l| l.min(m)));
                }
                Tri::Maybe => maybe = true,
                Tri::No => {}
            }
        }
        match x {
            None => {
                ev(0xC30);
                if least.is_some() && !s.degraded {
                    viol(tags, "min_missing", &format!("{what} returned nothing although entries match"));
                }
            }
            Some((k, v, pay)) => {
                ev(0xC31 ^ ((k as u64) << 16));
                match s.m.get(&k) {
                    None => viol(tags, "foreign_item", &format!("{what} returned key token {k}, which is not in the tree")),
                    Some(e) => {
                        if e.v != v || e.pay != pay {
                            viol(tags, "wrong_value", &format!("{what} returned value token {v} for key token {k}"));
                        }
                        if f.is_some_and(|f| expect_filter::<F>(f, &e.g) == Tri::No) {
                            viol(tags, "nonmatching", &format!("{what} returned key token {k} at {:?}, which has no metric", e.gbox));
                        }
                        let m = rank.metric(&e.gbox);
                        if !s.degraded && least.is_some_and(|l| m > l) && !(maybe && least.is_none()) {
                            viol(tags, "not_least", &format!("{what} returned key token {k} with metric {m}, the least is {}", least.unwrap()));
                        }
                    }
                }
            }
        }
    }
}

pub fn session<F: Fl>(wp: Wp<F>, op: &'static Op, a: usize, b: usize) {
    let mut s = Session { wp, op, a, b, r: Rng::new(op.sd), sa: None, sb: None, faulted: false, closed: Vec::new() };
    if prop_is("C13") && !wp.slot(a).degraded && !wp.slot(b).degraded {
        s.sa = read_structure(wp.slot(a)).map(Rc::new);
        s.sb = if a == b { s.sa.clone() } else { read_structure(wp.slot(b)).map(Rc::new) };
    }
    let mut cs: Vec<Cursor<F>> = Vec::new();
    let target = op.n.clamp(1, 6) as usize;
    let mut opened = 0;
    let mut steps = 0;
    let limit = op.sel.max(1) as usize;
    // Cursors that are consumed to the end after the step limit.
    let drain = s.r.pct(60);
    let leak_ok = !prop_is("C08") && s.r.pct(6);
    // Short calls from several readers at once, right after a writer left.
    if prop_is("C11") && s.r.pct(50) {
        for _ in 0..1 + s.r.us(4) {
            s.oneshot();
        }
        if s.r.pct(50) {
            return;
        }
    }
    while steps < limit && !spent() {
        steps += 1;
        sched::yield_point(Site::Step);
        if (cs.len() < target && opened < target + 3 && s.r.pct(30)) || (cs.is_empty() && opened < target) {
            opened += 1;
            if let Some(c) = s.open() {
                cs.push(c);
            }
            continue;
        }
        if cs.is_empty() {
            break;
        }
        if s.r.pct(5) {
            s.oneshot();
            continue;
        }
        let i = s.r.us(cs.len());
        if s.r.pct(3) {
            // cancel, now and then without running its destructor
            let mut c = cs.swap_remove(i);
            let forget = leak_ok && s.r.pct(30);
            if forget {
                wp.w().leaks_ok = true;
                cov().forgotten += 1;
            }
            s.close(&mut c, forget);
            continue;
        }
        let burst = if s.r.pct(50) { 1 } else { 1 + s.r.us(8) };
        let mut c = cs.swap_remove(i);
        for _ in 0..burst {
            if c.ended >= 3 || (c.ended > 0 && s.r.pct(50)) {
                break;
            }
            if let Some(n) = s.step(&mut c) {
                // Usually keep some inner cursors open beside the outer one.
                if s.r.pct(85) && cs.len() < 24 {
                    cs.push(n);
                } else {
                    let mut n = n;
                    s.close(&mut n, false);
                }
            }
        }
        if c.ended == 0 && s.r.pct(2) {
            s.finish(&mut c);
            s.close(&mut c, false);
        } else if c.ended >= 3 || (c.ended > 0 && s.r.pct(60)) || (c.faulted && s.r.pct(40)) {
            s.close(&mut c, false);
        } else {
            cs.push(c);
        }
    }
    // Wind down in a random order.
    while !cs.is_empty() {
        let i = s.r.us(cs.len());
        let mut c = cs.swap_remove(i);
        let mut guard = 0u32;
        if drain && c.ended == 0 && s.r.pct(15) && !spent() {
            s.finish(&mut c);
        }
        while drain && c.it.is_some() && c.ended == 0 && guard < 20_000 && !spent() {
            guard += 1;
            if guard % 8 == 0 {
                sched::yield_point(Site::Step);
            }
            if let Some(mut n) = s.step(&mut c) {
                while n.ended == 0 && !spent() {
                    s.step(&mut n);
                }
                s.close(&mut n, false);
            }
        }
        s.close(&mut c, false);
    }
    for c in s.closed.iter_mut() {
        c.prune_check(wp, None);
    }
    if s.faulted {
        verify(wp, wp.slot(a), "an interrupted query");
        if a != b {
            verify(wp, wp.slot(b), "an interrupted query");
        }
    }
}

// ---------------------------------------------------------------- mutable

pub fn mut_session<F: Fl>(wp: Wp<F>, op: &'static Op, a: usize) {
    let mut s = Session { wp, op, a, b: a, r: Rng::new(op.sd), sa: None, sb: None, faulted: false, closed: Vec::new() };
    let slot = wp.slot(a);
    if prop_is("C13") && !slot.degraded {
        s.sa = read_structure(slot).map(Rc::new);
    }
    let before = if slot.degraded || !prop_is("C14") { None } else { debug_text(slot) };
    slot.mutated = true;
    let mut c: Cursor<F>;
    let mut held: Vec<(u32, &'static mut SimVal)> = Vec::new();
    let w: [u32; 8] = match crate::report::CTX.get().prop.as_str() {
        "C03" => [1, 1, 20, 1, 1, 1, 1, 1],
        "C04" => [1, 1, 1, 10, 10, 5, 5, 1],
        "C02" => [10, 10, 1, 1, 1, 1, 1, 1],
        "C13" => [1, 1, 20, 20, 20, 8, 8, 8],
        _ => [10, 6, 14, 14, 14, 6, 6, 12],
    };
    let kind = s.r.weighted(&w);
    let t = slot.tm();
    let mut one: Option<(&'static SimKey<F>, &'static mut SimVal)> = None;
    let res: Result<Option<MIt<F>>, Unw> = match kind {
        0 => {
            c = Cursor::new("iter_mut", &["C02", "C14"], wp, a, a);
            armed(op, || {
                let i = t.iter_mut();
                Some(masked(|| Box::new(i) as MIt<F>))
            })
        }
        1 => {
            c = Cursor::new("into_iter_mut", &["C02", "C14"], wp, a, a);
            armed(op, || {
                let i = t.into_iter();
                Some(masked(|| Box::new(i) as MIt<F>))
            })
        }
        2 => {
            c = Cursor::new("filter_iter_mut", &["C03", "C14"], wp, a, a);
            c.prune = s.prune(false);
            let f = fspec(&mut s.r, wp, slot);
            let filter = SimFilter { inner: F::filter(f.kind, &f.p, &f.e), over: f.over, log: c.log(), reent: None, live: Live::new(false) };
            c.flt = Some(f);
            armed(op, || {
                let i = t.filter_iter_mut::<Body<F>, _>(filter);
                Some(masked(|| Box::new(i) as MIt<F>))
            })
        }
        3 | 5 => {
            c = Cursor::new(if kind == 3 { "iter_asc_by_mut" } else { "min_by_mut" }, &["C04", "C14"], wp, a, a);
            let (rk, p) = (s.r.us(N_RANKS), pick_query(&mut s.r, wp, slot).0);
            c.prune = s.prune(false);
            let rank = Rank::<F>::new(rk, &p, c.log());
            c.rank = Some(Rank::new(rk, &p, None));
            if kind == 3 {
                armed(op, || {
                    let i = t.iter_asc_by_mut(rank);
                    Some(masked(|| Box::new(i) as MIt<F>))
                })
            } else {
                armed(op, || {
                    one = t.min_by_mut(rank);
                    None
                })
            }
        }
        4 | 6 => {
            c = Cursor::new(if kind == 4 { "filter_iter_asc_by_mut" } else { "filter_min_by_mut" }, &["C04", "C14"], wp, a, a);
            let f = fspec(&mut s.r, wp, slot);
            let (rk, p) = (s.r.us(N_RANKS), pick_query(&mut s.r, wp, slot).0);
            c.prune = s.prune(false);
            let rank = FRank::<F> { rank: Rank::new(rk, &p, None), filter: F::filter(f.kind, &f.p, &f.e), over: f.over, log: c.log() };
            c.rank = Some(Rank::new(rk, &p, None));
            c.flt = Some(f);
            if kind == 4 {
                armed(op, || {
                    let i = t.filter_iter_asc_by_mut(rank);
                    Some(masked(|| Box::new(i) as MIt<F>))
                })
            } else {
                armed(op, || {
                    one = t.filter_min_by_mut(rank);
                    None
                })
            }
        }
        _ => {
            get_mut(&mut s, slot);
            verify(wp, slot, "get_mut");
            return;
        }
    };
    match res {
        Err(u) => {
            s.fail(&u, c.name);
            verify(wp, slot, "an interrupted mutable query");
            return;
        }
        Ok(Some(i)) => c.it = Some(It::M(i)),
        Ok(None) => {
            let tags = c.tags.clone();
            let x = one.as_ref().map(|(k, v)| (k.check(c.name), v.check(c.name), v.pay));
            s.check_min(&tags, c.name, x, c.rank.as_ref().unwrap(), c.flt.as_ref());
            s.oneshot_check(&mut c, x);
            if let Some((k, v)) = one {
                write(&mut s, slot, k.check(c.name), v);
            }
            verify(wp, slot, c.name);
            return;
        }
    }
    let stop = if s.r.pct(40) { s.r.us(slot.m.len() + 2) } else { usize::MAX };
    let mut n = 0;
    let hold = s.r.pct(70);
    let whole = if s.r.pct(12) { s.r.us(slot.m.len() + 2) } else { usize::MAX };
    while n < stop && c.ended < 3 && n < 20_000 {
        n += 1;
        sched::yield_point(Site::Step);
        let ended = c.ended;
        let lent = |c: &mut Cursor<F>, held: &mut Vec<(u32, &'static mut SimVal)>, k: &'static SimKey<F>, v: &'static mut SimVal| {
            if ended > 0 {
                c.v("revived", "yielded an entry after it was exhausted".into());
            }
            let addr = v as *const SimVal;
            if held.iter().any(|(_, h)| std::ptr::eq(*h as *const SimVal, addr)) {
                c.v("aliased", "lent the same value twice".into());
            }
            v.check(c.name);
            // An entry lent twice would be reported by its key as well.
            if let Some(kt) = c.on_entry(wp, k, v) {
                if !held.iter().any(|(h, _)| *h == kt) {
                    held.push((kt, v));
                }
            }
        };
        if n > whole && ended == 0 {
            // Take all the rest in one call.
            let how = s.r.below(4) as u8;
            let how = if how == 2 && c.prune.is_some() { 0 } else { how };
            let i = match c.it.take() {
                Some(It::M(i)) => i,
                _ => unreachable!(),
            };
            cov().consumed += 1;
            match armed(op, || i.consume(how, &mut |(k, v)| masked(|| lent(&mut c, &mut held, k, v)))) {
                Ok(n) => {
                    c.skipped += n;
                    c.on_end(wp);
                }
                Err(u) => s.cur_fail(&mut c, &u),
            }
            break;
        }
        let most = if s.r.pct(80) { 4 } else { 200 };
        let nth = if s.r.pct(3) { Some(s.r.us(most)) } else { None };
        let hint = s.r.pct(3);
        let i = match c.it.as_mut().unwrap() {
            It::M(i) => i,
            _ => unreachable!(),
        };
        let h = if hint { armed(op, || i.hint()) } else { Ok((0, None)) };
        let r = armed(op, || match nth {
            None => i.step(),
            Some(n) => i.skip_to(n),
        });
        match h {
            Ok(h) => c.on_hint(wp, h),
            Err(u) => s.cur_fail(&mut c, &u),
        }
        match r {
            Ok(Some((k, v))) => {
                c.skipped += nth.unwrap_or(0);
                lent(&mut c, &mut held, k, v);
            }
            Ok(None) => c.on_nth_end(wp, nth.unwrap_or(0)),
            Err(u) => s.cur_fail(&mut c, &u),
        }
        if c.faulted && s.r.pct(50) {
            break;
        }
        if !hold || s.r.pct(20) {
            while !held.is_empty() && (!hold || s.r.pct(60)) {
                let i = s.r.us(held.len());
                let (kt, v) = held.swap_remove(i);
                write(&mut s, slot, kt, v);
            }
        }
        if c.ended > 0 && s.r.pct(50) {
            break;
        }
    }
    cov().held_refs += held.len() as u64;
    // Lent references may outlive the cursor.
    let early = s.r.pct(50);
    if early {
        s.close(&mut c, false);
    }
    while !held.is_empty() {
        let i = s.r.us(held.len());
        let (kt, v) = held.swap_remove(i);
        if s.r.pct(85) {
            write(&mut s, slot, kt, v);
        }
    }
    if !early {
        s.close(&mut c, false);
    }
    verify(wp, slot, c.name);
    if let Some(b) = before {
        if let Some(a) = debug_text(slot) {
            // Values may have been exchanged; keys, bounds and shape may not.
            let strip = |t: &str| {
                t.split('%').enumerate().filter(|(i, p)| i % 2 == 0 || !p.starts_with('V')).map(|x| x.1).collect::<Vec<_>>().join("%")
            };
            if strip(&a) != strip(&b) {
                viol(&["C14"], "structure_changed", &format!("{} changed keys or structure of the tree", c.name));
            }
        }
    }
}

/// Writes through a lent reference: a new payload or a whole new value.
fn write<F: Fl>(s: &mut Session<F>, slot: &mut Slot<F>, kt: u32, v: &mut SimVal) {
    v.check("write through a lent reference");
    let pay = next_pay();
    let e = match slot.m.get_mut(&kt) {
        Some(e) => e,
        None => return,
    };
    if s.r.pct(25) {
        let old = std::mem::replace(v, SimVal::new(pay));
        drop(old);
    } else {
        v.pay = pay;
    }
    e.v = v.check("write through a lent reference");
    e.pay = pay;
}

fn get_mut<F: Fl>(s: &mut Session<F>, slot: &mut Slot<F>) {
    let op = s.op;
    *cov().cursors.entry("get_mut").or_insert(0) += 1;
    let g = if s.r.pct(80) {
        match nth_key(&slot.m, s.r.below(1000)) {
            Some(k) => slot.m[&k].g.clone(),
            None => F::g(&crate::spec::key_coords(&op.c, F::D)[..]),
        }
    } else {
        F::g(&crate::spec::key_coords(&op.c, F::D)[..])
    };
    let first = if slot.degraded { None } else { first_equal(slot, &g) };
    let look = look_begin(slot);
    let t = slot.tm();
    let r = if s.r.pct(30) {
        let q = SimKey::<F>::new(g.clone());
        armed(op, || t.get_mut::<SimKey<F>>(&q))
    } else {
        let q = Body::<F>::query(g.clone());
        armed(op, || t.get_mut::<Body<F>>(&q))
    };
    look_end::<F>(look, &g, "get_mut");
    match r {
        Err(u) => s.fail(&u, "get_mut"),
        Ok(None) => {
            if let Some(x) = first {
                viol(&["C01", "C14"], "not_found", &format!("get_mut did not find key token {x}"));
            }
        }
        Ok(Some(v)) => {
            let vt = v.check("get_mut");
            let owner = slot.m.iter().find(|(_, e)| e.v == vt).map(|(k, e)| (*k, e.g == g));
            match owner {
                None => viol(&["C01", "C14", "C09", "C12"], "foreign_value", "get_mut returned a value that is not in the tree"),
                Some((k, eq)) => {
                    if !eq {
                        viol(&["C01", "C14"], "wrong_get", &format!("get_mut returned the value of key token {k}, which is not equal"));
                    } else if !slot.degraded && first != Some(k) {
                        viol(&["C01", "C14"], "wrong_get", &format!("get_mut returned the value of key token {k}, not of the first equal entry"));
                    }
                    write(s, slot, k, v);
                }
            }
        }
    }
}
