//! Instrumented caller-side types handed to the library: every callback is a
//! scheduling point and a fault injection point, and delegates to the crate's
//! own geometry.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::rc::Rc;

use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::RTree;

use crate::geo::{DynF, DynR, Fl, GBox, MD};
use crate::hooks::{cb, ev, masked, Live, Racy, Site, Token};

pub type Tree<F> = RTree<SimB<F>, SimKey<F>, SimVal>;

static NEXT_UID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
/// Buggify: unions rounded outward to multiples of this grid size (0 = exact).
pub static LOOSE: Racy<i64> = Racy::new(0);

pub fn reset_uids() {
    NEXT_UID.store(1, std::sync::atomic::Ordering::SeqCst);
}
fn uid() -> u64 {
    masked(|| NEXT_UID.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1)
}

// ---------------------------------------------------------------- bounds

pub struct SimB<F: Fl> {
    pub bx: F::Bx,
    /// identity; a clone keeps it
    pub uid: u64,
    /// token of the key these are the bounds of, or u32::MAX
    pub tok: u32,
    live: Live,
}

impl<F: Fl> SimB<F> {
    pub fn of(bx: F::Bx) -> Self {
        Self::of_key(bx, u32::MAX)
    }
    pub fn of_key(bx: F::Bx, tok: u32) -> Self {
        SimB { bx, uid: uid(), tok, live: Live::new(true) }
    }
}
impl<F: Fl> Clone for SimB<F> {
    fn clone(&self) -> Self {
        cb(Site::BClone);
        self.live.check("clone of bounds");
        SimB { bx: self.bx.clone(), uid: self.uid, tok: self.tok, live: Live::new(true) }
    }
}
impl<F: Fl> Contains<SimB<F>> for SimB<F> {
    fn contains(&self, rhs: &SimB<F>) -> bool {
        cb(Site::BContains);
        self.live.check("containment of bounds");
        rhs.live.check("containment of bounds");
        F::contains(&self.bx, &rhs.bx)
    }
}
impl<F: Fl> Intersects<SimB<F>> for SimB<F> {
    fn intersects(&self, rhs: &SimB<F>) -> bool {
        cb(Site::BIntersects);
        self.live.check("intersection of bounds");
        rhs.live.check("intersection of bounds");
        F::intersects(&self.bx, &rhs.bx)
    }
}
fn loosen<F: Fl>(bx: F::Bx, a: &F::Bx, b: &F::Bx) -> F::Bx {
    let g = *LOOSE.get();
    if g == 0 {
        return bx;
    }
    // The empty bounds stay the identity of union.
    if F::bx_grid(a).is_none() || F::bx_grid(b).is_none() {
        return bx;
    }
    masked(|| match F::bx_grid(&bx) {
        None => bx.clone(),
        Some(mut r) => {
            for i in 0..r.d {
                r.lo[i] = r.lo[i].div_euclid(g) * g;
                r.hi[i] = -((-r.hi[i]).div_euclid(g) * g);
            }
            F::bx_of(&r)
        }
    })
}
impl<F: Fl> Bounds for SimB<F> {
    fn empty() -> Self {
        SimB::of(F::empty())
    }
    fn union(l: &Self, r: &Self) -> Self {
        cb(Site::Union);
        l.live.check("union of bounds");
        r.live.check("union of bounds");
        SimB::of(loosen::<F>(F::union(&l.bx, &r.bx), &l.bx, &r.bx))
    }
    fn union_all(it: impl IntoIterator<Item = Self>) -> Self {
        cb(Site::UnionAll);
        if *LOOSE.get() == 0 {
            SimB::of(F::union_all(&mut it.into_iter().map(|b| b.bx.clone())))
        } else {
            let mut r = F::empty();
            for b in it {
                r = loosen::<F>(F::union(&r, &b.bx), &r, &b.bx);
            }
            SimB::of(r)
        }
    }
}
impl<F: Fl> Volume for SimB<F> {
    fn volume(&self) -> N64 {
        cb(Site::Volume);
        self.live.check("volume of bounds");
        F::volume(&self.bx)
    }
}
pub fn fmt_gbox(b: &Option<GBox>) -> String {
    match b {
        None => "-".into(),
        Some(b) => {
            let mut s = String::new();
            for i in 0..b.d {
                s.push_str(&format!("{}:{}/", b.lo[i], b.hi[i]));
            }
            s
        }
    }
}
impl<F: Fl> fmt::Debug for SimB<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.live.check("formatting of bounds");
        write!(f, "%B{};{}%", self.uid, fmt_gbox(&F::bx_grid(&self.bx)))
    }
}

// ---------------------------------------------------------------- keys

/// Tokens of the keys compared by the lookup that each task is in (C13).
pub static LOOKED: Racy<Vec<Option<Vec<u32>>>> = Racy::new(Vec::new());
fn looked(a: u32, b: u32) {
    let t = crate::hooks::tls().task as usize;
    if let Some(Some(v)) = LOOKED.get().get_mut(t) {
        masked(|| v.extend([a, b]));
    }
}

/// The borrowed form of a key.
pub struct Body<F: Fl> {
    pub g: F::G,
    /// token of the key holding this body, or u32::MAX for a query key
    pub tok: u32,
}
impl<F: Fl> Body<F> {
    pub fn query(g: F::G) -> Self {
        Body { g, tok: u32::MAX }
    }
}
impl<F: Fl> PartialEq for Body<F> {
    fn eq(&self, o: &Self) -> bool {
        cb(Site::KeyEq);
        looked(self.tok, o.tok);
        self.g == o.g
    }
}
impl<F: Fl> Eq for Body<F> {}
impl<F: Fl> Bounded<SimB<F>> for Body<F> {
    fn bounds(&self) -> SimB<F> {
        cb(if self.tok == u32::MAX { Site::QBounds } else { Site::KeyBounds });
        SimB::of_key(F::g_bounds(&self.g), self.tok)
    }
}

pub struct SimKey<F: Fl> {
    pub body: Body<F>,
    tok: Token,
}
impl<F: Fl> SimKey<F> {
    pub fn new(g: F::G) -> Self {
        let tok = Token::new(true, u32::MAX);
        SimKey { body: Body { g, tok: tok.id() }, tok }
    }
    pub fn check(&self, what: &str) -> u32 {
        self.tok.check(true, what)
    }
}
impl<F: Fl> PartialEq for SimKey<F> {
    fn eq(&self, o: &Self) -> bool {
        self.check("key comparison");
        o.check("key comparison");
        cb(Site::KeyEq);
        looked(self.body.tok, o.body.tok);
        self.body.g == o.body.g
    }
}
impl<F: Fl> Eq for SimKey<F> {}
impl<F: Fl> Borrow<Body<F>> for SimKey<F> {
    fn borrow(&self) -> &Body<F> {
        self.check("borrow of a key");
        &self.body
    }
}
impl<F: Fl> Bounded<SimB<F>> for SimKey<F> {
    fn bounds(&self) -> SimB<F> {
        self.check("bounds of a key");
        cb(Site::KeyBounds);
        SimB::of_key(F::g_bounds(&self.body.g), self.body.tok)
    }
}
impl<F: Fl> Clone for SimKey<F> {
    fn clone(&self) -> Self {
        let o = self.check("clone of a key");
        cb(Site::KClone);
        let tok = Token::new(true, o);
        SimKey { body: Body { g: self.body.g.clone(), tok: tok.id() }, tok }
    }
}
impl<F: Fl> fmt::Debug for SimKey<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "%K{}%", self.check("formatting of a key"))
    }
}

pub struct SimVal {
    pub pay: u64,
    tok: Token,
}
impl SimVal {
    pub fn new(pay: u64) -> Self {
        SimVal { pay, tok: Token::new(false, u32::MAX) }
    }
    pub fn check(&self, what: &str) -> u32 {
        self.tok.check(false, what)
    }
}
impl Clone for SimVal {
    fn clone(&self) -> Self {
        let o = self.check("clone of a value");
        cb(Site::VClone);
        SimVal { pay: self.pay, tok: Token::new(false, o) }
    }
}
impl fmt::Debug for SimVal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "%V{}%", self.check("formatting of a value"))
    }
}

// ---------------------------------------------------------------- filters

/// What a query passed to its callbacks.
#[derive(Clone, Copy, Debug)]
pub enum LogEv {
    /// bounds uid, verdict
    B(u64, bool),
    /// key token, verdict
    K(u32, bool),
    /// ranking: bounds uid, lower bound (None = no lower bound)
    RB(u64, Option<i64>),
    RK(u32, Option<i64>),
    /// join: left uid, token when these are a key's bounds, right uid, verdict
    JB(u64, u32, u64, bool),
    JK(u32, u32, bool),
}
pub type Log = Rc<RefCell<Vec<LogEv>>>;

/// Something to run inside the filter callback (a re-entrant read).
pub type Reent<'a> = Option<Rc<dyn Fn() + 'a>>;

pub struct SimFilter<'a, F: Fl> {
    pub inner: Box<dyn DynF<F> + 'a>,
    /// buggify: bounds test passes everything
    pub over: bool,
    pub log: Option<Log>,
    pub reent: Reent<'a>,
    pub live: Live,
}
impl<F: Fl> SpatialFilter<SimB<F>, Body<F>> for SimFilter<'_, F> {
    fn test_bounds(&self, b: &SimB<F>) -> bool {
        self.live.check("filter");
        b.live.check("bounds given to a filter");
        cb(Site::FTestB);
        let r = self.inner.tb(&b.bx) || self.over;
        ev(0x700 + r as u64);
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::B(b.uid, r)));
        }
        r
    }
    fn test_key(&self, k: &Body<F>) -> bool {
        self.live.check("filter");
        cb(Site::FTestK);
        let r = self.inner.tk(&k.g);
        ev(0x710 + r as u64 + ((k.tok as u64) << 16));
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::K(k.tok, r)));
        }
        if let Some(f) = &self.reent {
            masked(|| f());
        }
        r
    }
}

// ---------------------------------------------------------------- rankings

#[derive(Debug)]
pub struct Met(pub i64);
impl PartialEq for Met {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Met {}
impl PartialOrd for Met {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Met {
    fn cmp(&self, o: &Self) -> Ordering {
        cb(Site::MetCmp);
        self.0.cmp(&o.0)
    }
}

/// Ranking with a total order on keys and a valid (maybe loose) lower bound.
pub struct Rank<F: Fl> {
    pub kind: usize,
    pub p: [i64; MD],
    pub eu: Option<Box<dyn DynR<F>>>,
    pub log: Option<Log>,
    live: Live,
}
pub const N_RANKS: usize = 7;

fn fdiv(a: i64, b: i64) -> i64 {
    a.div_euclid(b)
}

impl<F: Fl> Rank<F> {
    pub fn new(kind: usize, p: &[i64], log: Option<Log>) -> Self {
        let mut kind = kind % N_RANKS;
        if kind == 0 && !F::has_euclid() {
            kind = 5;
        }
        let mut pp = [0; MD];
        pp[..F::D].copy_from_slice(&p[..F::D]);
        Rank { kind, p: pp, eu: if kind == 0 { Some(F::euclid(p)) } else { None }, log, live: Live::new(false) }
    }
    fn live(&self) -> &Live {
        &self.live
    }
    fn dist(&self, b: &GBox) -> i64 {
        b.dist2(&GBox::point(F::D, &self.p))
    }
    fn dim(&self) -> usize {
        (self.p[0].unsigned_abs() as usize) % F::D
    }
    /// Oracle metric of a key, from the grid alone.
    pub fn metric(&self, g: &GBox) -> i64 {
        match self.kind {
            0 | 4 | 5 => self.dist(g),
            1 => g.lo[self.dim()],
            2 => -g.hi[self.dim()],
            3 => 7,
            _ => fdiv(self.dist(g), 64),
        }
    }
    pub fn bmin(&self, b: &F::Bx) -> i64 {
        if let Some(e) = &self.eu {
            return e.bmin(b);
        }
        masked(|| match F::bx_grid(b) {
            None => i64::MAX,
            Some(g) => match self.kind {
                1 => g.lo[self.dim()],
                2 => -g.hi[self.dim()],
                3 => 7,
                4 => fdiv(self.dist(&g), 2),
                5 => self.dist(&g),
                _ => fdiv(self.dist(&g), 64),
            },
        })
    }
    fn rk(&self, k: &F::G) -> i64 {
        if let Some(e) = &self.eu {
            return e.rk(k);
        }
        masked(|| self.metric(&F::gbox(k)))
    }
}
impl<F: Fl> Ranking<SimB<F>, SimKey<F>> for Rank<F> {
    type Metric = Met;
    fn bounds_min(&self, b: &SimB<F>) -> Met {
        self.live().check("ranking");
        b.live.check("bounds given to a ranking");
        cb(Site::RankB);
        let m = self.bmin(&b.bx);
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::RB(b.uid, Some(m))));
        }
        Met(m)
    }
    fn rank_key(&self, k: &SimKey<F>) -> Met {
        self.live().check("ranking");
        let id = k.check("rank of a key");
        cb(Site::RankK);
        let m = self.rk(&k.body.g);
        ev(0x720 + ((id as u64) << 16));
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::RK(id, Some(m))));
        }
        Met(m)
    }
}

/// Ranking that has no metric outside a filter.
pub struct FRank<'a, F: Fl> {
    pub rank: Rank<F>,
    pub filter: Box<dyn DynF<F> + 'a>,
    pub over: bool,
    pub log: Option<Log>,
}
impl<F: Fl> FRank<'_, F> {
    fn live(&self) -> &Live {
        &self.rank.live
    }
}
impl<F: Fl> Ranking<SimB<F>, SimKey<F>> for FRank<'_, F> {
    type Metric = Option<Met>;
    fn bounds_min(&self, b: &SimB<F>) -> Option<Met> {
        self.live().check("ranking");
        b.live.check("bounds given to a ranking");
        cb(Site::RankB);
        let m = if self.over || self.filter.tb(&b.bx) { Some(self.rank.bmin(&b.bx)) } else { None };
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::RB(b.uid, m)));
        }
        m.map(Met)
    }
    fn rank_key(&self, k: &SimKey<F>) -> Option<Met> {
        self.live().check("ranking");
        let id = k.check("rank of a key");
        cb(Site::RankK);
        let m = if self.filter.tk(&k.body.g) { Some(self.rank.rk(&k.body.g)) } else { None };
        ev(0x730 + ((id as u64) << 16));
        if let Some(l) = &self.log {
            masked(|| l.borrow_mut().push(LogEv::RK(id, m)));
        }
        m.map(Met)
    }
}

// ---------------------------------------------------------------- joins

pub const N_JOINS: usize = 9;
pub struct SimJoin<F: Fl> {
    pub kind: usize,
    pub r: i64,
    pub over: bool,
    pub log: Option<Log>,
    live: Live,
    pub _f: std::marker::PhantomData<F>,
}
impl<F: Fl> SimJoin<F> {
    pub fn new(kind: usize, r: i64, over: bool, log: Option<Log>) -> Self {
        SimJoin { kind: kind % N_JOINS, r, over, log, live: Live::new(false), _f: std::marker::PhantomData }
    }
    /// Oracle: from the grid alone.
    pub fn expect(&self, l: &GBox, r: &GBox) -> bool {
        match self.kind {
            0 => l.intersects(r),
            1 => l.dist2(r) <= self.r * self.r,
            2 => true,
            3 => false,
            4 => l.contains(r),
            5 => l.lo[0] == r.lo[0],
            6 => l.lo[0] <= r.lo[0],
            7 => r.contains(l),
            _ => l.hi[0] + self.r <= r.lo[0],
        }
    }
    pub fn tb(&self, l: &F::Bx, r: &F::Bx) -> bool {
        if self.over {
            return true;
        }
        match self.kind {
            0 | 4 | 7 => F::intersects(l, r),
            1 => F::sq_dist(l, r) <= self.r * self.r,
            2 => true,
            3 => false,
            _ => masked(|| match (F::bx_grid(l), F::bx_grid(r)) {
                (Some(l), Some(r)) => match self.kind {
                    5 => l.lo[0] <= r.hi[0] && l.hi[0] >= r.lo[0],
                    6 => l.lo[0] <= r.hi[0],
                    _ => l.lo[0] + self.r <= r.hi[0],
                },
                _ => false,
            }),
        }
    }
}
impl<F: Fl> JoinFilter<SimB<F>, SimB<F>, Body<F>, Body<F>> for SimJoin<F> {
    fn test_bounds(&self, l: &SimB<F>, r: &SimB<F>) -> bool {
        self.live.check("join filter");
        l.live.check("bounds given to a join filter");
        r.live.check("bounds given to a join filter");
        cb(Site::JTestB);
        let v = self.tb(&l.bx, &r.bx);
        ev(0x740 + v as u64);
        if let Some(g) = &self.log {
            masked(|| g.borrow_mut().push(LogEv::JB(l.uid, l.tok, r.uid, v)));
        }
        v
    }
    fn test_key(&self, l: &Body<F>, r: &Body<F>) -> bool {
        self.live.check("join filter");
        cb(Site::JTestK);
        let v = masked(|| self.expect(&F::gbox(&l.g), &F::gbox(&r.g)));
        ev(0x750 + v as u64 + ((l.tok as u64) << 16) + ((r.tok as u64) << 40));
        if let Some(g) = &self.log {
            masked(|| g.borrow_mut().push(LogEv::JK(l.tok, r.tok, v)));
        }
        v
    }
}
impl<F: Fl> Clone for SimJoin<F> {
    fn clone(&self) -> Self {
        self.live.check("join filter");
        cb(Site::JClone);
        masked(|| SimJoin { kind: self.kind, r: self.r, over: self.over, log: self.log.clone(), live: Live::new(false), _f: std::marker::PhantomData })
    }
}
