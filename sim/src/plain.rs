//! A second, simpler world: trees of plain user types whose memory layout is
//! unusual (nothing to store, over-aligned, one byte per coordinate) and of
//! large nodes, against a multiset model. Single caller, no faults; the heap
//! and the events are observed as in the main world.
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::filter::{
    BoundedContainsFilter, BoundedIntersectsFilter, ContainsFilter, IntersectsFilter, JoinFilter, SpatialFilter,
};
use rusty_rtree::geom::{line::Line, sphere::Sphere};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};

use crate::alloc::{self, AST};
use crate::exec::{cov, RunOut};
use crate::geo::{segment_box, GBox, Tri};
use crate::hooks::*;
use crate::report::{viol, violation, CTX};
use crate::rng::Rng;
use crate::sched;
use crate::spec::{gen_coords, Op, Spec, K};

pub type Co = [i64; 4];

static KLIVE: Racy<i64> = Racy::new(0);
static VLIVE: Racy<i64> = Racy::new(0);

/// Queries over an area with the crate's filters, for keys K and coordinates N.
macro_rules! area_query {
    ($t:expr, $kind:expr, $q:expr, $n:ty) => {{
        let q: Co = $q.map(|x: i64| x.clamp(<$n>::MIN as i64, <$n>::MAX as i64));
        let b = SAABB { min: SVec([q[0] as $n, q[1] as $n]), max: SVec([q[2] as $n, q[3] as $n]) };
        let inside = move |e: &Co| Tri::of(q[0] <= e[0] && q[1] <= e[1] && e[2] <= q[2] && e[3] <= q[3]);
        let touch = move |e: &Co| Tri::of(meets(&q, e));
        let r: Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> = match $kind {
            0 => Some((collect($t, IntersectsFilter::new(b)), Box::new(touch))),
            1 => Some((collect($t, ContainsFilter::new(b)), Box::new(inside))),
            2 => Some((collect($t, BoundedIntersectsFilter::new_bounded(b)), Box::new(touch))),
            3 => Some((collect($t, BoundedContainsFilter::new_bounded(b)), Box::new(inside))),
            _ => None,
        };
        r
    }};
}
/// A sphere whose bounds can be represented.
macro_rules! sphere_query {
    ($t:expr, $q:expr, $n:ty) => {{
        let (lo, hi) = (<$n>::MIN as i64, <$n>::MAX as i64);
        let (x, y) = ($q[0].clamp(lo, hi), $q[1].clamp(lo, hi));
        let rad = ($q[2] - $q[0]).min(x - lo).min(y - lo).min(hi - x).min(hi - y).max(0);
        let s = Sphere { center: SVec([x as $n, y as $n]), radius: rad as $n };
        let f = move |e: &Co| Tri::of(dist(e, &[x, y, x, y]) <= rad as i128 * rad as i128);
        Some((collect($t, BoundedIntersectsFilter::new_bounded(s)), Box::new(f) as Box<dyn Fn(&Co) -> Tri>))
    }};
}

pub trait PK: Clone + Eq + Bounded<Self::B> + 'static {
    type B: Bounds + Volume + Clone;
    const COUNTED: bool;
    /// The coordinates a key made from these has: min, max.
    fn norm(c: Co) -> Co;
    fn make(c: Co, id: u64) -> Self;
    fn co(&self) -> Co;
    fn id(&self) -> u64;
    fn bx(b: &Self::B) -> Co;
    /// Squared distance of two bounds, by the crate.
    fn sq(a: &Self::B, b: &Self::B) -> f64;
    /// How much one step of a coordinate is.
    const SCALE: i64 = 1;
    /// How many clones lie between this key and one that was made.
    const GEN: bool = false;
    fn gen(&self) -> u64 {
        0
    }
    /// Runs a query with one of the crate's filters over the given area, and
    /// says which entries it must find.
    fn lib_query<V: PV>(_: &T<Self, V>, _kind: u64, _q: Co) -> Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> {
        None
    }
}
pub trait PV: Clone + 'static {
    const COUNTED: bool;
    fn make(x: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, x: u64);
    fn norm(x: u64) -> u64;
    fn gen(&self) -> u64 {
        0
    }
}

// Nothing to store.
pub struct NoKey;
impl NoKey {
    fn new() -> NoKey {
        *KLIVE.get() += 1;
        NoKey
    }
}
impl Drop for NoKey {
    fn drop(&mut self) {
        *KLIVE.get() -= 1;
    }
}
impl Clone for NoKey {
    fn clone(&self) -> Self {
        cb(Site::KClone);
        NoKey::new()
    }
}
impl PartialEq for NoKey {
    fn eq(&self, _: &Self) -> bool {
        cb(Site::KeyEq);
        true
    }
}
impl Eq for NoKey {}
impl Bounded<SAABB<i32, 2>> for NoKey {
    fn bounds(&self) -> SAABB<i32, 2> {
        cb(Site::KeyBounds);
        SAABB { min: SVec([3, 4]), max: SVec([5, 6]) }
    }
}
impl PK for NoKey {
    type B = SAABB<i32, 2>;
    const COUNTED: bool = true;
    fn norm(_: Co) -> Co {
        [3, 4, 5, 6]
    }
    fn make(_: Co, _: u64) -> Self {
        NoKey::new()
    }
    fn co(&self) -> Co {
        [3, 4, 5, 6]
    }
    fn id(&self) -> u64 {
        0
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
}
pub struct NoVal;
impl Drop for NoVal {
    fn drop(&mut self) {
        *VLIVE.get() -= 1;
    }
}
impl Clone for NoVal {
    fn clone(&self) -> Self {
        cb(Site::VClone);
        NoVal::make(0)
    }
}
impl PV for NoVal {
    const COUNTED: bool = true;
    fn make(_: u64) -> Self {
        *VLIVE.get() += 1;
        NoVal
    }
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn norm(_: u64) -> u64 {
        0
    }
}

// Over-aligned and large.
#[repr(align(64))]
pub struct WideKey {
    c: [i32; 4],
    pad: [u64; 11],
    id: u64,
}
impl Drop for WideKey {
    fn drop(&mut self) {
        *KLIVE.get() -= 1;
    }
}
impl WideKey {
    fn new(c: [i32; 4], id: u64) -> Self {
        *KLIVE.get() += 1;
        WideKey { c, pad: [id ^ 0x55; 11], id }
    }
    fn check(&self) {
        if self as *const Self as usize % 64 != 0 || self.pad.iter().any(|x| *x != self.id ^ 0x55) {
            violation("memory", "torn_key", "a key lies at an unaligned address or was overwritten");
        }
    }
}
impl Clone for WideKey {
    fn clone(&self) -> Self {
        cb(Site::KClone);
        self.check();
        WideKey::new(self.c, self.id)
    }
}
impl PartialEq for WideKey {
    fn eq(&self, o: &Self) -> bool {
        cb(Site::KeyEq);
        self.check();
        self.c == o.c
    }
}
impl Eq for WideKey {}
impl Bounded<SAABB<i32, 2>> for WideKey {
    fn bounds(&self) -> SAABB<i32, 2> {
        cb(Site::KeyBounds);
        self.check();
        SAABB { min: SVec([self.c[0], self.c[1]]), max: SVec([self.c[2], self.c[3]]) }
    }
}
impl PK for WideKey {
    type B = SAABB<i32, 2>;
    const COUNTED: bool = true;
    fn norm(c: Co) -> Co {
        c
    }
    fn make(c: Co, id: u64) -> Self {
        WideKey::new(c.map(|x| x as i32), id)
    }
    fn co(&self) -> Co {
        self.check();
        self.c.map(|x| x as i64)
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
}
#[repr(align(128))]
pub struct WideVal {
    x: u64,
    y: u64,
}
impl Drop for WideVal {
    fn drop(&mut self) {
        *VLIVE.get() -= 1;
    }
}
impl Clone for WideVal {
    fn clone(&self) -> Self {
        cb(Site::VClone);
        WideVal::make(self.get())
    }
}
impl PV for WideVal {
    const COUNTED: bool = true;
    fn make(x: u64) -> Self {
        *VLIVE.get() += 1;
        WideVal { x, y: !x }
    }
    fn get(&self) -> u64 {
        if self as *const Self as usize % 128 != 0 || self.y != !self.x {
            violation("memory", "torn_value", "a value lies at an unaligned address or was overwritten");
        }
        self.x
    }
    fn set(&mut self, x: u64) {
        self.x = x;
        self.y = !x;
    }
    fn norm(x: u64) -> u64 {
        x
    }
}

// The crate's own point type over bytes, and no value.
impl PK for SVec<u8, 2> {
    type B = SAABB<u8, 2>;
    const COUNTED: bool = false;
    fn norm(c: Co) -> Co {
        let (x, y) = (c[0].rem_euclid(256), c[1].rem_euclid(256));
        [x, y, x, y]
    }
    fn make(c: Co, _: u64) -> Self {
        SVec([c[0] as u8, c[1] as u8])
    }
    fn co(&self) -> Co {
        [self[0] as i64, self[1] as i64, self[0] as i64, self[1] as i64]
    }
    fn id(&self) -> u64 {
        0
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
    fn lib_query<V: PV>(t: &T<Self, V>, kind: u64, q: Co) -> Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> {
        match kind {
            4 => sphere_query!(t, q, u8),
            _ => area_query!(t, kind, q, u8),
        }
    }
}
impl PV for u16 {
    const COUNTED: bool = false;
    fn make(x: u64) -> Self {
        x as u16
    }
    fn get(&self) -> u64 {
        *self as u64
    }
    fn set(&mut self, x: u64) {
        *self = x as u16;
    }
    fn norm(x: u64) -> u64 {
        x as u16 as u64
    }
}

fn collect<Key: PK, V: PV, F: SpatialFilter<Key::B, Key>>(t: &T<Key, V>, f: F) -> Vec<E> {
    call("filter_iter", || {
        let mut out = masked(Vec::new);
        for (k, v) in t.filter_iter(f) {
            keep(&mut out, masked(|| W::<Key, V>::entry(k, v)));
        }
        out
    })
}

// Keys and values without a destructor that can tell a clone from a copy.
pub struct GenKey {
    c: [i32; 4],
    id: u32,
    gen: u32,
}
impl Clone for GenKey {
    fn clone(&self) -> Self {
        cb(Site::KClone);
        GenKey { c: self.c, id: self.id, gen: self.gen + 1 }
    }
}
impl PartialEq for GenKey {
    fn eq(&self, o: &Self) -> bool {
        cb(Site::KeyEq);
        self.c == o.c
    }
}
impl Eq for GenKey {}
impl Bounded<SAABB<i32, 2>> for GenKey {
    fn bounds(&self) -> SAABB<i32, 2> {
        cb(Site::KeyBounds);
        SAABB { min: SVec([self.c[0], self.c[1]]), max: SVec([self.c[2], self.c[3]]) }
    }
}
impl PK for GenKey {
    type B = SAABB<i32, 2>;
    const COUNTED: bool = false;
    const GEN: bool = true;
    fn norm(c: Co) -> Co {
        c
    }
    fn make(c: Co, id: u64) -> Self {
        GenKey { c: c.map(|x| x as i32), id: id as u32, gen: 0 }
    }
    fn co(&self) -> Co {
        self.c.map(|x| x as i64)
    }
    fn id(&self) -> u64 {
        self.id as u64
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
    fn gen(&self) -> u64 {
        self.gen as u64
    }
}
pub struct GenVal {
    x: u64,
    gen: u64,
}
impl Clone for GenVal {
    fn clone(&self) -> Self {
        cb(Site::VClone);
        GenVal { x: self.x, gen: self.gen + 1 }
    }
}
impl PV for GenVal {
    const COUNTED: bool = false;
    fn make(x: u64) -> Self {
        GenVal { x, gen: 0 }
    }
    fn get(&self) -> u64 {
        self.x
    }
    fn set(&mut self, x: u64) {
        self.x = x;
    }
    fn norm(x: u64) -> u64 {
        x
    }
    fn gen(&self) -> u64 {
        self.gen
    }
}
impl PV for () {
    const COUNTED: bool = false;
    fn make(_: u64) -> Self {}
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn norm(_: u64) -> u64 {
        0
    }
}

// The crate's own boxes and points over the whole range of 32 bits.
const STEP: i64 = 1 << 22;
fn far(x: i64) -> i64 {
    (x * 16 - 500).clamp(-511, 511) * STEP
}
impl PK for SAABB<i32, 2> {
    type B = SAABB<i32, 2>;
    const COUNTED: bool = false;
    const SCALE: i64 = STEP;
    fn norm(c: Co) -> Co {
        c.map(far)
    }
    fn make(c: Co, _: u64) -> Self {
        let c = c.map(|x| x as i32);
        SAABB { min: SVec([c[0], c[1]]), max: SVec([c[2], c[3]]) }
    }
    fn co(&self) -> Co {
        Self::bx(self)
    }
    fn id(&self) -> u64 {
        0
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
    fn lib_query<V: PV>(t: &T<Self, V>, kind: u64, q: Co) -> Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> {
        if kind != 4 {
            return area_query!(t, kind, q, i32);
        }
        // a segment, slanted either way
        let g = q.map(|x| (x / STEP).clamp(-511, 511));
        let (dx, dy) = (g[2] - g[0], if (g[0] + g[3]) % 2 == 0 { g[3] - g[1] } else { g[1] - g[3] });
        let p0 = [g[0], g[1]];
        let p1 = [(g[0] + dx.min(500)).min(511), (g[1] + dy.clamp(-500, 500)).clamp(-511, 511)];
        let f = |p: [i64; 2]| SVec(p.map(|x| (x * STEP) as i32));
        let got = collect(t, IntersectsFilter::new(Line(f(p0), f(p1))));
        let want = move |e: &Co| {
            let e = e.map(|x| x / STEP);
            segment_box(&GBox::sized(2, &e[..2], &[e[2] - e[0], e[3] - e[1]]), &p0, &p1)
        };
        Some((got, Box::new(want)))
    }
}
impl PK for SVec<u32, 2> {
    type B = SAABB<u32, 2>;
    const COUNTED: bool = false;
    const SCALE: i64 = STEP;
    fn norm(c: Co) -> Co {
        let (x, y) = ((c[0] * 16).clamp(0, 1023) * STEP, (c[1] * 16).clamp(0, 1023) * STEP);
        [x, y, x, y]
    }
    fn make(c: Co, _: u64) -> Self {
        SVec([c[0] as u32, c[1] as u32])
    }
    fn co(&self) -> Co {
        [self[0] as i64, self[1] as i64, self[0] as i64, self[1] as i64]
    }
    fn id(&self) -> u64 {
        0
    }
    fn bx(b: &Self::B) -> Co {
        [b.min[0] as i64, b.min[1] as i64, b.max[0] as i64, b.max[1] as i64]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        a.sq_dist_to(b).raw()
    }
    fn lib_query<V: PV>(t: &T<Self, V>, kind: u64, q: Co) -> Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> {
        match kind {
            4 => sphere_query!(t, q, u32),
            _ => area_query!(t, kind, q, u32),
        }
    }
}

// The crate's own boxes over floats of every magnitude, infinite ones included.
// The model knows a coordinate by its place in this table.
const STEPS: [f64; 12] = [0.0, 1.0, 1e10, 1e77, 1e100, 1e154, 1e155, 1e200, 1e300, 1.7e308, f64::MAX, f64::INFINITY];
fn step(x: i64) -> N64 {
    let v = STEPS[x.unsigned_abs() as usize];
    n64(if x < 0 { -v } else { v })
}
fn place(v: N64) -> i64 {
    let i = STEPS.iter().position(|s| *s == v.raw().abs());
    match i {
        Some(i) if v < 0.0 => -(i as i64),
        Some(i) => i as i64,
        None => violation("memory", "torn_key", "a coordinate is none of those that were inserted"),
    }
}
fn steps(c: &Co) -> SAABB<N64, 2> {
    SAABB { min: SVec([step(c[0]), step(c[1])]), max: SVec([step(c[2]), step(c[3])]) }
}
impl PK for SAABB<N64, 2> {
    type B = SAABB<N64, 2>;
    const COUNTED: bool = false;
    fn norm(c: Co) -> Co {
        let at = |x: i64| (x * 5).rem_euclid(23) - 11;
        let (x, y) = (at(c[0]), at(c[1]));
        [x, y, (x + c[2] - c[0]).min(11), (y + c[3] - c[1]).min(11)]
    }
    fn make(c: Co, _: u64) -> Self {
        steps(&c)
    }
    fn co(&self) -> Co {
        Self::bx(self)
    }
    fn id(&self) -> u64 {
        0
    }
    fn bx(b: &Self::B) -> Co {
        [place(b.min[0]), place(b.min[1]), place(b.max[0]), place(b.max[1])]
    }
    fn sq(a: &Self::B, b: &Self::B) -> f64 {
        let gap = |i: usize| {
            let g = |max: N64, min: N64| if max < min { min.raw() - max.raw() } else { 0.0 };
            g(a.max[i], b.min[i]).max(g(b.max[i], a.min[i]))
        };
        let d = a.sq_dist_to(b).raw();
        if d != gap(0) * gap(0) + gap(1) * gap(1) {
            viol(&["C05"], "distance", &format!("the squared distance of {a:?} and {b:?} is {d}"));
        }
        self::gap(&Self::bx(a), &Self::bx(b)) as f64
    }
    fn lib_query<V: PV>(t: &T<Self, V>, kind: u64, q: Co) -> Option<(Vec<E>, Box<dyn Fn(&Co) -> Tri>)> {
        let q = q.map(|x| x.clamp(-11, 11));
        let b = steps(&q);
        let inside = move |e: &Co| Tri::of(q[0] <= e[0] && q[1] <= e[1] && e[2] <= q[2] && e[3] <= q[3]);
        let touch = move |e: &Co| Tri::of(meets(&q, e));
        match kind {
            0 => Some((collect(t, IntersectsFilter::new(b)), Box::new(touch))),
            1 => Some((collect(t, ContainsFilter::new(b)), Box::new(inside))),
            2 => Some((collect(t, BoundedIntersectsFilter::new_bounded(b)), Box::new(touch))),
            3 => Some((collect(t, BoundedContainsFilter::new_bounded(b)), Box::new(inside))),
            _ => None,
        }
    }
}

fn meets(a: &Co, b: &Co) -> bool {
    a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3]
}
fn dist(a: &Co, p: &Co) -> i128 {
    let g = |lo: i64, hi: i64, x: i64| (lo - x).max(x - hi).max(0) as i128;
    let (x, y) = (g(a[0], a[2], p[0]), g(a[1], a[3], p[1]));
    x * x + y * y
}

struct PF(Co);
impl<Key: PK> SpatialFilter<Key::B, Key> for PF {
    fn test_bounds(&self, b: &Key::B) -> bool {
        cb(Site::FTestB);
        meets(&self.0, &Key::bx(b))
    }
    fn test_key(&self, k: &Key) -> bool {
        cb(Site::FTestK);
        meets(&self.0, &k.co())
    }
}
/// Ranks by distance from a point; with a limit, keys further off have no rank.
struct PR(Co);
impl<B, Key: PK<B = B>> Ranking<B, Key> for PR {
    type Metric = i128;
    fn bounds_min(&self, b: &B) -> i128 {
        cb(Site::RankB);
        dist(&Key::bx(b), &self.0)
    }
    fn rank_key(&self, k: &Key) -> i128 {
        cb(Site::RankK);
        dist(&k.co(), &self.0)
    }
}
struct PFR(Co, i128);
impl<B, Key: PK<B = B>> Ranking<B, Key> for PFR {
    type Metric = Option<i128>;
    fn bounds_min(&self, b: &B) -> Option<i128> {
        cb(Site::RankB);
        Some(dist(&Key::bx(b), &self.0)).filter(|d| *d <= self.1)
    }
    fn rank_key(&self, k: &Key) -> Option<i128> {
        cb(Site::RankK);
        Some(dist(&k.co(), &self.0)).filter(|d| *d <= self.1)
    }
}
/// Joins keys that meet or, with a distance, keys no further apart.
#[derive(Clone, Copy)]
struct PJ(Option<i64>);
impl PJ {
    fn pair(&self, l: &Co, r: &Co) -> bool {
        match self.0 {
            None => meets(l, r),
            Some(d) => gap(l, r) <= d as i128 * d as i128,
        }
    }
    fn boxes<Key: PK>(&self, l: &Key::B, r: &Key::B) -> bool {
        match self.0 {
            None => meets(&Key::bx(l), &Key::bx(r)),
            Some(d) => Key::sq(l, r) <= d as f64 * d as f64,
        }
    }
}
impl<B, Key: PK<B = B>> JoinFilter<B, B, Key, Key> for PJ {
    fn test_bounds(&self, l: &B, r: &B) -> bool {
        cb(Site::JTestB);
        self.boxes::<Key>(l, r)
    }
    fn test_key(&self, l: &Key, r: &Key) -> bool {
        cb(Site::JTestK);
        self.boxes::<Key>(&l.bounds(), &r.bounds())
    }
}
/// Joins keys with points on a line whose place lies within reach of the
/// key's first dimension; either may be the left side.
#[derive(Clone, Copy)]
struct HJ(i64);
impl HJ {
    fn pair(&self, scale: i64, k: &Co, lo: i64, hi: i64) -> bool {
        (lo - self.0) * scale <= k[2] && k[0] <= (hi + self.0) * scale
    }
}
type LB = SAABB<i32, 1>;
type LK = SVec<i32, 1>;
impl<Key: PK> JoinFilter<Key::B, LB, Key, LK> for HJ {
    fn test_bounds(&self, l: &Key::B, r: &LB) -> bool {
        cb(Site::JTestB);
        self.pair(Key::SCALE, &Key::bx(l), r.min[0] as i64, r.max[0] as i64)
    }
    fn test_key(&self, l: &Key, r: &LK) -> bool {
        cb(Site::JTestK);
        self.pair(Key::SCALE, &l.co(), r[0] as i64, r[0] as i64)
    }
}
/// The same with the sides exchanged.
#[derive(Clone, Copy)]
struct HJr(HJ);
impl<Key: PK> JoinFilter<LB, Key::B, LK, Key> for HJr {
    fn test_bounds(&self, l: &LB, r: &Key::B) -> bool {
        JoinFilter::<Key::B, LB, Key, LK>::test_bounds(&self.0, r, l)
    }
    fn test_key(&self, l: &LK, r: &Key) -> bool {
        JoinFilter::<Key::B, LB, Key, LK>::test_key(&self.0, r, l)
    }
}
fn gap(a: &Co, b: &Co) -> i128 {
    let g = |i: usize| (a[i] - b[i + 2]).max(b[i] - a[i + 2]).max(0) as i128;
    g(0) * g(0) + g(1) * g(1)
}

type E = (Co, u64, u64);
type T<Key, V> = RTree<<Key as PK>::B, Key, V>;

struct Slot<Key: PK, V: PV> {
    t: T<Key, V>,
    m: Vec<E>,
    cfg: (usize, usize),
}

struct W<Key: PK, V: PV> {
    s: Vec<Slot<Key, V>>,
    /// A tree of other types to join with, and its entries.
    line: (RTree<LB, LK, Box<u32>>, Vec<E>),
    next: u64,
}

/// Keeps an entry that was yielded; the bound on a call's steps starts anew.
fn keep<X>(v: &mut Vec<X>, x: X) {
    masked(|| v.push(x));
    let t = tls();
    t.hang_at = t.cnt + sched::HANG_LIMIT;
    sched::recompute_next(t);
}

fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(Unw::Panic(m)) => violation("panic", "panic", &format!("{what} panicked: {m} at {}", LAST_PANIC.get())),
        Err(_) => unreachable!(),
    }
}

fn co_of(g: &[i64; 8]) -> Co {
    [g[0], g[1], g[0] + g[4], g[1] + g[5]]
}

/// Every result goes through a sorted comparison with what the model has.
fn same(tags: &[&str], kind: &str, what: &str, mut got: Vec<E>, mut want: Vec<E>) {
    for e in &got {
        ev(0xE00 ^ (e.1 << 16) ^ (e.2 << 32) ^ e.0[0] as u64);
    }
    cov().items += got.len() as u64;
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        viol(tags, kind, &format!("{what}: {} entries where {} were expected, or others", got.len(), want.len()));
    }
}

/// Consumes a cursor in one of the ways an iterator offers; `f` says whether to
/// go on. What `size_hint` promised must have come when the cursor ran dry.
fn pull<I: Iterator>(tag: &str, how: u64, mut it: I, mut f: impl FnMut(I::Item) -> bool) {
    let (lo, hi) = it.size_hint();
    let (mut n, mut dry) = (0usize, true);
    let mut g = |x: I::Item| {
        n += 1;
        f(x)
    };
    match how {
        0 => it.for_each(|x| {
            g(x);
        }),
        1 => {
            for _ in 0..3 {
                match it.next() {
                    Some(x) => g(x),
                    None => break,
                };
            }
            it.for_each(|x| {
                g(x);
            })
        }
        2 => {
            dry = it.try_for_each(|x| if g(x) { Ok(()) } else { Err(()) }).is_ok();
        }
        3 => {
            while let Some(x) = it.nth(0) {
                if !g(x) {
                    dry = false;
                    break;
                }
            }
        }
        4 => {
            n = it.fold(0, |n, x| {
                f(x);
                n + 1
            });
        }
        _ => {
            while let Some(x) = it.next() {
                if !g(x) {
                    dry = false;
                    break;
                }
            }
            if dry && (it.next().is_some() || it.next().is_some()) {
                masked(|| viol(&[tag], "revived", "an exhausted cursor yielded an entry"));
            }
        }
    }
    if dry && (lo > n || hi.is_some_and(|h| h < n)) {
        masked(|| viol(&[tag], "size_hint", &format!("size_hint was ({lo}, {hi:?}) before {n} items")));
    }
}

/// `count`, `last` or `nth` on a fresh cursor, against the items expected.
fn jump<I: Iterator, T: Ord + Copy>(tag: &str, r: &mut Rng, it: I, conv: impl Fn(I::Item) -> T, mut want: Vec<T>) {
    let total = want.len();
    let (how, k) = (r.below(3), if r.pct(60) { r.us(total + 2) } else { r.us(4) });
    want.sort_unstable();
    let has = |x: &T| want.binary_search(x).is_ok();
    let mut it = Some(it);
    let bad = call("jump", || match how {
        0 => it.take().is_some_and(|i| i.count() != total),
        1 => match it.take().and_then(|i| i.last()) {
            None => total != 0,
            Some(x) => masked(|| !has(&conv(x))),
        },
        _ => {
            let mut i = it.take().unwrap();
            let first = i.nth(k);
            match first {
                None => k < total || i.next().is_some(),
                Some(x) => {
                    let mut out = masked(|| vec![conv(x)]);
                    for x in i {
                        keep(&mut out, masked(|| conv(x)));
                    }
                    masked(|| {
                        let n = out.len();
                        out.sort_unstable();
                        // every item is among those expected, no more often
                        let mut w = want.iter();
                        let known = out.iter().all(|x| w.any(|y| y == x));
                        drop(out);
                        n + k != total || !known
                    })
                }
            }
        }
    });
    if bad {
        viol(&[tag], "jump", &format!("{} does not go with the {total} items expected (n = {k})", ["count", "last", "nth"][how as usize]));
    }
}

impl<Key: PK, V: PV> W<Key, V> {
    fn entry(k: &Key, v: &V) -> E {
        (k.co(), k.id(), v.get())
    }

    fn gens(t: &T<Key, V>) -> Vec<(u64, u64)> {
        call("enumeration", || {
            let mut out = masked(Vec::new);
            for (k, v) in t.iter() {
                keep(&mut out, (k.gen(), v.gen()));
            }
            out
        })
    }

    fn order(&self, a: usize) -> Vec<E> {
        let t = &self.s[a].t;
        call("enumeration", || {
            let mut out = masked(Vec::new);
            for (k, v) in t.iter() {
                keep(&mut out, masked(|| Self::entry(k, v)));
            }
            out
        })
    }

    fn verify(&self, a: usize, after: &str, tags: &[&str]) {
        let s = &self.s[a];
        let mut tg = vec!["C01", "C02"];
        tg.extend_from_slice(tags);
        same(&tg, "wrong_entries", &format!("enumeration after {after}"), self.order(a), s.m.clone());
        let (l, e) = call("len", || (s.t.len(), s.t.is_empty()));
        if l != s.m.len() || e != s.m.is_empty() {
            viol(&tg, "wrong_len", &format!("after {after}: len() = {l}, is_empty() = {e} with {} entries", s.m.len()));
        }
        self.counts(after);
        cov().maxlen = cov().maxlen.max(l);
        cov().checks += 1;
    }

    fn counts(&self, after: &str) {
        let n: i64 = self.s.iter().map(|s| s.m.len() as i64).sum();
        if (Key::COUNTED && *KLIVE.get() != n) || (V::COUNTED && *VLIVE.get() != n) {
            viol(
                &["C08"],
                "live_count",
                &format!("after {after}: {n} entries are in the trees, {} keys and {} values are alive", *KLIVE.get(), *VLIVE.get()),
            );
        }
    }

    fn first_equal(&self, a: usize, co: &Co) -> Option<E> {
        self.order(a).into_iter().find(|e| e.0 == *co)
    }

    fn insert(&mut self, a: usize, co: Co, unique: bool) {
        let (id, x) = (self.next, V::norm(self.next * 7 + 1));
        self.next += 1;
        let (k, v) = (Key::make(co, id), V::make(x));
        let (co, id) = (k.co(), k.id());
        if !unique {
            let t = &mut self.s[a].t;
            call("insert", || t.insert(k, v));
            self.s[a].m.push((co, id, x));
            return;
        }
        let old = self.first_equal(a, &co);
        let t = &mut self.s[a].t;
        let r = call("insert_unique", || t.insert_unique(k, v));
        let got = r.as_ref().map(|v| v.get());
        drop(r);
        if got != old.map(|o| o.2) {
            viol(&["C01"], "wrong_old", &format!("insert_unique returned {got:?} instead of {:?}", old.map(|o| o.2)));
        }
        let m = &mut self.s[a].m;
        match old {
            Some(o) => {
                if let Some(e) = m.iter_mut().find(|e| **e == o) {
                    e.2 = x;
                }
            }
            None => m.push((co, id, x)),
        }
    }

    fn remove(&mut self, a: usize, co: Co) {
        let old = self.first_equal(a, &co);
        let k = Key::make(co, u64::MAX);
        let t = &mut self.s[a].t;
        let r = call("remove", || t.remove(&k));
        drop(k);
        let got = r.as_ref().map(|v| v.get());
        drop(r);
        if got != old.map(|o| o.2) {
            viol(&["C01"], "wrong_removed", &format!("remove returned {got:?} instead of {:?}", old.map(|o| o.2)));
        }
        if let Some(o) = old {
            let m = &mut self.s[a].m;
            if let Some(i) = m.iter().position(|e| *e == o) {
                m.swap_remove(i);
            }
        }
    }

    fn get(&mut self, a: usize, co: Co, write: bool) {
        let old = self.first_equal(a, &co);
        let k = Key::make(co, u64::MAX);
        let x = V::norm(self.next * 7 + 3);
        let got = if write {
            self.next += 1;
            let t = &mut self.s[a].t;
            call("get_mut", || {
                t.get_mut(&k).map(|v| {
                    let o = v.get();
                    v.set(x);
                    o
                })
            })
        } else {
            let t = &self.s[a].t;
            call("get", || t.get(&k).map(|v| v.get()))
        };
        drop(k);
        if got != old.map(|o| o.2) {
            viol(&["C01"], "wrong_get", &format!("get returned {got:?} instead of {:?}", old.map(|o| o.2)));
        }
        if let (Some(o), true) = (old, write) {
            if let Some(e) = self.s[a].m.iter_mut().find(|e| **e == o) {
                e.2 = x;
            }
        }
    }

    fn query(&mut self, r: &mut Rng, op: &Op, a: usize, b: usize) {
        let q = {
            let c = Key::norm(co_of(&op.c));
            let w = r.range(0, 40) * Key::SCALE;
            [c[0] - w, c[1] - w, c[2] + w, c[3] + w]
        };
        let (sa, sb) = (&self.s[a], &self.s[b]);
        let stop = if r.pct(25) { r.us(sa.m.len() + 2) } else { usize::MAX };
        let near = PJ(if r.pct(40) { Some(r.range(0, 20) * Key::SCALE) } else { None });
        let how = r.below(12);
        match r.below(11) {
            10 => self.jumps(r, a, b, q, near),
            8 => self.hetero(r, a, false),
            9 => self.hetero(r, a, true),
            7 => {
                let kind = r.below(5);
                if let Some((got, m)) = Key::lib_query(&sa.t, kind, q) {
                    let got = got.into_iter().filter(|e| m(&e.0) != Tri::Maybe).collect();
                    same(&["C03"], "wrong_matches", "filter_iter", got, sa.m.iter().filter(|e| m(&e.0) == Tri::Yes).copied().collect());
                }
            }
            0 | 1 => {
                let got = call("filter_iter", || {
                    let mut out = masked(Vec::new);
                    pull("C03", how, sa.t.filter_iter(PF(q)), |(k, v)| {
                        keep(&mut out, masked(|| Self::entry(k, v)));
                        true
                    });
                    out
                });
                same(&["C03"], "wrong_matches", "filter_iter", got, sa.m.iter().filter(|e| meets(&e.0, &q)).copied().collect());
            }
            2 | 3 => {
                let limit = if r.pct(50) { Some(r.range(0, 3000) as i128 * Key::SCALE as i128 * Key::SCALE as i128) } else { None };
                let got = call("ranked query", || {
                    let mut out: Vec<E> = masked(Vec::new);
                    match limit {
                        None => {
                            pull("C04", how, sa.t.iter_asc_by(PR(q)), |(k, v)| {
                                keep(&mut out, masked(|| Self::entry(k, v)));
                                true
                            });
                        }
                        Some(l) => {
                            pull("C04", how, sa.t.filter_iter_asc_by(PFR(q, l)), |(k, v)| {
                                keep(&mut out, masked(|| Self::entry(k, v)));
                                true
                            });
                        }
                    }
                    out
                });
                if got.windows(2).any(|w| dist(&w[0].0, &q) > dist(&w[1].0, &q)) {
                    viol(&["C04"], "order", "a ranked query yielded entries out of order");
                }
                let want = sa.m.iter().filter(|e| limit.is_none_or(|l| dist(&e.0, &q) <= l)).copied().collect();
                same(&["C04"], "wrong_entries", "ranked query", got, want);
            }
            4 => {
                // Enough for two nodes with more pairs of children than 16 bits
                // can count.
                let most = if sa.cfg.0.min(sb.cfg.0) >= 256 { 100_000 } else { 30_000 };
                if sa.m.len() * sb.m.len() > most {
                    return;
                }
                let got = call("join", || {
                    let mut out: Vec<(E, E)> = masked(Vec::new);
                    pull("C05", how, sa.t.join(&sb.t, near), |(l, r)| {
                        keep(&mut out, masked(|| (Self::entry(&l.0, &l.1), Self::entry(&r.0, &r.1))));
                        out.len() <= stop
                    });
                    out
                });
                let mut want: Vec<(E, E)> = Vec::new();
                for x in &sa.m {
                    for y in &sb.m {
                        if near.pair(&x.0, &y.0) {
                            want.push((*x, *y));
                        }
                    }
                }
                self.pairs("C05", "join", got, want, stop);
            }
            _ => {
                if sa.m.len() * sb.m.len() > 30_000 {
                    return;
                }
                let hold = r.pct(50);
                let (lefts, got) = call("left_join", || {
                    let mut lefts: Vec<E> = masked(Vec::new);
                    let mut out: Vec<(E, E)> = masked(Vec::new);
                    let mut kept = masked(Vec::new);
                    pull("C06", how, sa.t.left_join(&sb.t, near), |((k, v), inner)| {
                        let l = masked(|| Self::entry(k, v));
                        keep(&mut lefts, l);
                        if hold {
                            masked(|| kept.push((l, inner)));
                        } else {
                            pull("C06", (how + 5) % 12, inner, |(k, v)| {
                                keep(&mut out, masked(|| (l, Self::entry(k, v))));
                                true
                            });
                        }
                        lefts.len() <= stop
                    });
                    while let Some((l, inner)) = masked(|| kept.pop()) {
                        pull("C06", (how + 7) % 12, inner, |(k, v)| {
                            keep(&mut out, masked(|| (l, Self::entry(k, v))));
                            true
                        });
                    }
                    masked(|| drop(kept));
                    (lefts, out)
                });
                let mut want: Vec<(E, E)> = Vec::new();
                let mut left = sa.m.clone();
                if stop != usize::MAX {
                    left = lefts.clone();
                }
                for x in &left {
                    for y in &sb.m {
                        if near.pair(&x.0, &y.0) {
                            want.push((*x, *y));
                        }
                    }
                }
                if stop == usize::MAX {
                    same(&["C06"], "wrong_left", "left_join", lefts, sa.m.clone());
                }
                self.pairs("C06", "left_join", got, want, usize::MAX);
            }
        }
    }

    /// Cursors consumed by `count`, `last` and `nth`, and the entry of least
    /// metric.
    fn jumps(&mut self, r: &mut Rng, a: usize, b: usize, q: Co, near: PJ) {
        let next = self.next;
        let (sa, sb) = (&self.s[a], &self.s[b]);
        let e = |x: (&Key, &V)| Self::entry(x.0, x.1);
        let all = || sa.m.clone();
        let some = || -> Vec<E> { sa.m.iter().filter(|e| meets(&e.0, &q)).copied().collect() };
        let l = r.range(0, 3000) as i128 * Key::SCALE as i128 * Key::SCALE as i128;
        let within = || -> Vec<E> { sa.m.iter().filter(|e| dist(&e.0, &q) <= l).copied().collect() };
        match r.below(8) {
            0 => {
                let order = self.order(a);
                let k = r.us(order.len() + 2);
                let got = call("nth", || {
                    let mut i = sa.t.iter();
                    let x = i.nth(k).map(|x| masked(|| e(x)));
                    (x, i.next().map(|x| masked(|| e(x))), i.count())
                });
                if got != (order.get(k).copied(), order.get(k + 1).copied(), order.len().saturating_sub(k + 2)) {
                    viol(&["C02"], "jump", &format!("nth({k}) of {} entries and what followed do not go with the order", order.len()));
                }
            }
            1 => jump("C02", r, call("iter", || sa.t.iter()), e, all()),
            2 => jump("C03", r, call("filter_iter", || sa.t.filter_iter(PF(q))), e, some()),
            3 => jump("C04", r, call("iter_asc_by", || sa.t.iter_asc_by(PR(q))), e, all()),
            4 => jump("C04", r, call("filter_iter_asc_by", || sa.t.filter_iter_asc_by(PFR(q, l))), e, within()),
            5 => {
                if sa.m.len() * sb.m.len() > 30_000 {
                    return;
                }
                let pairs = sa.m.iter().flat_map(|x| sb.m.iter().filter(|y| near.pair(&x.0, &y.0)).map(|y| (*x, *y))).collect();
                let conv = |p: (&(Key, V), &(Key, V))| (Self::entry(&p.0 .0, &p.0 .1), Self::entry(&p.1 .0, &p.1 .1));
                jump("C05", r, call("join", || sa.t.join(&sb.t, near)), conv, pairs)
            }
            6 => {
                if sa.m.len() * sb.m.len() > 30_000 {
                    return;
                }
                let mut i = call("left_join", || sa.t.left_join(&sb.t, near));
                let n = r.us(sa.m.len() + 1);
                if let Some(((k, v), inner)) = call("nth", || i.nth(n)) {
                    let l = Self::entry(k, v);
                    if r.pct(50) {
                        call("drop", || drop(i));
                    }
                    jump("C06", r, inner, e, sb.m.iter().filter(|y| near.pair(&l.0, &y.0)).copied().collect());
                } else if n < sa.m.len() {
                    viol(&["C06"], "jump", &format!("nth({n}) of {} left entries found nothing", sa.m.len()));
                }
            }
            _ => {
                let best = sa.m.iter().map(|e| dist(&e.0, &q)).min();
                let near = best.filter(|d| *d <= l);
                let (x, y) = call("min_by", || (sa.t.min_by(PR(q)), sa.t.filter_min_by(PFR(q, l))));
                let (x, y) = (x.map(e), y.map(e));
                let off = |x: Option<E>, d: Option<i128>| x.map(|e| dist(&e.0, &q)) != d || x.is_some_and(|e| !sa.m.contains(&e));
                if off(x, best) || off(y, near) {
                    viol(&["C04"], "min", "min_by or filter_min_by answers with another entry than one of least metric");
                }
                let t = &mut self.s[a].t;
                let v = V::norm(next * 7 + 9);
                let got = call("min_by_mut", || {
                    t.filter_min_by_mut(PFR(q, l)).map(|(k, x)| {
                        let e = masked(|| Self::entry(k, x));
                        x.set(v);
                        e
                    })
                });
                self.next += 1;
                if got.map(|e| dist(&e.0, &q)) != near {
                    viol(&["C04"], "min", "filter_min_by_mut answers with another entry than one of least metric");
                }
                if let Some(g) = got {
                    match self.s[a].m.iter_mut().find(|m| **m == g) {
                        Some(m) => m.2 = v,
                        None => viol(&["C04", "C14"], "min", "filter_min_by_mut lent an entry that is not in the tree"),
                    }
                }
                self.verify(a, "writing through filter_min_by_mut", &["C14"]);
            }
        }
    }

    /// Joins with a tree of other bounds, keys and values.
    fn hetero(&self, r: &mut Rng, a: usize, left: bool) {
        let (sa, f) = (&self.s[a], HJ(r.range(0, 6)));
        let (lt, lm) = &self.line;
        if sa.m.len() * lm.len() > 30_000 {
            return;
        }
        let (flip, how) = (r.pct(50), r.below(12));
        let tag = if left { "C06" } else { "C05" };
        let le = |k: &LK, v: &Box<u32>| -> E { ([k[0] as i64; 4], 0, **v as u64) };
        let mut lefts: Vec<E> = Vec::new();
        let got = call("join of different trees", || {
            let mut out: Vec<(E, E)> = masked(Vec::new);
            match (left, flip) {
                (false, false) => {
                    pull(tag, how, sa.t.join(lt, f), |(x, y)| {
                        keep(&mut out, masked(|| (Self::entry(&x.0, &x.1), le(&y.0, &y.1))));
                        true
                    });
                }
                (false, true) => {
                    pull(tag, how, lt.join(&sa.t, HJr(f)), |(y, x)| {
                        keep(&mut out, masked(|| (Self::entry(&x.0, &x.1), le(&y.0, &y.1))));
                        true
                    });
                }
                (true, false) => {
                    pull(tag, how, sa.t.left_join(lt, f), |((k, v), inner)| {
                        let e = masked(|| Self::entry(k, v));
                        keep(&mut lefts, e);
                        pull(tag, (how + 5) % 12, inner, |(k, v)| {
                            keep(&mut out, masked(|| (e, le(k, v))));
                            true
                        });
                        true
                    });
                }
                (true, true) => {
                    pull(tag, how, lt.left_join(&sa.t, HJr(f)), |((k, v), inner)| {
                        let e = masked(|| le(k, v));
                        keep(&mut lefts, e);
                        pull(tag, (how + 5) % 12, inner, |(k, v)| {
                            keep(&mut out, masked(|| (Self::entry(k, v), e)));
                            true
                        });
                        true
                    });
                }
            }
            out
        });
        let mut want: Vec<(E, E)> = Vec::new();
        for x in &sa.m {
            for y in lm {
                if f.pair(Key::SCALE, &x.0, y.0[0], y.0[0]) {
                    want.push((*x, *y));
                }
            }
        }
        if left {
            same(&[tag], "wrong_left", "left_join", lefts, if flip { lm.clone() } else { sa.m.clone() });
        }
        self.pairs(tag, "join of different trees", got, want, usize::MAX);
    }

    fn pairs(&self, tag: &str, what: &str, mut got: Vec<(E, E)>, mut want: Vec<(E, E)>, stop: usize) {
        cov().items += got.len() as u64;
        ev(0xE80 + got.len() as u64);
        got.sort_unstable();
        want.sort_unstable();
        let bad = if got.len() > stop {
            // cancelled: what came must be among the pairs
            let mut i = 0;
            got.iter().any(|g| {
                while i < want.len() && want[i] < *g {
                    i += 1;
                }
                let ok = i < want.len() && want[i] == *g;
                i += 1;
                !ok
            })
        } else {
            got != want
        };
        if bad {
            viol(&[tag], "wrong_pairs", &format!("{what}: {} pairs where {} were expected, or others", got.len(), want.len()));
        }
    }

    fn mutate(&mut self, r: &mut Rng, op: &Op, a: usize) {
        let q = {
            let c = Key::norm(co_of(&op.c));
            let w = r.range(0, 60) * Key::SCALE;
            [c[0] - w, c[1] - w, c[2] + w, c[3] + w]
        };
        let stop = if r.pct(30) { r.us(self.s[a].m.len() + 2) } else { usize::MAX };
        let stop = if self.huge(a) { stop.min(300) } else { stop };
        let mut next = self.next;
        let kind = r.below(4);
        let back = r.pct(50);
        let how = if self.huge(a) { 5 } else { r.below(12) };
        let l = r.range(0, 3000) as i128 * Key::SCALE as i128 * Key::SCALE as i128;
        let t = &mut self.s[a].t;
        // The references are held until the cursor is gone.
        let wrote = call("mutable query", || {
            let mut held: Vec<(&Key, &mut V)> = masked(Vec::new);
            macro_rules! take {
                ($it:expr) => {
                    pull("C14", how, $it, |x| {
                        keep(&mut held, x);
                        held.len() <= stop
                    })
                };
            }
            match kind {
                0 => take!(t.iter_mut()),
                1 => take!(t.filter_iter_mut(PF(q))),
                2 => take!(t.iter_asc_by_mut(PR(q))),
                _ => take!(t.filter_iter_asc_by_mut(PFR(q, l))),
            }
            masked(|| {
                if back {
                    held.reverse();
                }
                let mut wrote: Vec<(E, u64)> = Vec::new();
                for (k, v) in held {
                    let e = Self::entry(k, v);
                    next += 1;
                    let x = V::norm(next * 7 + 5);
                    v.set(x);
                    wrote.push((e, x));
                }
                wrote
            })
        });
        self.next = next;
        if stop == usize::MAX {
            let got = wrote.iter().map(|w| w.0).collect();
            let fits = |e: &&E| match kind {
                1 => meets(&e.0, &q),
                3 => dist(&e.0, &q) <= l,
                _ => true,
            };
            let want = self.s[a].m.iter().filter(fits).copied().collect();
            let tag = ["C02", "C03", "C04", "C04"][kind as usize];
            same(&[tag, "C14"], "wrong_lent", "mutable query", got, want);
        }
        for (e, x) in wrote {
            match self.s[a].m.iter_mut().find(|m| **m == e) {
                Some(m) => m.2 = x,
                None => viol(&["C14"], "lent_twice", "a mutable query lent an entry that is not there, or twice"),
            }
        }
        self.verify(a, "writing through a mutable query", &["C14"]);
    }

    fn huge(&self, a: usize) -> bool {
        self.s[a].cfg.0 > 1000
    }

    fn new_tree(cfg: (usize, usize)) -> T<Key, V> {
        call("RTree::new", || RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }))
    }

    fn run(&mut self, spec: &Spec, op: &Op) {
        let ns = self.s.len();
        let (a, b) = (op.slot % ns, op.slot2 % ns);
        let mut r = Rng::new(op.sd);
        cov().ops[op.k as usize] += 1;
        ev(0xE40 + op.k as u64);
        let mut co = Key::norm(co_of(&op.c));
        if op.sel >= 0 && !self.s[a].m.is_empty() {
            co = self.s[a].m[op.sel as usize % self.s[a].m.len()].0;
        }
        match op.k {
            K::Insert => {
                self.insert(a, co, false);
                self.verify(a, "insert", &[]);
            }
            K::InsertUnique => {
                self.insert(a, co, true);
                self.verify(a, "insert_unique", &[]);
            }
            K::Remove => {
                self.remove(a, co);
                self.verify(a, "remove", &[]);
            }
            K::Get => self.get(a, co, op.sd % 2 == 0),
            K::Bulk => {
                let many = if self.s[a].cfg.0 >= 64 { op.n * 6 } else { op.n };
                let most = if self.huge(a) { 65_900 } else { 900 };
                let many = if self.huge(a) { most } else { many };
                for i in 0..many {
                    if self.s[a].m.len() > most as usize {
                        break;
                    }
                    let g = gen_coords(&mut r, &spec.cfg, i as u64);
                    let unique = r.pct(10) && !self.huge(a);
                    self.insert(a, Key::norm(co_of(&g)), unique);
                }
                self.verify(a, "bulk insert", &[]);
            }
            K::BulkRemove => {
                let many = if self.huge(a) { op.n.min(5) } else { op.n };
                for _ in 0..many {
                    let m = &self.s[a].m;
                    if m.is_empty() {
                        break;
                    }
                    let co = m[r.us(m.len())].0;
                    self.remove(a, co);
                }
                self.verify(a, "bulk remove", &[]);
            }
            K::Mut => self.mutate(&mut r, op, a),
            K::Session => {
                for _ in 0..2 {
                    self.query(&mut r, op, a, b);
                }
                self.counts("queries");
            }
            K::CloneInto => {
                let before = self.order(a);
                let gens = Self::gens(&self.s[a].t);
                let from = a != b && (op.sd >> 8) % 2 == 0;
                let t = if from {
                    let mut t = std::mem::replace(&mut self.s[b].t, Self::new_tree((4, 2)));
                    call("clone_from", || t.clone_from(&self.s[a].t));
                    t
                } else {
                    call("clone", || self.s[a].t.clone())
                };
                if Key::GEN {
                    if Self::gens(&self.s[a].t) != gens {
                        viol(&["C07"], "clone_source", "cloning replaced entries of the source by clones");
                    }
                    let n = Self::gens(&t);
                    if n.len() != gens.len() || n.iter().zip(&gens).any(|(n, g)| n.0 <= g.0 || n.1 <= g.1) {
                        viol(&["C07"], "clone_copied", "an entry of the clone was not obtained by Clone");
                    }
                }
                let (m, cfg) = (self.s[a].m.clone(), self.s[a].cfg);
                if a == b {
                    // the clone takes the place of its source
                    let old = std::mem::replace(&mut self.s[a].t, t);
                    call("drop", || drop(old));
                } else {
                    let old = std::mem::replace(&mut self.s[b], Slot { t, m, cfg });
                    call("drop", || drop(old.t));
                }
                if self.order(b) != before {
                    viol(&["C07"], "clone_order", "the clone enumerates differently from its source");
                }
                self.verify(b, "clone", &["C07"]);
                self.verify(a, "clone of it", &["C07"]);
            }
            K::Reset => {
                let cfg = ((op.c[0].max(2)) as usize, (op.c[1].max(1)) as usize);
                let cfg = (cfg.0, cfg.1.min(cfg.0 / 2).max(1));
                let old = std::mem::replace(&mut self.s[a], Slot { t: Self::new_tree(cfg), m: Vec::new(), cfg });
                call("drop", || drop(old.t));
                self.verify(a, "RTree::new", &[]);
            }
            K::Swap => {
                if a != b {
                    self.s.swap(a, b);
                }
            }
            K::Full => self.verify(a, "nothing", &[]),
            K::BadConfig => {}
        }
    }
}

fn line_tree(spec: &Spec) -> (RTree<LB, LK, Box<u32>>, Vec<E>) {
    let mut r = Rng::sub(spec.cfg.seed, 77);
    let max = *r.pick(&[2usize, 3, 4, 7, 20]);
    let n = if r.pct(15) { r.us(2) } else { r.us(60) };
    let mut m = Vec::new();
    let t = call("building a tree to join with", || {
        let mut t = RTree::new(RTreeConfig { max_children: max, min_children: 1.max(max / 3) });
        for i in 0..n {
            let x = r.range(-2, 66);
            t.insert(SVec([x as i32]), Box::new(i as u32));
            keep(&mut m, ([x; 4], 0, i as u64));
        }
        t
    });
    (t, m)
}

pub fn run_plain<Key: PK, V: PV>(spec: &Spec) -> RunOut {
    *sched::SCHED.get() = None;
    reset_registry();
    alloc::flush_quarantine();
    let ast = AST.get();
    ast.live = 0;
    ast.live_bytes = 0;
    *EVHASH.get() = 0;
    *EVCOUNT.get() = 0;
    *KLIVE.get() = 0;
    *VLIVE.get() = 0;
    CTX.get().foreign = 0;
    for d in &mut CTX.get().op_desc {
        *d = "start".into();
    }
    tls().task = 0;
    let mut w = W::<Key, V> { s: Vec::new(), next: 0, line: line_tree(spec) };
    for cfg in &spec.cfg.slots {
        w.s.push(Slot { t: W::<Key, V>::new_tree(*cfg), m: Vec::new(), cfg: *cfg });
    }
    for (i, op) in spec.ops.iter().enumerate() {
        CTX.get().op_desc[0] = format!("#{i} {}", op.text());
        if CTX.get().verbose {
            println!("#{i} {}", op.text());
        }
        w.run(spec, op);
    }
    CTX.get().op_desc[0] = "end of run".into();
    for i in 0..w.s.len() {
        w.verify(i, "the whole history", &[]);
    }
    for s in w.s.drain(..) {
        call("dropping the tree at the end", || drop(s.t));
    }
    w.counts("dropping the trees");
    let W { line, .. } = w;
    call("dropping the tree joined with", || drop(line.0));
    if AST.get().live != 0 {
        viol(&["C08"], "memory_leak", &format!("{} heap blocks taken by the library were never released", AST.get().live));
    }
    alloc::flush_quarantine();
    let c = cov();
    c.runs += 1;
    c.flavors[spec.cfg.flavor % 16] += 1;
    c.foreign += (CTX.get().foreign > 0) as u64;
    RunOut { evhash: *EVHASH.get(), events: *EVCOUNT.get(), foreign: CTX.get().foreign }
}
