//! Key flavours. Coordinates live on an integer grid, on which the oracle is
//! exact; the code under test sees the crate's own geometric types.
use std::marker::PhantomData;
use std::ops::{Add, Mul, Sub};

use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{
    BoundedContainsFilter, BoundedIntersectsFilter, ContainsFilter, IntersectsFilter, NoFilter, SpatialFilter,
};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, Ranking};
use rusty_rtree::vector::SVec;

pub const MD: usize = 4;

/// Box on the grid.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct GBox {
    pub d: usize,
    pub lo: [i64; MD],
    pub hi: [i64; MD],
}

impl GBox {
    pub fn intersects(&self, o: &GBox) -> bool {
        (0..self.d).all(|i| self.lo[i] <= o.hi[i] && self.hi[i] >= o.lo[i])
    }
    pub fn contains(&self, o: &GBox) -> bool {
        (0..self.d).all(|i| self.lo[i] <= o.lo[i] && self.hi[i] >= o.hi[i])
    }
    pub fn union(&self, o: &GBox) -> GBox {
        let mut r = *self;
        for i in 0..self.d {
            r.lo[i] = r.lo[i].min(o.lo[i]);
            r.hi[i] = r.hi[i].max(o.hi[i]);
        }
        r
    }
    /// Squared distance between boxes, in squared grid units.
    pub fn dist2(&self, o: &GBox) -> i64 {
        (0..self.d)
            .map(|i| {
                let x = (o.lo[i] - self.hi[i]).max(self.lo[i] - o.hi[i]).max(0);
                x * x
            })
            .sum()
    }
    pub fn point(d: usize, p: &[i64]) -> GBox {
        let mut r = GBox { d, lo: [0; MD], hi: [0; MD] };
        for i in 0..d {
            r.lo[i] = p[i];
            r.hi[i] = p[i];
        }
        r
    }
    pub fn sized(d: usize, p: &[i64], ext: &[i64]) -> GBox {
        let mut r = GBox { d, lo: [0; MD], hi: [0; MD] };
        for i in 0..d {
            r.lo[i] = p[i];
            r.hi[i] = p[i] + ext[i].max(0);
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Yes,
    No,
    Maybe,
}
impl Tri {
    pub fn of(b: bool) -> Tri {
        if b {
            Tri::Yes
        } else {
            Tri::No
        }
    }
}

/// Does the line p0 + t*(p1-p0), t in t0..=t1, meet the box grown by e?
fn slab(b: &GBox, p0: &[i64], p1: &[i64], mut t0: f64, mut t1: f64, e: f64) -> bool {
    for i in 0..b.d {
        let (lo, hi) = (b.lo[i] as f64 - e, b.hi[i] as f64 + e);
        let (o, dl) = (p0[i] as f64, (p1[i] - p0[i]) as f64);
        if lo > hi {
            return false;
        }
        if dl == 0.0 {
            if o < lo || o > hi {
                return false;
            }
        } else {
            let (a, c) = ((lo - o) / dl, (hi - o) / dl);
            t0 = t0.max(a.min(c));
            t1 = t1.min(a.max(c));
            if t0 > t1 {
                return false;
            }
        }
    }
    true
}

/// Does the segment meet the box? The crate divides in floating point, so
/// where the box is only touched, and the two divisions concerned are of
/// different dimensions and not exact, either answer is right.
pub fn segment_box(b: &GBox, p0: &[i64], p1: &[i64]) -> Tri {
    // (numerator, denominator > 0, dimension, exact)
    let mut lows = vec![(0i64, 1i64, usize::MAX, true)];
    let mut highs = vec![(1i64, 1i64, usize::MAX, true)];
    for i in 0..b.d {
        let (lo, hi, o, dl) = (b.lo[i], b.hi[i], p0[i], p1[i] - p0[i]);
        if dl == 0 {
            if o < lo || o > hi {
                return Tri::No;
            }
            continue;
        }
        let exact = dl.unsigned_abs().is_power_of_two();
        let (a, c) = if dl > 0 { (lo - o, hi - o) } else { (o - hi, o - lo) };
        lows.push((a, dl.abs(), i, exact || a == 0));
        highs.push((c, dl.abs(), i, exact || c == 0));
    }
    let mut sure = true;
    for l in &lows {
        for h in &highs {
            match (l.0 * h.1).cmp(&(h.0 * l.1)) {
                std::cmp::Ordering::Greater => return Tri::No,
                std::cmp::Ordering::Equal => sure &= l.2 == h.2 || (l.3 && h.3),
                std::cmp::Ordering::Less => {}
            }
        }
    }
    if sure {
        Tri::Yes
    } else {
        Tri::Maybe
    }
}

fn ray_box(b: &GBox, p0: &[i64], p1: &[i64]) -> Tri {
    if slab(b, p0, p1, 0.0, 1e9, -1e-3) {
        Tri::Yes
    } else if slab(b, p0, p1, -1e9, 1e9, 1e-3) {
        Tri::Maybe
    } else {
        Tri::No
    }
}

pub trait Num:
    Copy + Ord + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Into<f64> + num_traits::Bounded + std::fmt::Debug + 'static
{
    /// Grid units per 1.0.
    const SCALE: i64;
    const MAXC: i64;
    fn of(g: i64) -> Self;
    fn grid(self) -> i64 {
        let f: f64 = self.into();
        (f * Self::SCALE as f64) as i64
    }
    /// A squared length in squared grid units.
    fn grid2(self) -> i64 {
        let f: f64 = self.into();
        (f * (Self::SCALE * Self::SCALE) as f64) as i64
    }
}
impl Num for i32 {
    const SCALE: i64 = 1;
    const MAXC: i64 = 8000;
    fn of(g: i64) -> Self {
        g as i32
    }
}
impl Num for N64 {
    const SCALE: i64 = 4;
    const MAXC: i64 = 40000;
    fn of(g: i64) -> Self {
        n64(g as f64 / 4.0)
    }
}
impl Num for N32 {
    const SCALE: i64 = 4;
    const MAXC: i64 = 400;
    fn of(g: i64) -> Self {
        n32(g as f32 / 4.0)
    }
}

pub trait DynF<F: Fl> {
    fn tb(&self, b: &F::Bx) -> bool;
    fn tk(&self, k: &F::G) -> bool;
}
pub trait DynR<F: Fl> {
    fn bmin(&self, b: &F::Bx) -> i64;
    fn rk(&self, k: &F::G) -> i64;
}

/// A key flavour: bounds type and key geometry of the crate.
pub trait Fl: Sized + Copy + 'static {
    type Bx: Clone;
    type G: Clone + PartialEq;
    const NAME: &'static str;
    const D: usize;
    /// grid coordinates per key
    const NC: usize;
    const MAXC: i64;

    fn g(c: &[i64]) -> Self::G;
    fn gbox(g: &Self::G) -> GBox;
    /// grid coordinates of a key (inverse of `g`)
    fn coords(g: &Self::G) -> [i64; 2 * MD];
    fn g_bounds(g: &Self::G) -> Self::Bx;

    fn bx_of(b: &GBox) -> Self::Bx;
    fn bx_grid(b: &Self::Bx) -> Option<GBox>;
    fn empty() -> Self::Bx;
    fn union(a: &Self::Bx, b: &Self::Bx) -> Self::Bx;
    fn union_all(it: &mut dyn Iterator<Item = Self::Bx>) -> Self::Bx;
    fn contains(a: &Self::Bx, b: &Self::Bx) -> bool;
    fn intersects(a: &Self::Bx, b: &Self::Bx) -> bool;
    fn volume(a: &Self::Bx) -> N64;
    fn sq_dist(a: &Self::Bx, b: &Self::Bx) -> i64;

    fn n_filters() -> usize;
    fn filter(kind: usize, p: &[i64], e: &[i64]) -> Box<dyn DynF<Self>>;
    fn expect(kind: usize, p: &[i64], e: &[i64], g: &Self::G) -> Tri;
    fn has_euclid() -> bool;
    fn euclid(p: &[i64]) -> Box<dyn DynR<Self>>;
}

pub struct DF<T>(pub T);
pub struct FnF<B, K>(pub B, pub K);

impl<F: Fl, T> DynF<F> for DF<T>
where
    T: SpatialFilter<F::Bx, F::G>,
{
    fn tb(&self, b: &F::Bx) -> bool {
        self.0.test_bounds(b)
    }
    fn tk(&self, k: &F::G) -> bool {
        self.0.test_key(k)
    }
}

fn svec<N: Num, const D: usize>(p: &[i64]) -> SVec<N, D> {
    SVec(std::array::from_fn(|i| N::of(p[i])))
}
fn saabb<N: Num, const D: usize>(b: &GBox) -> SAABB<N, D> {
    SAABB { min: svec(&b.lo), max: svec(&b.hi) }
}
fn grid_of<N: Num, const D: usize>(b: &SAABB<N, D>) -> Option<GBox> {
    if (0..D).any(|i| b.min.0[i] > b.max.0[i]) {
        return None;
    }
    let mut r = GBox { d: D, lo: [0; MD], hi: [0; MD] };
    for i in 0..D {
        r.lo[i] = b.min.0[i].grid();
        r.hi[i] = b.max.0[i].grid();
    }
    Some(r)
}
/// Second point of a query segment or the direction of a ray.
fn second(p: &[i64], e: &[i64], d: usize) -> [i64; MD] {
    let mut r = [0; MD];
    for i in 0..d {
        // extents are non-negative; flip the odd ones so all directions occur
        r[i] = if e[i] % 2 == 1 { p[i] - e[i] } else { p[i] + e[i] };
    }
    r
}

struct EuR<N, const D: usize>(EuclideanDistanceRanking<SVec<N, D>, N>);

macro_rules! common {
    ($N:ident, $D:ident) => {
        const D: usize = $D;
        const MAXC: i64 = $N::MAXC;
        fn bx_of(b: &GBox) -> SAABB<$N, $D> {
            saabb(b)
        }
        fn bx_grid(b: &SAABB<$N, $D>) -> Option<GBox> {
            grid_of(b)
        }
        fn empty() -> SAABB<$N, $D> {
            Bounds::empty()
        }
        fn union(a: &SAABB<$N, $D>, b: &SAABB<$N, $D>) -> SAABB<$N, $D> {
            Bounds::union(a, b)
        }
        fn union_all(it: &mut dyn Iterator<Item = SAABB<$N, $D>>) -> SAABB<$N, $D> {
            Bounds::union_all(it)
        }
        fn contains(a: &SAABB<$N, $D>, b: &SAABB<$N, $D>) -> bool {
            Contains::<SAABB<$N, $D>>::contains(a, b)
        }
        fn intersects(a: &SAABB<$N, $D>, b: &SAABB<$N, $D>) -> bool {
            Intersects::<SAABB<$N, $D>>::intersects(a, b)
        }
        fn volume(a: &SAABB<$N, $D>) -> N64 {
            a.volume()
        }
        fn sq_dist(a: &SAABB<$N, $D>, b: &SAABB<$N, $D>) -> i64 {
            a.sq_dist_to(b).grid2_of($N::SCALE)
        }
    };
}

trait Grid2Of {
    fn grid2_of(self, scale: i64) -> i64;
}
impl Grid2Of for N64 {
    fn grid2_of(self, scale: i64) -> i64 {
        let f: f64 = self.into();
        (f * (scale * scale) as f64) as i64
    }
}

// ------------------------------------------------------------ box keys

#[derive(Clone, Copy)]
pub struct BoxFl<N, const D: usize>(PhantomData<N>);

impl<N: Num, const D: usize> Fl for BoxFl<N, D> {
    type Bx = SAABB<N, D>;
    type G = SAABB<N, D>;
    const NAME: &'static str = "box";
    const NC: usize = 2 * D;
    common!(N, D);

    fn g(c: &[i64]) -> Self::G {
        saabb(&GBox::sized(D, &c[..D], &c[D..2 * D]))
    }
    fn gbox(g: &Self::G) -> GBox {
        grid_of(g).expect("key box")
    }
    fn coords(g: &Self::G) -> [i64; 2 * MD] {
        let b = Self::gbox(g);
        let mut r = [0; 2 * MD];
        for i in 0..D {
            r[i] = b.lo[i];
            r[D + i] = b.hi[i] - b.lo[i];
        }
        r
    }
    fn g_bounds(g: &Self::G) -> Self::Bx {
        g.bounds()
    }
    fn n_filters() -> usize {
        9
    }
    fn filter(kind: usize, p: &[i64], e: &[i64]) -> Box<dyn DynF<Self>> {
        let q: SAABB<N, D> = saabb(&GBox::sized(D, p, e));
        let pt: SVec<N, D> = svec(p);
        let s = second(p, e, D);
        match kind % 9 {
            0 => Box::new(DF(IntersectsFilter::new(q))),
            1 => Box::new(DF(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(q))),
            2 => Box::new(DF(ContainsFilter::new(q))),
            3 => Box::new(DF(BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(q))),
            4 => Box::new(DF(IntersectsFilter::new(pt))),
            5 => Box::new(DF(IntersectsFilter::new(Line(pt, svec(&s))))),
            6 => Box::new(DF(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(Line(pt, svec(&s))))),
            7 => {
                let n = svec::<N, D>(&s) - pt;
                Box::new(DF(IntersectsFilter::new(Ray { origin: pt, n })))
            }
            _ => Box::new(DF(NoFilter)),
        }
    }
    fn expect(kind: usize, p: &[i64], e: &[i64], g: &Self::G) -> Tri {
        let q = GBox::sized(D, p, e);
        let k = Self::gbox(g);
        let s = second(p, e, D);
        match kind % 9 {
            0 | 1 => Tri::of(q.intersects(&k)),
            2 | 3 => Tri::of(q.contains(&k)),
            4 => Tri::of(k.contains(&GBox::point(D, p))),
            5 | 6 => segment_box(&k, p, &s),
            7 => ray_box(&k, p, &s),
            _ => Tri::Yes,
        }
    }
    fn has_euclid() -> bool {
        true
    }
    fn euclid(p: &[i64]) -> Box<dyn DynR<Self>> {
        Box::new(EuR::<N, D>(EuclideanDistanceRanking::new(svec(p))))
    }
}
impl<N: Num, const D: usize> DynR<BoxFl<N, D>> for EuR<N, D> {
    fn bmin(&self, b: &SAABB<N, D>) -> i64 {
        let m: N = Ranking::<SAABB<N, D>, SAABB<N, D>>::bounds_min(&self.0, b);
        m.grid2()
    }
    fn rk(&self, k: &SAABB<N, D>) -> i64 {
        let m: N = Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&self.0, k);
        m.grid2()
    }
}

// ------------------------------------------------------------ point keys

#[derive(Clone, Copy)]
pub struct PtFl<N, const D: usize>(PhantomData<N>);

impl<N: Num, const D: usize> Fl for PtFl<N, D> {
    type Bx = SAABB<N, D>;
    type G = SVec<N, D>;
    const NAME: &'static str = "point";
    const NC: usize = D;
    common!(N, D);

    fn g(c: &[i64]) -> Self::G {
        svec(c)
    }
    fn gbox(g: &Self::G) -> GBox {
        let mut r = GBox { d: D, lo: [0; MD], hi: [0; MD] };
        for i in 0..D {
            r.lo[i] = g.0[i].grid();
            r.hi[i] = r.lo[i];
        }
        r
    }
    fn coords(g: &Self::G) -> [i64; 2 * MD] {
        let mut r = [0; 2 * MD];
        for i in 0..D {
            r[i] = g.0[i].grid();
        }
        r
    }
    fn g_bounds(g: &Self::G) -> Self::Bx {
        g.bounds()
    }
    fn n_filters() -> usize {
        6
    }
    fn filter(kind: usize, p: &[i64], e: &[i64]) -> Box<dyn DynF<Self>> {
        let q: SAABB<N, D> = saabb(&GBox::sized(D, p, e));
        match kind % 6 {
            0 => Box::new(DF(IntersectsFilter::new(q))),
            1 => Box::new(DF(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(q))),
            2 => Box::new(DF(ContainsFilter::new(q))),
            3 => Box::new(DF(BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(q))),
            4 => Box::new(DF(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(Sphere {
                center: svec::<N, D>(p),
                radius: N::of(e[0]),
            }))),
            _ => Box::new(DF(NoFilter)),
        }
    }
    fn expect(kind: usize, p: &[i64], e: &[i64], g: &Self::G) -> Tri {
        let q = GBox::sized(D, p, e);
        let k = Self::gbox(g);
        match kind % 6 {
            0..=3 => Tri::of(q.contains(&k)),
            4 => Tri::of(k.dist2(&GBox::point(D, p)) <= e[0] * e[0]),
            _ => Tri::Yes,
        }
    }
    fn has_euclid() -> bool {
        true
    }
    fn euclid(p: &[i64]) -> Box<dyn DynR<Self>> {
        Box::new(EuR::<N, D>(EuclideanDistanceRanking::new(svec(p))))
    }
}
impl<N: Num, const D: usize> DynR<PtFl<N, D>> for EuR<N, D> {
    fn bmin(&self, b: &SAABB<N, D>) -> i64 {
        let m: N = Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&self.0, b);
        m.grid2()
    }
    fn rk(&self, k: &SVec<N, D>) -> i64 {
        let m: N = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&self.0, k);
        m.grid2()
    }
}

// ------------------------------------------------------------ line keys

#[derive(Clone, Copy)]
pub struct LineFl<N, const D: usize>(PhantomData<N>);

impl<N: Num, const D: usize> Fl for LineFl<N, D> {
    type Bx = SAABB<N, D>;
    type G = Line<SVec<N, D>>;
    const NAME: &'static str = "line";
    const NC: usize = 2 * D;
    common!(N, D);

    fn g(c: &[i64]) -> Self::G {
        let s = second(&c[..D], &c[D..2 * D], D);
        Line(svec(c), svec(&s))
    }
    fn gbox(g: &Self::G) -> GBox {
        let mut r = GBox { d: D, lo: [0; MD], hi: [0; MD] };
        for i in 0..D {
            let (a, b) = (g.0 .0[i].grid(), g.1 .0[i].grid());
            r.lo[i] = a.min(b);
            r.hi[i] = a.max(b);
        }
        r
    }
    fn coords(g: &Self::G) -> [i64; 2 * MD] {
        let mut r = [0; 2 * MD];
        for i in 0..D {
            let (a, b) = (g.0 .0[i].grid(), g.1 .0[i].grid());
            r[i] = a;
            r[D + i] = (b - a).abs();
        }
        r
    }
    fn g_bounds(g: &Self::G) -> Self::Bx {
        g.bounds()
    }
    fn n_filters() -> usize {
        3
    }
    fn filter(kind: usize, p: &[i64], e: &[i64]) -> Box<dyn DynF<Self>> {
        let q: SAABB<N, D> = saabb(&GBox::sized(D, p, e));
        match kind % 3 {
            0 => Box::new(DF(IntersectsFilter::new(q))),
            1 => Box::new(DF(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(q))),
            _ => Box::new(DF(NoFilter)),
        }
    }
    fn expect(kind: usize, p: &[i64], e: &[i64], g: &Self::G) -> Tri {
        let q = GBox::sized(D, p, e);
        let c = Self::coords(g);
        let mut s = [0; MD];
        for i in 0..D {
            s[i] = g.1 .0[i].grid();
        }
        match kind % 3 {
            0 | 1 => segment_box(&q, &c[..D], &s),
            _ => Tri::Yes,
        }
    }
    fn has_euclid() -> bool {
        false
    }
    fn euclid(_p: &[i64]) -> Box<dyn DynR<Self>> {
        unreachable!()
    }
}
