//! Which trees may cross threads: asked of the compiler, answered at run time
//! so that a wrong answer is a report and not a build failure.
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

use rusty_rtree::bounds::SAABB;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};

use crate::report::violation;

struct S<T: ?Sized>(PhantomData<T>);
struct Y<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized + Send> S<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Sync> Y<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: ?Sized> std::ops::Deref for S<T> {
    type Target = Nope;
    fn deref(&self) -> &Nope {
        &Nope
    }
}
impl<T: ?Sized> std::ops::Deref for Y<T> {
    type Target = Nope;
    fn deref(&self) -> &Nope {
        &Nope
    }
}
struct Nope;
impl Nope {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}

macro_rules! probe {
    ($what:expr, $t:ty, $send:expr, $sync:expr) => {{
        let (a, b) = (S::<$t>(PhantomData).send(), Y::<$t>(PhantomData).sync());
        if a != $send || b != $sync {
            violation(
                "prop",
                "thread_bounds",
                &format!("{}: Send is {a} (must be {}), Sync is {b} (must be {})", $what, $send, $sync),
            );
        }
    }};
}

fn s_of<T>(_: &T) -> S<T> {
    S(PhantomData)
}
fn y_of<T>(_: &T) -> Y<T> {
    Y(PhantomData)
}

/// A cursor that must stay in its thread.
macro_rules! stays {
    ($what:expr, $c:expr) => {{
        let c = $c;
        let (a, b) = (s_of(&c).send(), y_of(&c).sync());
        if a || b {
            violation("prop", "thread_bounds", &format!("{}: Send is {a}, Sync is {b} (neither may be)", $what));
        }
    }};
}

type B = SAABB<i32, 2>;
/// Send, not Sync
type SendOnly = Cell<u32>;
/// Sync, not Send
struct SyncOnly(#[allow(dead_code)] *const ());
unsafe impl Sync for SyncOnly {}

pub fn check() {
    probe!("tree of plain data", RTree<B, B, u32>, true, true);
    probe!("tree of owned strings", RTree<B, B, String>, true, true);
    probe!("tree of Rc values", RTree<B, B, Rc<u32>>, false, false);
    probe!("tree of Rc keys", RTree<B, Rc<B>, u32>, false, false);
    probe!("tree of Rc bounds", RTree<Rc<B>, B, u32>, false, false);
    probe!("tree of values that are Send but not Sync", RTree<B, B, SendOnly>, true, false);
    probe!("tree of keys that are Send but not Sync", RTree<B, SendOnly, u32>, true, false);
    probe!("tree of bounds that are Send but not Sync", RTree<SendOnly, B, u32>, true, false);
    probe!("tree of values that are Sync but not Send", RTree<B, B, SyncOnly>, false, true);
    probe!("tree of keys that are Sync but not Send", RTree<B, SyncOnly, u32>, false, true);
    probe!("tree of bounds that are Sync but not Send", RTree<SyncOnly, B, u32>, false, true);
    cursors();
}

struct All;
impl<Q: ?Sized> SpatialFilter<B, Q> for All {
    fn test_bounds(&self, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &Q) -> bool {
        true
    }
}
impl<Q: ?Sized> Ranking<B, Q> for All {
    type Metric = u8;
    fn bounds_min(&self, _: &B) -> u8 {
        0
    }
    fn rank_key(&self, _: &Q) -> u8 {
        0
    }
}
#[derive(Clone)]
struct Pairs;
impl<L: ?Sized, R: ?Sized> JoinFilter<B, B, L, R> for Pairs {
    fn test_bounds(&self, _: &B, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &L, _: &R) -> bool {
        true
    }
}

/// Cursors over data that is not for other threads, and cursors that share
/// memory with one another.
fn cursors() {
    let b = |x: i32| SAABB { min: SVec([x, 0]), max: SVec([x + 1, 1]) };
    let cfg = || RTreeConfig { max_children: 4, min_children: 2 };
    let mut rc: RTree<B, B, Rc<u32>> = RTree::new(cfg());
    let mut cell: RTree<B, B, SendOnly> = RTree::new(cfg());
    let mut plain: RTree<B, B, u32> = RTree::new(cfg());
    for x in 0..3 {
        rc.insert(b(x), Rc::new(1));
        cell.insert(b(x), Cell::new(1));
        plain.insert(b(x), 1);
    }
    macro_rules! readers {
        ($n:expr, $t:expr) => {{
            stays!(concat!("iter of ", $n), $t.iter());
            stays!(concat!("filter_iter of ", $n), $t.filter_iter::<B, _>(All));
            stays!(concat!("iter_asc_by of ", $n), $t.iter_asc_by(All));
            stays!(concat!("filter_iter_asc_by of ", $n), $t.filter_iter_asc_by(Some2));
            stays!(concat!("join of ", $n), $t.join(&plain, Pairs));
            stays!(concat!("join with ", $n), plain.join(&$t, Pairs));
        }};
    }
    readers!("a tree of Rc values", rc);
    readers!("a tree of values that are Send but not Sync", cell);
    stays!("iter_mut of a tree of Rc values", rc.iter_mut());
    stays!("filter_iter_mut of a tree of Rc values", rc.filter_iter_mut::<B, _>(All));
    stays!("iter_asc_by_mut of a tree of Rc values", rc.iter_asc_by_mut(All));
    let mut outer = plain.left_join(&plain, Pairs);
    if let Some((_, matches)) = outer.next() {
        stays!("the matches of a left_join", matches);
    }
    stays!("left_join", outer);
}

struct Some2;
impl<Q: ?Sized> Ranking<B, Q> for Some2 {
    type Metric = Option<u8>;
    fn bounds_min(&self, _: &B) -> Option<u8> {
        Some(0)
    }
    fn rank_key(&self, _: &Q) -> Option<u8> {
        Some(0)
    }
}
