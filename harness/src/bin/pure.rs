//! C27: queries are pure, repeatable and re-entrant.

use rcheck::dyntree::Pa;
use rcheck::engine::*;
use rstar::{DefaultParams, Envelope, ParentNode, PointDistance, RTree, RTreeNode, RTreeObject, RTreeParams, SelectionFunction, AABB};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;

type C2 = [i16; 2];
type Out = (u32, u32);

// ---------------------------------------------------------------- elements

#[derive(Clone, PartialEq, Debug)]
struct Pt {
    p: [f64; 2],
    uid: u32,
}
impl RTreeObject for Pt {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        tick();
        AABB::from_point(self.p)
    }
}
impl PointDistance for Pt {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        tick();
        (self.p[0] - p[0]) * (self.p[0] - p[0]) + (self.p[1] - p[1]) * (self.p[1] - p[1])
    }
}

/// An element that is itself a tree: its geometry is answered by queries.
#[derive(Clone)]
struct Group {
    inner: RTree<Pt, Pa<2, 4, 1>>,
    uid: u32,
}
impl RTreeObject for Group {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        tick();
        self.inner.iter().fold(AABB::new_empty(), |e, p| e.merged(&p.envelope()))
    }
}
impl PointDistance for Group {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        tick();
        self.inner.nearest_neighbor_with_distance_2(*p).expect("a group is never empty").1
    }
    fn contains_point(&self, p: &[f64; 2]) -> bool {
        self.inner.locate_all_at_point(*p).next().is_some()
    }
    fn distance_2_if_less_or_equal(&self, p: &[f64; 2], max: f64) -> Option<f64> {
        let mut best = None;
        for x in self.inner.locate_within_distance(*p, max) {
            let d = x.distance_2(p);
            best = Some(best.map_or(d, |b: f64| b.min(d)));
        }
        best
    }
}
impl PartialEq for Group {
    fn eq(&self, o: &Self) -> bool {
        self.uid == o.uid && self.inner.size() == o.inner.size() && self.inner.iter().all(|p| o.inner.contains(p))
    }
}
trait Obj: PointDistance + RTreeObject<Envelope = AABB<[f64; 2]>> {
    fn uid(&self) -> u32;
}
impl Obj for Pt {
    fn uid(&self) -> u32 {
        self.uid
    }
}
impl Obj for Group {
    fn uid(&self) -> u32 {
        self.uid
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    /// points, groups, or a join: points x groups, groups x points, points x points, groups x groups
    on: u8,
    kind: u8,
    a: C2,
    b: C2,
    r: u16,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct PureCase {
    small: bool,
    bulk: bool,
    pts: Vec<C2>,
    groups: Vec<Vec<C2>>,
    tasks: Vec<Task>,
    /// which iterator advances next, and by how many steps
    sched: Vec<(u8, u8)>,
    /// visitor queries: the outer one, one run at each of its elements, one run at each of that one's; and where to stop
    nests: Vec<(Task, Task, Task, u8)>,
    /// draining a copy while other queries are under way, moving what is drained to another tree
    drain: Option<(Task, u8)>,
    threads: bool,
    /// how each iterator is taken to its end: by `next`, `count`, `last` or `fold`, perhaps after `nth`
    #[serde(default)]
    ends: Vec<u8>,
}
const KINDS: u8 = 8;

fn f(c: C2) -> [f64; 2] {
    [c[0] as f64, c[1] as f64]
}
fn d2(a: C2, b: C2) -> i64 {
    let (x, y) = (a[0] as i64 - b[0] as i64, a[1] as i64 - b[1] as i64);
    x * x + y * y
}
type Shape = Vec<C2>;
fn bounds(s: &[C2]) -> (C2, C2) {
    let m = |k: usize, g: fn(i16, i16) -> i16| s.iter().map(|p| p[k]).reduce(g).unwrap();
    ([m(0, i16::min), m(1, i16::min)], [m(0, i16::max), m(1, i16::max)])
}
fn touch(a: &(C2, C2), b: &(C2, C2)) -> bool {
    (0..2).all(|i| a.0[i] <= b.1[i] && b.0[i] <= a.1[i])
}
fn inside(a: &(C2, C2), b: &(C2, C2)) -> bool {
    (0..2).all(|i| b.0[i] <= a.0[i] && a.1[i] <= b.1[i])
}
fn near(s: &[C2], p: C2) -> i64 {
    s.iter().map(|x| d2(*x, p)).min().unwrap()
}

/// What the task must yield, by a linear scan; sorted.
fn expect(c: &PureCase, t: &Task) -> Vec<Out> {
    let pts: Vec<Shape> = c.pts.iter().map(|p| vec![*p]).collect();
    let mut v: Vec<Out> = vec![];
    if t.on >= 2 {
        let (x, y) = match t.on {
            2 => (&pts, &c.groups),
            3 => (&c.groups, &pts),
            4 => (&pts, &pts),
            _ => (&c.groups, &c.groups),
        };
        for (i, a) in x.iter().enumerate() {
            for (j, b) in y.iter().enumerate() {
                if touch(&bounds(a), &bounds(b)) {
                    v.push((i as u32, j as u32));
                }
            }
        }
    } else {
        let w = bounds(&[t.a, t.b]);
        for (i, s) in if t.on == 0 { &pts } else { &c.groups }.iter().enumerate() {
            let b = bounds(s);
            let d = near(s, t.a);
            let hit = match t.kind {
                0 => true,
                1 => inside(&b, &w),
                2 => touch(&b, &w),
                3 => d == 0,
                4 => d <= t.r as i64,
                5 | 6 => true,
                _ => c.pts.iter().any(|p| d2(*p, b.0) <= t.r as i64),
            };
            if hit {
                v.push((i as u32, if matches!(t.kind, 5 | 6) { d as u32 } else { 0 }));
            }
        }
    }
    v.sort_unstable();
    v
}
fn judge(t: &Task, got: &[Out], want: &[Out], what: &str) -> Result<(), String> {
    if t.on < 2 && matches!(t.kind, 5 | 6) {
        if let Some(w) = got.windows(2).find(|w| w[0].1 > w[1].1) {
            return Err(format!("{what}: {t:?}: squared distance {} is followed by {}", w[0].1, w[1].1));
        }
    }
    let mut g = got.to_vec();
    g.sort_unstable();
    if g != want {
        return Err(format!("{what}: {t:?} yields {g:?}, alone it yields {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- running

struct Trees<PA: RTreeParams> {
    p: RTree<Pt, PA>,
    g: RTree<Group, PA>,
    dp: RTree<Pt>,
    dg: RTree<Group>,
}
/// Selects what has a point of `other` within the distance of its lower corner.
struct Near<'a, PA: RTreeParams> {
    other: &'a RTree<Pt, PA>,
    r: f64,
    asked: &'a Cell<u64>,
}
impl<T: Obj, PA: RTreeParams> SelectionFunction<T> for Near<'_, PA> {
    fn should_unpack_parent(&self, e: &AABB<[f64; 2]>) -> bool {
        // a nested query whose result does not matter
        self.asked.set(self.asked.get() + self.other.locate_in_envelope_intersecting(*e).take(2).count() as u64);
        true
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        self.other.locate_within_distance(t.envelope().lower(), self.r).next().is_some()
    }
}
/// A library iterator whose elements are reduced to `Out`; unlike with `Map`, the other methods are the library's, too.
struct Via<I, F> {
    it: I,
    f: F,
}
fn via<'a, I: Iterator + 'a, F: FnMut(I::Item) -> Out + 'a>(it: I, f: F) -> Box<dyn Query + 'a> {
    Box::new(Via { it, f })
}
impl<I: Iterator, F: FnMut(I::Item) -> Out> Iterator for Via<I, F> {
    type Item = Out;
    fn next(&mut self) -> Option<Out> {
        self.it.next().map(&mut self.f)
    }
    fn nth(&mut self, n: usize) -> Option<Out> {
        self.it.nth(n).map(&mut self.f)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
trait Query: Iterator<Item = Out> {
    fn end(self: Box<Self>, how: u8) -> End;
}
impl<I: Iterator, F: FnMut(I::Item) -> Out> Query for Via<I, F> {
    fn end(mut self: Box<Self>, how: u8) -> End {
        match how {
            1 => End::Count(self.it.count()),
            2 => End::Last(self.it.last().map(self.f)),
            3 => {
                let Via { it, mut f } = *self;
                End::Rest(it.fold(vec![], |mut v, x| {
                    v.push(f(x));
                    v
                }))
            }
            _ => {
                let v = self.by_ref().collect();
                if self.next().is_some() || self.next().is_some() {
                    return End::Wrong;
                }
                End::Rest(v)
            }
        }
    }
}
enum End {
    Rest(Vec<Out>),
    Count(usize),
    Last(Option<Out>),
    Wrong,
}
/// An iterator used through a mixture of its methods, and what it still owes.
struct Use<'a> {
    it: Box<dyn Query + 'a>,
    got: Vec<Out>,
    /// how many are yielded or skipped
    gone: usize,
    done: bool,
}
impl<'a> Use<'a> {
    fn of(it: Box<dyn Query + 'a>) -> Self {
        Use { it, got: vec![], gone: 0, done: false }
    }
    fn ordered(t: &Task) -> bool {
        t.on < 2 && matches!(t.kind, 5 | 6)
    }
    /// Calls `nth(skip)`, or else `next`.
    fn step(&mut self, t: &Task, want: &[Out], skip: Option<usize>) -> Result<(), String> {
        let left = want.len() - self.gone;
        let (low, high) = self.it.size_hint();
        if low > left || high.is_some_and(|h| h < left) {
            return Err(format!("{t:?} has {left} elements left and announces {low} to {high:?}"));
        }
        let k = skip.unwrap_or(0);
        let x = if skip.is_some() { self.it.nth(k) } else { self.it.next() };
        match x {
            Some(o) if self.done => Err(format!("{t:?} goes on with {o:?} after its end")),
            Some(o) => {
                self.gone += k + 1;
                self.got.push(o);
                if self.gone > want.len() {
                    return Err(format!("{t:?} yields {o:?} as number {} of {} elements", self.gone, want.len()));
                }
                if Self::ordered(t) {
                    let mut ds: Vec<u32> = want.iter().map(|o| o.1).collect();
                    ds.sort_unstable();
                    let due = ds[self.gone - 1];
                    if due != o.1 {
                        return Err(format!("{t:?} yields {o:?} as number {}, squared distance {due} is due", self.gone));
                    }
                }
                Ok(())
            }
            None if k < left => Err(format!("{t:?} ends (skipping {k}) while {left} elements are due")),
            None => {
                self.gone = want.len();
                self.done = true;
                Ok(())
            }
        }
    }
    fn finish(mut self, t: &Task, want: &[Out], how: u8, what: &str) -> Result<(), String> {
        let left = want.len() - self.gone;
        let mut rest = match self.it.end(how) {
            End::Wrong => return Err(format!("{what}: {t:?} goes on after its end")),
            End::Count(n) if n != left => return Err(format!("{what}: {t:?} counts {n} elements, {left} are left")),
            End::Last(o) if o.is_some() != (left > 0) => {
                return Err(format!("{what}: the last of {left} elements of {t:?} is {o:?}"))
            }
            End::Last(Some(o)) if Self::ordered(t) && want.iter().any(|w| w.1 > o.1) => {
                return Err(format!("{what}: the last element of {t:?} is {o:?}"))
            }
            End::Rest(v) if v.len() != left => {
                // says which, if nothing was skipped
                self.got.extend(&v);
                if self.got.len() - v.len() == self.gone {
                    judge(t, &self.got, want, what)?;
                }
                return Err(format!("{what}: {t:?} yields {} more elements, {left} are left", v.len()));
            }
            End::Count(_) => vec![],
            End::Last(o) => o.into_iter().collect(),
            End::Rest(v) => v,
        };
        self.got.append(&mut rest);
        if self.got.len() == want.len() {
            return judge(t, &self.got, want, what);
        }
        // some were skipped: the others are distinct ones of those due
        if Self::ordered(t) && self.got.windows(2).any(|w| w[0].1 > w[1].1) {
            return Err(format!("{what}: {t:?} yields {:?}", self.got));
        }
        self.got.sort_unstable();
        let twice = self.got.windows(2).any(|w| w[0] == w[1]);
        if twice || self.got.iter().any(|o| want.binary_search(o).is_err()) {
            return Err(format!("{what}: {t:?} yields {:?} of {want:?}", self.got));
        }
        Ok(())
    }
}
/// Takes an iterator to its end, perhaps by `nth` first, then by the given method; `want` is sorted.
fn taken<'a, I: Iterator + 'a>(
    it: I,
    f: impl FnMut(I::Item) -> Out + 'a,
    t: &Task,
    want: &[Out],
    how: u8,
    what: &str,
) -> Result<(), String> {
    let mut u = Use::of(via(it, f));
    if how >= 4 {
        u.step(t, want, Some(how as usize / 4 - 1))?;
    }
    u.finish(t, want, how % 4, what)
}
fn dist(d: f64) -> u32 {
    d as u32
}
fn single<'a, T: Obj, PA: RTreeParams>(
    tree: &'a RTree<T, PA>,
    other: &'a RTree<Pt, PA>,
    t: &Task,
    asked: &'a Cell<u64>,
) -> Box<dyn Query + 'a> {
    let w = AABB::from_corners(f(t.a), f(t.b));
    let p = f(t.a);
    fn o<T: Obj>(x: &T) -> Out {
        (x.uid(), 0)
    }
    match t.kind {
        0 => via(tree.iter(), o),
        1 => via(tree.locate_in_envelope(w), o),
        2 => via(tree.locate_in_envelope_intersecting(w), o),
        3 => via(tree.locate_all_at_point(p), o),
        4 => via(tree.locate_within_distance(p, t.r as f64), o),
        5 => via(tree.nearest_neighbor_iter(p), move |x| (x.uid(), dist(x.distance_2(&p)))),
        6 => via(tree.nearest_neighbor_iter_with_distance_2(p), |(x, d)| (x.uid(), dist(d))),
        _ => via(tree.locate_with_selection_function(Near { other, r: t.r as f64, asked }), o),
    }
}
fn open<'a, PA: RTreeParams>(w: &'a Trees<PA>, t: &Task, asked: &'a Cell<u64>) -> Box<dyn Query + 'a> {
    match t.on {
        0 => single(&w.p, &w.p, t, asked),
        1 => single(&w.g, &w.p, t, asked),
        2 => via(w.p.intersection_candidates_with_other_tree(&w.dg), |(x, y)| (x.uid, y.uid)),
        3 => via(w.g.intersection_candidates_with_other_tree(&w.dp), |(x, y)| (x.uid, y.uid)),
        4 => via(w.p.intersection_candidates_with_other_tree(&w.dp), |(x, y)| (x.uid, y.uid)),
        _ => via(w.g.intersection_candidates_with_other_tree(&w.dg), |(x, y)| (x.uid, y.uid)),
    }
}
/// Runs the task as a visitor query where there is such a form, else as a loop.
fn visit<PA: RTreeParams>(w: &Trees<PA>, t: &Task, each: &mut dyn FnMut(Out) -> ControlFlow<u32>) -> ControlFlow<u32> {
    fn go<T: Obj, PA: RTreeParams>(
        tree: &RTree<T, PA>,
        t: &Task,
        each: &mut dyn FnMut(Out) -> ControlFlow<u32>,
    ) -> Option<ControlFlow<u32>> {
        let b = AABB::from_corners(f(t.a), f(t.b));
        let v = |x: &T| each((x.uid(), 0));
        Some(match t.kind {
            1 => tree.locate_in_envelope_int(b, v),
            2 => tree.locate_in_envelope_intersecting_int(b, v),
            3 => tree.locate_all_at_point_int(f(t.a), v),
            _ => return None,
        })
    }
    let r = match t.on {
        0 => go(&w.p, t, each),
        1 => go(&w.g, t, each),
        _ => None,
    };
    r.unwrap_or_else(|| {
        let asked = Cell::new(0);
        for o in open(w, t, &asked) {
            each(o)?;
        }
        ControlFlow::Continue(())
    })
}
fn shape<T: Obj>(p: &ParentNode<T>, out: &mut Vec<u64>) {
    let e = p.envelope();
    out.push(1 << 40 | p.children().len() as u64);
    out.extend([e.lower()[0], e.lower()[1], e.upper()[0], e.upper()[1]].map(f64::to_bits));
    for c in p.children() {
        match c {
            RTreeNode::Leaf(t) => out.push(t.uid() as u64),
            RTreeNode::Parent(p) => shape(p, out),
        }
    }
}
fn shapes<PA: RTreeParams>(w: &Trees<PA>) -> Vec<u64> {
    let mut v = vec![w.p.size() as u64, w.g.size() as u64, w.dp.size() as u64, w.dg.size() as u64];
    shape(w.p.root(), &mut v);
    shape(w.g.root(), &mut v);
    shape(w.dp.root(), &mut v);
    shape(w.dg.root(), &mut v);
    v
}
fn ended<T>(mut it: impl Iterator<Item = T>, what: &str) -> Result<(), String> {
    for _ in 0..2 {
        if it.next().is_some() {
            return Err(format!("{what} goes on after its end"));
        }
    }
    Ok(())
}
fn run<PA: RTreeParams>(c: &PureCase, cov: &mut Cov) -> Result<(), String> {
    let pt = |(i, p): (usize, &C2)| Pt { p: f(*p), uid: i as u32 };
    let pts: Vec<Pt> = c.pts.iter().enumerate().map(pt).collect();
    let groups: Vec<Group> = c
        .groups
        .iter()
        .enumerate()
        .map(|(i, g)| {
            let inner: Vec<Pt> = g.iter().enumerate().map(pt).collect();
            let inner = if i % 2 == 0 {
                RTree::bulk_load_with_params(inner)
            } else {
                let mut t = RTree::new_with_params();
                inner.into_iter().for_each(|p| t.insert(p));
                t
            };
            Group { inner, uid: i as u32 }
        })
        .collect();
    fn make<T: RTreeObject + Clone, PA: RTreeParams>(v: &[T], bulk: bool) -> RTree<T, PA> {
        if bulk {
            return RTree::bulk_load_with_params(v.to_vec());
        }
        let mut t = RTree::new_with_params();
        v.iter().for_each(|x| t.insert(x.clone()));
        t
    }
    let w: Trees<PA> =
        Trees { p: make(&pts, c.bulk), g: make(&groups, c.bulk), dp: make(&pts, !c.bulk), dg: make(&groups, true) };
    let before = shapes(&w);
    let asked = Cell::new(0);
    let want: Vec<Vec<Out>> = c.tasks.iter().map(|t| expect(c, t)).collect();
    let once = |t: &Task| -> Vec<Out> {
        let asked = Cell::new(0);
        let v: Vec<Out> = open(&w, t, &asked).collect();
        v
    };

    // interleaved
    let mut its: Vec<Use> = c.tasks.iter().map(|t| Use::of(open(&w, t, &asked))).collect();
    let mut switches = 0;
    for (i, n) in &c.sched {
        if its.is_empty() {
            break;
        }
        let i = *i as usize % its.len();
        if *n >= 128 {
            its[i].step(&c.tasks[i], &want[i], Some(*n as usize - 128))?;
        } else {
            for _ in 0..*n {
                its[i].step(&c.tasks[i], &want[i], None)?;
            }
        }
        switches += !its[i].done as usize;
    }
    for (i, it) in its.into_iter().enumerate() {
        let how = c.ends.get(i).copied().unwrap_or(0);
        it.finish(&c.tasks[i], &want[i], how % 4, "interleaved with other queries")?;
    }
    // again
    for (t, want) in c.tasks.iter().zip(&want) {
        judge(t, &once(t), want, "repeated")?;
    }

    // nested
    let mut deep = 0;
    for (a, b, d, stop) in &c.nests {
        let (wa, wb, wd) = (expect(c, a), expect(c, b), expect(c, d));
        let err = RefCell::new(None);
        let note = |r: Result<(), String>| {
            if let Err(e) = r {
                err.borrow_mut().get_or_insert(e);
            }
        };
        let mut outer = vec![];
        let r = visit(&w, a, &mut |o| {
            outer.push(o);
            let mut middle = vec![];
            let r = visit(&w, b, &mut |o| {
                middle.push(o);
                if middle.len() + outer.len() < 6 {
                    deep += 1;
                    note(judge(d, &once(d), &wd, "nested twice in visitors"));
                }
                ControlFlow::Continue(())
            });
            if r.is_break() {
                note(Err(format!("{b:?} stops on its own")));
            }
            note(judge(b, &middle, &wb, "nested in a visitor"));
            if outer.len() > *stop as usize {
                ControlFlow::Break(77)
            } else {
                ControlFlow::Continue(())
            }
        });
        if let Some(e) = err.into_inner() {
            return Err(e);
        }
        if r != (if wa.len() > *stop as usize { ControlFlow::Break(77) } else { ControlFlow::Continue(()) }) {
            return Err(format!("{a:?}, {} elements, stopped after {stop}, ends with {r:?}", wa.len()));
        }
        if r.is_continue() {
            judge(a, &outer, &wa, "with queries nested in its visitor")?;
        }
    }

    // draining one tree while others are queried and filled
    if let Some((t, n)) = &c.drain {
        let t = &Task { on: 0, ..t.clone() };
        let wt = expect(c, t);
        let mut from: RTree<Pt, PA> = make(&pts, c.bulk);
        let mut to: RTree<Pt, PA> = RTree::new_with_params();
        let b = AABB::from_corners(f(t.a), f(t.b));
        let mut check = |x: Pt, k: usize| -> Result<(), String> {
            if let Some(t) = c.tasks.get(k % 4) {
                judge(t, &once(t), &want[k % 4], "while another tree is drained")?;
            }
            let (p, uid) = (x.p, x.uid);
            to.insert(x);
            match to.nearest_neighbor_with_distance_2(p) {
                Some((y, 0.0)) if y.p == p => {}
                other => return Err(format!("moved to another tree while draining: element {uid} at {p:?}, its nearest is {other:?}")),
            }
            Ok(())
        };
        fn pull(
            mut it: impl Iterator<Item = Pt>,
            n: u8,
            check: &mut dyn FnMut(Pt, usize) -> Result<(), String>,
        ) -> Result<(), String> {
            for k in 0..n as usize {
                match it.next() {
                    Some(x) => check(x, k)?,
                    None => return ended(it, "a drain"),
                }
            }
            Ok(())
        }
        match t.kind {
            0 | 3 | 5 | 6 => pull(from.drain(), *n, &mut check)?,
            1 => pull(from.drain_in_envelope(b), *n, &mut check)?,
            2 => pull(from.drain_in_envelope_intersecting(b), *n, &mut check)?,
            4 => pull(from.drain_within_distance(f(t.a), t.r as f64), *n, &mut check)?,
            _ => pull(
                from.drain_with_selection_function(Near { other: &w.p, r: t.r as f64, asked: &asked }),
                *n,
                &mut check,
            )?,
        }
        let all = |t: &RTree<Pt, PA>| {
            let mut v: Vec<u32> = t.iter().map(|x| x.uid).collect();
            v.sort_unstable();
            v
        };
        let (moved, left) = (all(&to), all(&from));
        let sel: Vec<u32> = match t.kind {
            0 | 3 | 5 | 6 => (0..c.pts.len() as u32).collect(),
            _ => wt.iter().map(|o| o.0).collect(),
        };
        if moved.len() != sel.len().min(*n as usize) || moved.iter().any(|u| sel.binary_search(u).is_err()) {
            return Err(format!("draining by {t:?} up to {n} while querying: {moved:?} of {sel:?}"));
        }
        let mut both = [moved.clone(), left].concat();
        both.sort_unstable();
        if both != (0..c.pts.len() as u32).collect::<Vec<_>>() || from.size() + to.size() != both.len() {
            return Err(format!("draining by {t:?} up to {n}: together {both:?}, sizes {} and {}", from.size(), to.size()));
        }
        cov.label_if(moved.len() > 1, "drained while querying");
    }

    // mutable and owned iterators stay exhausted, too
    let mut copy: RTree<Pt, PA> = make(&pts, c.bulk);
    fn uid(x: &mut Pt) -> Out {
        (x.uid, 0)
    }
    fn own(x: Pt) -> Out {
        (x.uid, 0)
    }
    let how = |i: usize| c.ends.get(i).copied().unwrap_or(0);
    for (i, t) in c.tasks.iter().enumerate() {
        let b = AABB::from_corners(f(t.a), f(t.b));
        let t = &Task { on: 0, kind: t.kind % 4, ..t.clone() };
        let (want, h) = (expect(c, t), how(i));
        match t.kind {
            0 => taken(copy.iter_mut(), uid, t, &want, h, "mutable")?,
            1 => taken(copy.locate_in_envelope_mut(b), uid, t, &want, h, "mutable")?,
            2 => taken(copy.locate_in_envelope_intersecting_mut(b), uid, t, &want, h, "mutable")?,
            _ => taken(copy.locate_all_at_point_mut(f(t.a)), uid, t, &want, h, "mutable")?,
        };
    }
    if let Some(t) = c.tasks.first() {
        // a drain taken to its end leaves the same behind whichever way that is done
        let mut from: RTree<Pt, PA> = make(&pts, c.bulk);
        let b = AABB::from_corners(f(t.a), f(t.b));
        let t = &Task { on: 0, kind: [0, 1, 2, 4, 7][t.kind as usize % 5], ..t.clone() };
        let (want, h) = (expect(c, t), how(1));
        match t.kind {
            0 => taken(from.drain(), own, t, &want, h, "drain")?,
            1 => taken(from.drain_in_envelope(b), own, t, &want, h, "drain")?,
            2 => taken(from.drain_in_envelope_intersecting(b), own, t, &want, h, "drain")?,
            4 => taken(from.drain_within_distance(f(t.a), t.r as f64), own, t, &want, h, "drain")?,
            _ => {
                let near = Near { other: &w.p, r: t.r as f64, asked: &asked };
                taken(from.drain_with_selection_function(near), own, t, &want, h, "drain")?
            }
        }
        let mut left: Vec<u32> = from.iter().map(|x| x.uid).collect();
        left.sort_unstable();
        let due: Vec<u32> = (0..c.pts.len() as u32).filter(|u| want.binary_search(&(*u, 0)).is_err()).collect();
        if left != due || from.size() != due.len() {
            return Err(format!("drained by {t:?} to its end ({h}), size {} and {left:?} are left of {due:?}", from.size()));
        }
    }
    let t = &Task { on: 0, kind: 0, a: [0, 0], b: [0, 0], r: 0 };
    taken(copy.into_iter(), own, t, &expect(c, t), how(2), "owned iteration")?;

    // from several threads
    if c.threads {
        let res: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let (w, want) = (&w, &want);
                    s.spawn(move || {
                        for i in 0..c.tasks.len() * 3 {
                            let i = (i + k) % c.tasks.len();
                            let asked = Cell::new(0);
                            let v: Vec<Out> = open(w, &c.tasks[i], &asked).collect();
                            judge(&c.tasks[i], &v, &want[i], "with several threads at it")?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panics in a query".into()))).collect()
        });
        res.into_iter().collect::<Result<(), String>>()?;
        cov.label("several threads");
    }
    if shapes(&w) != before {
        return Err("queries changed a tree".into());
    }
    cov.nontrivial = switches > 3 && deep > 0 && c.pts.len() > 6;
    cov.label_if(deep > 0, "nested twice");
    cov.label_if(switches > 10, "more than 10 switches");
    cov.label_if(c.groups.len() > 6, "more than one node of trees as elements");
    cov.count("switches between open iterators", switches as u64);
    Ok(())
}

pub struct C27;
impl Check for C27 {
    const ID: &'static str = "C27";
    type Case = PureCase;
    const CASES: (u64, u64) = (400_000, 16_000_000);
    const RULE: &'static str = "a case is a tree of points and a tree whose elements are trees themselves (so that every distance and envelope asked for runs queries), 2 to 6 queries and joins whose iterators advance by a generated schedule (step by step, skipping some, and to the end by counting, folding or taking the last), visitor queries nested three deep, a drain with queries and insertions between its elements, partly the same from three threads; every result must be the one of a linear scan, repetition included, exhausted iterators must stay so, and no tree may change; non-trivial: more than 3 switches between unfinished iterators, a query nested twice, and more points than one node holds; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["coordinates on an integer lattice", "user callbacks are deterministic"];
    fn gen(s: &mut Src, _: u64) -> PureCase {
        let span = [2, 8, 30, 150][s.weighted(&[1, 3, 3, 2])];
        let co = |s: &mut Src| -> C2 { [s.signed(span) as i16, s.signed(span) as i16] };
        let pts = s.list(120, |r| [3, 15, 40, 100][[0, 1, 1, 2, 2, 2, 3, 3][r.below(8) as usize]], |s, _| co(s));
        let groups = s.list(
            40,
            |r| [1, 5, 12, 25][r.below(4) as usize],
            |s, _| {
                let c = co(s);
                let m = [1, 3, 20][s.below(3)];
                let n = 1 + s.below(7);
                (0..n).map(|_| [c[0] + s.signed(m) as i16, c[1] + s.signed(m) as i16]).collect()
            },
        );
        let task = |s: &mut Src| -> Task {
            let near = |s: &mut Src| -> C2 {
                if !pts.is_empty() && s.bool() {
                    pts[s.below(pts.len())]
                } else {
                    co(s)
                }
            };
            Task {
                on: s.weighted(&[5, 5, 1, 1, 1, 1]) as u8,
                kind: s.below(KINDS as usize) as u8,
                a: near(s),
                b: near(s),
                r: [0, 1, 4, 50, 1000, 20000][s.below(6)],
            }
        };
        let tasks: Vec<Task> = {
            let n = 2 + s.below(5);
            (0..n).map(|_| task(s)).collect()
        };
        let n = tasks.len();
        let sched = s.list(60, |r| [10, 25, 50][r.below(3) as usize], |s, _| (s.below(n) as u8, [1, 1, 2, 5, 20, 1, 2, 128, 129, 131, 140][s.below(11)]));
        let nests = s.list(3, |r| 1 + r.below(2) as usize, |s, _| (task(s), task(s), task(s), [255, 0, 3, 12][s.below(4)]));
        let drain = if s.chance(1, 2) { Some((task(s), [255, 1, 5, 20][s.below(4)])) } else { None };
        let (small, bulk, threads) = (s.bool(), s.bool(), s.chance(1, 40));
        let ends = (0..n).map(|_| s.weighted(&[3, 1, 1, 1]) as u8 + 4 * [0, 0, 1, 2, 4, 13][s.below(6)]).collect();
        PureCase { small, bulk, pts, groups, tasks, sched, nests, drain, threads, ends }
    }
    fn run(c: &PureCase, cov: &mut Cov) -> Result<(), String> {
        if c.small {
            run::<Pa<2, 4, 1>>(c, cov)
        } else {
            run::<DefaultParams>(c, cov)
        }
    }
}

rcheck::registry! {
    "C27" => C27,
}
