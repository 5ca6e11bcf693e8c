//! C26: trees over envelopes and distances that are not the library's own.

use rcheck::dyntree::{hinted, Pa};
use rcheck::engine::*;
use rstar::{DefaultParams, Envelope, ParentNode, PointDistance, RTree, RTreeNode, RTreeObject, RTreeParams};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::ControlFlow;

/// Two positions (and a third for elements made of loose points) and a tag.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct Raw {
    p: [i32; 3],
    q: [i32; 3],
    r: [i32; 3],
    t: u8,
}

/// A family: an element type, how to make elements, query points and query envelopes.
trait Fam: Sized + 'static {
    type E: Envelope;
    fn object(r: &Raw) -> Self;
    fn env(&self) -> Self::E;
    fn dist(&self, p: &Pnt<Self>) -> Num<Self>;
    fn has(&self, p: &Pnt<Self>) -> bool;
    fn point(p: &[i32; 3]) -> Pnt<Self>;
    fn window(r: &Raw) -> Self::E;
    /// the envelope contains or meets the other, by the family's own definition
    fn inside(outer: &Self::E, inner: &Self::E) -> bool;
    fn meet(a: &Self::E, b: &Self::E) -> bool;
    fn same(&self, o: &Self) -> bool;
    fn num(x: i64) -> Num<Self>;
}
type Pnt<F> = <<F as Fam>::E as Envelope>::Point;
type Num<F> = <Pnt<F> as rstar::Point>::Scalar;

/// A stored element.
#[derive(Clone, Debug)]
struct El<F: Fam + Clone + Debug> {
    o: F,
    t: u8,
    id: u32,
    hits: u32,
}
impl<F: Fam + Clone + Debug> PartialEq for El<F> {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t && self.o.same(&o.o)
    }
}
impl<F: Fam + Clone + Debug> RTreeObject for El<F> {
    type Envelope = F::E;
    fn envelope(&self) -> F::E {
        self.o.env()
    }
}
impl<F: Fam + Clone + Debug> PointDistance for El<F> {
    fn distance_2(&self, p: &Pnt<F>) -> Num<F> {
        self.o.dist(p)
    }
    fn contains_point(&self, p: &Pnt<F>) -> bool {
        self.o.has(p)
    }
}
/// The same relying on the defaults of the trait.
#[derive(Clone, Debug)]
struct ElD<F: Fam + Clone + Debug>(El<F>);
impl<F: Fam + Clone + Debug> PartialEq for ElD<F> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<F: Fam + Clone + Debug> RTreeObject for ElD<F> {
    type Envelope = F::E;
    fn envelope(&self) -> F::E {
        self.0.o.env()
    }
}
impl<F: Fam + Clone + Debug> PointDistance for ElD<F> {
    fn distance_2(&self, p: &Pnt<F>) -> Num<F> {
        self.0.o.dist(p)
    }
}

// ---------------------------------------------------------------- boxes with other metrics

trait Metric: Copy + Debug + PartialEq + 'static {
    /// length of a vector of non-negative components
    fn len(v: &[i64]) -> i64;
}
macro_rules! metric {
    ($n:ident, $v:ident => $e:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        struct $n;
        impl Metric for $n {
            fn len($v: &[i64]) -> i64 {
                $e
            }
        }
    };
}
metric!(Chebyshev, v => *v.iter().max().unwrap());
metric!(ManhattanSquared, v => v.iter().sum::<i64>().pow(2));
metric!(Weighted, v => v.iter().enumerate().map(|(i, x)| (i as i64 * 7 + 1) * x * x).sum());
// many ties
metric!(Coarse, v => (v.iter().sum::<i64>() + 3) / 4);

/// An axis-parallel box, empty or not.
#[derive(Clone, Debug, PartialEq)]
enum Bx<M, const D: usize> {
    Nothing,
    Some([i64; D], [i64; D], PhantomData<M>),
}
use Bx::Some as B;
impl<M: Metric, const D: usize> Bx<M, D> {
    fn far(&self, p: &[i64; D], pick: impl Fn(usize, i64, i64) -> i64) -> i64 {
        match self {
            Bx::Nothing => i64::MAX,
            B(l, u, _) => M::len(&(0..D).map(|i| pick(i, l[i] - p[i], u[i] - p[i])).collect::<Vec<_>>()),
        }
    }
}
impl<M: Metric, const D: usize> Envelope for Bx<M, D> {
    type Point = [i64; D];
    fn new_empty() -> Self {
        Bx::Nothing
    }
    fn contains_point(&self, p: &[i64; D]) -> bool {
        matches!(self, B(l, u, _) if (0..D).all(|i| l[i] <= p[i] && p[i] <= u[i]))
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        match (self, o) {
            (_, Bx::Nothing) => true,
            (Bx::Nothing, _) => false,
            (B(l, u, _), B(a, b, _)) => (0..D).all(|i| l[i] <= a[i] && b[i] <= u[i]),
        }
    }
    fn merge(&mut self, o: &Self) {
        *self = self.merged(o)
    }
    fn merged(&self, o: &Self) -> Self {
        match (self, o) {
            (Bx::Nothing, x) | (x, Bx::Nothing) => x.clone(),
            (B(l, u, m), B(a, b, _)) => {
                B(std::array::from_fn(|i| l[i].min(a[i])), std::array::from_fn(|i| u[i].max(b[i])), *m)
            }
        }
    }
    fn intersects(&self, o: &Self) -> bool {
        match (self, o) {
            (B(l, u, _), B(a, b, _)) => (0..D).all(|i| l[i] <= b[i] && a[i] <= u[i]),
            _ => false,
        }
    }
    fn intersection_area(&self, o: &Self) -> i64 {
        match (self, o) {
            (B(l, u, _), B(a, b, _)) => (0..D).map(|i| (u[i].min(b[i]) - l[i].max(a[i])).max(0)).product(),
            _ => 0,
        }
    }
    fn area(&self) -> i64 {
        self.intersection_area(self)
    }
    fn distance_2(&self, p: &[i64; D]) -> i64 {
        self.far(p, |_, l, u| l.max(-u).max(0))
    }
    fn min_max_dist_2(&self, p: &[i64; D]) -> i64 {
        (0..D)
            .map(|k| self.far(p, |i, l, u| if i == k { l.abs().min(u.abs()) } else { l.abs().max(u.abs()) }))
            .min()
            .unwrap()
    }
    fn center(&self) -> [i64; D] {
        match self {
            Bx::Nothing => [0; D],
            B(l, u, _) => std::array::from_fn(|i| (l[i] + u[i]) / 2),
        }
    }
    fn perimeter_value(&self) -> i64 {
        match self {
            Bx::Nothing => 0,
            B(l, u, _) => (0..D).map(|i| u[i] - l[i]).sum(),
        }
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) {
        v.sort_by_key(|x| x.envelope().center()[axis])
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], n: usize) {
        v.select_nth_unstable_by_key(n, |x| x.envelope().center()[axis]);
    }
}
#[derive(Clone, Debug)]
struct BoxObj<M, const D: usize>([i64; D], [i64; D], PhantomData<M>);
fn wide<const D: usize>(p: &[i32; 3]) -> [i64; D] {
    std::array::from_fn(|i| p[i % 3] as i64)
}
impl<M: Metric, const D: usize> Fam for BoxObj<M, D> {
    type E = Bx<M, D>;
    fn object(r: &Raw) -> Self {
        let (p, q) = (wide::<D>(&r.p), wide::<D>(&r.q));
        BoxObj(std::array::from_fn(|i| p[i].min(q[i])), std::array::from_fn(|i| p[i].max(q[i])), PhantomData)
    }
    fn env(&self) -> Self::E {
        B(self.0, self.1, PhantomData)
    }
    fn dist(&self, p: &[i64; D]) -> i64 {
        M::len(&(0..D).map(|i| (self.0[i] - p[i]).max(p[i] - self.1[i]).max(0)).collect::<Vec<_>>())
    }
    fn has(&self, p: &[i64; D]) -> bool {
        (0..D).all(|i| self.0[i] <= p[i] && p[i] <= self.1[i])
    }
    fn point(p: &[i32; 3]) -> [i64; D] {
        wide(p)
    }
    fn window(r: &Raw) -> Self::E {
        if r.t == 3 && r.p == r.q {
            return Bx::Nothing;
        }
        Self::object(r).env()
    }
    fn inside(a: &Self::E, b: &Self::E) -> bool {
        match (a, b) {
            (B(l, u, _), B(x, y, _)) => !(0..D).any(|i| x[i] < l[i] || u[i] < y[i]),
            _ => false,
        }
    }
    fn meet(a: &Self::E, b: &Self::E) -> bool {
        match (a, b) {
            (B(l, u, _), B(x, y, _)) => !(0..D).any(|i| y[i] < l[i] || u[i] < x[i]),
            _ => false,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
    fn num(x: i64) -> i64 {
        x
    }
}

// ---------------------------------------------------------------- octagons around loose points

/// Bounds along x, y, x + y and x - y; the least one above the greatest one means empty.
#[derive(Clone, Debug, PartialEq)]
struct Oct {
    lo: [f64; 4],
    hi: [f64; 4],
}
fn proj(p: &[f64; 2]) -> [f64; 4] {
    [p[0], p[1], p[0] + p[1], p[0] - p[1]]
}
fn oct_len(a: &[f64; 2], b: &[f64; 2]) -> f64 {
    proj(&[a[0] - b[0], a[1] - b[1]]).iter().fold(0.0, |m, x| x.abs().max(m))
}
impl Envelope for Oct {
    type Point = [f64; 2];
    fn new_empty() -> Self {
        Oct { lo: [f64::INFINITY; 4], hi: [f64::NEG_INFINITY; 4] }
    }
    fn contains_point(&self, p: &[f64; 2]) -> bool {
        let v = proj(p);
        (0..4).all(|i| self.lo[i] <= v[i] && v[i] <= self.hi[i])
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        (0..4).all(|i| self.lo[i] <= o.lo[i] && o.hi[i] <= self.hi[i])
    }
    fn merge(&mut self, o: &Self) {
        for i in 0..4 {
            self.lo[i] = self.lo[i].min(o.lo[i]);
            self.hi[i] = self.hi[i].max(o.hi[i]);
        }
    }
    fn merged(&self, o: &Self) -> Self {
        let mut r = self.clone();
        r.merge(o);
        r
    }
    fn intersects(&self, o: &Self) -> bool {
        (0..4).all(|i| self.lo[i] <= o.hi[i] && o.lo[i] <= self.hi[i])
    }
    fn intersection_area(&self, o: &Self) -> f64 {
        (0..2).map(|i| (self.hi[i].min(o.hi[i]) - self.lo[i].max(o.lo[i])).max(0.0)).product()
    }
    fn area(&self) -> f64 {
        self.intersection_area(self)
    }
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        let v = proj(p);
        (0..4).map(|i| (self.lo[i] - v[i]).max(v[i] - self.hi[i]).max(0.0)).fold(0.0, f64::max)
    }
    fn min_max_dist_2(&self, p: &[f64; 2]) -> f64 {
        let v = proj(p);
        (0..4).map(|i| (self.lo[i] - v[i]).abs().max((v[i] - self.hi[i]).abs())).fold(0.0, f64::max)
    }
    fn center(&self) -> [f64; 2] {
        if self.lo[0] > self.hi[0] {
            return [0.0; 2];
        }
        [(self.lo[0] + self.hi[0]) / 2.0, (self.lo[1] + self.hi[1]) / 2.0]
    }
    fn perimeter_value(&self) -> f64 {
        (0..4).map(|i| (self.hi[i] - self.lo[i]).max(0.0)).sum()
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) {
        v.sort_by(|a, b| a.envelope().hi[axis].total_cmp(&b.envelope().hi[axis]))
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], n: usize) {
        v.select_nth_unstable_by(n, |a, b| a.envelope().hi[axis].total_cmp(&b.envelope().hi[axis]));
    }
}
#[derive(Clone, Debug)]
struct Loose([[f64; 2]; 3]);
impl Fam for Loose {
    type E = Oct;
    fn object(r: &Raw) -> Self {
        Loose([Self::point(&r.p), Self::point(&r.q), Self::point(&r.r)])
    }
    fn env(&self) -> Oct {
        let mut e = Oct::new_empty();
        for p in &self.0 {
            e.merge(&Oct { lo: proj(p), hi: proj(p) });
        }
        e
    }
    fn dist(&self, p: &[f64; 2]) -> f64 {
        self.0.iter().map(|q| oct_len(p, q)).fold(f64::INFINITY, f64::min)
    }
    fn has(&self, p: &[f64; 2]) -> bool {
        self.0.contains(p)
    }
    fn point(p: &[i32; 3]) -> [f64; 2] {
        [p[0] as f64, p[1] as f64]
    }
    fn window(r: &Raw) -> Oct {
        if r.t == 3 && r.p == r.q {
            return Oct::new_empty();
        }
        Self::object(r).env()
    }
    fn inside(a: &Oct, b: &Oct) -> bool {
        !(0..4).any(|i| b.lo[i] < a.lo[i] || b.hi[i] > a.hi[i])
    }
    fn meet(a: &Oct, b: &Oct) -> bool {
        !(0..4).any(|i| b.hi[i] < a.lo[i] || b.lo[i] > a.hi[i])
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn num(x: i64) -> f64 {
        x as f64
    }
}

// ---------------------------------------------------------------- sets of cells

/// A set of cells of a board of eight by eight.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cells(u64);
impl Cells {
    fn iter(self) -> impl Iterator<Item = [i32; 2]> {
        (0..64).filter(move |i| self.0 >> i & 1 == 1).map(|i| [i % 8, i / 8])
    }
    fn of(p: &[i32; 2]) -> u64 {
        if (0..8).contains(&p[0]) && (0..8).contains(&p[1]) {
            1 << (p[0] + 8 * p[1])
        } else {
            0
        }
    }
}
fn king(a: [i32; 2], b: &[i32; 2]) -> i32 {
    (a[0] - b[0]).abs().max((a[1] - b[1]).abs())
}
impl Envelope for Cells {
    type Point = [i32; 2];
    fn new_empty() -> Self {
        Cells(0)
    }
    fn contains_point(&self, p: &[i32; 2]) -> bool {
        self.0 & Cells::of(p) != 0
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        o.0 & !self.0 == 0
    }
    fn merge(&mut self, o: &Self) {
        self.0 |= o.0
    }
    fn merged(&self, o: &Self) -> Self {
        Cells(self.0 | o.0)
    }
    fn intersects(&self, o: &Self) -> bool {
        self.0 & o.0 != 0
    }
    fn intersection_area(&self, o: &Self) -> i32 {
        (self.0 & o.0).count_ones() as i32
    }
    fn area(&self) -> i32 {
        self.0.count_ones() as i32
    }
    fn distance_2(&self, p: &[i32; 2]) -> i32 {
        self.iter().map(|c| king(c, p)).min().unwrap_or(i32::MAX)
    }
    fn min_max_dist_2(&self, p: &[i32; 2]) -> i32 {
        self.iter().map(|c| king(c, p)).max().unwrap_or(i32::MAX)
    }
    fn center(&self) -> [i32; 2] {
        let n = self.area().max(1);
        [self.iter().map(|c| c[0]).sum::<i32>() / n, self.iter().map(|c| c[1]).sum::<i32>() / n]
    }
    fn perimeter_value(&self) -> i32 {
        self.area()
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) {
        v.sort_by_key(|x| x.envelope().center()[axis])
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], n: usize) {
        v.select_nth_unstable_by_key(n, |x| x.envelope().center()[axis]);
    }
}
#[derive(Clone, Debug)]
struct Piece(Cells);
impl Fam for Piece {
    type E = Cells;
    fn object(r: &Raw) -> Self {
        let c = |p: &[i32; 3]| Cells::of(&[p[0].rem_euclid(8), p[1].rem_euclid(8)]);
        Piece(Cells(c(&r.p) | c(&r.q) | c(&r.r)))
    }
    fn env(&self) -> Cells {
        self.0
    }
    fn dist(&self, p: &[i32; 2]) -> i32 {
        self.0.iter().map(|c| king(c, p)).min().unwrap()
    }
    fn has(&self, p: &[i32; 2]) -> bool {
        self.0.iter().any(|c| c == *p)
    }
    fn point(p: &[i32; 3]) -> [i32; 2] {
        [p[0], p[1]]
    }
    fn window(r: &Raw) -> Cells {
        // half of the board, a few cells or nothing
        match r.t {
            0 => Cells(mix(r.p[0] as u64 ^ (r.p[1] as u64) << 32)),
            3 if r.p == r.q => Cells(0),
            _ => Piece::object(r).0,
        }
    }
    fn inside(a: &Cells, b: &Cells) -> bool {
        b.iter().all(|c| a.iter().any(|x| x == c))
    }
    fn meet(a: &Cells, b: &Cells) -> bool {
        b.iter().any(|c| a.iter().any(|x| x == c))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn num(x: i64) -> i32 {
        x as i32
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    In(Raw, u8, Option<u32>),
    Inter(Raw, u8, Option<u32>),
    At([i32; 3], u8, Option<u32>),
    Within([i32; 3], i64, Option<u32>),
    Nn([i32; 3]),
    NnIter([i32; 3], Option<u32>),
    Nns([i32; 3]),
    Contains(Raw),
    Ins(Raw),
    /// seed, number
    Many(u32, u32),
    Rem(Raw),
    RemAt([i32; 3]),
    Pop([i32; 3]),
    /// what (all, in, intersecting, within), how many
    Drain(u8, Raw, i64, Option<u32>),
    /// bulk load or insert everything into a new tree
    Again(bool),
    /// join with a tree of some elements
    Join(u32, u32, bool),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct EnvCase {
    fam: u8,
    par: u8,
    /// relies on the default methods of the distance trait
    plain: bool,
    span: i32,
    bulk: bool,
    init: Vec<Raw>,
    many: (u32, u32),
    ops: Vec<Op>,
}
fn random_raws(seed: u32, n: u32, span: i32) -> Vec<Raw> {
    let mut r = Rng::new(seed as u64 ^ 0xE5E5_0000_0000);
    let c = |r: &mut Rng, s: i32| r.below(2 * s as u64 + 1) as i32 - s;
    let ext = [0, 1, 5, span.min(60)][r.below(4) as usize];
    (0..n)
        .map(|_| {
            let p = [0; 3].map(|_| c(&mut r, span));
            Raw { p, q: p.map(|x| x + c(&mut r, ext)), r: p.map(|x| x + c(&mut r, ext)), t: r.below(3) as u8 }
        })
        .collect()
}

trait Stored: PointDistance<Envelope = <Self::F as Fam>::E> + PartialEq + Clone {
    type F: Fam;
    fn of(r: &Raw, id: u32) -> Self;
    fn id(&self) -> u32;
    fn obj(&self) -> &Self::F;
    fn hits(&mut self) -> &mut u32;
    fn tag(&self) -> u8;
}
impl<F: Fam + Clone + Debug> Stored for El<F> {
    type F = F;
    fn of(r: &Raw, id: u32) -> Self {
        El { o: F::object(r), t: r.t, id, hits: 0 }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn obj(&self) -> &F {
        &self.o
    }
    fn hits(&mut self) -> &mut u32 {
        &mut self.hits
    }
    fn tag(&self) -> u8 {
        self.t
    }
}
impl<F: Fam + Clone + Debug> Stored for ElD<F> {
    type F = F;
    fn of(r: &Raw, id: u32) -> Self {
        ElD(El::of(r, id))
    }
    fn id(&self) -> u32 {
        self.0.id
    }
    fn obj(&self) -> &F {
        &self.0.o
    }
    fn hits(&mut self) -> &mut u32 {
        &mut self.0.hits
    }
    fn tag(&self) -> u8 {
        self.0.t
    }
}
type N<T> = Num<<T as Stored>::F>;
type P<T> = Pnt<<T as Stored>::F>;

struct W<T: Stored, PA: RTreeParams> {
    tree: RTree<T, PA>,
    m: Vec<T>,
    next: u32,
    inserted_only: bool,
}
/// Compares ids; with a limit any part of the expected ones of the right size will do.
fn ids(what: &str, got: Vec<u32>, want: Vec<u32>, stop: Option<usize>) -> Result<(), String> {
    let mut g = got.clone();
    g.sort_unstable();
    if let Some(w) = g.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("{what}: element #{} twice", w[0]));
    }
    if let Some(x) = g.iter().find(|x| !want.contains(x)) {
        return Err(format!("{what}: element #{x} does not belong to the result {want:?}"));
    }
    let n = stop.map_or(want.len(), |s| s.min(want.len()));
    if g.len() != n {
        return Err(format!("{what}: {} of {n} elements: {g:?} of {want:?}", g.len()));
    }
    Ok(())
}
impl<T: Stored, PA: RTreeParams> W<T, PA> {
    fn insert(&mut self, r: &Raw) {
        let e = T::of(r, self.next);
        self.next += 1;
        self.tree.insert(e.clone());
        self.m.push(e);
    }
    fn gone(&mut self, what: &str, e: T) -> Result<(), String> {
        let i = self.m.iter().position(|x| x.id() == e.id()).ok_or(format!("{what}: element #{} is not there", e.id()))?;
        let x = self.m.swap_remove(i);
        if !(x.obj().same(e.obj()) && x.tag() == e.tag()) {
            return Err(format!("{what}: element #{} was changed", e.id()));
        }
        self.inserted_only = false;
        Ok(())
    }
    fn select(&self, f: impl Fn(&T) -> bool) -> Vec<u32> {
        self.m.iter().filter(|e| f(e)).map(|e| e.id()).collect()
    }
    fn least(&self, p: &P<T>) -> Option<N<T>> {
        self.m.iter().map(|e| e.obj().dist(p)).reduce(|a, b| if b < a { b } else { a })
    }
    fn sound(&self) -> Result<usize, String> {
        fn rec<T: Stored, PA: RTreeParams>(n: &ParentNode<T>, top: bool, strict: bool, found: &mut Vec<u32>) -> Result<usize, String> {
            let mut e = T::Envelope::new_empty();
            let mut depth = None;
            for c in n.children() {
                let d = match c {
                    RTreeNode::Leaf(x) => {
                        found.push(x.id());
                        e = e.merged(&x.obj().env());
                        0
                    }
                    RTreeNode::Parent(p) => {
                        if p.children().is_empty() {
                            return Err("a childless inner node".into());
                        }
                        e = e.merged(&p.envelope());
                        rec::<T, PA>(p, false, strict, found)?
                    }
                };
                if *depth.get_or_insert(d) != d {
                    return Err("elements at different depths".into());
                }
            }
            if n.envelope() != e {
                return Err(format!("a node reports {:?} instead of {e:?}", n.envelope()));
            }
            let k = n.children().len();
            if strict && (k > PA::MAX_SIZE || (!top && k < PA::MIN_SIZE)) {
                return Err(format!("a node has {k} children"));
            }
            Ok(depth.map_or(0, |d| d + 1))
        }
        let mut found = vec![];
        let h = rec::<T, PA>(self.tree.root(), true, self.inserted_only, &mut found).map_err(|e| format!("structure: {e}"))?;
        ids("elements below the root", found, self.select(|_| true), None)?;
        if self.tree.size() != self.m.len() {
            return Err(format!("size {} instead of {}", self.tree.size(), self.m.len()));
        }
        if self.tree.root().envelope().is_empty() != self.m.is_empty() {
            return Err("the root's envelope is empty exactly if nothing is stored".into());
        }
        Ok(h)
    }
}

macro_rules! forms {
    ($tree:expr, $w:expr, $form:expr, $stop:expr, $it:ident, $mt:ident, $int:ident, $intm:ident) => {{
        let stop = $stop.map_or(usize::MAX, |s: u32| s as usize);
        let w = $w;
        let mut v: Vec<u32> = vec![];
        match $form % 4 {
            0 => v = hinted($tree.$it(w)).take(stop).map(|e| e.id()).collect(),
            1 => {
                let x: Vec<_> = hinted($tree.$mt(w)).take(stop).collect();
                for e in x {
                    *e.hits() += 1;
                    v.push(e.id());
                }
            }
            2 if stop > 0 => {
                let r = $tree.$int(w, |e| {
                    v.push(e.id());
                    if v.len() == stop { ControlFlow::Break(7) } else { ControlFlow::Continue(()) }
                });
                assert_eq!(r.is_break(), v.len() == stop);
            }
            3 if stop > 0 => {
                let r = $tree.$intm(w, |e| {
                    *e.hits() += 1;
                    v.push(e.id());
                    if v.len() == stop { ControlFlow::Break(7) } else { ControlFlow::Continue(()) }
                });
                assert_eq!(r.is_break(), v.len() == stop);
            }
            _ => {}
        }
        v
    }};
}

fn run<T: Stored, PA: RTreeParams>(c: &EnvCase, cov: &mut Cov) -> Result<(), String>
where
    N<T>: Debug,
    P<T>: Debug,
{
    let pt = |p: &[i32; 3]| <T::F as Fam>::point(p);
    let mut init = c.init.clone();
    init.extend(random_raws(c.many.0, c.many.1, c.span));
    let mut w: W<T, PA> = W { tree: RTree::new_with_params(), m: vec![], next: init.len() as u32, inserted_only: !c.bulk };
    if c.bulk {
        w.m = init.iter().enumerate().map(|(i, r)| T::of(r, i as u32)).collect();
        w.tree = RTree::bulk_load_with_params(w.m.clone());
    } else {
        w.next = 0;
        init.iter().for_each(|r| w.insert(r));
    }
    let h = w.sound()?;
    cov.label(["height 0", "height 1", "height 2", "height 3"].get(h).copied().unwrap_or("height 4+"));
    let mut part = false;
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("operation {i}, {op:?}");
        let what = what.as_str();
        let n = w.m.len();
        let sel = |p: &mut bool, v: Vec<u32>| {
            *p |= !v.is_empty() && v.len() < n;
            v
        };
        match *op {
            Op::In(r, form, stop) => {
                let x = <T::F as Fam>::window(&r);
                if x.is_empty() {
                    continue;
                }
                let want = sel(&mut part, w.select(|e| T::F::inside(&x, &e.obj().env())));
                let got = forms!(w.tree, x, form, stop, locate_in_envelope, locate_in_envelope_mut, locate_in_envelope_int, locate_in_envelope_int_mut);
                ids(what, got, want, stop.map(|s| s as usize))?;
                cov.label("contained");
            }
            Op::Inter(r, form, stop) => {
                let x = <T::F as Fam>::window(&r);
                let want = sel(&mut part, w.select(|e| T::F::meet(&x, &e.obj().env())));
                let got = forms!(
                    w.tree,
                    x,
                    form,
                    stop,
                    locate_in_envelope_intersecting,
                    locate_in_envelope_intersecting_mut,
                    locate_in_envelope_intersecting_int,
                    locate_in_envelope_intersecting_int_mut
                );
                ids(what, got, want, stop.map(|s| s as usize))?;
                cov.label("intersecting");
            }
            Op::At(p, form, stop) => {
                let x = pt(&p);
                let want = sel(&mut part, w.select(|e| e.obj().has(&x)));
                let one = match form % 4 {
                    0 => w.tree.locate_at_point(x.clone()).map(|e| e.id()),
                    1 => w.tree.locate_at_point_mut(x.clone()).map(|e| e.id()),
                    2 => w.tree.locate_at_point_int(x.clone()).map(|e| e.id()),
                    _ => w.tree.locate_at_point_int_mut(x.clone()).map(|e| e.id()),
                };
                ids(what, one.into_iter().collect(), want.clone(), Some(1))?;
                let got = forms!(w.tree, x, form, stop, locate_all_at_point, locate_all_at_point_mut, locate_all_at_point_int, locate_all_at_point_int_mut);
                ids(what, got, want, stop.map(|s| s as usize))?;
                cov.label("at a point");
            }
            Op::Within(p, r, stop) => {
                let (x, r) = (pt(&p), <T::F as Fam>::num(r));
                let want = sel(&mut part, w.select(|e| e.obj().dist(&x) <= r));
                let got = hinted(w.tree.locate_within_distance(x, r))
                    .take(stop.map_or(usize::MAX, |s| s as usize))
                    .map(|e| e.id())
                    .collect();
                ids(what, got, want, stop.map(|s| s as usize))?;
                cov.label("within a distance");
            }
            Op::Nn(p) => {
                let x = pt(&p);
                let least = w.least(&x);
                let got = w.tree.nearest_neighbor_with_distance_2(x.clone()).map(|(e, d)| (e.id(), e.obj().dist(&x), d));
                let plain = w.tree.nearest_neighbor(x.clone()).map(|e| e.obj().dist(&x));
                if got.map(|g| g.1) != least || got.map(|g| g.2) != least || plain != least {
                    return Err(format!("{what}: {got:?} and {plain:?}, the least distance is {least:?}"));
                }
                cov.label("nearest");
            }
            Op::NnIter(p, stop) => {
                let x = pt(&p);
                let mut want: Vec<N<T>> = w.m.iter().map(|e| e.obj().dist(&x)).collect();
                want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                want.truncate(stop.map_or(usize::MAX, |s| s as usize));
                let got: Vec<_> = hinted(w.tree.nearest_neighbor_iter_with_distance_2(x.clone()))
                    .take(stop.map_or(usize::MAX, |s| s as usize))
                    .map(|(e, d)| (e.id(), e.obj().dist(&x), d))
                    .collect();
                ids(what, got.iter().map(|g| g.0).collect(), w.select(|_| true), stop.map(|s| s as usize))?;
                if let Some((g, d)) = got.iter().zip(&want).find(|(g, d)| g.1 != **d || g.2 != **d) {
                    return Err(format!("{what}: {g:?} where the distance should be {d:?}"));
                }
                cov.label("by distance");
            }
            Op::Nns(p) => {
                let x = pt(&p);
                let least = w.least(&x);
                let want = sel(&mut part, w.select(|e| Some(e.obj().dist(&x)) == least));
                let got = w.tree.nearest_neighbors(&x).iter().map(|e| e.id()).collect();
                ids(what, got, want.clone(), None)?;
                let got = w.tree.nearest_neighbors_with_distance_2(&x).map(|(v, d)| {
                    (v.iter().map(|e| e.id()).collect::<Vec<_>>(), d)
                });
                if got.as_ref().map(|g| g.1) != least {
                    return Err(format!("{what}: {got:?}, the least distance is {least:?}"));
                }
                ids(what, got.map(|g| g.0).unwrap_or_default(), want, None)?;
                cov.label("all nearest");
            }
            Op::Contains(r) => {
                let e = T::of(&r, 0);
                let want = w.m.iter().any(|x| *x == e);
                if w.tree.contains(&e) != want {
                    return Err(format!("{what}: {}", !want));
                }
            }
            Op::Ins(r) => w.insert(&r),
            Op::Many(seed, n) => random_raws(seed, n, c.span).iter().for_each(|r| w.insert(r)),
            Op::Rem(r) => {
                let e = T::of(&r, 0);
                let want = w.select(|x| *x == e);
                let got = w.tree.remove(&e);
                ids(what, got.iter().map(|e| e.id()).collect(), want, Some(1))?;
                if let Some(e) = got {
                    w.gone(what, e)?;
                }
                cov.label("removed");
            }
            Op::RemAt(p) => {
                let x = pt(&p);
                let want = w.select(|e| e.obj().has(&x));
                let got = w.tree.remove_at_point(x);
                ids(what, got.iter().map(|e| e.id()).collect(), want, Some(1))?;
                if let Some(e) = got {
                    w.gone(what, e)?;
                }
            }
            Op::Pop(p) => {
                let x = pt(&p);
                let least = w.least(&x);
                let got = w.tree.pop_nearest_neighbor(x.clone());
                if got.as_ref().map(|e| e.obj().dist(&x)) != least {
                    return Err(format!("{what}: #{:?}, the least distance is {least:?}", got.map(|e| e.id())));
                }
                if let Some(e) = got {
                    w.gone(what, e)?;
                }
                cov.label("popped");
            }
            Op::Drain(k, r, d, stop) => {
                let x = <T::F as Fam>::window(&r);
                let (p, d) = (pt(&r.p), <T::F as Fam>::num(d));
                if x.is_empty() {
                    continue;
                }
                let n = stop.map_or(usize::MAX, |s| s as usize);
                let (want, got): (Vec<u32>, Vec<T>) = match k % 4 {
                    0 => (w.select(|_| true), hinted(w.tree.drain()).take(n).collect()),
                    1 => (
                        w.select(|e| T::F::inside(&x, &e.obj().env())),
                        hinted(w.tree.drain_in_envelope(x)).take(n).collect(),
                    ),
                    2 => (
                        w.select(|e| T::F::meet(&x, &e.obj().env())),
                        hinted(w.tree.drain_in_envelope_intersecting(x)).take(n).collect(),
                    ),
                    _ => (
                        w.select(|e| e.obj().dist(&p) <= d),
                        hinted(w.tree.drain_within_distance(p, d)).take(n).collect(),
                    ),
                };
                ids(what, got.iter().map(|e| e.id()).collect(), want, stop.map(|s| s as usize))?;
                for e in got {
                    w.gone(what, e)?;
                }
                w.inserted_only = false;
                cov.label("drained");
            }
            Op::Again(bulk) => {
                if bulk {
                    w.tree = RTree::bulk_load_with_params(w.m.clone());
                    w.inserted_only = false;
                } else {
                    w.tree = RTree::new_with_params();
                    w.inserted_only = true;
                    for e in &w.m {
                        w.tree.insert(e.clone());
                    }
                }
            }
            Op::Join(seed, n, bulk) => {
                let o: Vec<T> = random_raws(seed, n, c.span).iter().enumerate().map(|(i, r)| T::of(r, i as u32)).collect();
                let mut t: RTree<T> = RTree::new();
                if bulk {
                    t = RTree::bulk_load(o.clone());
                } else {
                    o.iter().for_each(|e| t.insert(e.clone()));
                }
                let mut got: Vec<(u32, u32)> =
                    hinted(w.tree.intersection_candidates_with_other_tree(&t)).map(|(a, b)| (a.id(), b.id())).collect();
                let mut want: Vec<(u32, u32)> = vec![];
                for a in &w.m {
                    for b in &o {
                        if T::F::meet(&a.obj().env(), &b.obj().env()) {
                            want.push((a.id(), b.id()));
                        }
                    }
                }
                got.sort_unstable();
                want.sort_unstable();
                if got != want {
                    let x = got.iter().find(|x| !want.contains(x));
                    let y = want.iter().find(|x| !got.contains(x));
                    return Err(format!("{what}: {} pairs instead of {}; not expected {x:?}, missing {y:?}", got.len(), want.len()));
                }
                part |= !want.is_empty() && want.len() < w.m.len() * o.len();
                cov.label("joined");
            }
        }
        w.sound().map_err(|e| format!("after {what}: {e}"))?;
    }
    ids("all elements", hinted(w.tree.iter()).map(|e| e.id()).collect(), w.select(|_| true), None)?;
    ids("all elements, owned", hinted(w.tree.into_iter()).map(|e| e.id()).collect(), w.m.iter().map(|e| e.id()).collect(), None)?;
    cov.nontrivial = h > 1 && part;
    Ok(())
}

const FAMS: [&str; 7] = [
    "Chebyshev boxes",
    "Manhattan boxes in three dimensions",
    "weighted boxes in five dimensions",
    "coarse boxes",
    "octagons around loose points",
    "sets of cells",
    "Manhattan boxes",
];

struct G {
    span: i32,
    raws: Vec<Raw>,
}
impl G {
    fn pos(&mut self, s: &mut Src) -> [i32; 3] {
        let span = self.span;
        if !self.raws.is_empty() && s.chance(2, 3) {
            let r = self.raws[s.below(self.raws.len())];
            let p = [r.p, r.q, r.r][s.below(3)];
            let d = if s.bool() { 1 } else { 0 };
            return p.map(|x| x + if d == 1 { s.signed(2) as i32 } else { 0 });
        }
        let far = if s.chance(1, 10) { 3 } else { 1 };
        [0; 3].map(|_| s.signed((span * far) as i64) as i32)
    }
    fn raw(&mut self, s: &mut Src) -> Raw {
        if !self.raws.is_empty() && s.chance(1, 4) {
            let mut r = self.raws[s.below(self.raws.len())];
            r.t = s.below(4) as u8;
            return r;
        }
        let p = self.pos(s);
        let near = |s: &mut Src, g: &mut G| match s.below(3) {
            0 => p,
            1 => p.map(|x| x + s.signed(4) as i32),
            _ => g.pos(s),
        };
        let (q, r) = (near(s, self), near(s, self));
        let r = Raw { p, q, r, t: s.below(4) as u8 };
        self.raws.push(r);
        r
    }
    fn stored(&mut self, s: &mut Src) -> Raw {
        let mut r = self.raw(s);
        r.t %= 3;
        r
    }
}

pub struct C26;
impl Check for C26 {
    const ID: &'static str = "C26";
    type Case = EnvCase;
    const CASES: (u64, u64) = (600_000, 24_000_000);
    const RULE: &'static str = "a case is a tree of one of 7 families of elements with envelopes and distances of their own (boxes under four metrics in 2, 3 and 5 dimensions, octagons around loose points, sets of cells), one of 5 parameter sets, bulk loaded or inserted, and 1 to 15 queries, removals, drains, insertions and joins, each compared with a linear scan by the family's own definitions, the node structure after each; non-trivial: a tree of at least two levels and some query selects a proper non-empty part; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "envelopes form a join-semilattice under merging, containment and intersection agree with it, distances to envelopes bound those to the elements inside from below and the min-max distance bounds the nearest one from above",
        "an empty query envelope is only used for intersection",
    ];
    fn gen(s: &mut Src, _: u64) -> EnvCase {
        let fam = s.below(FAMS.len()) as u8;
        let mut span = [1, 4, 20, 100, 1000][s.weighted(&[1, 3, 4, 4, 2])];
        if fam == 2 {
            // products of five sides
            span = span.min(100);
        }
        let mut g = G { span, raws: vec![] };
        let par = s.below(5) as u8;
        let plain = s.bool();
        let bulk = s.bool();
        let size = s.size;
        let init = s.list(
            200,
            |r| match r.below(8) {
                0..=2 => r.below(4) as usize,
                3..=5 => r.below(30) as usize,
                _ => r.below(if size > 1 { 200 } else { 100 }) as usize,
            },
            |s, _| g.stored(s),
        );
        let many = if s.chance(1, 2) {
            (s.upto(99_999) as u32, s.draw_with(1500, |r| [0, 8, 40, 150, 400][r.below(5) as usize] + r.below(9)) as u32)
        } else {
            (0, 0)
        };
        if many.1 > 0 {
            g.raws.extend(random_raws(many.0, many.1.min(30), span));
        }
        let stop = |s: &mut Src| if s.chance(1, 4) { Some(s.upto(12) as u32) } else { None };
        let radius = |s: &mut Src, g: &mut G| -> i64 {
            match s.below(4) {
                0 => s.upto(3) as i64 - 1,
                1 => s.upto(g.span as u64) as i64,
                2 => s.upto((g.span as u64).pow(2)) as i64,
                _ => s.upto(40) as i64,
            }
        };
        let ops = s.list(
            40,
            |r| 1 + r.below(15) as usize,
            |s, _| match s.weighted(&[4, 4, 4, 4, 4, 3, 3, 2, 6, 2, 4, 3, 3, 4, 1, 2]) {
                0 => Op::In(g.raw(s), s.below(4) as u8, stop(s)),
                1 => Op::Inter(g.raw(s), s.below(4) as u8, stop(s)),
                2 => Op::At(g.pos(s), s.below(4) as u8, stop(s)),
                3 => Op::Within(g.pos(s), radius(s, &mut g), stop(s)),
                4 => Op::Nn(g.pos(s)),
                5 => Op::NnIter(g.pos(s), if s.bool() { Some(s.upto(20) as u32) } else { None }),
                6 => Op::Nns(g.pos(s)),
                7 => Op::Contains(g.stored(s)),
                8 => Op::Ins(g.stored(s)),
                9 => Op::Many(s.upto(99_999) as u32, s.upto(40) as u32),
                10 => Op::Rem(g.stored(s)),
                11 => Op::RemAt(g.pos(s)),
                12 => Op::Pop(g.pos(s)),
                13 => Op::Drain(s.below(4) as u8, g.raw(s), radius(s, &mut g), if s.bool() { Some(s.upto(20) as u32) } else { None }),
                14 => Op::Again(s.bool()),
                _ => Op::Join(s.upto(99_999) as u32, s.draw_with(200, |r| [1, 5, 40, 120][r.below(4) as usize]) as u32, s.bool()),
            },
        );
        EnvCase { fam, par, plain, span, bulk, init, many, ops }
    }
    fn run(c: &EnvCase, cov: &mut Cov) -> Result<(), String> {
        cov.label(FAMS[c.fam as usize % 7]);
        fn par<T: Stored>(c: &EnvCase, cov: &mut Cov) -> Result<(), String>
        where
            N<T>: Debug,
            P<T>: Debug,
        {
            match c.par {
                0 => run::<T, DefaultParams>(c, cov),
                1 => run::<T, Pa<2, 4, 1>>(c, cov),
                2 => run::<T, Pa<1, 5, 3>>(c, cov),
                3 => run::<T, Pa<5, 10, 0>>(c, cov),
                _ => run::<T, Pa<15, 40, 12>>(c, cov),
            }
        }
        fn fam<F: Fam + Clone + Debug>(c: &EnvCase, cov: &mut Cov) -> Result<(), String>
        where
            Num<F>: Debug,
            Pnt<F>: Debug,
        {
            if c.plain {
                par::<ElD<F>>(c, cov)
            } else {
                par::<El<F>>(c, cov)
            }
        }
        match c.fam {
            0 => fam::<BoxObj<Chebyshev, 2>>(c, cov),
            1 => fam::<BoxObj<ManhattanSquared, 3>>(c, cov),
            2 => fam::<BoxObj<Weighted, 5>>(c, cov),
            3 => fam::<BoxObj<Coarse, 2>>(c, cov),
            4 => fam::<Loose>(c, cov),
            5 => fam::<Piece>(c, cov),
            _ => fam::<BoxObj<ManhattanSquared, 2>>(c, cov),
        }
    }
}

rcheck::registry! {
    "C26" => C26,
}
