//! Lattice geometry: cases are made of small integer coordinates, mapped to each scalar type by a
//! monotone injective map; reference predicates and distances never call the code under test.

use crate::engine::tick;
use num_traits::Float;
use rstar::{Envelope, Point, PointDistance, RTreeNum, RTreeObject, AABB};
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

pub const MAXD: usize = 10;

/// Lattice coordinates.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Co {
    d: u8,
    v: [i32; MAXD],
}
impl Co {
    pub fn new(c: &[i32]) -> Self {
        let mut v = [0; MAXD];
        v[..c.len()].copy_from_slice(c);
        Co { d: c.len() as u8, v }
    }
    pub fn from_fn(d: usize, mut f: impl FnMut(usize) -> i32) -> Self {
        let mut v = [0; MAXD];
        for (i, x) in v.iter_mut().enumerate().take(d) {
            *x = f(i);
        }
        Co { d: d as u8, v }
    }
    pub fn c(&self) -> &[i32] {
        &self.v[..self.d as usize]
    }
    pub fn c_mut(&mut self) -> &mut [i32] {
        &mut self.v[..self.d as usize]
    }
    pub fn d(&self) -> usize {
        self.d as usize
    }
}
impl Debug for Co {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.c().fmt(f)
    }
}
impl std::ops::Index<usize> for Co {
    type Output = i32;
    fn index(&self, i: usize) -> &i32 {
        &self.c()[i]
    }
}
impl Serialize for Co {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.c().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Co {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Co::new(&Vec::<i32>::deserialize(d)?))
    }
}

/// How lattice units become scalars.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Mode {
    /// the lattice value itself
    Unit,
    /// times 2^-3
    Eighth,
    /// times 2^10
    Big,
    /// like Unit, but stored zeros are -0.0
    NegZero,
    /// times 0.1 (rounded)
    Tenth,
    /// offset plus small steps (rounded)
    Offset,
    /// huge values
    Huge,
    /// tiny values
    Tiny,
    /// three magnitudes, so far apart that sums lose the smallest (order kept, distances not)
    Warp,
}
pub const MODES: [Mode; 9] = [
    Mode::Unit,
    Mode::Eighth,
    Mode::Big,
    Mode::NegZero,
    Mode::Tenth,
    Mode::Offset,
    Mode::Huge,
    Mode::Tiny,
    Mode::Warp,
];
impl Mode {
    pub fn exact(self) -> bool {
        matches!(self, Mode::Unit | Mode::Eighth | Mode::Big | Mode::NegZero)
    }
    pub fn step(self, f32_: bool) -> f64 {
        match self {
            Mode::Unit | Mode::NegZero | Mode::Warp => 1.0,
            Mode::Eighth => 0.125,
            Mode::Big => 1024.0,
            Mode::Tenth => 0.1,
            Mode::Offset => 0.01,
            Mode::Huge if f32_ => 1e13,
            Mode::Huge => 1e140,
            Mode::Tiny if f32_ => 1e-15,
            Mode::Tiny => 1e-150,
        }
    }
    pub fn offset(self, f32_: bool) -> f64 {
        match self {
            Mode::Offset if f32_ => 128.0,
            Mode::Offset => 1e5,
            _ => 0.0,
        }
    }
    /// Warp: the unit of values of this lattice size
    pub fn unit(l: i64, f32_: bool) -> f64 {
        match l.abs() {
            0..=2 if f32_ => 1e-4,
            0..=2 => 1e-9,
            3..=20 => 1.0,
            _ if f32_ => 1e4,
            _ => 1e8,
        }
    }
}

/// Scalars usable in trees.
pub trait Sc: RTreeNum + Send + Sync + 'static + Serialize + DeserializeOwned {
    const INT: bool;
    const F32: bool;
    const EPS: f64;
    fn conv(l: i64, m: Mode) -> Self;
    fn f(self) -> f64;
    /// nearest value of this type (saturating)
    fn from_f(v: f64) -> Self;
    fn top() -> Self;
    fn bottom() -> Self;
}
macro_rules! sc_float {
    ($t:ty, $f32:expr) => {
        impl Sc for $t {
            const INT: bool = false;
            const F32: bool = $f32;
            const EPS: f64 = <$t>::EPSILON as f64;
            fn conv(l: i64, m: Mode) -> Self {
                if l >= i32::MAX as i64 {
                    return <$t>::INFINITY;
                }
                if l <= i32::MIN as i64 {
                    return <$t>::NEG_INFINITY;
                }
                if m == Mode::NegZero && l == 0 {
                    return -0.0;
                }
                if m == Mode::Warp {
                    return (l as f64 * Mode::unit(l, $f32)) as $t;
                }
                (m.offset($f32) + l as f64 * m.step($f32)) as $t
            }
            fn f(self) -> f64 {
                self as f64
            }
            fn from_f(v: f64) -> Self {
                v as $t
            }
            fn top() -> Self {
                <$t>::MAX
            }
            fn bottom() -> Self {
                <$t>::MIN
            }
        }
    };
}
macro_rules! sc_int {
    ($t:ty) => {
        impl Sc for $t {
            const INT: bool = true;
            const F32: bool = false;
            const EPS: f64 = 0.0;
            fn conv(l: i64, _m: Mode) -> Self {
                if l >= i32::MAX as i64 {
                    return <$t>::MAX;
                }
                if l <= i32::MIN as i64 {
                    return <$t>::MIN;
                }
                l as $t
            }
            fn f(self) -> f64 {
                self as f64
            }
            fn from_f(v: f64) -> Self {
                v.floor() as $t
            }
            fn top() -> Self {
                <$t>::MAX
            }
            fn bottom() -> Self {
                <$t>::MIN
            }
        }
    };
}
sc_float!(f64, false);
sc_float!(f32, true);
sc_int!(i32);
sc_int!(i64);
sc_int!(i16);
sc_int!(i8);
sc_int!(isize);
impl Sc for i128 {
    const INT: bool = true;
    const F32: bool = false;
    const EPS: f64 = 0.0;
    fn conv(l: i64, _m: Mode) -> Self {
        if l >= i32::MAX as i64 {
            return i128::MAX;
        }
        if l <= i32::MIN as i64 {
            return i128::MIN;
        }
        l as i128
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn from_f(v: f64) -> Self {
        v.floor() as i128
    }
    fn top() -> Self {
        i128::MAX
    }
    fn bottom() -> Self {
        i128::MIN
    }
}
impl Sc for std::num::Wrapping<i32> {
    const INT: bool = true;
    const F32: bool = false;
    const EPS: f64 = 0.0;
    fn conv(l: i64, m: Mode) -> Self {
        std::num::Wrapping(<i32 as Sc>::conv(l, m))
    }
    fn f(self) -> f64 {
        self.0 as f64
    }
    fn from_f(v: f64) -> Self {
        std::num::Wrapping(<i32 as Sc>::from_f(v))
    }
    fn top() -> Self {
        std::num::Wrapping(i32::MAX)
    }
    fn bottom() -> Self {
        std::num::Wrapping(i32::MIN)
    }
}

/// Points usable in trees.
pub trait Pt: Point<Scalar = <Self as Pt>::S> + Send + Sync + 'static {
    type S: Sc;
}
impl<P> Pt for P
where
    P: Point + Send + Sync + 'static,
    P::Scalar: Sc,
{
    type S = P::Scalar;
}

/// A user-defined point type with its coordinates in reverse field order.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct MyPoint {
    pub y: i32,
    pub x: i32,
}
impl Point for MyPoint {
    type Scalar = i32;
    const DIMENSIONS: usize = 2;
    fn generate(mut g: impl FnMut(usize) -> i32) -> Self {
        let x = g(0);
        let y = g(1);
        MyPoint { x, y }
    }
    fn nth(&self, i: usize) -> i32 {
        match i {
            0 => self.x,
            1 => self.y,
            _ => panic!("coordinate {i} of a two-dimensional point"),
        }
    }
    fn nth_mut(&mut self, i: usize) -> &mut i32 {
        match i {
            0 => &mut self.x,
            1 => &mut self.y,
            _ => panic!("coordinate {i} of a two-dimensional point"),
        }
    }
}

pub fn mk<P: Pt>(c: &Co, m: Mode) -> P {
    P::generate(|i| P::S::conv(c[i] as i64, m))
}
/// Query points and windows use +0.0 even where stored zeros are negative.
pub fn mkq<P: Pt>(c: &Co, m: Mode) -> P {
    let m = if m == Mode::NegZero { Mode::Unit } else { m };
    mk(c, m)
}
pub fn coords<P: Pt>(p: &P) -> Vec<f64> {
    (0..P::DIMENSIONS).map(|i| p.nth(i).f()).collect()
}

// ---------------------------------------------------------------- elements

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    Point,
    Rect,
    Line,
    Circle,
    /// the outline of a box without one of its corners
    Frame,
}

/// One element: lattice geometry and a tag that takes part in equality.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Elem {
    pub a: Co,
    pub b: Co,
    pub t: u8,
}
impl Elem {
    /// radius of a circle
    pub fn radius(&self) -> i32 {
        self.b[0].abs()
    }
    /// lattice bounding box
    pub fn env(&self, k: Kind) -> (Co, Co) {
        let d = self.a.d();
        match k {
            Kind::Point => (self.a, self.a),
            Kind::Rect | Kind::Line | Kind::Frame => (
                Co::from_fn(d, |i| self.a[i].min(self.b[i])),
                Co::from_fn(d, |i| self.a[i].max(self.b[i])),
            ),
            Kind::Circle => {
                let r = self.radius();
                (Co::from_fn(d, |i| self.a[i] - r), Co::from_fn(d, |i| self.a[i] + r))
            }
        }
    }
    /// Equal as a stored element (geometry and tag).
    pub fn same(&self, o: &Elem, k: Kind) -> bool {
        self.t == o.t
            && match k {
                Kind::Point => self.a == o.a,
                Kind::Rect => self.env(k) == o.env(k),
                Kind::Line | Kind::Frame => self.a == o.a && self.b == o.b,
                Kind::Circle => self.a == o.a && self.radius() == o.radius(),
            }
    }
}

/// Geometry objects built from elements.
pub trait Geo: PointDistance<Envelope = AABB<Self::P>> + PartialEq + Clone + Debug + Send + Sync + 'static + Serialize + DeserializeOwned {
    type P: Pt + Serialize + DeserializeOwned;
    const KIND: Kind;
    fn build(e: &Elem, m: Mode) -> Self;
    /// defining coordinates
    fn dump(&self, f: &mut dyn FnMut(f64));
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize", deserialize = "P: DeserializeOwned"))]
pub struct GPoint<P: Pt>(pub P);
impl<P: Pt> RTreeObject for GPoint<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        self.0.envelope()
    }
}
impl<P: Pt> PointDistance for GPoint<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        PointDistance::distance_2(&self.0, p)
    }
    fn contains_point(&self, p: &P) -> bool {
        self.0.contains_point(p)
    }
    fn distance_2_if_less_or_equal(&self, p: &P, m: P::Scalar) -> Option<P::Scalar> {
        self.0.distance_2_if_less_or_equal(p, m)
    }
}
impl<P: Pt + Serialize + DeserializeOwned> Geo for GPoint<P> {
    type P = P;
    const KIND: Kind = Kind::Point;
    fn build(e: &Elem, m: Mode) -> Self {
        GPoint(mk(&e.a, m))
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        (0..P::DIMENSIONS).for_each(|i| f(self.0.nth(i).f()))
    }
}
impl<P: Pt + Serialize + DeserializeOwned> Geo for rstar::primitives::Rectangle<P> {
    type P = P;
    const KIND: Kind = Kind::Rect;
    fn build(e: &Elem, m: Mode) -> Self {
        rstar::primitives::Rectangle::from_corners(mk(&e.a, m), mk(&e.b, m))
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        let (l, u) = (self.lower(), self.upper());
        (0..P::DIMENSIONS).for_each(|i| {
            f(l.nth(i).f());
            f(u.nth(i).f())
        })
    }
}
impl<P: Pt + Serialize + DeserializeOwned> Geo for rstar::primitives::Line<P> {
    type P = P;
    const KIND: Kind = Kind::Line;
    fn build(e: &Elem, m: Mode) -> Self {
        rstar::primitives::Line::new(mk(&e.a, m), mk(&e.b, m))
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        (0..P::DIMENSIONS).for_each(|i| {
            f(self.from.nth(i).f());
            f(self.to.nth(i).f())
        })
    }
}
/// A user-defined object, as in the crate's documentation: a ball with a Euclidean distance.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize, P::Scalar: Serialize", deserialize = "P: DeserializeOwned, P::Scalar: DeserializeOwned"))]
pub struct Circle<P: Pt>
where
    P::Scalar: Float,
{
    pub center: P,
    pub r: P::Scalar,
    lo: P,
    hi: P,
}
impl<P: Pt> Circle<P>
where
    P::Scalar: Float,
{
    fn d2c(&self, p: &P) -> P::Scalar {
        (0..P::DIMENSIONS).fold(num_traits::zero(), |a, i| {
            let d = p.nth(i) - self.center.nth(i);
            a + d * d
        })
    }
}
impl<P: Pt> RTreeObject for Circle<P>
where
    P::Scalar: Float,
{
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.lo.clone(), self.hi.clone())
    }
}
impl<P: Pt> PointDistance for Circle<P>
where
    P::Scalar: Float,
{
    fn distance_2(&self, p: &P) -> P::Scalar {
        let d = self.d2c(p).sqrt() - self.r;
        let d = d.max(num_traits::zero());
        d * d
    }
    fn contains_point(&self, p: &P) -> bool {
        self.d2c(p) <= self.r * self.r
    }
}
impl<P: Pt + Serialize + DeserializeOwned> Geo for Circle<P>
where
    P::Scalar: Float,
{
    type P = P;
    const KIND: Kind = Kind::Circle;
    fn build(e: &Elem, m: Mode) -> Self {
        let (lo, hi) = e.env(Kind::Circle);
        let r = e.radius() as f64 * m.step(P::S::F32);
        Circle { center: mk(&e.a, m), r: P::S::from_f(r), lo: mk(&lo, m), hi: mk(&hi, m) }
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        (0..P::DIMENSIONS).for_each(|i| f(self.center.nth(i).f()));
        f(self.r.f())
    }
}

/// A user-defined object with its own notion of containment: the outline of a box, at distance
/// zero everywhere on it, that contains its points but for one corner.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "P: Serialize", deserialize = "P: DeserializeOwned"))]
pub struct Frame<P: Pt> {
    /// the corner left out
    pub a: P,
    pub b: P,
}
impl<P: Pt> Frame<P> {
    fn side(&self, i: usize) -> (P::Scalar, P::Scalar) {
        let (a, b) = (self.a.nth(i), self.b.nth(i));
        if a < b {
            (a, b)
        } else {
            (b, a)
        }
    }
}
impl<P: Pt> RTreeObject for Frame<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.a.clone(), self.b.clone())
    }
}
impl<P: Pt> PointDistance for Frame<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        let zero: P::Scalar = num_traits::zero();
        let (mut out, mut inner) = (zero, None);
        for i in 0..P::DIMENSIONS {
            let (l, h) = self.side(i);
            let x = p.nth(i);
            let d = if x < l {
                l - x
            } else if x > h {
                x - h
            } else {
                zero
            };
            out = out + d * d;
            for d in [x - l, h - x] {
                if inner.is_none_or(|m| d < m) {
                    inner = Some(d);
                }
            }
        }
        let m = inner.unwrap_or(zero);
        if m > zero {
            m * m
        } else {
            out
        }
    }
    fn contains_point(&self, p: &P) -> bool {
        let n = P::DIMENSIONS;
        (0..n).all(|i| self.side(i).0 <= p.nth(i) && p.nth(i) <= self.side(i).1)
            && (0..n).any(|i| self.side(i).0 == p.nth(i) || p.nth(i) == self.side(i).1)
            && (0..n).any(|i| p.nth(i) != self.a.nth(i))
    }
}
impl<P: Pt + Serialize + DeserializeOwned> Geo for Frame<P> {
    type P = P;
    const KIND: Kind = Kind::Frame;
    fn build(e: &Elem, m: Mode) -> Self {
        Frame { a: mk(&e.a, m), b: mk(&e.b, m) }
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        (0..P::DIMENSIONS).for_each(|i| {
            f(self.a.nth(i).f());
            f(self.b.nth(i).f())
        })
    }
}

// ---------------------------------------------------------------- stored items

thread_local! {
    static EXAMINED: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static ENV_CALLS: Cell<u64> = const { Cell::new(0) };
    static DIST_CALLS: Cell<u64> = const { Cell::new(0) };
}
pub fn reset_thread_state() {
    WATCH.with(|w| w.set(false));
    EXAMINED.with(|e| *e.borrow_mut() = None);
}
/// Starts recording which elements (by uid) the code under test calls into.
pub fn watch_start(n: usize) {
    EXAMINED.with(|e| *e.borrow_mut() = Some(vec![0; n]));
    WATCH.with(|w| w.set(true));
    ENV_CALLS.with(|c| c.set(0));
    DIST_CALLS.with(|c| c.set(0));
}
pub struct Watched {
    pub seen: Vec<u8>,
    pub env_calls: u64,
    /// distances, containments and comparisons
    pub dist_calls: u64,
}
impl Watched {
    pub fn distinct(&self) -> usize {
        self.seen.iter().filter(|x| **x != 0).count()
    }
}
pub fn watch_stop() -> Watched {
    WATCH.with(|w| w.set(false));
    Watched {
        seen: EXAMINED.with(|e| e.borrow_mut().take()).unwrap_or_default(),
        env_calls: ENV_CALLS.with(|c| c.get()),
        dist_calls: DIST_CALLS.with(|c| c.get()),
    }
}
thread_local! {
    static FUSE: Cell<u32> = const { Cell::new(0) };
}
/// The n-th distance, containment or comparison asked of an element from now on panics (0: none does).
pub fn set_fuse(n: u32) {
    FUSE.with(|f| f.set(n));
}
#[cold]
fn burn(n: u32) {
    set_fuse(n - 1);
    if n == 1 {
        panic!("injected panic (element)");
    }
}
/// kind: 1 envelope, 2 distance or containment, 4 comparison
#[inline]
fn touch(uid: u32, kind: u8) {
    tick();
    if kind != 1 {
        let n = FUSE.with(|f| f.get());
        if n > 0 {
            burn(n);
        }
    }
    // probes (elements that are not stored) do not count
    if uid != NOUID && WATCH.with(|w| w.get()) {
        EXAMINED.with(|e| {
            if let Some(v) = e.borrow_mut().as_mut() {
                if let Some(x) = v.get_mut(uid as usize) {
                    *x |= kind;
                }
            }
        });
        if kind == 1 {
            ENV_CALLS.with(|c| c.set(c.get() + 1))
        } else {
            DIST_CALLS.with(|c| c.set(c.get() + 1))
        }
    }
}

pub const NOUID: u32 = u32::MAX;

/// What the trees store. Equality is on geometry and tag; `uid` tells equal elements apart.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "G: Geo", deserialize = "G: Geo"))]
pub struct Item<G: Geo> {
    pub geom: G,
    pub tag: u8,
    pub uid: u32,
    pub payload: u64,
}
impl<G: Geo> PartialEq for Item<G> {
    fn eq(&self, o: &Self) -> bool {
        touch(self.uid, 4);
        touch(o.uid, 4);
        self.geom == o.geom && self.tag == o.tag
    }
}
impl<G: Geo> RTreeObject for Item<G> {
    type Envelope = AABB<G::P>;
    fn envelope(&self) -> Self::Envelope {
        touch(self.uid, 1);
        self.geom.envelope()
    }
}
impl<G: Geo> PointDistance for Item<G> {
    fn distance_2(&self, p: &G::P) -> <G::P as Point>::Scalar {
        touch(self.uid, 2);
        self.geom.distance_2(p)
    }
    fn contains_point(&self, p: &G::P) -> bool {
        touch(self.uid, 2);
        self.geom.contains_point(p)
    }
    fn distance_2_if_less_or_equal(
        &self,
        p: &G::P,
        m: <G::P as Point>::Scalar,
    ) -> Option<<G::P as Point>::Scalar> {
        touch(self.uid, 2);
        self.geom.distance_2_if_less_or_equal(p, m)
    }
}
pub fn geo_hash<G: Geo>(g: &G) -> u64 {
    let mut h = 7u64;
    g.dump(&mut |v| h = crate::engine::mix(h ^ v.to_bits()));
    h
}
pub fn env_f<P: Pt>(e: &AABB<P>) -> (Vec<f64>, Vec<f64>) {
    (coords(&e.lower()), coords(&e.upper()))
}
pub fn env_empty<P: Pt>(e: &AABB<P>) -> bool {
    e.is_empty()
}

// ---------------------------------------------------------------- reference oracle

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Must,
    Not,
    Either,
}
impl Tri {
    pub fn of(b: bool) -> Tri {
        if b {
            Tri::Must
        } else {
            Tri::Not
        }
    }
}

/// What the oracle needs to know about a configuration.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Space {
    pub kind: Kind,
    pub mode: Mode,
    pub int: bool,
    pub f32_: bool,
}
impl Space {
    pub fn exact(&self) -> bool {
        self.int || self.mode.exact()
    }
    pub fn eps(&self) -> f64 {
        if self.f32_ {
            f32::EPSILON as f64
        } else {
            f64::EPSILON
        }
    }
    /// scalar value of a lattice coordinate, as f64
    pub fn x(&self, l: i32) -> f64 {
        if self.int {
            <i64 as Sc>::conv(l as i64, self.mode) as f64
        } else if self.f32_ {
            <f32 as Sc>::conv(l as i64, self.mode) as f64
        } else {
            <f64 as Sc>::conv(l as i64, self.mode)
        }
    }
    pub fn step(&self) -> f64 {
        if self.int {
            1.0
        } else {
            self.mode.step(self.f32_)
        }
    }
    /// Interval that contains the squared distance computed in the scalar type.
    pub fn dist2(&self, e: &Elem, q: &Co) -> (f64, f64) {
        let d = q.d();
        match self.kind {
            Kind::Point | Kind::Rect | Kind::Frame => {
                let (lo, hi) = e.env(self.kind);
                if self.kind == Kind::Frame {
                    // strictly inside, the nearest side counts
                    let near = |i: usize| (q[i] as i64 - lo[i] as i64).min(hi[i] as i64 - q[i] as i64);
                    if (0..d).all(|i| near(i) > 0) {
                        let m = (0..d)
                            .map(|i| (self.x(q[i]) - self.x(lo[i])).min(self.x(hi[i]) - self.x(q[i])))
                            .fold(f64::INFINITY, f64::min);
                        let v = m * m;
                        let t = if self.exact() { 0.0 } else { v * self.eps() * 8.0 };
                        return (v - t, v + t);
                    }
                }
                if self.exact() {
                    let mut s: i128 = 0;
                    for i in 0..d {
                        let x = q[i].clamp(lo[i], hi[i]) as i128 - q[i] as i128;
                        s += x * x;
                    }
                    let v = s as f64 * self.step() * self.step();
                    if s < if self.f32_ { 1 << 24 } else { 1 << 53 } {
                        return (v, v);
                    }
                    let t = if self.int { 0.0 } else { v * self.eps() * (2 * d + 6) as f64 };
                    return (v - t, v + t);
                }
                let mut s = 0.0;
                for i in 0..d {
                    let x = self.x(q[i].clamp(lo[i], hi[i])) - self.x(q[i]);
                    s += x * x;
                }
                let t = s * self.eps() * (2 * d + 6) as f64;
                (s - t, s + t)
            }
            Kind::Line => {
                if e.a == *q {
                    return (0.0, 0.0);
                }
                let a: Vec<f64> = (0..d).map(|i| self.x(e.a[i])).collect();
                let b: Vec<f64> = (0..d).map(|i| self.x(e.b[i])).collect();
                let p: Vec<f64> = (0..d).map(|i| self.x(q[i])).collect();
                let (s, m) = seg_dist2(&a, &b, &p);
                let err = self.eps() * (8 * d + 16) as f64 * m;
                let s = s.sqrt();
                ((s - err).max(0.0).powi(2) * (1.0 - 8.0 * self.eps()), (s + err).powi(2) * (1.0 + 8.0 * self.eps()))
            }
            Kind::Circle => {
                let mut s = 0.0;
                let mut m: f64 = 0.0;
                for i in 0..d {
                    let (c, x) = (self.x(e.a[i]), self.x(q[i]));
                    s += (x - c) * (x - c);
                    m = m.max((x - c).abs());
                }
                let r = e.radius() as f64 * self.step();
                let s = s.sqrt() - r;
                let err = self.eps() * (4 * d + 8) as f64 * (m + r);
                if s < -err || e.a == *q {
                    return (0.0, 0.0);
                }
                let s = s.max(0.0);
                ((s - err).max(0.0).powi(2) * (1.0 - 8.0 * self.eps()), (s + err).powi(2) * (1.0 + 8.0 * self.eps()))
            }
        }
    }
    /// Whether a radius query with the squared radius `r2` (a value of the scalar type) selects `e`.
    pub fn within(&self, e: &Elem, q: &Co, r2: f64) -> Tri {
        let (lo, hi) = self.dist2(e, q);
        if hi <= r2 {
            Tri::Must
        } else if lo > r2 {
            Tri::Not
        } else {
            Tri::Either
        }
    }
    /// Whether the element contains the query point.
    pub fn at(&self, e: &Elem, q: &Co) -> Tri {
        let d = q.d();
        match self.kind {
            Kind::Point => Tri::of(e.a == *q),
            Kind::Rect => {
                let (lo, hi) = e.env(self.kind);
                Tri::of((0..d).all(|i| lo[i] <= q[i] && q[i] <= hi[i]))
            }
            Kind::Frame => {
                let (lo, hi) = e.env(self.kind);
                Tri::of(
                    (0..d).all(|i| lo[i] <= q[i] && q[i] <= hi[i])
                        && (0..d).any(|i| lo[i] == q[i] || q[i] == hi[i])
                        && e.a != *q,
                )
            }
            Kind::Line => {
                if e.a == *q {
                    return Tri::Must;
                }
                if self.mode == Mode::Warp && !self.int {
                    // lattice lines are bent
                    return if self.dist2(e, q).0 > 0.0 { Tri::Not } else { Tri::Either };
                }
                let (mut dot, mut len2, mut q2) = (0i128, 0i128, 0i128);
                for i in 0..d {
                    let dir = (e.b[i] - e.a[i]) as i128;
                    let x = (q[i] - e.a[i]) as i128;
                    dot += dir * x;
                    len2 += dir * dir;
                    q2 += x * x;
                }
                // on the segment iff colinear and inside
                if len2 == 0 || dot < 0 || dot > len2 || dot * dot != len2 * q2 {
                    return Tri::Not;
                }
                if self.exact() && (len2 / gcd(dot, len2)).count_ones() == 1 {
                    Tri::Must
                } else {
                    Tri::Either
                }
            }
            Kind::Circle => {
                let r = e.radius() as i128;
                let s: i128 = (0..d).map(|i| ((q[i] - e.a[i]) as i128).pow(2)).sum();
                if self.exact() || s == 0 {
                    Tri::of(s <= r * r)
                } else if (s as f64 - (r * r) as f64).abs() <= (s + r * r) as f64 * 1e-3 * if self.f32_ { 1.0 } else { 1e-6 } {
                    Tri::Either
                } else {
                    Tri::of(s <= r * r)
                }
            }
        }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs().max(1)
    } else {
        gcd(b, a % b)
    }
}
/// Squared distance from `p` to the segment, and the magnitude that rounding errors scale with.
pub fn seg_dist2(a: &[f64], b: &[f64], p: &[f64]) -> (f64, f64) {
    let (mut dot, mut len2, mut m) = (0.0, 0.0, 0.0f64);
    for i in 0..a.len() {
        let dir = b[i] - a[i];
        dot += dir * (p[i] - a[i]);
        len2 += dir * dir;
        m = m.max(a[i].abs()).max(b[i].abs()).max(p[i].abs()).max(dir.abs()).max((p[i] - a[i]).abs());
    }
    let s = if len2 > 0.0 { (dot / len2).clamp(0.0, 1.0) } else { 0.0 };
    let mut r = 0.0;
    for i in 0..a.len() {
        let n = if s == 1.0 { b[i] } else { a[i] + (b[i] - a[i]) * s };
        r += (n - p[i]) * (n - p[i]);
    }
    (r, m)
}

/// A query window.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Win {
    /// any two opposite corners; i32::MIN/MAX stand for the limits of the scalar type
    Box(Co, Co),
    Empty,
}
impl Win {
    pub fn lo_hi(&self) -> Option<(Co, Co)> {
        match self {
            Win::Box(a, b) => Some((
                Co::from_fn(a.d(), |i| a[i].min(b[i])),
                Co::from_fn(a.d(), |i| a[i].max(b[i])),
            )),
            Win::Empty => None,
        }
    }
    pub fn contains(&self, e: &Elem, k: Kind) -> bool {
        let Some((l, h)) = self.lo_hi() else { return false };
        let (a, b) = e.env(k);
        (0..l.d()).all(|i| l[i] <= a[i] && b[i] <= h[i])
    }
    pub fn intersects(&self, e: &Elem, k: Kind) -> bool {
        let Some((l, h)) = self.lo_hi() else { return false };
        let (a, b) = e.env(k);
        (0..l.d()).all(|i| l[i] <= b[i] && a[i] <= h[i])
    }
    pub fn make<P: Pt>(&self, m: Mode) -> AABB<P> {
        match self {
            Win::Box(a, b) => AABB::from_corners(mkq(a, m), mkq(b, m)),
            Win::Empty => AABB::new_empty(),
        }
    }
}

/// A squared radius.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum R2 {
    /// squared lattice units
    Sq(i64),
    /// exactly the largest value of the scalar type
    Max,
    /// negative
    Neg,
}
impl R2 {
    pub fn make<S: Sc>(&self, m: Mode) -> S {
        match self {
            R2::Sq(v) => {
                let st = if S::INT {
                    1.0
                } else if m == Mode::Warp {
                    Mode::unit((*v as f64).sqrt() as i64, S::F32)
                } else {
                    m.step(S::F32)
                };
                S::from_f(*v as f64 * st * st)
            }
            R2::Max => S::top(),
            R2::Neg => S::from_f(-1.0),
        }
    }
    /// value in the scalar type, as f64
    pub fn val(&self, s: &Space) -> f64 {
        if s.int {
            match self {
                R2::Max => f64::INFINITY,
                _ => self.make::<i64>(s.mode).f(),
            }
        } else if s.f32_ {
            self.make::<f32>(s.mode).f()
        } else {
            self.make::<f64>(s.mode)
        }
    }
}
