//! C22 and C23: serialization, and ownership of elements and memory.

use rcheck::dyntree::*;
use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::*;
use rcheck::alloc::{in_use, Counting};
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, PointWithData, Rectangle};
use rstar::{DefaultParams, Point, PointDistance, RTree, RTreeObject, RTreeParams, AABB};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- C22

#[derive(Clone, Serialize, Deserialize)]
pub enum SerCase {
    Tree {
        r: Recipe,
        /// what happens afterwards, to the tree and to its copies
        cont: Vec<Op>,
        pts: Vec<Co>,
        wins: Vec<Win>,
    },
    /// point type, bit patterns of coordinates, text attached
    Values(u8, Vec<u64>, String),
}

fn lockstep(r: &Recipe, cont: &[Op], pts: &[Co], wins: &[Win], cov: &mut Cov) -> Result<(), String> {
    let mut w = World::build(r, cov)?;
    let json = w.tree.json()?;
    let bin = w.tree.bin()?;
    let twin = |w: &World, t: Box<dyn DynTree>| World { tree: t, m: w.m.clone(), widest: w.widest.clone(), ..*w };
    let fail = |e: String| format!("cannot deserialize what was serialized: {e}");
    let mut copies = vec![
        ("text copy", twin(&w, w.tree.from_json(&json).map_err(fail)?)),
        ("binary copy", twin(&w, w.tree.from_bin(&bin).map_err(fail)?)),
    ];
    let shape = w.tree.walk();
    for (name, c) in &copies {
        if c.tree.json()? != json || c.tree.bin()? != bin {
            return Err(format!("the {name} serializes differently"));
        }
    }
    let h = height(&shape);
    let mut step = |w: &mut World, copies: &mut Vec<(&str, World)>, op: Option<&Op>, i: usize| -> Result<(), String> {
        if let Some(op) = op {
            let mut none = Cov::default();
            w.apply(op, false, cov).map_err(|e| format!("original: {e}"))?;
            for (name, c) in copies.iter_mut() {
                c.apply(op, false, &mut none).map_err(|e| format!("{name}: {e}"))?;
            }
        }
        let shape = w.tree.walk();
        for (name, c) in copies.iter() {
            if c.tree.size() != w.tree.size() {
                return Err(format!("{name}: size {} instead of {}", c.tree.size(), w.tree.size()));
            }
            if c.tree.walk() != shape {
                return Err(format!("{name}: nodes differ"));
            }
        }
        let log = RefCell::new(SelLog::default());
        let p = &pts[i % pts.len()];
        let win = &wins[i % wins.len()];
        let qs = [Q::In(*win), Q::Inter(*win), Q::At(*p), Q::Within(*p, R2::Sq(30))];
        let q = &qs[i % 4];
        let want = (
            w.tree.query(q, Form::Iter, None, 0, &log).outs,
            w.tree.nn_iter(p, Some(10)),
            w.tree.nns(p),
        );
        for (name, c) in copies.iter_mut() {
            let got = (c.tree.query(q, Form::Iter, None, 0, &log).outs, c.tree.nn_iter(p, Some(10)), c.tree.nns(p));
            if got != want {
                return Err(format!("{name}: queries at {p:?} and {q:?} give {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    };
    step(&mut w, &mut copies, None, 0)?;
    for (i, op) in cont.iter().enumerate() {
        step(&mut w, &mut copies, Some(op), i + 1).map_err(|e| format!("continuation {i} ({op:?}): {e}"))?;
    }
    w.check_content()?;
    for (name, c) in &copies {
        c.check_content().map_err(|e| format!("{name}: {e}"))?;
    }
    cov.nontrivial = h > 1;
    cov.label_if(w.alive == 0, "emptied");
    cov.label_if(h > 2, "three levels or more");
    cov.count("continuation operations", cont.len() as u64);
    cov.count("bytes of text", json.len() as u64);
    Ok(())
}

fn both<T: Serialize + DeserializeOwned + Debug>(v: &T, same: impl Fn(&T, &T) -> bool, what: &str) -> Result<(), String> {
    let s = serde_json::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let t: T = serde_json::from_str(&s).map_err(|e| format!("{what}: {e} in {s}"))?;
    if !same(v, &t) {
        return Err(format!("{what}: {v:?} comes back from text as {t:?}"));
    }
    // a self-describing format may be read through an intermediate value
    let t: T = serde_json::to_value(v)
        .and_then(serde_json::from_value)
        .map_err(|e| format!("{what}: {e} through a value"))?;
    if !same(v, &t) {
        return Err(format!("{what}: {v:?} comes back from a value as {t:?}"));
    }
    let b = bincode::serialize(v).map_err(|e| format!("{what}: {e}"))?;
    let t: T = bincode::deserialize(&b).map_err(|e| format!("{what}: {e} in binary"))?;
    if !same(v, &t) {
        return Err(format!("{what}: {v:?} comes back from binary as {t:?}"));
    }
    Ok(())
}
/// Scalars from arbitrary bits, finite.
trait Raw: Sc {
    fn raw(b: u64) -> Self;
}
impl Raw for f64 {
    fn raw(b: u64) -> f64 {
        let v = f64::from_bits(b);
        if v.is_finite() { v } else { b as i64 as f64 }
    }
}
impl Raw for f32 {
    fn raw(b: u64) -> f32 {
        let v = f32::from_bits(b as u32);
        if v.is_finite() { v } else { b as i32 as f32 }
    }
}
impl Raw for i32 {
    fn raw(b: u64) -> i32 {
        b as i32
    }
}
impl Raw for i64 {
    fn raw(b: u64) -> i64 {
        b as i64
    }
}
#[allow(deprecated)]
fn values<P: Pt + Serialize + DeserializeOwned>(bits: &[u64], text: &str) -> Result<(), String>
where
    P::S: Raw,
{
    let mut k = 0;
    let mut next = |wild: bool| {
        P::generate(|_| {
            k += 1;
            let b = bits[k % bits.len()];
            if wild { P::S::raw(b) } else { P::S::conv((b % 2001) as i64 - 1000, Mode::Unit) }
        })
    };
    let (a, b) = (next(true), next(true));
    both(&a, |x, y| x == y, "point")?;
    both(&AABB::from_corners(a.clone(), b.clone()), |x, y| x == y, "box")?;
    both(&AABB::from_point(b.clone()), |x, y| x == y, "box of a point")?;
    both(&AABB::<P>::from_points(std::iter::empty::<&P>()), |x, y| x == y, "empty box")?;
    let (line, rect) = (Line::new(a.clone(), b.clone()), Rectangle::from_corners(a.clone(), b.clone()));
    both(&line, |x, y| x == y && x.from == y.from && x.to == y.to, "line")?;
    both(&rect, |x, y| x == y && x.lower() == y.lower() && x.upper() == y.upper(), "rectangle")?;
    both(&GeomWithData::new(line.clone(), text.to_string()), |x, y| x == y && x.data == y.data && x.geom() == y.geom(), "line with data")?;
    both(&CachedEnvelope::new(line.clone()), |x, y| x == y && x.envelope() == y.envelope() && **x == **y, "line with cached envelope")?;
    both(
        &GeomWithData::new(CachedEnvelope::new(rect.clone()), Some(bits[0])),
        |x, y| x == y && x.data == y.data,
        "rectangle with cached envelope and data",
    )?;
    both(&PointWithData::new(text.to_string(), a.clone()), |x, y| x == y && x.position() == y.position() && x.data == y.data, "point with data")?;
    // trees of the provided types
    let n = 5 + bits.len();
    let pts: Vec<P> = (0..n).map(|_| next(false)).collect();
    fn nodes<T: RTreeObject + PartialEq + Debug>(a: &rstar::ParentNode<T>, b: &rstar::ParentNode<T>) -> bool
    where
        T::Envelope: PartialEq,
    {
        use rstar::RTreeNode::*;
        a.envelope() == b.envelope()
            && a.children().len() == b.children().len()
            && a.children().iter().zip(b.children()).all(|(x, y)| match (x, y) {
                (Leaf(x), Leaf(y)) => x == y,
                (Parent(x), Parent(y)) => nodes(x, y),
                _ => false,
            })
    }
    let t = RTree::bulk_load(pts.clone());
    both(&t, |x, y| x.size() == y.size() && nodes(x.root(), y.root()), "tree of points")?;
    let lines = pts.windows(2).enumerate().map(|(i, w)| GeomWithData::new(Line::new(w[0].clone(), w[1].clone()), format!("{text}{i}")));
    let mut t: RTree<GeomWithData<Line<P>, String>> = RTree::new();
    lines.for_each(|l| t.insert(l));
    both(&t, |x, y| x.size() == y.size() && nodes(x.root(), y.root()), "tree of lines with data")?;
    let rects = pts.windows(2).map(|w| CachedEnvelope::new(Rectangle::from_corners(w[0].clone(), w[1].clone()))).collect();
    let t = RTree::<CachedEnvelope<Rectangle<P>>, Pa<2, 4, 1>>::bulk_load_with_params(rects);
    both(&t, |x, y| x.size() == y.size() && nodes(x.root(), y.root()), "tree of rectangles with cached envelopes")?;
    Ok(())
}

pub struct C22;
impl Check for C22 {
    const ID: &'static str = "C22";
    type Case = SerCase;
    const CASES: (u64, u64) = (450_000, 18_000_000);
    const RULE: &'static str = "a case is either a tree built by a random history, serialized as text (JSON) and binary (bincode) and read back, the copies compared node by node and then driven in lock-step with the original through a random continuation with queries after every operation, or boxes, primitives, wrappers and trees of them over one of 7 point types with arbitrary finite coordinates, compared after the round trip; non-trivial: the tree has more than one level (values always are); distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["finite coordinates; JSON read with exact float parsing and without a nesting limit"];
    fn gen(s: &mut Src, _: u64) -> SerCase {
        if s.chance(1, 8) {
            let ty = s.below(7) as u8;
            let bits = s.list(40, |r| 4 + r.below(30) as usize, |s, _| {
                s.draw_with(u64::MAX, |r| match r.below(6) {
                    0 => r.next(),
                    1 => r.below(100),
                    2 => (r.below(2000) as f64 / 10.0).to_bits(),
                    3 => (r.f() * 100.0 - 50.0).to_bits(),
                    4 => [0, 1 << 63, 1, u64::MAX, i64::MAX as u64, f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits()][r.below(7) as usize],
                    _ => r.next() >> r.below(64),
                })
            });
            let bits = if bits.is_empty() { vec![1, 2, 3] } else { bits };
            let text = ["", "a", "\"quoted\" \\ and \u{0}", "ünï\u{1F333}", "0"][s.below(5)].to_string();
            return SerCase::Values(ty, bits, text);
        }
        let mut g = Gen::new(s, &all_cfgs());
        let r = g.recipe(s, 20, if s.size > 1 { 800 } else { 250 });
        let w = [40, 12, 6, 6, 10, 4, 3, 1, 2, 1, 1];
        let cont = s.list(60, |r| r.below(15) as usize, |s, _| g.op(s, &w));
        let pts = (0..3).map(|_| g.pt(s)).collect();
        let wins = (0..3).map(|_| g.win(s)).collect();
        SerCase::Tree { r, cont, pts, wins }
    }
    fn run(c: &SerCase, cov: &mut Cov) -> Result<(), String> {
        match c {
            SerCase::Tree { r, cont, pts, wins } => lockstep(r, cont, pts, wins, cov),
            SerCase::Values(t, b, text) => {
                cov.label("values");
                cov.nontrivial = true;
                match t {
                    0 => values::<[f64; 2]>(b, text),
                    1 => values::<[f32; 3]>(b, text),
                    2 => values::<[i32; 2]>(b, text),
                    3 => values::<(f64, f64, f64)>(b, text),
                    4 => values::<(i64, i64, i64, i64)>(b, text),
                    5 => values::<mint::Point2<f64>>(b, text),
                    _ => values::<MyPoint>(b, text),
                }
                .map_err(|e| format!("point type {t}: {e}"))
            }
        }
    }
}

// ---------------------------------------------------------------- C23

thread_local! {
    static REG: RefCell<Reg> = const { RefCell::new(Reg { state: Vec::new(), error: None }) };
}
struct Reg {
    /// per instance: 1 alive, 2 dropped
    state: Vec<u8>,
    error: Option<String>,
}
fn born() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.push(1);
        r.state.len() as u32 - 1
    })
}
fn complain(e: String) {
    REG.with(|r| {
        r.borrow_mut().error.get_or_insert(e);
    })
}
fn used(i: u32, what: &str) {
    tick();
    let ok = REG.with(|r| r.borrow().state.get(i as usize) == Some(&1));
    if !ok {
        complain(format!("{what} of an element that was dropped"));
    }
}
fn alive() -> usize {
    REG.with(|r| r.borrow().state.iter().filter(|s| **s == 1).count())
}

/// An element whose every instance is accounted for.
pub struct Own<G: Geo> {
    g: G,
    tag: u8,
    uid: u32,
    payload: u64,
    serial: u32,
}
impl<G: Geo> Own<G> {
    fn new(e: &Elem, uid: u32, m: Mode) -> Self {
        Own { g: G::build(e, m), tag: e.t, uid, payload: 0, serial: born() }
    }
}
impl<G: Geo> Clone for Own<G> {
    fn clone(&self) -> Self {
        used(self.serial, "clone");
        Own { g: self.g.clone(), tag: self.tag, uid: self.uid, payload: self.payload, serial: born() }
    }
}
impl<G: Geo> Drop for Own<G> {
    fn drop(&mut self) {
        let e = REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.state.get_mut(self.serial as usize) {
                Some(s) if *s == 1 => {
                    *s = 2;
                    None
                }
                Some(_) => Some("an element is dropped twice"),
                None => Some("something that never was an element is dropped"),
            }
        });
        if let Some(e) = e {
            complain(e.into());
        }
    }
}
impl<G: Geo> Debug for Own<G> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.uid)
    }
}
impl<G: Geo> PartialEq for Own<G> {
    fn eq(&self, o: &Self) -> bool {
        used(self.serial, "comparison");
        used(o.serial, "comparison");
        self.g == o.g && self.tag == o.tag
    }
}
impl<G: Geo> RTreeObject for Own<G> {
    type Envelope = AABB<G::P>;
    fn envelope(&self) -> Self::Envelope {
        used(self.serial, "envelope");
        self.g.envelope()
    }
}
impl<G: Geo> PointDistance for Own<G> {
    fn distance_2(&self, p: &G::P) -> <G::P as Point>::Scalar {
        used(self.serial, "distance");
        self.g.distance_2(p)
    }
    fn contains_point(&self, p: &G::P) -> bool {
        used(self.serial, "containment");
        self.g.contains_point(p)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OOp {
    Ins(Elem),
    InsMany(Pattern),
    Rem(Elem),
    RemAt(Co),
    Pop(Co),
    /// kind (all, contained, intersecting, within), how many, and how it ends
    Drain(u8, Win, Co, u32, End),
    /// a copy of the current tree becomes another one
    Clone,
    /// the current tree takes over what the other one holds
    CloneFrom,
    Switch,
    Drop,
    /// take some from the owned iterator, then drop it; start over with the default tree
    IntoIter(u32),
    /// consume and bulk load again
    Rebuild,
    Touch,
    Debug,
    /// take the tree out and leave the default one
    Take,
    /// leak references into the tree by forgetting borrowing iterators half way
    HalfQueries(Co, u32),
    /// forget an owned iterator after some elements
    ForgetIntoIter(u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct OwnCase {
    pub combo: u8,
    pub mode: Mode,
    pub bulk: bool,
    pub init: Vec<Elem>,
    pub pat: Option<Pattern>,
    pub ops: Vec<OOp>,
}
type Model = std::collections::BTreeMap<u32, u64>;
struct Held<G: Geo, PA: RTreeParams> {
    tree: RTree<Own<G>, PA>,
    /// payload by uid
    m: Model,
}
fn verify<G: Geo, PA: RTreeParams>(trees: &[Held<G, PA>], leaked: usize) -> Result<(), String> {
    if let Some(e) = REG.with(|r| r.borrow().error.clone()) {
        return Err(e);
    }
    let mut total = leaked;
    for (k, t) in trees.iter().enumerate() {
        if t.tree.size() != t.m.len() {
            return Err(format!("tree {k} has size {} instead of {}", t.tree.size(), t.m.len()));
        }
        let mut seen = 0;
        for e in t.tree.iter() {
            used(e.serial, "iteration");
            if t.m.get(&e.uid) != Some(&e.payload) {
                return Err(format!("tree {k} holds element {} with payload {}, which is not in the model", e.uid, e.payload));
            }
            seen += 1;
        }
        if seen != t.m.len() {
            return Err(format!("tree {k} yields {seen} elements instead of {}", t.m.len()));
        }
        total += seen;
    }
    let a = alive();
    if a != total {
        return Err(format!("{a} elements are alive instead of {total}"));
    }
    Ok(())
}
fn check_debug<G: Geo, PA: RTreeParams>(t: &Held<G, PA>) -> Result<(), String> {
    for (text, form) in [(format!("{:?}", t.tree), "{:?}"), (format!("{:#?}", t.tree), "{:#?}")] {
        if !text.contains(&format!("size: {}", t.m.len())) {
            return Err(format!("{form} does not tell the size {}: {text}", t.m.len()));
        }
        let mut got: Vec<u32> =
            text.split('<').skip(1).filter_map(|s| s.split_once('>')).filter_map(|s| s.0.parse().ok()).collect();
        got.sort_unstable();
        if !got.iter().eq(t.m.keys()) {
            return Err(format!("{form} lists {got:?} instead of {:?}", t.m.keys()));
        }
    }
    Ok(())
}
/// The whole history; everything it owns is gone when it returns. Ok(elements leaked on purpose)
fn history<G: Geo, PA: RTreeParams + Clone>(c: &OwnCase, facts: &mut Facts) -> Result<usize, String> {
    let m = c.mode;
    let p = |q: &Co| mk::<G::P>(q, m);
    let mut uid = 0u32;
    let mut elems = c.init.clone();
    if let Some(pt) = c.pat {
        elems.extend(pt.expand(G::P::DIMENSIONS));
    }
    let mut leaked = 0usize;
    let mut trees: Vec<Held<G, PA>> = Vec::new();
    {
        let mut md = Model::new();
        let mut v = Vec::new();
        for e in &elems {
            v.push(Own::<G>::new(e, uid, m));
            md.insert(uid, 0);
            uid += 1;
        }
        let tree = if c.bulk {
            RTree::bulk_load_with_params(v)
        } else {
            let mut t = RTree::new_with_params();
            v.into_iter().for_each(|x| t.insert(x));
            t
        };
        trees.push(Held { tree, m: md });
    }
    verify(&trees, leaked).map_err(|e| format!("after building: {e}"))?;
    let mut cur = 0usize;
    for (i, op) in c.ops.iter().enumerate() {
        let out = |t: &mut Held<G, PA>, e: Own<G>| match t.m.remove(&e.uid) {
            Some(x) if x == e.payload => Ok(()),
            _ => Err(format!("element {} with payload {} comes out, which is not in the model", e.uid, e.payload)),
        };
        let n = trees.len();
        let r: Result<(), String> = (|| {
            let t = &mut trees[cur];
            match op {
                OOp::Ins(e) => {
                    t.tree.insert(Own::new(e, uid, m));
                    t.m.insert(uid, 0);
                    uid += 1;
                }
                OOp::InsMany(pt) => {
                    for e in pt.expand(G::P::DIMENSIONS) {
                        t.tree.insert(Own::new(&e, uid, m));
                        t.m.insert(uid, 0);
                        uid += 1;
                    }
                }
                OOp::Rem(e) => {
                    let probe = Own::new(e, u32::MAX, m);
                    if let Some(x) = t.tree.remove(&probe) {
                        out(t, x)?;
                    }
                }
                OOp::RemAt(q) => {
                    if let Some(x) = t.tree.remove_at_point(p(q)) {
                        out(t, x)?;
                    }
                }
                OOp::Pop(q) => {
                    if let Some(x) = t.tree.pop_nearest_neighbor(p(q)) {
                        out(t, x)?;
                    }
                }
                OOp::Drain(k, w, q, n, end) => {
                    let before = t.m.len();
                    let mut got = Vec::new();
                    let take = if *n > 60 { usize::MAX } else { *n as usize };
                    fn consume<T>(mut it: impl Iterator<Item = T>, got: &mut Vec<T>, take: usize, end: End) {
                        while got.len() < take {
                            match it.next() {
                                Some(x) => got.push(x),
                                None => break,
                            }
                        }
                        match end {
                            End::Drop => drop(it),
                            End::Forget => std::mem::forget(it),
                            End::Panic => panic!("injected panic (consumer)"),
                        }
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| match k {
                        0 => consume(t.tree.drain(), &mut got, take, *end),
                        1 => consume(t.tree.drain_in_envelope(w.make(m)), &mut got, take, *end),
                        2 => consume(t.tree.drain_in_envelope_intersecting(w.make(m)), &mut got, take, *end),
                        _ => consume(t.tree.drain_within_distance(p(q), R2::Sq(50).make(m)), &mut got, take, *end),
                    }));
                    if r.is_err() {
                        clear_last_panic();
                        if *end != End::Panic {
                            return Err("the drain panics".into());
                        }
                    }
                    let g = got.len();
                    for x in got {
                        out(t, x)?;
                    }
                    if *end == End::Forget {
                        // whatever is lost is only leaked, what is left is intact
                        let left: Vec<u32> = t.tree.iter().map(|x| x.uid).collect();
                        let mut md = Model::new();
                        for u in left {
                            let x = t.m.get(&u).copied().ok_or(format!("element {u} is back after a leaked drain"))?;
                            md.insert(u, x);
                        }
                        leaked += before - g - md.len();
                        t.m = md;
                        facts.forgotten = true;
                    }
                    facts.drained += g;
                }
                OOp::Clone => {
                    if n < 4 {
                        let k = Held { tree: t.tree.clone(), m: t.m.clone() };
                        trees.push(k);
                        facts.clones += 1;
                    }
                }
                OOp::CloneFrom => {
                    if n > 1 {
                        let o = (cur + 1) % n;
                        let src = std::mem::replace(&mut trees[o], Held { tree: RTree::new_with_params(), m: Model::new() });
                        trees[cur].tree.clone_from(&src.tree);
                        trees[cur].m = src.m.clone();
                        trees[o] = src;
                        facts.clones += 1;
                    }
                }
                OOp::Switch => cur = (cur + 1) % n,
                OOp::Drop => {
                    if n > 1 {
                        drop(trees.swap_remove(cur));
                        cur = 0;
                    }
                }
                OOp::IntoIter(k) | OOp::ForgetIntoIter(k) => {
                    let full = *k > 60;
                    let t = std::mem::replace(t, Held { tree: RTree::default(), m: Model::new() });
                    let mut h = Held { tree: RTree::<Own<G>, PA>::default(), m: t.m };
                    let total = h.m.len();
                    let mut it = t.tree.into_iter();
                    let mut g = 0;
                    while full || g < *k as usize {
                        match it.next() {
                            Some(x) => out(&mut h, x)?,
                            None => break,
                        }
                        g += 1;
                    }
                    if full && g != total {
                        return Err(format!("owned iteration yields {g} of {total} elements"));
                    }
                    if full && it.next().is_some() {
                        return Err("owned iteration goes on after its end".into());
                    }
                    if matches!(op, OOp::ForgetIntoIter(_)) {
                        std::mem::forget(it);
                        leaked += total - g;
                        facts.forgotten = true;
                    }
                }
                OOp::Rebuild => {
                    let h = std::mem::replace(t, Held { tree: RTree::default(), m: Model::new() });
                    let v: Vec<Own<G>> = h.tree.into_iter().collect();
                    *t = Held { tree: RTree::bulk_load_with_params(v), m: h.m };
                }
                OOp::Touch => {
                    t.tree.iter_mut().for_each(|x| x.payload += 1);
                    t.m.values_mut().for_each(|x| *x += 1);
                }
                OOp::Debug => check_debug(t)?,
                OOp::Take => {
                    let h = Held { tree: std::mem::take(&mut t.tree), m: std::mem::take(&mut t.m) };
                    if t.tree.size() != 0 || t.tree.iter().next().is_some() || t.tree.nearest_neighbor(p(&Co::from_fn(G::P::DIMENSIONS, |_| 0))).is_some() {
                        return Err("the default tree is not empty".into());
                    }
                    check_debug(t)?;
                    check_debug(&h)?;
                    drop(h);
                }
                OOp::HalfQueries(q, k) => {
                    let k = *k as usize;
                    let e = AABB::from_point(p(q));
                    let mut a = t.tree.iter();
                    a.by_ref().take(k).for_each(|x| used(x.serial, "iteration"));
                    let mut b = t.tree.nearest_neighbor_iter(p(q));
                    b.by_ref().take(k).for_each(|x| used(x.serial, "iteration"));
                    let mut d = t.tree.locate_in_envelope_intersecting(e);
                    d.by_ref().take(k).for_each(|x| used(x.serial, "iteration"));
                }
            }
            Ok(())
        })();
        r.and_then(|_| verify(&trees, leaked)).map_err(|e| format!("operation {i} ({op:?}): {e}"))?;
        facts.peak = facts.peak.max(trees.iter().map(|t| t.m.len()).max().unwrap_or(0));
    }
    drop(trees);
    verify::<G, PA>(&[], leaked).map_err(|e| format!("after dropping all trees: {e}"))?;
    Ok(leaked)
}
#[derive(Default)]
struct Facts {
    peak: usize,
    clones: usize,
    drained: usize,
    forgotten: bool,
}
fn own<G: Geo, PA: RTreeParams + Clone>(c: &OwnCase, cov: &mut Cov) -> Result<(), String> {
    let clear = || REG.with(|r| *r.borrow_mut() = Reg { state: Vec::new(), error: None });
    let mut facts = Facts::default();
    let mut kept = None;
    // one-time allocations of the runtime are gone in the second round
    for _ in 0..2 {
        clear();
        clear_last_panic();
        facts = Facts::default();
        let before = in_use();
        let r = history::<G, PA>(c, &mut facts);
        clear();
        clear_last_panic();
        r?;
        let after = in_use();
        if facts.forgotten {
            kept = None;
            break;
        }
        kept = Some((after.0 - before.0, after.1 - before.1));
        if kept == Some((0, 0)) {
            break;
        }
    }
    if let Some((bytes, blocks)) = kept {
        if (bytes, blocks) != (0, 0) {
            return Err(format!("{bytes} bytes in {blocks} blocks stay behind after everything was dropped"));
        }
        cov.label("memory balanced");
    }
    cov.nontrivial = facts.peak > PA::MAX_SIZE;
    cov.label_if(facts.clones > 0, "cloned");
    cov.label_if(facts.drained > 0, "drained");
    cov.label_if(facts.forgotten, "something leaked on purpose");
    Ok(())
}
pub struct C23;
impl Check for C23 {
    const ID: &'static str = "C23";
    type Case = OwnCase;
    const CASES: (u64, u64) = (1_600_000, 64_000_000);
    const RULE: &'static str = "a case is a history over up to four trees (copies of one another) of elements whose every instance is registered: insertions, removals, pops, drains (complete, cut short, leaked, unwinding), owned iterators (complete, cut short, leaked), clones, clone_from, take, rebuild, mutation, debug output; after every operation all trees equal their own models, the number of instances alive equals what the trees hold, and nothing was dropped twice or used after its drop; at the end all instances are dropped and the heap is as before; non-trivial: more elements than fit one node; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["heap balance is not judged when the history leaks an iterator on purpose"];
    fn gen(s: &mut Src, _: u64) -> OwnCase {
        let combo = s.below(4) as u8;
        let cfg = [0usize, 2, 12, 3][combo as usize];
        let mut g = Gen::for_cfg(s, cfg);
        let bulk = s.bool();
        let size = s.size;
        let pat = if s.chance(1, 4) { Some(g.pattern(s, 200)) } else { None };
        let init = if pat.is_some() { vec![] } else { s.list(400, |r| rlen(r, size).min(200), |s, _| g.elem(s)) };
        let ops = s.list(
            100,
            |r| r.below(25) as usize,
            |s, _| match s.weighted(&[20, 2, 6, 4, 4, 8, 4, 2, 4, 2, 2, 2, 3, 2, 1, 2, 1]) {
                0 => OOp::Ins(g.elem(s)),
                1 => OOp::InsMany(g.pattern(s, 60)),
                2 => OOp::Rem(g.remove_target(s)),
                3 => OOp::RemAt(g.pt(s)),
                4 => OOp::Pop(g.pt(s)),
                5 => {
                    let end = [End::Drop, End::Panic, End::Forget][s.weighted(&[8, 2, 1])];
                    OOp::Drain(s.below(4) as u8, g.win(s), g.pt(s), s.upto(80) as u32, end)
                }
                6 => OOp::Clone,
                7 => OOp::CloneFrom,
                8 => OOp::Switch,
                9 => OOp::Drop,
                10 => OOp::IntoIter(s.upto(80) as u32),
                11 => OOp::Rebuild,
                12 => OOp::Touch,
                13 => OOp::Debug,
                14 => OOp::Take,
                15 => OOp::HalfQueries(g.pt(s), s.upto(20) as u32),
                _ => OOp::ForgetIntoIter(s.upto(80) as u32),
            },
        );
        OwnCase { combo, mode: g.mode, bulk, init, pat, ops }
    }
    fn run(c: &OwnCase, cov: &mut Cov) -> Result<(), String> {
        match c.combo {
            0 => own::<GPoint<[f64; 2]>, DefaultParams>(c, cov),
            1 => own::<Rectangle<[f64; 2]>, DefaultParams>(c, cov),
            2 => own::<Line<[f64; 3]>, Pa<2, 5, 1>>(c, cov),
            _ => own::<Rectangle<[i32; 2]>, Pa<1, 4, 1>>(c, cov),
        }
    }
}

rcheck::registry! {
    "C22" => C22,
    "C23" => C23,
}
