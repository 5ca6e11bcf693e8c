//! An object-safe view of `RTree<Item<G>, Params>` in lattice terms, for every configuration.

use crate::geo::*;
use rstar::primitives::{Line, Rectangle};
use rstar::{
    Envelope, ParentNode, RStarInsertionStrategy, RTree, RTreeNode, RTreeParams,
    SelectionFunction, AABB,
};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::ops::ControlFlow;

/// Parameters chosen by const generics.
#[derive(Clone)]
pub struct Pa<const MIN: usize, const MAX: usize, const R: usize>;
impl<const MIN: usize, const MAX: usize, const R: usize> RTreeParams for Pa<MIN, MAX, R> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = R;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}

/// A stored element as seen from outside.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Out {
    pub uid: u32,
    pub tag: u8,
    pub payload: u64,
    pub geo: u64,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum PRule {
    All,
    None,
    Inter(Win),
    /// accepts an envelope by a hash of its corners: k in 1..=3 of 4 accepted
    Hash(u32, u32),
}
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum LRule {
    All,
    None,
    Tag(u8, u8),
    Uid(u32, u32),
    Inter(Win),
}
/// A user-defined selection function (a pure predicate), optionally panicking at its k-th question.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct Sel {
    pub p: PRule,
    pub l: LRule,
    pub panic_parent: Option<u32>,
    pub panic_leaf: Option<u32>,
}
#[derive(Default, Debug, Clone)]
pub struct SelLog {
    pub parents: Vec<(Vec<f64>, Vec<f64>)>,
    pub leaves: Vec<u32>,
}

pub fn hash_env(lo: &[f64], hi: &[f64], seed: u32) -> u32 {
    let mut h = seed as u64;
    for (a, b) in lo.iter().zip(hi) {
        // + 0.0 turns -0.0 into 0.0
        h = crate::engine::mix(h ^ (a + 0.0).to_bits());
        h = crate::engine::mix(h ^ (b + 0.0).to_bits().rotate_left(7));
    }
    (h >> 20) as u32
}
impl Sel {
    pub fn parent(&self, lo: &[f64], hi: &[f64], sp: &Space) -> bool {
        match self.p {
            PRule::All => true,
            PRule::None => false,
            PRule::Inter(w) => match w.lo_hi() {
                None => false,
                Some((a, b)) => (0..a.d()).all(|i| sp.x(a[i]) <= hi[i] && lo[i] <= sp.x(b[i])),
            },
            PRule::Hash(seed, k) => hash_env(lo, hi, seed) % 4 < k,
        }
    }
    pub fn leaf(&self, e: &Elem, uid: u32, k: Kind) -> bool {
        match self.l {
            LRule::All => true,
            LRule::None => false,
            LRule::Tag(m, r) => e.t % m.max(1) == r,
            LRule::Uid(m, r) => uid % m.max(1) == r,
            LRule::Inter(w) => w.intersects(e, k),
        }
    }
}
struct SelFn<'a, G: Geo> {
    s: Sel,
    sp: Space,
    w: AABB<G::P>,
    log: &'a RefCell<SelLog>,
}
impl<G: Geo> SelectionFunction<Item<G>> for SelFn<'_, G> {
    fn should_unpack_parent(&self, e: &AABB<G::P>) -> bool {
        crate::engine::tick();
        let (lo, hi) = env_f(e);
        let r = self.s.parent(&lo, &hi, &self.sp);
        let n = {
            let mut l = self.log.borrow_mut();
            l.parents.push((lo, hi));
            l.parents.len() as u32
        };
        if self.s.panic_parent == Some(n) {
            panic!("injected panic (parent question {n})");
        }
        r
    }
    fn should_unpack_leaf(&self, i: &Item<G>) -> bool {
        let n = {
            let mut l = self.log.borrow_mut();
            l.leaves.push(i.uid);
            l.leaves.len() as u32
        };
        if self.s.panic_leaf == Some(n) {
            panic!("injected panic (element question {n})");
        }
        match self.s.l {
            LRule::All => true,
            LRule::None => false,
            LRule::Tag(m, r) => i.tag % m.max(1) == r,
            LRule::Uid(m, r) => i.uid % m.max(1) == r,
            LRule::Inter(_) => self.w.intersects(&i.geom.envelope()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Q {
    All,
    In(Win),
    Inter(Win),
    At(Co),
    Within(Co, R2),
    Sel(Sel),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Form {
    Iter,
    Mut,
    Int,
    IntMut,
}
pub const FORMS: [Form; 4] = [Form::Iter, Form::Mut, Form::Int, Form::IntMut];

/// How a drain ends after the given number of elements.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum End {
    Drop,
    Forget,
    /// the consumer panics holding the iterator
    Panic,
}

/// A node as reported by the tree.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub lo: Vec<f64>,
    pub hi: Vec<f64>,
    pub empty: bool,
    pub kids: Vec<Kid>,
}
impl Node {
    /// Children of the largest node.
    pub fn widest(&self) -> usize {
        let below = self.kids.iter().map(|k| match k {
            Kid::Leaf(_) => 0,
            Kid::Node(n) => n.widest(),
        });
        below.max().unwrap_or(0).max(self.kids.len())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    Leaf(Out),
    Node(Node),
}

/// Result of a visitor-style query.
#[derive(Debug)]
pub struct Visit {
    pub outs: Vec<Out>,
    /// the visitor broke off (and the marker came back)
    pub broke: bool,
}

pub trait DynTree: Send {
    fn space(&self) -> Space;
    fn cfg(&self) -> usize;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn geo_of(&self, e: &Elem) -> u64;
    fn size(&self) -> usize;
    fn insert(&mut self, e: &Elem, uid: u32, payload: u64);
    fn walk(&self) -> Node;
    /// Queries in the given form; `add` is added to the payload of each result in mutable forms;
    /// stops after `stop` elements. Unsupported forms fall back to a supported one.
    fn query(&mut self, q: &Q, form: Form, stop: Option<usize>, add: u64, log: &RefCell<SelLog>) -> Visit;
    /// the single-result forms of point location
    fn at_one(&mut self, p: &Co, form: Form) -> Option<Out>;
    fn into_iter_ref(&self) -> Vec<Out>;
    fn into_iter_mut(&mut self, add: u64) -> Vec<Out>;
    fn into_iter_own(self: Box<Self>, stop: Option<usize>) -> Vec<Out>;
    /// size hints must bracket the truth; (lower, upper) of the iterators over `All`
    fn drain(&mut self, q: &Q, take: Option<usize>, end: End, log: &RefCell<SelLog>, got: &RefCell<Vec<Out>>);
    fn remove_eq(&mut self, e: &Elem) -> Option<Out>;
    fn remove_at(&mut self, p: &Co) -> Option<Out>;
    fn remove_sel(&mut self, s: &Sel, log: &RefCell<SelLog>) -> Option<Out>;
    fn pop(&mut self, p: &Co) -> Option<Out>;
    fn contains(&self, e: &Elem) -> bool;
    fn nn(&self, p: &Co) -> Option<(Out, f64)>;
    fn nn_plain(&self, p: &Co) -> Option<Out>;
    fn nn_iter(&self, p: &Co, stop: Option<usize>) -> Vec<(Out, f64)>;
    fn nn_iter_plain(&self, p: &Co, stop: Option<usize>) -> Vec<Out>;
    fn nn_iter_deprecated(&self, p: &Co, stop: Option<usize>) -> Vec<(Out, f64)>;
    fn nns(&self, p: &Co) -> Option<(Vec<Out>, f64)>;
    fn nns_plain(&self, p: &Co) -> Vec<Out>;
    fn clone_box(&self) -> Box<dyn DynTree>;
    /// replaces self by a clone made through `clone_from`
    fn clone_from_dyn(&mut self, o: &dyn DynTree);
    fn debug(&self) -> String;
    fn json(&self) -> Result<String, String>;
    fn from_json(&self, s: &str) -> Result<Box<dyn DynTree>, String>;
    fn bin(&self) -> Result<Vec<u8>, String>;
    fn from_bin(&self, s: &[u8]) -> Result<Box<dyn DynTree>, String>;
    /// a fresh tree of the same configuration
    fn fresh(&self) -> Box<dyn DynTree>;
    fn fresh_bulk(&self, elems: &[(Elem, u32, u64)]) -> Box<dyn DynTree>;
    /// size of one child slot of a node
    fn slot(&self) -> usize;
    /// joins with a tree of the same configuration
    fn join(&self, o: &dyn DynTree, f: &mut dyn FnMut(u32, u32));
}

pub struct Conc<G: Geo, PA: RTreeParams + Clone + 'static> {
    pub tree: RTree<Item<G>, PA>,
    pub mode: Mode,
    pub cfg: usize,
}

pub fn out<G: Geo>(i: &Item<G>) -> Out {
    Out { uid: i.uid, tag: i.tag, payload: i.payload, geo: geo_hash(&i.geom) }
}
pub fn item<G: Geo>(e: &Elem, uid: u32, payload: u64, m: Mode) -> Item<G> {
    Item { geom: G::build(e, m), tag: e.t, uid, payload }
}
pub fn walk<G: Geo>(p: &ParentNode<Item<G>>) -> Node {
    let env = p.envelope();
    let (lo, hi) = env_f(&env);
    Node {
        lo,
        hi,
        empty: env_empty(&env),
        kids: p
            .children()
            .iter()
            .map(|c| match c {
                RTreeNode::Leaf(i) => Kid::Leaf(out(i)),
                RTreeNode::Parent(p) => Kid::Node(walk(p)),
            })
            .collect(),
    }
}

/// Passes an iterator on and holds it to what it announces through `size_hint`.
pub struct Hinted<I> {
    it: I,
    done: usize,
    /// no fewer than this many elements in total were announced
    low: usize,
    high: usize,
}
pub fn hinted<I: Iterator>(it: I) -> Hinted<I> {
    Hinted { it, done: 0, low: 0, high: usize::MAX }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let (low, high) = self.it.size_hint();
        self.low = self.low.max(low.saturating_add(self.done));
        self.high = self.high.min(high.unwrap_or(usize::MAX).saturating_add(self.done));
        let x = self.it.next();
        if x.is_some() {
            self.done += 1;
            assert!(self.done <= self.high, "yields more than the {} elements announced by its size hint", self.high);
        } else {
            assert!(self.low <= self.done, "yields {} elements, {} were announced by its size hint", self.done, self.low);
        }
        x
    }
}
fn take_n<I: Iterator>(it: I, stop: Option<usize>) -> std::iter::Take<Hinted<I>> {
    hinted(it).take(stop.unwrap_or(usize::MAX))
}

macro_rules! collect {
    ($it:expr, $stop:expr) => {
        Visit { outs: take_n($it, $stop).map(|i| out(&*i)).collect(), broke: false }
    };
}
macro_rules! collect_mut {
    ($it:expr, $stop:expr, $add:expr) => {{
        // keep all references alive together: they must not alias
        let v: Vec<&mut Item<G>> = take_n($it, $stop).collect();
        let outs = v.iter().map(|i| out(&**i)).collect();
        for i in v {
            i.payload = i.payload.wrapping_add($add);
        }
        Visit { outs, broke: false }
    }};
}
macro_rules! visit {
    ($call:expr, $stop:expr) => {{
        let mut outs = Vec::new();
        let stop: Option<usize> = $stop;
        let mut over = false;
        if stop == Some(0) {
            Visit { outs, broke: false }
        } else {
            let r: ControlFlow<u32> = $call(&mut |i: &Item<G>| {
                if stop.is_some_and(|s| outs.len() >= s) {
                    over = true;
                }
                outs.push(out(i));
                if stop == Some(outs.len()) {
                    ControlFlow::Break(0xB0B)
                } else {
                    ControlFlow::Continue(())
                }
            });
            assert!(!over, "visitor called again after it broke off");
            let broke = match r {
                ControlFlow::Break(v) => {
                    assert_eq!(v, 0xB0B);
                    true
                }
                ControlFlow::Continue(()) => false,
            };
            Visit { outs, broke }
        }
    }};
}
macro_rules! visit_mut {
    ($t:expr, $m:ident, $arg:expr, $stop:expr, $add:expr) => {{
        let mut outs = Vec::new();
        let mut keep: Vec<&mut Item<G>> = Vec::new();
        let stop: Option<usize> = $stop;
        let mut over = false;
        if stop == Some(0) {
            Visit { outs, broke: false }
        } else {
            let r: ControlFlow<u32> = $t.$m($arg, |i| {
                if stop.is_some_and(|s| outs.len() >= s) {
                    over = true;
                }
                outs.push(out(i));
                keep.push(i);
                if stop == Some(outs.len()) {
                    ControlFlow::Break(0xB0B)
                } else {
                    ControlFlow::Continue(())
                }
            });
            for i in keep {
                i.payload = i.payload.wrapping_add($add);
            }
            assert!(!over, "visitor called again after it broke off");
            let broke = match r {
                ControlFlow::Break(v) => {
                    assert_eq!(v, 0xB0B);
                    true
                }
                ControlFlow::Continue(()) => false,
            };
            Visit { outs, broke }
        }
    }};
}

impl<G: Geo, PA: RTreeParams + Clone + 'static> Conc<G, PA> {
    fn p(&self, c: &Co) -> G::P {
        mkq(c, self.mode)
    }
    fn selfn<'a>(&self, s: &Sel, log: &'a RefCell<SelLog>) -> SelFn<'a, G> {
        let w = match s.l {
            LRule::Inter(w) => w.make(self.mode),
            _ => AABB::new_empty(),
        };
        SelFn { s: *s, sp: self.space(), w, log }
    }
}

impl<G: Geo, PA: RTreeParams + Clone + 'static> DynTree for Conc<G, PA> {
    fn space(&self) -> Space {
        Space {
            kind: G::KIND,
            mode: self.mode,
            int: <G::P as Pt>::S::INT,
            f32_: <G::P as Pt>::S::F32,
        }
    }
    fn cfg(&self) -> usize {
        self.cfg
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn geo_of(&self, e: &Elem) -> u64 {
        geo_hash(&G::build(e, self.mode))
    }
    fn size(&self) -> usize {
        self.tree.size()
    }
    fn insert(&mut self, e: &Elem, uid: u32, payload: u64) {
        self.tree.insert(item(e, uid, payload, self.mode))
    }
    fn walk(&self) -> Node {
        walk(self.tree.root())
    }
    fn query(&mut self, q: &Q, form: Form, stop: Option<usize>, add: u64, log: &RefCell<SelLog>) -> Visit {
        let m = self.mode;
        match q {
            Q::All => match form {
                Form::Iter | Form::Int => collect!(self.tree.iter(), stop),
                _ => collect_mut!(self.tree.iter_mut(), stop, add),
            },
            Q::In(w) => {
                let w = w.make(m);
                match form {
                    Form::Iter => collect!(self.tree.locate_in_envelope(w), stop),
                    Form::Mut => collect_mut!(self.tree.locate_in_envelope_mut(w), stop, add),
                    Form::Int => visit!(|f: &mut dyn FnMut(&Item<G>) -> ControlFlow<u32>| self.tree.locate_in_envelope_int(w, f), stop),
                    Form::IntMut => visit_mut!(self.tree, locate_in_envelope_int_mut, w, stop, add),
                }
            }
            Q::Inter(w) => {
                let w = w.make(m);
                match form {
                    Form::Iter => collect!(self.tree.locate_in_envelope_intersecting(w), stop),
                    Form::Mut => collect_mut!(self.tree.locate_in_envelope_intersecting_mut(w), stop, add),
                    Form::Int => visit!(|f: &mut dyn FnMut(&Item<G>) -> ControlFlow<u32>| self.tree.locate_in_envelope_intersecting_int(w, f), stop),
                    Form::IntMut => visit_mut!(self.tree, locate_in_envelope_intersecting_int_mut, w, stop, add),
                }
            }
            Q::At(p) => {
                let p = self.p(p);
                match form {
                    Form::Iter => collect!(self.tree.locate_all_at_point(p), stop),
                    Form::Mut => collect_mut!(self.tree.locate_all_at_point_mut(p), stop, add),
                    Form::Int => visit!(|f: &mut dyn FnMut(&Item<G>) -> ControlFlow<u32>| self.tree.locate_all_at_point_int(p, f), stop),
                    Form::IntMut => visit_mut!(self.tree, locate_all_at_point_int_mut, p, stop, add),
                }
            }
            Q::Within(p, r) => {
                let p = self.p(p);
                let r = r.make::<<G::P as Pt>::S>(m);
                collect!(self.tree.locate_within_distance(p, r), stop)
            }
            Q::Sel(s) => {
                let f = self.selfn(s, log);
                match form {
                    Form::Iter | Form::Int => collect!(self.tree.locate_with_selection_function(f), stop),
                    _ => collect_mut!(self.tree.locate_with_selection_function_mut(f), stop, add),
                }
            }
        }
    }
    fn at_one(&mut self, p: &Co, form: Form) -> Option<Out> {
        let p = self.p(p);
        match form {
            Form::Iter => self.tree.locate_at_point(p).map(|i| out(i)),
            Form::Mut => self.tree.locate_at_point_mut(p).map(|i| out(i)),
            Form::Int => self.tree.locate_at_point_int(p).map(|i| out(i)),
            Form::IntMut => self.tree.locate_at_point_int_mut(p).map(|i| out(i)),
        }
    }
    fn into_iter_ref(&self) -> Vec<Out> {
        let mut v = Vec::new();
        for i in hinted((&self.tree).into_iter()) {
            v.push(out(i));
        }
        v
    }
    fn into_iter_mut(&mut self, add: u64) -> Vec<Out> {
        let mut v = Vec::new();
        for i in hinted((&mut self.tree).into_iter()) {
            v.push(out(i));
            i.payload = i.payload.wrapping_add(add);
        }
        v
    }
    fn into_iter_own(self: Box<Self>, stop: Option<usize>) -> Vec<Out> {
        take_n(self.tree.into_iter(), stop).map(|i| out(&i)).collect()
    }
    fn drain(&mut self, q: &Q, take: Option<usize>, end: End, log: &RefCell<SelLog>, got: &RefCell<Vec<Out>>) {
        fn consume<G: Geo>(
            it: impl Iterator<Item = Item<G>>,
            take: Option<usize>,
            end: End,
            got: &RefCell<Vec<Out>>,
        ) {
            let mut it = hinted(it);
            let mut n = 0;
            while take.is_none_or(|t| n < t) {
                match it.next() {
                    Some(i) => got.borrow_mut().push(out(&i)),
                    None => break,
                }
                n += 1;
            }
            match end {
                End::Drop => drop(it),
                End::Forget => std::mem::forget(it),
                End::Panic => panic!("injected panic (consumer)"),
            }
        }
        let m = self.mode;
        match q {
            Q::All => consume(self.tree.drain(), take, end, got),
            Q::In(w) => consume(self.tree.drain_in_envelope(w.make(m)), take, end, got),
            Q::Inter(w) => consume(self.tree.drain_in_envelope_intersecting(w.make(m)), take, end, got),
            Q::Within(p, r) => {
                let (p, r) = (self.p(p), r.make::<<G::P as Pt>::S>(m));
                consume(self.tree.drain_within_distance(p, r), take, end, got)
            }
            Q::Sel(s) => {
                let f = self.selfn(s, log);
                consume(self.tree.drain_with_selection_function(f), take, end, got)
            }
            Q::At(_) => unreachable!("no drain at a point"),
        }
    }
    fn remove_eq(&mut self, e: &Elem) -> Option<Out> {
        let i = item(e, NOUID, 0, self.mode);
        self.tree.remove(&i).map(|i| out(&i))
    }
    fn remove_at(&mut self, p: &Co) -> Option<Out> {
        let p = self.p(p);
        self.tree.remove_at_point(p).map(|i| out(&i))
    }
    fn remove_sel(&mut self, s: &Sel, log: &RefCell<SelLog>) -> Option<Out> {
        let f = self.selfn(s, log);
        self.tree.remove_with_selection_function(f).map(|i| out(&i))
    }
    fn pop(&mut self, p: &Co) -> Option<Out> {
        let p = self.p(p);
        self.tree.pop_nearest_neighbor(p).map(|i| out(&i))
    }
    fn contains(&self, e: &Elem) -> bool {
        let i = item(e, NOUID, 0, self.mode);
        self.tree.contains(&i)
    }
    fn nn(&self, p: &Co) -> Option<(Out, f64)> {
        self.tree.nearest_neighbor_with_distance_2(self.p(p)).map(|(i, d)| (out(i), d.f()))
    }
    fn nn_plain(&self, p: &Co) -> Option<Out> {
        self.tree.nearest_neighbor(self.p(p)).map(|i| out(i))
    }
    fn nn_iter(&self, p: &Co, stop: Option<usize>) -> Vec<(Out, f64)> {
        take_n(self.tree.nearest_neighbor_iter_with_distance_2(self.p(p)), stop)
            .map(|(i, d)| (out(i), d.f()))
            .collect()
    }
    fn nn_iter_plain(&self, p: &Co, stop: Option<usize>) -> Vec<Out> {
        take_n(self.tree.nearest_neighbor_iter(self.p(p)), stop).map(|i| out(i)).collect()
    }
    fn nn_iter_deprecated(&self, p: &Co, stop: Option<usize>) -> Vec<(Out, f64)> {
        #[allow(deprecated)]
        take_n(self.tree.nearest_neighbor_iter_with_distance(self.p(p)), stop)
            .map(|(i, d)| (out(i), d.f()))
            .collect()
    }
    fn nns(&self, p: &Co) -> Option<(Vec<Out>, f64)> {
        self.tree
            .nearest_neighbors_with_distance_2(&self.p(p))
            .map(|(v, d)| (v.into_iter().map(|i| out(i)).collect(), d.f()))
    }
    fn nns_plain(&self, p: &Co) -> Vec<Out> {
        self.tree.nearest_neighbors(&self.p(p)).into_iter().map(|i| out(i)).collect()
    }
    fn clone_box(&self) -> Box<dyn DynTree> {
        Box::new(Conc { tree: self.tree.clone(), mode: self.mode, cfg: self.cfg })
    }
    fn clone_from_dyn(&mut self, o: &dyn DynTree) {
        let o = o.as_any().downcast_ref::<Self>().expect("same configuration");
        self.tree.clone_from(&o.tree);
    }
    fn debug(&self) -> String {
        format!("{:?}", self.tree)
    }
    fn json(&self) -> Result<String, String> {
        serde_json::to_string(&self.tree).map_err(|e| e.to_string())
    }
    fn from_json(&self, s: &str) -> Result<Box<dyn DynTree>, String> {
        // trees with a minimum of one child per node can be deeper than serde_json's default limit
        let mut de = serde_json::Deserializer::from_str(s);
        de.disable_recursion_limit();
        let tree = RTree::<Item<G>, PA>::deserialize(&mut de).map_err(|e| e.to_string())?;
        de.end().map_err(|e| e.to_string())?;
        Ok(Box::new(Conc { tree, mode: self.mode, cfg: self.cfg }))
    }
    fn bin(&self) -> Result<Vec<u8>, String> {
        bincode::serialize(&self.tree).map_err(|e| e.to_string())
    }
    fn from_bin(&self, s: &[u8]) -> Result<Box<dyn DynTree>, String> {
        let tree: RTree<Item<G>, PA> = bincode::deserialize(s).map_err(|e| e.to_string())?;
        Ok(Box::new(Conc { tree, mode: self.mode, cfg: self.cfg }))
    }
    fn fresh(&self) -> Box<dyn DynTree> {
        Box::new(Conc::<G, PA> { tree: RTree::new_with_params(), mode: self.mode, cfg: self.cfg })
    }
    fn slot(&self) -> usize {
        std::mem::size_of::<RTreeNode<Item<G>>>()
    }
    fn join(&self, o: &dyn DynTree, f: &mut dyn FnMut(u32, u32)) {
        let o = o.as_any().downcast_ref::<Self>().expect("same configuration");
        let o: &RTree<Item<G>, PA> = &o.tree;
        // the second tree has to have default parameters; they are only a type
        let text = bincode::serialize(o).expect("serializable");
        let o: RTree<Item<G>> = bincode::deserialize(&text).expect("deserializable");
        hinted(self.tree.intersection_candidates_with_other_tree(&o)).for_each(|(x, y)| f(x.uid, y.uid));
    }
    fn fresh_bulk(&self, elems: &[(Elem, u32, u64)]) -> Box<dyn DynTree> {
        let v = elems.iter().map(|(e, u, p)| item(e, *u, *p, self.mode)).collect();
        Box::new(Conc::<G, PA> {
            tree: RTree::bulk_load_with_params(v),
            mode: self.mode,
            cfg: self.cfg,
        })
    }
}

// ---------------------------------------------------------------- configurations

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub dims: usize,
    pub kind: Kind,
    pub int: bool,
    pub f32_: bool,
    /// largest lattice coordinate whose squared distances and areas the scalar type represents
    pub lim: i32,
    pub min: usize,
    pub max: usize,
    pub reins: usize,
}

type P2<S> = GPoint<[S; 2]>;
macro_rules! configs {
    ($(($name:expr, $g:ty, $dims:expr, $lim:expr, $min:expr, $max:expr, $r:expr)),+ $(,)?) => {
        pub const CFGS: &[Cfg] = &[$(Cfg {
            name: $name, dims: $dims, kind: <$g as Geo>::KIND,
            int: <<<$g as Geo>::P as Pt>::S as Sc>::INT, f32_: <<<$g as Geo>::P as Pt>::S as Sc>::F32,
            lim: $lim, min: $min, max: $max, reins: $r,
        }),+];
        pub fn new_tree(cfg: usize, mode: Mode) -> Box<dyn DynTree> {
            let mut _i = 0;
            $(
                if cfg == _i {
                    return Box::new(Conc::<$g, Pa<$min, $max, $r>> { tree: RTree::new_with_params(), mode, cfg });
                }
                _i += 1;
            )+
            panic!("no configuration {cfg}")
        }
    };
}
configs![
    ("point f64x2", P2<f64>, 2, 100000, 3, 6, 2),
    ("point i32x2", P2<i32>, 2, 7000, 3, 6, 2),
    ("rect f64x2", Rectangle<[f64; 2]>, 2, 100000, 3, 6, 2),
    ("rect i32x2 min1 max4", Rectangle<[i32; 2]>, 2, 7000, 1, 4, 1),
    ("line f64x2", Line<[f64; 2]>, 2, 50000, 3, 6, 2),
    ("circle f64x2", Circle<[f64; 2]>, 2, 20000, 3, 6, 2),
    ("point f32x3 no reinsertion", GPoint<[f32; 3]>, 3, 700, 2, 4, 0),
    ("rect i64x3", Rectangle<[i64; 3]>, 3, 300000, 3, 10, 5),
    ("point f64x4 large nodes", GPoint<[f64; 4]>, 4, 500, 20, 40, 10),
    ("rect f32x2 min1 max6 reins4", Rectangle<[f32; 2]>, 2, 1000, 1, 6, 4),
    ("point f64 tuple3 min=half rounded up", GPoint<(f64, f64, f64)>, 3, 30000, 5, 9, 2),
    ("point mint2 f64 huge nodes", GPoint<mint::Point2<f64>>, 2, 100000, 32, 64, 20),
    ("line f64x3", Line<[f64; 3]>, 3, 500, 2, 5, 1),
    ("point i64x5", GPoint<[i64; 5]>, 5, 1200, 1, 10, 1),
    ("own point type", GPoint<MyPoint>, 2, 7000, 2, 8, 3),
    ("rect i32 tuple2", Rectangle<(i32, i32)>, 2, 7000, 3, 5, 1),
    ("frame i32x2", Frame<[i32; 2]>, 2, 7000, 3, 6, 2),
    ("frame f64x3", Frame<[f64; 3]>, 3, 10000, 2, 7, 3),
];
pub fn space_of(cfg: usize, mode: Mode) -> Space {
    let c = &CFGS[cfg];
    Space { kind: c.kind, mode, int: c.int, f32_: c.f32_ }
}
