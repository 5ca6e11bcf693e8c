//! Operation histories, their generator, and the reference model they are checked against.

use crate::dyntree::*;
use crate::engine::{Cov, Rng, Src};
use crate::geo::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// Many elements laid out by rule; expands to the same list every time.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct Pattern {
    pub kind: u8,
    pub n: u32,
    pub seed: u32,
    pub span: i32,
    pub ext: i32,
}
pub const PATTERNS: u64 = 8;
impl Pattern {
    pub fn expand(&self, d: usize) -> Vec<Elem> {
        let mut r = Rng::new(self.seed as u64 | 0x5EED_0000_0000);
        let span = self.span.max(1);
        let rnd = |r: &mut Rng| (r.below(2 * span as u64 + 1) as i64 - span as i64) as i32;
        let mut centers: Vec<Co> = vec![];
        (0..self.n)
            .map(|i| {
                let a = match self.kind {
                    // uniform
                    0 => Co::from_fn(d, |_| rnd(&mut r)),
                    // grid in row order
                    1 => {
                        let side = (self.n as f64).powf(1.0 / d as f64).ceil().max(1.0) as u32;
                        let mut k = i;
                        Co::from_fn(d, |_| {
                            let c = k % side;
                            k /= side;
                            (c as i32 * (2 * span / side.max(1) as i32).max(1) - span).min(span)
                        })
                    }
                    // diagonal, ascending or descending
                    2 => Co::from_fn(d, |j| {
                        let t = ((i as i64 * 2 * span as i64) / self.n.max(1) as i64) as i32 - span;
                        if j % 2 == 1 && self.seed % 2 == 1 {
                            -t
                        } else {
                            t
                        }
                    }),
                    // clusters
                    3 => {
                        if centers.is_empty() {
                            centers = (0..1 + self.seed % 7).map(|_| Co::from_fn(d, |_| rnd(&mut r))).collect();
                        }
                        let c = centers[r.below(centers.len() as u64) as usize];
                        let w = (span / 50).max(1);
                        Co::from_fn(d, |j| {
                            (c[j] + r.below(2 * w as u64 + 1) as i32 - w).clamp(-span, span)
                        })
                    }
                    // all the same point
                    4 => Co::from_fn(d, |j| (self.seed as i32 % 5 + j as i32).clamp(-span, span)),
                    // spread along one axis only
                    5 => {
                        let x = rnd(&mut r);
                        Co::from_fn(d, |j| if j == self.seed as usize % d { x } else { 0 })
                    }
                    // few distinct values
                    6 => Co::from_fn(d, |_| r.below(3) as i32 - 1),
                    // the last axis only, ascending
                    _ => Co::from_fn(d, |j| {
                        if j + 1 == d {
                            ((i as i64 * 2 * span as i64) / self.n.max(1) as i64) as i32 - span
                        } else {
                            0
                        }
                    }),
                };
                let e = self.ext.max(0) as u64;
                let b = Co::from_fn(d, |j| (a[j] + r.below(2 * e + 1) as i32 - e as i32).clamp(-span, span));
                let b = if self.ext > 0 { b } else { a };
                let mut b = b;
                // circles use b[0] as radius
                if self.ext < 0 {
                    b = Co::from_fn(d, |_| r.below(4) as i32);
                }
                Elem { a, b, t: (r.below(3)) as u8 }
            })
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(Elem),
    InsMany(Pattern),
    /// remove (by equality) an element equal to the given one
    RemEq(Elem),
    RemAt(Co),
    RemSel(Sel),
    Pop(Co),
    Drain(Q, Option<u32>),
    Clone,
    /// consume into the owned iterator and bulk load again
    Rebuild,
    /// add to every payload through iter_mut
    Touch,
    /// serialize and deserialize (true: text)
    Serde(bool),
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Ins(_) => "op insert",
            Op::InsMany(_) => "op insert many",
            Op::RemEq(_) => "op remove",
            Op::RemAt(_) => "op remove_at_point",
            Op::RemSel(_) => "op remove_with_selection",
            Op::Pop(_) => "op pop",
            Op::Drain(..) => "op drain",
            Op::Clone => "op clone",
            Op::Rebuild => "op rebuild",
            Op::Touch => "op iter_mut",
            Op::Serde(_) => "op serde",
        }
    }
}

/// How a tree comes to be.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recipe {
    pub cfg: usize,
    pub mode: Mode,
    /// bulk load the initial elements, otherwise insert them one by one
    pub bulk: bool,
    pub init: Vec<Elem>,
    pub pat: Option<Pattern>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug)]
pub struct MElem {
    pub e: Elem,
    pub payload: u64,
    pub alive: bool,
}

/// The tree under test together with its model.
pub struct World {
    pub tree: Box<dyn DynTree>,
    pub m: Vec<MElem>,
    pub alive: usize,
    pub sp: Space,
    pub cfg: Cfg,
    /// only single insertions so far
    pub only_inserts: bool,
    /// nothing was ever removed
    pub no_removal: bool,
    /// the last structural change was a bulk load
    pub pure_bulk: bool,
    /// children of the largest inner node when the structure was last looked at since a bulk load
    pub widest: std::cell::Cell<Option<usize>>,
    pub peak: usize,
}

pub fn fmt_out(o: &Out) -> String {
    format!("#{} (tag {}, payload {})", o.uid, o.tag, o.payload)
}

impl World {
    pub fn new(cfg: usize, mode: Mode) -> Self {
        let tree = new_tree(cfg, mode);
        World {
            sp: tree.space(),
            tree,
            m: vec![],
            alive: 0,
            cfg: CFGS[cfg],
            only_inserts: true,
            no_removal: true,
            pure_bulk: false,
            widest: std::cell::Cell::new(Some(0)),
            peak: 0,
        }
    }
    pub fn bulk(cfg: usize, mode: Mode, elems: &[Elem]) -> Self {
        if elems.len() > 10_000 {
            crate::engine::more_work(elems.len());
        }
        let mut w = World::new(cfg, mode);
        let v: Vec<_> = elems.iter().map(|e| (*e, w.register(e), 0)).collect();
        w.tree = w.tree.fresh_bulk(&v);
        w.only_inserts = elems.is_empty();
        w.pure_bulk = true;
        w.widest.set(None);
        w
    }
    pub fn build(r: &Recipe, cov: &mut Cov) -> Result<Self, String> {
        World::build_with(r, cov, false, &mut |_, _| Ok(()))
    }
    /// Builds the tree, optionally checking each operation, calling `each` after every one.
    pub fn build_with(
        r: &Recipe,
        cov: &mut Cov,
        strict: bool,
        each: &mut dyn FnMut(&mut World, &mut Cov) -> Result<(), String>,
    ) -> Result<Self, String> {
        let mut elems = r.init.clone();
        if let Some(p) = r.pat {
            elems.extend(p.expand(CFGS[r.cfg].dims));
        }
        let mut w = if r.bulk {
            World::bulk(r.cfg, r.mode, &elems)
        } else {
            let mut w = World::new(r.cfg, r.mode);
            for e in &elems {
                w.insert(e);
            }
            w
        };
        each(&mut w, cov).map_err(|e| format!("after building the initial tree: {e}"))?;
        for (i, op) in r.ops.iter().enumerate() {
            w.apply(op, strict, cov)
                .and_then(|_| each(&mut w, cov))
                .map_err(|e| format!("operation {i} ({op:?}): {e}"))?;
        }
        Ok(w)
    }

    pub fn register(&mut self, e: &Elem) -> u32 {
        self.m.push(MElem { e: *e, payload: 0, alive: true });
        self.alive += 1;
        self.peak = self.peak.max(self.alive);
        self.m.len() as u32 - 1
    }
    pub fn insert(&mut self, e: &Elem) -> u32 {
        let u = self.register(e);
        self.tree.insert(e, u, 0);
        self.pure_bulk = false;
        u
    }
    pub fn live(&self) -> impl Iterator<Item = (u32, &MElem)> {
        self.m.iter().enumerate().filter(|(_, m)| m.alive).map(|(i, m)| (i as u32, m))
    }
    pub fn expect(&self, uid: u32) -> Out {
        let m = &self.m[uid as usize];
        Out { uid, tag: m.e.t, payload: m.payload, geo: self.tree.geo_of(&m.e) }
    }
    /// `o` must be a live element, unchanged.
    pub fn check_out(&self, o: &Out) -> Result<(), String> {
        match self.m.get(o.uid as usize) {
            Some(m) if m.alive => {
                let x = self.expect(o.uid);
                if x != *o {
                    return Err(format!("element {} came back altered: {:?} instead of {:?}", fmt_out(o), o, x));
                }
                Ok(())
            }
            Some(_) => Err(format!("element {} was taken out before and is handed out again", fmt_out(o))),
            None => Err(format!("element {} was never put in", fmt_out(o))),
        }
    }
    /// All of `outs` are distinct live elements, unchanged.
    pub fn check_outs(&self, outs: &[Out]) -> Result<(), String> {
        for o in outs {
            self.check_out(o)?;
        }
        let mut u: Vec<u32> = outs.iter().map(|o| o.uid).collect();
        u.sort_unstable();
        if let Some(w) = u.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("element #{} is handed out twice", w[0]));
        }
        Ok(())
    }
    pub fn kill(&mut self, o: &Out) {
        self.m[o.uid as usize].alive = false;
        self.alive -= 1;
        self.removed();
    }
    pub fn removed(&mut self) {
        self.no_removal = false;
        self.only_inserts = false;
        self.pure_bulk = false;
    }
    /// Everything handed out is exactly the live set.
    pub fn check_all(&self, outs: &[Out], what: &str) -> Result<(), String> {
        self.check_outs(outs).map_err(|e| format!("{what}: {e}"))?;
        if outs.len() != self.alive {
            let mut have = vec![false; self.m.len()];
            outs.iter().for_each(|o| have[o.uid as usize] = true);
            let miss = self.live().find(|(u, _)| !have[*u as usize]);
            return Err(format!(
                "{what}: {} elements instead of {}; missing {:?}",
                outs.len(),
                self.alive,
                miss.map(|m| (m.0, m.1.e))
            ));
        }
        Ok(())
    }
    /// The tree (walked from its root) holds exactly the model's elements and says so.
    pub fn check_content(&self) -> Result<(), String> {
        if self.tree.size() != self.alive {
            return Err(format!("size() is {} but {} elements are stored", self.tree.size(), self.alive));
        }
        let mut leaves = Vec::with_capacity(self.alive);
        collect_leaves(&self.tree.walk(), &mut leaves);
        self.check_all(&leaves, "elements below the root")
    }

    // ------------------------------------------------ queries

    /// What a query must, may, must not select (not for custom selections with parent rules).
    pub fn tri(&self, q: &Q, uid: u32) -> Tri {
        let e = &self.m[uid as usize].e;
        let k = self.sp.kind;
        match q {
            Q::All => Tri::Must,
            Q::In(w) => Tri::of(w.contains(e, k)),
            Q::Inter(w) => Tri::of(w.intersects(e, k)),
            Q::At(p) => self.sp.at(e, p),
            Q::Within(p, r) => self.sp.within(e, p, r.val(&self.sp)),
            Q::Sel(s) => Tri::of(s.leaf(e, uid, k)),
        }
    }
    /// For a custom selection: the elements it must select, given the nodes of the tree.
    pub fn sel_expect(&self, s: &Sel, root: &Node) -> Vec<bool> {
        let mut v = vec![false; self.m.len()];
        if root.kids.is_empty() {
            return v;
        }
        fn go(w: &World, s: &Sel, n: &Node, v: &mut [bool]) {
            if !s.parent(&n.lo, &n.hi, &w.sp) {
                return;
            }
            for k in &n.kids {
                match k {
                    Kid::Leaf(o) => {
                        if let Some(m) = w.m.get(o.uid as usize) {
                            v[o.uid as usize] = s.leaf(&m.e, o.uid, w.sp.kind);
                        }
                    }
                    Kid::Node(n) => go(w, s, n, v),
                }
            }
        }
        go(self, s, root, &mut v);
        v
    }
    /// Checks the complete (`stopped` false) or cut-short result of a query.
    pub fn check_result(&self, q: &Q, outs: &[Out], stopped: bool, sel: Option<&[bool]>) -> Result<(), String> {
        self.check_outs(outs)?;
        let tri = |u: u32| match sel {
            Some(v) => Tri::of(v[u as usize]),
            None => self.tri(q, u),
        };
        for o in outs {
            if tri(o.uid) == Tri::Not {
                return Err(format!("{} {:?} is returned but not selected", fmt_out(o), self.m[o.uid as usize].e));
            }
        }
        if !stopped {
            let mut have = vec![false; self.m.len()];
            outs.iter().for_each(|o| have[o.uid as usize] = true);
            for (u, m) in self.live() {
                if !have[u as usize] && tri(u) == Tri::Must {
                    return Err(format!(
                        "element #{u} {:?} is selected but not returned ({} of {} returned)",
                        m.e,
                        outs.len(),
                        self.alive
                    ));
                }
            }
        }
        Ok(())
    }
    /// Number of live elements that must / may be selected.
    pub fn expected_counts(&self, q: &Q, sel: Option<&[bool]>) -> (usize, usize) {
        let (mut must, mut may) = (0, 0);
        for (u, _) in self.live() {
            match sel.map(|v| Tri::of(v[u as usize])).unwrap_or_else(|| self.tri(q, u)) {
                Tri::Must => {
                    must += 1;
                    may += 1
                }
                Tri::Either => may += 1,
                Tri::Not => {}
            }
        }
        (must, may)
    }
    pub fn sel_vec(&self, q: &Q) -> Option<Vec<bool>> {
        match q {
            Q::Sel(s) => Some(self.sel_expect(s, &self.tree.walk())),
            _ => None,
        }
    }
    /// Runs and checks a query in one form; returns the number of results.
    pub fn run_query(&mut self, q: &Q, form: Form, stop: Option<usize>) -> Result<usize, String> {
        let sel = self.sel_vec(q);
        let log = RefCell::new(SelLog::default());
        let v = self.tree.query(q, form, stop, 0, &log);
        let stopped = stop.is_some_and(|s| v.outs.len() >= s);
        if stop.is_some_and(|s| v.outs.len() > s) {
            return Err(format!("{form:?}: more results than asked for"));
        }
        self.check_result(q, &v.outs, stopped, sel.as_deref()).map_err(|e| format!("{q:?} as {form:?}: {e}"))?;
        Ok(v.outs.len())
    }

    /// (lowest possible, highest possible) minimal squared distance to `p`.
    pub fn min_dist(&self, p: &Co) -> (f64, f64) {
        let (mut l, mut h) = (f64::INFINITY, f64::INFINITY);
        for (_, m) in self.live() {
            let (a, b) = self.sp.dist2(&m.e, p);
            l = l.min(a);
            h = h.min(b);
        }
        (l, h)
    }
    pub fn check_nearest(&self, p: &Co, o: &Out, d: Option<f64>) -> Result<(), String> {
        self.check_out(o)?;
        let (lo, hi) = self.sp.dist2(&self.m[o.uid as usize].e, p);
        if let Some(d) = d {
            if !(lo <= d && d <= hi) {
                return Err(format!(
                    "nearest neighbour {} {:?} of {p:?} reported at squared distance {d:e}, true value in [{lo:e}, {hi:e}]",
                    fmt_out(o),
                    self.m[o.uid as usize].e
                ));
            }
        }
        let (_, h) = self.min_dist(p);
        if lo > h {
            let best = self.live().min_by(|a, b| {
                self.sp.dist2(&a.1.e, p).1.partial_cmp(&self.sp.dist2(&b.1.e, p).1).unwrap()
            });
            return Err(format!(
                "{} {:?} at squared distance {lo:e} is not nearest to {p:?}: {:?} is at {h:e}",
                fmt_out(o),
                self.m[o.uid as usize].e,
                best.map(|b| (b.0, b.1.e))
            ));
        }
        Ok(())
    }

    // ------------------------------------------------ operations

    pub fn apply(&mut self, op: &Op, strict: bool, cov: &mut Cov) -> Result<(), String> {
        let log = RefCell::new(SelLog::default());
        match op {
            Op::Ins(e) => {
                self.insert(e);
            }
            Op::InsMany(p) => {
                for e in p.expand(self.cfg.dims) {
                    self.insert(&e);
                }
            }
            Op::RemEq(e) => {
                let k = self.sp.kind;
                let there = self.live().any(|(_, m)| m.e.same(e, k));
                match self.tree.remove_eq(e) {
                    Some(o) => {
                        self.check_out(&o)?;
                        if strict && !self.m[o.uid as usize].e.same(e, k) {
                            return Err(format!("removed {} {:?}, which is not equal to {e:?}", fmt_out(&o), self.m[o.uid as usize].e));
                        }
                        self.kill(&o);
                        cov.count("removals", 1);
                    }
                    None => {
                        if strict && there {
                            return Err(format!("nothing removed although an element equal to {e:?} is stored"));
                        }
                        cov.count("removals of absent elements", 1);
                    }
                }
            }
            Op::RemAt(p) => {
                let (must, _) = if strict { self.expected_counts(&Q::At(*p), None) } else { (0, 0) };
                match self.tree.remove_at(p) {
                    Some(o) => {
                        self.check_out(&o)?;
                        if strict && self.tri(&Q::At(*p), o.uid) == Tri::Not {
                            return Err(format!("removed {} {:?}, which is not at {p:?}", fmt_out(&o), self.m[o.uid as usize].e));
                        }
                        self.kill(&o);
                        cov.count("removals", 1);
                    }
                    None => {
                        if must > 0 {
                            return Err(format!("nothing removed although {must} elements are at {p:?}"));
                        }
                        cov.count("removals of absent elements", 1);
                    }
                }
            }
            Op::RemSel(s) => {
                let q = Q::Sel(*s);
                let sel = if strict { self.sel_vec(&q) } else { None };
                match self.tree.remove_sel(s, &log) {
                    Some(o) => {
                        self.check_out(&o)?;
                        if let Some(v) = &sel {
                            if !v[o.uid as usize] {
                                return Err(format!("removed {} {:?}, which is not selected", fmt_out(&o), self.m[o.uid as usize].e));
                            }
                        }
                        self.kill(&o);
                        cov.count("removals", 1);
                    }
                    None => {
                        if let Some(v) = &sel {
                            if v.iter().any(|x| *x) {
                                return Err("nothing removed although elements are selected".into());
                            }
                        }
                        cov.count("removals of absent elements", 1);
                    }
                }
            }
            Op::Pop(p) => match self.tree.pop(p) {
                Some(o) => {
                    self.check_out(&o)?;
                    if strict {
                        self.check_nearest(p, &o, None)?;
                    }
                    self.kill(&o);
                    cov.count("pops", 1);
                }
                None => {
                    if self.alive > 0 {
                        return Err(format!("pop returned nothing from a tree of {} elements", self.alive));
                    }
                }
            },
            Op::Drain(q, take) => {
                let sel = if strict { self.sel_vec(q) } else { None };
                let got = RefCell::new(vec![]);
                self.tree.drain(q, take.map(|t| t as usize), End::Drop, &log, &got);
                let outs = got.into_inner();
                let stopped = take.is_some_and(|t| outs.len() >= t as usize);
                if strict {
                    self.check_result(q, &outs, stopped, sel.as_deref())?;
                } else {
                    self.check_outs(&outs)?;
                }
                cov.count("drained elements", outs.len() as u64);
                outs.iter().for_each(|o| self.kill(o));
                self.removed();
            }
            Op::Clone => {
                let c = self.tree.clone_box();
                self.tree = c;
            }
            Op::Rebuild => {
                let t = self.tree.clone_box();
                let outs = t.into_iter_own(None);
                if strict {
                    self.check_all(&outs, "owned iteration")?;
                }
                let v: Vec<_> = outs
                    .iter()
                    .filter_map(|o| self.m.get(o.uid as usize).map(|m| (m.e, o.uid, o.payload)))
                    .collect();
                self.tree = self.tree.fresh_bulk(&v);
                self.only_inserts = self.alive == 0;
                self.no_removal = true;
                self.pure_bulk = true;
                self.widest.set(None);
            }
            Op::Touch => {
                let v = self.tree.query(&Q::All, Form::Mut, None, 1, &log);
                self.check_all(&v.outs, "iter_mut")?;
                for m in self.m.iter_mut().filter(|m| m.alive) {
                    m.payload += 1;
                }
            }
            Op::Serde(text) => {
                let t = if *text {
                    let j = self.tree.json()?;
                    self.tree.from_json(&j)
                } else {
                    let b = self.tree.bin()?;
                    self.tree.from_bin(&b)
                };
                self.tree = t.map_err(|e| format!("cannot deserialize what was serialized: {e}"))?;
            }
        }
        cov.label(op.name());
        Ok(())
    }
}

pub fn collect_leaves(n: &Node, out: &mut Vec<Out>) {
    for k in &n.kids {
        match k {
            Kid::Leaf(o) => out.push(*o),
            Kid::Node(n) => collect_leaves(n, out),
        }
    }
}
pub fn height(n: &Node) -> usize {
    1 + n
        .kids
        .iter()
        .map(|k| match k {
            Kid::Leaf(_) => 0,
            Kid::Node(n) => height(n),
        })
        .max()
        .unwrap_or(0)
}
pub fn count_nodes(n: &Node) -> usize {
    1 + n
        .kids
        .iter()
        .map(|k| match k {
            Kid::Leaf(_) => 0,
            Kid::Node(n) => count_nodes(n),
        })
        .sum::<usize>()
}

// ---------------------------------------------------------------- generators

/// Shapes the random part of a case.
#[derive(Clone)]
pub struct Gen {
    pub cfg: usize,
    pub mode: Mode,
    pub d: usize,
    pub kind: Kind,
    pub span: i32,
    pub lim: i32,
    /// coordinates that occur in elements
    pub pool: Vec<Co>,
    pub elems: Vec<Elem>,
}
pub fn rlen(r: &mut Rng, size: usize) -> usize {
    let x = r.below(100);
    (match x {
        0..=4 => r.below(3),
        5..=34 => r.below(12),
        35..=74 => r.below(40),
        75..=94 => r.below(120),
        _ => r.below(250),
    }) as usize
        * if x >= 75 { size.max(1) } else { 1 }
}
impl Gen {
    pub fn new(s: &mut Src, cfgs: &[usize]) -> Gen {
        let cfg = cfgs[s.below(cfgs.len())];
        Gen::for_cfg(s, cfg)
    }
    pub fn for_cfg(s: &mut Src, cfg: usize) -> Gen {
        let c = &CFGS[cfg];
        let mode = if c.int {
            Mode::Unit
        } else if c.kind == Kind::Circle {
            // `center ± radius` is exact, so the envelope really encloses the ball
            [Mode::Unit, Mode::Eighth, Mode::Big, Mode::NegZero][s.weighted(&[8, 3, 2, 2])]
        } else {
            MODES[s.weighted(&[8, 3, 2, 2, 3, 3, 1, 1, 3])]
        };
        let spans = [1, 3, 10, 40, c.lim.min(1000), c.lim];
        let span = spans[s.weighted(&[1, 3, 4, 3, 3, 1])];
        Gen { cfg, mode, d: c.dims, kind: c.kind, span, lim: c.lim, pool: vec![], elems: vec![] }
    }
    pub fn co(&self, s: &mut Src) -> Co {
        Co::from_fn(self.d, |_| s.signed(self.span as i64) as i32)
    }
    pub fn elem(&mut self, s: &mut Src) -> Elem {
        // sometimes a copy of an earlier element
        if !self.elems.is_empty() && s.chance(1, 8) {
            let mut e = self.elems[s.below(self.elems.len().min(200))];
            if s.bool() {
                e.t = s.below(3) as u8;
            }
            return e;
        }
        let a = self.co(s);
        let b = match self.kind {
            Kind::Point => a,
            Kind::Circle => Co::from_fn(self.d, |i| {
                if i == 0 {
                    s.below(1 + (self.span as usize / 2).min(8)) as i32
                } else {
                    0
                }
            }),
            _ => match s.weighted(&[1, 5, 2, 2]) {
                0 => a,
                1 => {
                    let m = (self.span / 8).clamp(1, 50);
                    Co::from_fn(self.d, |i| (a[i] + s.signed(m as i64) as i32).clamp(-self.span, self.span))
                }
                2 => self.co(s),
                _ => {
                    // axis parallel
                    let ax = s.below(self.d);
                    let v = s.signed(self.span as i64) as i32;
                    Co::from_fn(self.d, |i| if i == ax { v } else { a[i] })
                }
            },
        };
        let e = Elem { a, b, t: s.below(3) as u8 };
        self.note(&e);
        e
    }
    pub fn note(&mut self, e: &Elem) {
        if self.pool.len() < 600 {
            self.pool.push(e.a);
            if self.kind != Kind::Point {
                let (l, h) = e.env(self.kind);
                self.pool.push(l);
                self.pool.push(h);
            }
            self.elems.push(*e);
        }
    }
    pub fn pattern(&mut self, s: &mut Src, maxn: u64) -> Pattern {
        let kind = s.upto(PATTERNS - 1) as u8;
        let n = s.draw_with(maxn, |r| {
            let f = [0.02, 0.1, 0.3, 1.0][r.below(4) as usize];
            r.upto((maxn as f64 * f) as u64)
        }) as u32;
        let ext = match self.kind {
            Kind::Point => 0,
            Kind::Circle => -1,
            _ => [0, 1, 5, 40][s.below(4)],
        };
        let p = Pattern { kind, n, seed: s.upto(999) as u32, span: self.span, ext };
        for e in p.expand(self.d).iter().take(150) {
            self.note(e);
        }
        p
    }
    /// A rare layout beyond 16 bits of elements, or of a size around a power of the node size.
    pub fn huge(&mut self, s: &mut Src) -> Option<Pattern> {
        if !s.chance(1, crate::engine::huge_chance()) {
            return None;
        }
        let m = CFGS[self.cfg].max as u64;
        let around = s.draw_with(4, |r| r.below(5));
        let n = match s.below(4) {
            0 => 65_534 + around,
            1 => 131_070 + around,
            2 => {
                let ks = (2..17).take_while(|k| m.pow(*k) < 140_000).count().max(1) as u32;
                m.pow(2 + s.below(ks as usize) as u32) + around - 2
            }
            _ => 10_000 + s.upto(130_000),
        };
        if s.below(4) > 0 {
            self.span = self.lim.min(1000);
        }
        let mut p = self.pattern(s, 3);
        p.n = n as u32;
        for e in p.expand(self.d).iter().step_by(997) {
            self.note(e);
        }
        Some(p)
    }
    /// A query point: at or near coordinates in use, inside the span, or far away.
    pub fn pt(&self, s: &mut Src) -> Co {
        match s.weighted(&[3, 4, 3, 2, 1]) {
            0 => self.co(s),
            1 if !self.pool.is_empty() => self.pool[s.below(self.pool.len())],
            2 if !self.pool.is_empty() => {
                let p = self.pool[s.below(self.pool.len())];
                Co::from_fn(self.d, |i| (p[i] + s.signed(2) as i32).clamp(-self.lim, self.lim))
            }
            3 if !self.pool.is_empty() => {
                // coordinates of different elements mixed: corners, edges, crossings
                let n = self.pool.len();
                Co::from_fn(self.d, |i| self.pool[s.below(n)][i])
            }
            _ => Co::from_fn(self.d, |_| s.signed(self.lim as i64) as i32),
        }
    }
    pub fn win(&self, s: &mut Src) -> Win {
        match s.weighted(&[6, 4, 3, 2, 1]) {
            0 => Win::Box(self.pt(s), self.pt(s)),
            1 => {
                let p = self.pt(s);
                let m = [0, 1, 2, 5, self.span / 4 + 1][s.below(5)];
                Win::Box(
                    Co::from_fn(self.d, |i| (p[i] - m).max(-self.lim)),
                    Co::from_fn(self.d, |i| (p[i] + m).min(self.lim)),
                )
            }
            2 if !self.elems.is_empty() => {
                // exactly an element's envelope, or grown/shrunk on one side
                let e = self.elems[s.below(self.elems.len())];
                let (mut l, mut h) = e.env(self.kind);
                let ax = s.below(self.d);
                match s.below(5) {
                    1 => l.c_mut()[ax] += 1,
                    2 => h.c_mut()[ax] -= 1,
                    3 => l.c_mut()[ax] -= 1,
                    4 => h.c_mut()[ax] += 1,
                    _ => {}
                }
                Win::Box(l, h)
            }
            3 => {
                // unbounded in some directions
                let (a, b) = (self.pt(s), self.pt(s));
                let mask = s.upto(3);
                let (lo, hi) = Win::Box(a, b).lo_hi().unwrap();
                let f = |s: &mut Src, c: Co, v: i32, on: bool| Co::from_fn(self.d, |i| if on && s.bool() { v } else { c[i] });
                Win::Box(f(s, lo, i32::MIN, mask & 1 == 1), f(s, hi, i32::MAX, mask & 2 == 2))
            }
            4 => {
                if s.bool() {
                    Win::Empty
                } else {
                    Win::Box(Co::from_fn(self.d, |_| i32::MIN), Co::from_fn(self.d, |_| i32::MAX))
                }
            }
            _ => Win::Box(self.pt(s), self.pt(s)),
        }
    }
    pub fn r2(&self, s: &mut Src, p: &Co) -> R2 {
        match s.weighted(&[2, 4, 3, 3, 1, 1]) {
            0 => R2::Sq(0),
            1 if !self.elems.is_empty() => {
                // exactly at an element (its envelope), or one off
                let e = self.elems[s.below(self.elems.len())];
                let (l, h) = e.env(self.kind);
                let d: i64 = (0..self.d)
                    .map(|i| {
                        let x = p[i].clamp(l[i], h[i]) as i64 - p[i] as i64;
                        x * x
                    })
                    .sum();
                R2::Sq((d + s.signed(1)).max(0))
            }
            2 => {
                let m = self.span as i64;
                let r = s.upto(m as u64) as i64;
                R2::Sq(r * r)
            }
            3 => R2::Sq(s.upto(20) as i64),
            4 => R2::Max,
            5 => R2::Neg,
            _ => R2::Sq(1),
        }
    }
    pub fn lrule(&self, s: &mut Src) -> LRule {
        match s.below(5) {
            0 => LRule::All,
            1 => LRule::Uid(2 + s.upto(3) as u32, s.upto(1) as u32),
            2 => LRule::Tag(3, s.below(3) as u8),
            3 => LRule::Inter(self.win(s)),
            _ => {
                if s.chance(1, 3) {
                    LRule::None
                } else {
                    LRule::Uid(7, s.upto(6) as u32)
                }
            }
        }
    }
    pub fn sel(&self, s: &mut Src) -> Sel {
        let p = match s.weighted(&[4, 4, 4, 1]) {
            0 => PRule::All,
            1 => PRule::Hash(s.upto(9999) as u32, 1 + s.weighted(&[1, 2, 4]) as u32),
            2 => PRule::Inter(self.win(s)),
            _ => PRule::None,
        };
        Sel { p, l: self.lrule(s), panic_parent: None, panic_leaf: None }
    }
    /// A query that can be drained.
    pub fn drain_q(&self, s: &mut Src) -> Q {
        match s.weighted(&[2, 3, 4, 3, 3]) {
            0 => Q::All,
            1 => Q::In(self.win(s)),
            2 => Q::Inter(self.win(s)),
            3 => {
                let p = self.pt(s);
                Q::Within(p, self.r2(s, &p))
            }
            _ => Q::Sel(self.sel(s)),
        }
    }
    pub fn take(&self, s: &mut Src) -> Option<u32> {
        match s.weighted(&[3, 4, 2]) {
            0 => None,
            1 => Some(s.upto(4) as u32),
            _ => Some(s.draw_with(200, |r| r.below(60)) as u32),
        }
    }
    pub fn remove_target(&mut self, s: &mut Src) -> Elem {
        if !self.elems.is_empty() && s.chance(7, 8) {
            let mut e = self.elems[s.below(self.elems.len())];
            if s.chance(1, 8) {
                e.t = s.below(4) as u8;
            }
            e
        } else {
            // present or not: do not add it to the pool
            let n = (self.pool.len(), self.elems.len());
            let e = self.elem(s);
            self.pool.truncate(n.0);
            self.elems.truncate(n.1);
            e
        }
    }
    pub fn op(&mut self, s: &mut Src, w: &[u32; 11]) -> Op {
        match s.weighted(w) {
            0 => Op::Ins(self.elem(s)),
            1 => Op::RemEq(self.remove_target(s)),
            2 => Op::RemAt(self.pt(s)),
            3 => Op::Pop(self.pt(s)),
            4 => Op::Drain(self.drain_q(s), self.take(s)),
            5 => Op::RemSel(self.sel(s)),
            6 => Op::InsMany(self.pattern(s, 80)),
            7 => Op::Rebuild,
            8 => Op::Touch,
            9 => Op::Clone,
            _ => Op::Serde(s.bool()),
        }
    }
    /// A recipe: initial elements and up to `max_ops` operations.
    pub fn recipe(&mut self, s: &mut Src, max_ops: usize, big: u64) -> Recipe {
        let bulk = s.bool();
        let size = s.size;
        let huge = self.huge(s);
        let few = huge.is_some();
        let pat = if few {
            huge
        } else if s.chance(1, 4) {
            Some(self.pattern(s, big))
        } else {
            None
        };
        let init = if pat.is_some() {
            vec![]
        } else {
            s.list(3000, |r| rlen(r, size), |s, _| self.elem(s))
        };
        let w = [40, 12, 6, 6, 10, 4, 3, 1, 0, 1, 1];
        let ops = s.list(
            400,
            |r| if r.below(3) == 0 { 0 } else { r.below(max_ops as u64 + 1) as usize },
            |s, _| self.op(s, &w),
        );
        Recipe { cfg: self.cfg, mode: self.mode, bulk: bulk || few, init, pat, ops }
    }
}
pub fn all_cfgs() -> Vec<usize> {
    (0..CFGS.len()).collect()
}
