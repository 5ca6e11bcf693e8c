//! C20 and C21: trees of plain points in every representation and with every parameter choice,
//! driven by the same lattice histories and compared with a multiset of lattice points.

use rcheck::dyntree::Pa;
use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::Pattern;
use rstar::{DefaultParams, Envelope, ParentNode, RTree, RTreeNode, RTreeParams, AABB};
use serde::{Deserialize, Serialize};
use std::num::Wrapping;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PtOp {
    Ins(Co),
    Rem(Co),
    RemAt(Co),
    Pop(Co),
    DrainIn(Co, Co, u32),
    DrainWithin(Co, i64, u32),
    Nn(Co),
    NnIter(Co, u32),
    Nns(Co),
    Within(Co, i64),
    In(Co, Co, u8),
    Inter(Co, Co, u8),
    At(Co, u8),
    Contains(Co),
    All,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PtHist {
    pub bulk: bool,
    pub init: Vec<Co>,
    pub pat: Option<Pattern>,
    pub ops: Vec<PtOp>,
}

fn gen_hist(s: &mut Src, d: usize, span: i32, max_init: usize, max_ops: usize) -> PtHist {
    let bulk = s.bool();
    let pat = if s.chance(1, 3) {
        let kind = s.upto(rcheck::hist::PATTERNS - 1) as u8;
        let n = s.draw_with(max_init as u64, |r| r.upto(max_init as u64)) as u32;
        Some(Pattern { kind, n, seed: s.upto(999) as u32, span, ext: 0 })
    } else {
        None
    };
    let mut pool: Vec<Co> = vec![];
    let co = |s: &mut Src, pool: &mut Vec<Co>| {
        if !pool.is_empty() && s.chance(1, 3) {
            let n = pool.len();
            if s.bool() {
                return pool[s.below(n)];
            }
            return Co::from_fn(d, |i| pool[s.below(n)][i]);
        }
        let c = Co::from_fn(d, |_| s.signed(span as i64) as i32);
        if pool.len() < 300 {
            pool.push(c);
        }
        c
    };
    let init = match &pat {
        Some(p) => {
            pool = p.expand(d).iter().take(100).map(|e| e.a).collect();
            vec![]
        }
        None => s.list(
            max_init,
            |r| r.below([5, 20, max_init as u64 / 3 + 1][r.clone().below(3) as usize]) as usize,
            |s, _| co(s, &mut pool),
        ),
    };
    let r2max = (span as i64).pow(2) * 2;
    let ops = s.list(
        200,
        |r| r.below(max_ops as u64 + 1) as usize,
        |s, _| {
            let w = [30, 8, 4, 4, 2, 2, 4, 3, 3, 4, 4, 4, 4, 3, 1];
            match s.weighted(&w) {
                0 => PtOp::Ins(co(s, &mut pool)),
                1 => PtOp::Rem(co(s, &mut pool)),
                2 => PtOp::RemAt(co(s, &mut pool)),
                3 => PtOp::Pop(co(s, &mut pool)),
                4 => PtOp::DrainIn(co(s, &mut pool), co(s, &mut pool), s.upto(12) as u32),
                5 => PtOp::DrainWithin(co(s, &mut pool), s.upto(r2max as u64) as i64, s.upto(12) as u32),
                6 => PtOp::Nn(co(s, &mut pool)),
                7 => PtOp::NnIter(co(s, &mut pool), s.upto(30) as u32),
                8 => PtOp::Nns(co(s, &mut pool)),
                9 => PtOp::Within(co(s, &mut pool), s.upto(r2max as u64) as i64),
                10 => PtOp::In(co(s, &mut pool), co(s, &mut pool), s.upto(2) as u8),
                11 => PtOp::Inter(co(s, &mut pool), co(s, &mut pool), s.upto(2) as u8),
                12 => PtOp::At(co(s, &mut pool), s.upto(4) as u8),
                13 => PtOp::Contains(co(s, &mut pool)),
                _ => PtOp::All,
            }
        },
    );
    PtHist { bulk, init, pat, ops }
}

fn to_co<P: Pt>(p: &P) -> Result<Co, String> {
    let v = coords(p);
    if v.iter().any(|x| x.fract() != 0.0 || x.abs() > 1e6) {
        return Err(format!("the tree hands out {p:?}, which was never put in"));
    }
    Ok(Co::from_fn(v.len(), |i| v[i] as i32))
}
fn dist(a: &Co, b: &Co) -> i64 {
    a.c().iter().zip(b.c()).map(|(x, y)| (*x as i64 - *y as i64).pow(2)).sum()
}
fn inside(p: &Co, a: &Co, b: &Co) -> bool {
    (0..p.d()).all(|i| a[i].min(b[i]) <= p[i] && p[i] <= a[i].max(b[i]))
}
/// All nodes: envelope, depth, and the configured sizes where they are promised.
fn shape<P: Pt, PA: RTreeParams>(t: &RTree<P, PA>, inserted_only: bool, bulk_only: bool) -> Result<usize, String> {
    fn go<P: Pt>(
        n: &ParentNode<P>,
        depth: usize,
        leaf: &mut Option<usize>,
        sizes: &mut dyn FnMut(usize, usize, bool) -> Result<(), String>,
    ) -> Result<AABB<P>, String> {
        if n.children().is_empty() {
            return Err(format!("childless node at depth {depth}"));
        }
        let mut e = AABB::new_empty();
        let mut direct = 0;
        for c in n.children() {
            match c {
                RTreeNode::Leaf(p) => {
                    direct += 1;
                    if *leaf.get_or_insert(depth) != depth {
                        return Err("elements at different depths".into());
                    }
                    e.merge(&AABB::from_point(p.clone()));
                }
                RTreeNode::Parent(p) => e.merge(&go(p, depth + 1, leaf, sizes)?),
            }
        }
        sizes(n.children().len(), depth, direct > 0)?;
        if n.envelope() != e {
            return Err(format!("node envelope {:?} instead of {e:?}", n.envelope()));
        }
        Ok(e)
    }
    let mut leaf = None;
    if t.root().children().is_empty() {
        return Ok(0);
    }
    go(t.root(), 0, &mut leaf, &mut |n, depth, holds_elements| {
        if inserted_only && (n > PA::MAX_SIZE || (depth > 0 && n < PA::MIN_SIZE)) {
            return Err(format!("a node at depth {depth} has {n} children with limits {} to {}", PA::MIN_SIZE, PA::MAX_SIZE));
        }
        if bulk_only && holds_elements && n > PA::MAX_SIZE {
            return Err(format!("a bulk loaded node holds {n} elements with maximum {}", PA::MAX_SIZE));
        }
        Ok(())
    })?;
    Ok(leaf.unwrap_or(0) + 1)
}

fn drive<P: Pt, PA: RTreeParams>(h: &PtHist, cov: &mut Cov) -> Result<(), String> {
    let d = P::DIMENSIONS;
    let mut m: Vec<Co> = h.init.clone();
    if let Some(p) = &h.pat {
        m.extend(p.expand(d).iter().map(|e| e.a));
    }
    let p = |c: &Co| mk::<P>(c, Mode::Unit);
    let mut t: RTree<P, PA> = if h.bulk {
        RTree::bulk_load_with_params(m.iter().map(p).collect())
    } else {
        let mut t = RTree::new_with_params();
        m.iter().for_each(|c| t.insert(p(c)));
        t
    };
    let (mut ins_only, mut bulk_only) = (!h.bulk || m.is_empty(), h.bulk);
    let height = shape(&t, ins_only, bulk_only)?;
    let sorted = |mut v: Vec<Co>| {
        v.sort_unstable();
        v
    };
    let cos = |v: Vec<P>| v.iter().map(to_co).collect::<Result<Vec<_>, _>>();
    let same = |got: Vec<Co>, want: Vec<Co>, what: &dyn Fn() -> String| {
        let (g, w) = (sorted(got), sorted(want));
        if g != w {
            return Err(format!("{}: {g:?} instead of {w:?}", what()));
        }
        Ok(())
    };
    let sq = |v: i64| P::S::from_f(v as f64);
    let mut peak = m.len();
    let mut hits = 0usize;
    for (i, op) in h.ops.iter().enumerate() {
        let what = || format!("operation {i} ({op:?})");
        let take_out = |m: &mut Vec<Co>, c: &Co| match m.iter().position(|x| x == c) {
            Some(k) => {
                m.swap_remove(k);
                Ok(())
            }
            None => Err(format!("{}: {c:?} comes out but is not stored", what())),
        };
        let mind = |m: &[Co], q: &Co| m.iter().map(|c| dist(c, q)).min();
        let mut mutated = true;
        match op {
            PtOp::Ins(c) => {
                t.insert(p(c));
                m.push(*c);
                bulk_only = false;
            }
            PtOp::Rem(c) | PtOp::RemAt(c) => {
                let there = m.contains(c);
                let g = if matches!(op, PtOp::Rem(_)) { t.remove(&p(c)) } else { t.remove_at_point(p(c)) };
                match g {
                    Some(g) if there && to_co(&g)? == *c => take_out(&mut m, c)?,
                    None if !there => {}
                    g => return Err(format!("{}: returned {g:?}", what())),
                }
            }
            PtOp::Pop(c) => {
                let want = mind(&m, c);
                match t.pop_nearest_neighbor(p(c)) {
                    Some(g) => {
                        let g = to_co(&g)?;
                        if Some(dist(&g, c)) != want {
                            return Err(format!("{}: popped {g:?}", what()));
                        }
                        take_out(&mut m, &g)?;
                    }
                    None if want.is_none() => {}
                    None => return Err(format!("{}: nothing popped", what())),
                }
            }
            PtOp::DrainIn(a, _, n) | PtOp::DrainWithin(a, _, n) => {
                let b = if let PtOp::DrainIn(_, b, _) = op { b } else { a };
                let n = if *n > 8 { usize::MAX } else { *n as usize };
                let sel: Box<dyn Fn(&Co) -> bool> = match op {
                    PtOp::DrainWithin(_, r, _) => Box::new(|c: &Co| dist(c, a) <= *r),
                    _ => Box::new(|c: &Co| inside(c, a, b)),
                };
                let g = match op {
                    PtOp::DrainWithin(_, r, _) => t.drain_within_distance(p(a), sq(*r)).take(n).collect(),
                    _ => t.drain_in_envelope(AABB::from_corners(p(a), p(b))).take(n).collect::<Vec<_>>(),
                };
                let total = m.iter().filter(|c| sel(c)).count();
                let g = cos(g)?;
                if g.len() != total.min(n) || g.iter().any(|c| !sel(c)) {
                    return Err(format!("{}: {g:?} of {total} selected", what()));
                }
                for c in &g {
                    take_out(&mut m, c)?;
                }
            }
            _ => mutated = false,
        }
        if mutated {
            ins_only &= matches!(op, PtOp::Ins(_));
            bulk_only &= m.len() == peak && !matches!(op, PtOp::Ins(_));
            peak = peak.max(m.len());
            if t.size() != m.len() {
                return Err(format!("{}: size() is {} instead of {}", what(), t.size(), m.len()));
            }
            shape(&t, ins_only, bulk_only).map_err(|e| format!("{}: {e}", what()))?;
            continue;
        }
        match op {
            PtOp::Nn(q) => {
                let g = t.nearest_neighbor_with_distance_2(p(q));
                let want = mind(&m, q);
                match (g, want) {
                    (Some((g, gd)), Some(w)) => {
                        let c = to_co(g)?;
                        if !m.contains(&c) || dist(&c, q) != w || gd.f() != w as f64 {
                            return Err(format!("{}: {c:?} at {gd:?} instead of distance {w}", what()));
                        }
                        hits += 1;
                    }
                    (None, None) => {}
                    (g, _) => return Err(format!("{}: {g:?}", what())),
                }
                if t.nearest_neighbor(p(q)).map(|g| to_co(g).map(|c| dist(&c, q))).transpose()? != want {
                    return Err(format!("{}: nearest_neighbor differs", what()));
                }
            }
            PtOp::NnIter(q, n) => {
                let n = if *n > 25 { usize::MAX } else { *n as usize };
                let mut want: Vec<i64> = m.iter().map(|c| dist(c, q)).collect();
                want.sort_unstable();
                want.truncate(n);
                let mut ds = vec![];
                let mut cs = vec![];
                for (g, gd) in t.nearest_neighbor_iter_with_distance_2(p(q)).take(n) {
                    let c = to_co(g)?;
                    if gd.f() != dist(&c, q) as f64 {
                        return Err(format!("{}: {c:?} at {gd:?}", what()));
                    }
                    ds.push(dist(&c, q));
                    cs.push(c);
                }
                if ds != want {
                    return Err(format!("{}: distances {ds:?} instead of {want:?}", what()));
                }
                let mut left = m.clone();
                for c in &cs {
                    take_out(&mut left, c)?;
                }
            }
            PtOp::Nns(q) => {
                let w = mind(&m, q);
                let want = m.iter().filter(|c| Some(dist(c, q)) == w).copied().collect();
                same(cos(t.nearest_neighbors(&p(q)).into_iter().cloned().collect())?, want, &what)?;
            }
            PtOp::Within(q, r) => {
                let want: Vec<Co> = m.iter().filter(|c| dist(c, q) <= *r).copied().collect();
                hits += want.len();
                same(cos(t.locate_within_distance(p(q), sq(*r)).cloned().collect())?, want, &what)?;
            }
            PtOp::In(a, b, form) | PtOp::Inter(a, b, form) => {
                let want: Vec<Co> = m.iter().filter(|c| inside(c, a, b)).copied().collect();
                hits += want.len();
                let e = AABB::from_corners(p(a), p(b));
                let mut v: Vec<P> = vec![];
                let mut visit = |x: &P| {
                    v.push(x.clone());
                    ControlFlow::<()>::Continue(())
                };
                let none = match (op, form) {
                    (PtOp::In(..), 0) => {
                        t.locate_in_envelope(e).for_each(|x| v.push(x.clone()));
                        true
                    }
                    (PtOp::In(..), 1) => t.locate_in_envelope_int(e, &mut visit) == ControlFlow::Continue(()),
                    (PtOp::In(..), _) => {
                        t.locate_in_envelope_mut(e).for_each(|x| v.push(x.clone()));
                        true
                    }
                    (_, 0) => {
                        t.locate_in_envelope_intersecting(e).for_each(|x| v.push(x.clone()));
                        true
                    }
                    (_, 1) => t.locate_in_envelope_intersecting_int(e, &mut visit) == ControlFlow::Continue(()),
                    _ => {
                        t.locate_in_envelope_intersecting_mut(e).for_each(|x| v.push(x.clone()));
                        true
                    }
                };
                if !none {
                    return Err(format!("{}: stopped by itself", what()));
                }
                same(cos(v)?, want, &what)?;
            }
            PtOp::At(q, form) => {
                let want: Vec<Co> = m.iter().filter(|c| *c == q).copied().collect();
                match form {
                    0 => same(cos(t.locate_all_at_point(p(q)).cloned().collect())?, want, &what)?,
                    1 => same(cos(t.locate_all_at_point_mut(p(q)).map(|x| x.clone()).collect())?, want, &what)?,
                    2 => {
                        let mut v = vec![];
                        let _ = t.locate_all_at_point_int(p(q), |x| {
                            v.push(x.clone());
                            ControlFlow::<()>::Continue(())
                        });
                        same(cos(v)?, want, &what)?
                    }
                    f => {
                        let g = if *f == 3 { t.locate_at_point(p(q)).cloned() } else { t.locate_at_point_int(p(q)).cloned() };
                        let g = g.as_ref().map(to_co).transpose()?;
                        if g != want.first().copied() {
                            return Err(format!("{}: {g:?}", what()));
                        }
                    }
                }
            }
            PtOp::Contains(q) => {
                if t.contains(&p(q)) != m.contains(q) {
                    return Err(format!("{}: {}", what(), !m.contains(q)));
                }
            }
            _ => same(cos(t.iter().cloned().collect())?, m.clone(), &what)?,
        }
    }
    same(cos(t.into_iter().collect())?, m, &|| "final content".into())?;
    cov.nontrivial = height > 1 || (peak > PA::MAX_SIZE && h.ops.len() > 1);
    cov.label_if(height > 2, "three levels or more");
    cov.label_if(hits > 0, "some query had results");
    cov.label(if h.bulk { "bulk loaded" } else { "inserted" });
    Ok(())
}

// ---------------------------------------------------------------- C20

macro_rules! reprs {
    ($( ($name:literal, $t:ty) ),+ $(,)?) => {
        pub const RP_NAMES: &[&str] = &[$($name),+];
        pub const RP_DIMS: &[usize] = &[$(<$t as rstar::Point>::DIMENSIONS),+];
        fn rp_top(i: usize) -> f64 {
            [$(<<$t as Pt>::S as Sc>::top().f()),+][i]
        }
        fn rp_f32(i: usize) -> bool {
            [$(<<$t as Pt>::S as Sc>::F32),+][i]
        }
        fn rp_run(i: usize, c: &ReprCase, cov: &mut Cov) -> Result<(), String> {
            let mut _i = 0usize;
            $( if i == _i { accessors::<$t>(&c.probe)?; return drive::<$t, DefaultParams>(&c.h, cov); } _i += 1; )+
            panic!("no representation {i}")
        }
    };
}
reprs![
    ("[i32; 2]", [i32; 2]),
    ("(i32, i32)", (i32, i32)),
    ("(f64; 3)", (f64, f64, f64)),
    ("(i64; 4)", (i64, i64, i64, i64)),
    ("(f64; 5)", (f64, f64, f64, f64, f64)),
    ("(i64; 6)", (i64, i64, i64, i64, i64, i64)),
    ("(f64; 7)", (f64, f64, f64, f64, f64, f64, f64)),
    ("(i64; 8)", (i64, i64, i64, i64, i64, i64, i64, i64)),
    ("(f64; 9)", (f64, f64, f64, f64, f64, f64, f64, f64, f64)),
    ("(i64; 10)", (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64)),
    ("[f64; 2]", [f64; 2]),
    ("[f32; 2]", [f32; 2]),
    ("[f64; 3]", [f64; 3]),
    ("[i64; 7]", [i64; 7]),
    ("[i8; 2]", [i8; 2]),
    ("[i16; 2]", [i16; 2]),
    ("[i64; 2]", [i64; 2]),
    ("[i128; 3]", [i128; 3]),
    ("[isize; 2]", [isize; 2]),
    ("[Wrapping<i32>; 2]", [Wrapping<i32>; 2]),
    ("mint::Point2<f64>", mint::Point2<f64>),
    ("mint::Point2<i32>", mint::Point2<i32>),
    ("mint::Point3<f32>", mint::Point3<f32>),
    ("mint::Point3<i64>", mint::Point3<i64>),
    ("MyPoint", MyPoint),
];
/// The largest span for which areas, their sums over a node and squared distances fit.
fn rp_span(i: usize) -> i32 {
    let top = if rp_f32(i) { (1u64 << 24) as f64 } else { rp_top(i).min((1u64 << 53) as f64) };
    let d = RP_DIMS[i] as i32;
    (1..=1000)
        .rev()
        .find(|s| {
            let w = 2.0 * *s as f64;
            w.powi(d) * 7.0 <= top && w * w * d as f64 <= top
        })
        .unwrap_or(1)
}

/// The coordinates as the representation itself names them, without the crate.
trait Fields: Pt {
    fn fields(&self) -> Vec<Self::S>;
    fn of_fields(v: &[Self::S]) -> Self;
}
impl<S: Sc, const N: usize> Fields for [S; N]
where
    [S; N]: Pt<S = S>,
{
    fn fields(&self) -> Vec<S> {
        self.to_vec()
    }
    fn of_fields(v: &[S]) -> Self {
        std::array::from_fn(|i| v[i])
    }
}
macro_rules! fields_of_tuple {
    ($($i:tt $s:ident),+) => {
        impl<S: Sc> Fields for ($($s,)+) where ($($s,)+): Pt<S = S> {
            fn fields(&self) -> Vec<S> {
                vec![$(self.$i),+]
            }
            fn of_fields(v: &[S]) -> Self {
                ($(v[$i],)+)
            }
        }
    };
}
fields_of_tuple!(0 S, 1 S);
fields_of_tuple!(0 S, 1 S, 2 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S, 5 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S, 5 S, 6 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S, 5 S, 6 S, 7 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S, 5 S, 6 S, 7 S, 8 S);
fields_of_tuple!(0 S, 1 S, 2 S, 3 S, 4 S, 5 S, 6 S, 7 S, 8 S, 9 S);
macro_rules! fields_by_name {
    ($(($t:ty, $s:ty, $($f:ident $i:literal),+)),+ $(,)?) => {$(
        impl Fields for $t {
            fn fields(&self) -> Vec<$s> {
                vec![$(self.$f),+]
            }
            fn of_fields(v: &[$s]) -> Self {
                Self { $($f: v[$i]),+ }
            }
        }
    )+};
}
fields_by_name![
    (mint::Point2<f64>, f64, x 0, y 1),
    (mint::Point2<i32>, i32, x 0, y 1),
    (mint::Point3<f32>, f32, x 0, y 1, z 2),
    (mint::Point3<i64>, i64, x 0, y 1, z 2),
    (MyPoint, i32, x 0, y 1),
];

/// Generating, reading and writing coordinates use each index for its own coordinate.
fn accessors<P: Fields>(probe: &Co) -> Result<(), String> {
    let d = P::DIMENSIONS;
    let v = |i: usize| P::S::conv(probe[i] as i64, Mode::Unit);
    let mut calls = vec![0; d];
    let mut bad = None;
    let mut p = P::generate(|i| {
        if i >= d {
            bad = Some(i);
            return num_traits::zero();
        }
        calls[i] += 1;
        v(i)
    });
    if let Some(i) = bad {
        return Err(format!("generate asks for coordinate {i} of {d}"));
    }
    if calls.iter().any(|c| *c != 1) {
        return Err(format!("generate asks for its coordinates {calls:?} times"));
    }
    let read = |p: &P| (0..d).map(|i| p.nth(i)).collect::<Vec<_>>();
    let mut want: Vec<P::S> = (0..d).map(v).collect();
    if read(&p) != want {
        return Err(format!("generated from {want:?}, reads as {:?}", read(&p)));
    }
    if p.fields() != want {
        return Err(format!("generated from {want:?}, holds {:?}", p.fields()));
    }
    if read(&P::of_fields(&want)) != want {
        return Err(format!("a point of {want:?} reads as {:?}", read(&P::of_fields(&want))));
    }
    for i in 0..d {
        if *p.nth_mut(i) != want[i] {
            return Err(format!("coordinate {i} reads {:?} through nth_mut", p.nth_mut(i)));
        }
        let n = want[(i + 1) % d] + num_traits::one();
        *p.nth_mut(i) = n;
        want[i] = n;
        if read(&p) != want {
            return Err(format!("writing coordinate {i} gives {:?} instead of {want:?}", read(&p)));
        }
        if p.fields() != want {
            return Err(format!("writing coordinate {i} of {want:?} leaves {:?}", p.fields()));
        }
    }
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ReprCase {
    pub ty: usize,
    pub probe: Co,
    pub h: PtHist,
}
pub struct C20;
impl Check for C20 {
    const ID: &'static str = "C20";
    type Case = ReprCase;
    const CASES: (u64, u64) = (1_000_000, 40_000_000);
    const RULE: &'static str = "a case is one of 25 point representations (tuples of 2 to 10, arrays, mint points, a user-defined point; i8 to i128, isize, Wrapping, f32, f64) and a history of insertions, removals and queries on lattice points, each answer compared with the lattice oracle that is the same for all representations, plus generating, reading and writing every coordinate; non-trivial: the tree gets more than one level; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] =
        &["coordinates are so small that areas, sums of areas over a node and squared distances fit the number type"];
    fn gen(s: &mut Src, _: u64) -> ReprCase {
        let ty = s.below(RP_NAMES.len());
        let d = RP_DIMS[ty];
        let top = rp_span(ty);
        let span = [top.min(1), top.min(3), top.min(10), top.min(50), top][s.weighted(&[1, 3, 3, 3, 3])];
        let probe = Co::from_fn(d, |i| i as i32 * 3 + s.upto(2) as i32);
        let h = gen_hist(s, d, span, if s.size > 1 { 400 } else { 120 }, 60);
        ReprCase { ty, probe, h }
    }
    fn run(c: &ReprCase, cov: &mut Cov) -> Result<(), String> {
        cov.label(RP_NAMES[c.ty]);
        rp_run(c.ty, c, cov).map_err(|e| format!("{}: {e}", RP_NAMES[c.ty]))
    }
}

// ---------------------------------------------------------------- C21

macro_rules! grid {
    (valid: $( ($a:literal, $b:literal, $r:literal) ),+ ; invalid: $( ($ia:literal, $ib:literal, $ir:literal) ),+ ;) => {
        const VALID: &[(usize, usize, usize)] = &[$(($a, $b, $r)),+];
        const INVALID: &[(usize, usize, usize)] = &[$(($ia, $ib, $ir)),+];
        fn accept(i: usize, h: &PtHist, cov: &mut Cov) -> Result<(), String> {
            let mut _i = 0usize;
            $( if i == _i { return drive::<[i32; 2], Pa<$a, $b, $r>>(h, cov); } _i += 1; )+
            panic!("no parameters {i}")
        }
        /// Some(true) if creating the tree was rejected.
        fn rejected(i: usize, how: u8, v: Vec<[i32; 2]>) -> bool {
            let mut _i = 0usize;
            $( if i == _i { return rejects::<Pa<$ia, $ib, $ir>>(how, v); } _i += 1; )+
            panic!("no parameters {i}")
        }
    };
}
grid![
    valid: (1, 4, 0), (1, 4, 2), (2, 4, 0), (2, 4, 1), (1, 5, 3), (3, 5, 1), (2, 5, 2), (3, 6, 2), (3, 7, 0),
        (4, 7, 2), (1, 10, 8), (5, 10, 4), (2, 17, 14), (20, 40, 19), (33, 65, 31), (1, 100, 98), (50, 100, 49), (64, 127, 10), (100, 300, 50), (300, 600, 299);
    invalid: (0, 6, 2), (0, 4, 0), (4, 6, 1), (5, 6, 0), (3, 4, 0), (4, 5, 0), (5, 7, 1), (51, 100, 2), (1, 3, 0), (2, 3, 0),
        (1, 2, 0), (1, 1, 0), (0, 0, 0), (3, 6, 3), (3, 6, 4), (3, 6, 100), (1, 4, 3), (2, 4, 2), (50, 100, 50);
];
fn rejects<PA: RTreeParams>(how: u8, v: Vec<[i32; 2]>) -> bool {
    catch_unwind(AssertUnwindSafe(|| match how {
        0 => drop(RTree::<[i32; 2], PA>::new_with_params()),
        1 => drop(RTree::<[i32; 2], PA>::default()),
        _ => drop(RTree::<[i32; 2], PA>::bulk_load_with_params(v)),
    }))
    .is_err()
}
/// Points with fewer than two dimensions.
fn rejects_dim(which: u8, how: u8, n: usize) -> bool {
    catch_unwind(AssertUnwindSafe(|| match (which, how) {
        (0, 0) => drop(RTree::<[i32; 1]>::new()),
        (0, 1) => drop(RTree::<[i32; 1]>::default()),
        (0, _) => drop(RTree::bulk_load(vec![[1i32]; n])),
        (1, 0) => drop(RTree::<(f64,)>::new()),
        (1, 1) => drop(RTree::<(f64,)>::default()),
        (1, _) => drop(RTree::bulk_load(vec![(1.0f64,); n])),
        (_, 0) => drop(RTree::<[f64; 0]>::new()),
        (_, 1) => drop(RTree::<[f64; 0]>::default()),
        _ => drop(RTree::bulk_load(vec![[0.0f64; 0]; n])),
    }))
    .is_err()
}
#[derive(Clone, Serialize, Deserialize)]
pub enum ParamCase {
    Accept(usize, PtHist),
    Reject(usize, u8, u32),
    Dims(u8, u8, u32),
}
pub struct C21;
impl Check for C21 {
    const ID: &'static str = "C21";
    type Case = ParamCase;
    const CASES: (u64, u64) = (600_000, 24_000_000);
    const RULE: &'static str = "a case is either one of 20 valid parameter choices (the corners of the allowed region and some inside, nodes of up to 600 children) with a history of insertions, removals and queries compared with the lattice oracle and node sizes compared with the limits, or one of 19 invalid choices or 3 point types of fewer than two dimensions, created empty, by default or by bulk loading any number of points, which must panic; every invalid choice is tried in the first cases in every way; non-trivial: the tree gets more than one level, or creation was rejected; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["parameters are compile-time constants, so the grid is fixed"];
    fn gen(s: &mut Src, idx: u64) -> ParamCase {
        let n = INVALID.len() as u64;
        // first every invalid choice in every way
        match s.draw_with(2, |r| if idx < n * 6 { 1 } else if idx < n * 6 + 18 { 2 } else if r.below(50) == 0 { 1 } else { 0 }) {
            1 => {
                let i = s.draw_with(n - 1, |r| if idx < n * 6 { idx % n } else { r.below(n) });
                let how = s.draw_with(2, |r| if idx < n * 6 { (idx / n).min(2) } else { r.below(3) });
                let k = s.draw_with(300, |r| if idx < n * 6 { [0, 0, 0, 1, 7, 200][(idx / n) as usize] } else { r.below(300) });
                ParamCase::Reject(i as usize, how as u8, k as u32)
            }
            2 => {
                let j = idx.wrapping_sub(n * 6);
                ParamCase::Dims(
                    s.draw_with(2, |_| j % 3) as u8,
                    s.draw_with(2, |_| (j / 3).min(2)) as u8,
                    s.draw_with(300, |_| [0, 0, 0, 1, 7, 200][(j / 3 % 6) as usize]) as u32,
                )
            }
            _ => {
                let mut i = s.below(VALID.len());
                // large nodes take time
                if VALID[i].1 >= 300 && !s.chance(1, 4) {
                    i -= 8;
                }
                let span = [2, 10, 100, 1000][s.below(4)];
                let big = match VALID[i].1 {
                    0..=20 => 250,
                    21..=127 => 900,
                    _ => 1800,
                };
                let mut h = gen_hist(s, 2, span, big * if s.size > 1 { 3 } else { 1 }, 60);
                // inner nodes of several hundred children
                if VALID[i].1 == 300 && s.chance(1, 200) {
                    h.bulk = true;
                    h.init = vec![];
                    let n = 75_000 + s.upto(15_000) as u32;
                    h.pat = Some(Pattern { kind: 0, n, seed: s.upto(999) as u32, span: 1000, ext: 0 });
                }
                ParamCase::Accept(i, h)
            }
        }
    }
    fn run(c: &ParamCase, cov: &mut Cov) -> Result<(), String> {
        match c {
            ParamCase::Accept(i, h) => {
                cov.label("accepted");
                accept(*i, h, cov).map_err(|e| format!("parameters {:?}: {e}", VALID[*i]))
            }
            ParamCase::Reject(i, how, n) => {
                cov.label("rejected");
                cov.nontrivial = true;
                let v = (0..*n as i32).map(|k| [k, k / 2]).collect();
                if rejected(*i, *how, v) {
                    Ok(())
                } else {
                    Err(format!("parameters {:?} are accepted ({})", INVALID[*i], ["new", "default", "bulk load"][*how as usize]))
                }
            }
            ParamCase::Dims(w, how, n) => {
                cov.label("rejected dimensions");
                cov.nontrivial = true;
                if rejects_dim(*w, *how, *n as usize) {
                    Ok(())
                } else {
                    Err(format!("points of type {} are accepted ({how})", ["[i32; 1]", "(f64,)", "[f64; 0]"][*w as usize]))
                }
            }
        }
    }
}

rcheck::registry! {
    "C20" => C20,
    "C21" => C21,
}
