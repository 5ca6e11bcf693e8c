//! C19: wrapped objects against the objects they wrap, alone and in trees.

use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, ObjectRef, PointWithData, Rectangle};
use rstar::{Envelope, PointDistance, RTree, RTreeObject, AABB};
use serde::{Deserialize, Serialize};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::sync::Arc;

/// An object with its own ideas: its border is not inside, and those with tags from 3 on cannot be seen from afar.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct Odd {
    lo: [f64; 2],
    hi: [f64; 2],
    horizon: f64,
}
impl RTreeObject for Odd {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_corners(self.lo, self.hi)
    }
}
impl PointDistance for Odd {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        (0..2)
            .map(|i| {
                let d = (self.lo[i] - p[i]).max(p[i] - self.hi[i]).max(0.0);
                d * d
            })
            .sum()
    }
    fn contains_point(&self, p: &[f64; 2]) -> bool {
        (0..2).all(|i| self.lo[i] < p[i] && p[i] < self.hi[i])
    }
    fn distance_2_if_less_or_equal(&self, p: &[f64; 2], m: f64) -> Option<f64> {
        let d = self.distance_2(p);
        (d <= m && d < self.horizon).then_some(d)
    }
}
impl Geo for Odd {
    type P = [f64; 2];
    const KIND: Kind = Kind::Rect;
    fn build(e: &Elem, m: Mode) -> Self {
        let (l, h) = e.env(Kind::Rect);
        let st = m.step(false);
        Odd { lo: mk(&l, m), hi: mk(&h, m), horizon: if e.t >= 3 { [50.0, 1e9, 5000.0][e.t as usize % 3] * st * st } else { f64::INFINITY } }
    }
    fn dump(&self, f: &mut dyn FnMut(f64)) {
        self.lo.iter().chain(&self.hi).for_each(|v| f(*v))
    }
}

pub trait Obj<P: Pt>: PointDistance<Envelope = AABB<P>> {
    fn uid(&self) -> u32;
}
impl<G: Geo> Obj<G::P> for Item<G> {
    fn uid(&self) -> u32 {
        self.uid
    }
}
impl<P: Pt> PartialEq for dyn Obj<P> {
    fn eq(&self, o: &Self) -> bool {
        self.uid() == o.uid()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Ins(u32),
    RemEq(u32),
    RemAt(Co),
    RemSel(u32),
    Pop(Co),
    Drain(Win, bool),
    DrainWithin(Co, i64),
    In(Win, u8),
    Inter(Win, u8),
    At(Co, u8),
    Within(Co, i64),
    Nn(Co),
    NnIter(Co, u32),
    Nns(Co),
    Contains(u32),
    Join,
    All,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct WrapCase {
    pub geo: u8,
    pub form: u8,
    pub mode: Mode,
    pub bulk: bool,
    pub elems: Vec<Elem>,
    /// how many of the elements the tree starts with
    pub start: u32,
    pub probes: Vec<Co>,
    pub ops: Vec<WOp>,
}

#[derive(Clone, Copy)]
struct Spec {
    name: &'static str,
    /// attached data takes part in equality and identifies the element
    by_uid: bool,
    cached: bool,
}
fn key(uid: u32) -> u64 {
    mix(uid as u64 + 1)
}

fn drive<'a, G: Geo, W: PointDistance<Envelope = AABB<G::P>> + PartialEq + 'a>(
    items: &'a [Item<G>],
    c: &WrapCase,
    cov: &mut Cov,
    spec: Spec,
    make: impl Fn(&'a Item<G>) -> W,
    get: impl Fn(&W) -> (u32, Option<u64>),
) -> Result<(), String> {
    let m = c.mode;
    let inexact = G::KIND == Kind::Line;
    let p = |q: &Co| mk::<G::P>(q, m);
    let sq = |v: i64| R2::Sq(v).make::<<G::P as Pt>::S>(m);
    let uid = |w: &W| -> Result<u32, String> {
        match get(w) {
            (u, Some(d)) if d != key(u) => Err(format!("element {u} carries the data of another one")),
            (u, _) => Ok(u),
        }
    };
    // --- the object itself
    let creating = |i: u32| -> Result<W, String> {
        watch_start(0);
        let w = make(&items[i as usize]);
        let n = watch_stop().env_calls;
        if spec.cached && n != 1 {
            return Err(format!("creating the wrapper computes the envelope {n} times"));
        }
        uid(&w).and_then(|u| if u == i { Ok(w) } else { Err(format!("wrapper of element {i} holds {u}")) })
    };
    for (i, it) in items.iter().enumerate().take(12) {
        let w = creating(i as u32)?;
        let e = it.envelope();
        watch_start(0);
        let we = w.envelope();
        let got: Vec<_> = c
            .probes
            .iter()
            .map(|q| {
                let q = p(q);
                let d = w.distance_2(&q);
                (d, w.contains_point(&q), [d, num_traits::zero(), sq(9), e.distance_2(&q)].map(|x| w.distance_2_if_less_or_equal(&q, x)))
            })
            .collect();
        let n = watch_stop().env_calls;
        if we != e {
            return Err(format!("envelope {we:?} of element {i} instead of {e:?}"));
        }
        if spec.cached && n > 0 {
            return Err(format!("using the wrapper computes the envelope {n} times again"));
        }
        for (q, g) in c.probes.iter().zip(got) {
            let q = p(q);
            let d = it.distance_2(&q);
            let want = (d, it.contains_point(&q), [d, num_traits::zero(), sq(9), e.distance_2(&q)].map(|x| it.distance_2_if_less_or_equal(&q, x)));
            if g != want {
                return Err(format!("from {q:?} element {i} ({:?}) measures {g:?} instead of {want:?}", it.geom));
            }
        }
    }
    // --- trees
    type PA = rstar::DefaultParams;
    let start = (c.start as usize).min(items.len());
    let mut live: Vec<bool> = (0..items.len()).map(|i| i < start).collect();
    let mut plain: RTree<Item<G>, PA> = RTree::bulk_load_with_params(items[..start].to_vec());
    let first: Vec<W> = (0..start).map(|i| creating(i as u32)).collect::<Result<_, _>>()?;
    macro_rules! quiet {
        ($e:expr) => {{
            watch_start(0);
            let r = $e;
            let n = watch_stop().env_calls;
            if spec.cached && n > 0 {
                return Err(format!("the tree computes cached envelopes {n} times again"));
            }
            r
        }};
    }
    let mut t: RTree<W, PA> = quiet!(if c.bulk {
        RTree::bulk_load_with_params(first)
    } else {
        let mut t = RTree::new_with_params();
        first.into_iter().for_each(|w| t.insert(w));
        t
    });
    let ids = |v: Vec<&W>| -> Result<Vec<u32>, String> {
        let mut v = v.into_iter().map(uid).collect::<Result<Vec<_>, _>>()?;
        v.sort_unstable();
        Ok(v)
    };
    let close = |a: <G::P as Pt>::S, b: <G::P as Pt>::S| {
        if inexact {
            (a.f() - b.f()).abs() <= 1e-9 * (1.0 + a.f().abs())
        } else {
            a == b
        }
    };
    let mut hits = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let what = |s: String| format!("operation {k} ({op:?}): {s}");
        // takes element `u`, which left the wrapped tree, out of the plain one
        let gone = |plain: &mut RTree<Item<G>, PA>, live: &mut Vec<bool>, u: u32| {
            if !std::mem::replace(&mut live[u as usize], false) {
                return Err(what(format!("element {u} comes out but is not stored")));
            }
            let it = &items[u as usize];
            let r = plain.remove_with_selection_function(ByUid(it.envelope(), u)).map(|i| i.uid);
            if r == Some(u) { Ok(()) } else { Err(what(format!("the plain tree has lost {u}: {r:?}"))) }
        };
        let same = |g: Vec<u32>, want: Vec<u32>| {
            let mut w = want;
            w.sort_unstable();
            if g == w { Ok(w.len()) } else { Err(what(format!("{g:?} instead of {w:?}"))) }
        };
        match op {
            WOp::Ins(i) => {
                let i = *i as usize % items.len();
                if !live[i] {
                    let w = creating(i as u32)?;
                    quiet!(t.insert(w));
                    plain.insert(items[i].clone());
                    live[i] = true;
                }
            }
            WOp::RemEq(i) => {
                let i = *i as usize % items.len();
                let equal = |j: usize| items[i] == items[j] && (!spec.by_uid || i == j);
                let there = (0..items.len()).any(|j| live[j] && equal(j));
                let w = creating(i as u32)?;
                if quiet!(t.contains(&w)) != there {
                    return Err(what(format!("contains is {}", !there)));
                }
                match quiet!(t.remove(&w)) {
                    Some(w) => {
                        let u = uid(&w)?;
                        if !equal(u as usize) {
                            return Err(what(format!("removed {u}, which is not equal")));
                        }
                        gone(&mut plain, &mut live, u)?;
                    }
                    None if !there => {}
                    None => return Err(what("nothing removed".into())),
                }
            }
            WOp::RemAt(q) => {
                let there = plain.locate_at_point(p(q)).is_some();
                match quiet!(t.remove_at_point(p(q))) {
                    Some(w) => {
                        let u = uid(&w)?;
                        if !items[u as usize].contains_point(&p(q)) {
                            return Err(what(format!("removed {u}, which is not there")));
                        }
                        gone(&mut plain, &mut live, u)?;
                    }
                    None if !there => {}
                    None => return Err(what("nothing removed".into())),
                }
            }
            WOp::RemSel(i) => {
                let i = *i as usize % items.len();
                let f = WByUid(items[i].envelope(), i as u32, &get);
                let r = quiet!(t.remove_with_selection_function(f));
                match r {
                    Some(w) => {
                        let u = uid(&w)?;
                        if u as usize != i {
                            return Err(what(format!("removed {u}")));
                        }
                        gone(&mut plain, &mut live, u)?;
                    }
                    None if !live[i] => {}
                    None => return Err(what("nothing removed".into())),
                }
            }
            WOp::Pop(q) => {
                let d = plain.nearest_neighbor_with_distance_2(p(q)).map(|x| x.1);
                match (quiet!(t.pop_nearest_neighbor(p(q))), d) {
                    (Some(w), Some(d)) => {
                        let u = uid(&w)?;
                        let g = items[u as usize].distance_2(&p(q));
                        if !close(g, d) {
                            return Err(what(format!("popped {u} at {g:?} instead of {d:?}")));
                        }
                        gone(&mut plain, &mut live, u)?;
                    }
                    (None, None) => {}
                    (_, d) => return Err(what(format!("popped or not, with nearest {d:?}"))),
                }
            }
            WOp::Drain(win, inter) => {
                let want: Vec<u32> = if *inter {
                    plain.drain_in_envelope_intersecting(win.make(m)).map(|i| i.uid).collect()
                } else {
                    plain.drain_in_envelope(win.make(m)).map(|i| i.uid).collect()
                };
                let got: Vec<W> = quiet!(if *inter {
                    t.drain_in_envelope_intersecting(win.make(m)).collect()
                } else {
                    t.drain_in_envelope(win.make(m)).collect()
                });
                want.iter().for_each(|u| live[*u as usize] = false);
                same(ids(got.iter().collect())?, want)?;
            }
            WOp::DrainWithin(q, r) => {
                let want: Vec<u32> = plain.drain_within_distance(p(q), sq(*r)).map(|i| i.uid).collect();
                let got: Vec<W> = quiet!(t.drain_within_distance(p(q), sq(*r)).collect());
                want.iter().for_each(|u| live[*u as usize] = false);
                same(ids(got.iter().collect())?, want)?;
            }
            WOp::In(win, f) => {
                let w = || win.make::<G::P>(m);
                let mut v: Vec<&W> = vec![];
                quiet!(match f {
                    0 => v.extend(t.locate_in_envelope(w())),
                    1 => v.extend(t.locate_in_envelope_mut(w()).map(|x| &*x)),
                    _ => {
                        let _ = t.locate_in_envelope_int(w(), |x| {
                            v.push(x);
                            ControlFlow::<()>::Continue(())
                        });
                    }
                });
                hits += same(ids(v)?, plain.locate_in_envelope(w()).map(|i| i.uid).collect())?;
            }
            WOp::Inter(win, f) => {
                let w = || win.make::<G::P>(m);
                let mut v: Vec<&W> = vec![];
                quiet!(match f {
                    0 => v.extend(t.locate_in_envelope_intersecting(w())),
                    1 => v.extend(t.locate_in_envelope_intersecting_mut(w()).map(|x| &*x)),
                    _ => {
                        let _ = t.locate_in_envelope_intersecting_int(w(), |x| {
                            v.push(x);
                            ControlFlow::<()>::Continue(())
                        });
                    }
                });
                hits += same(ids(v)?, plain.locate_in_envelope_intersecting(w()).map(|i| i.uid).collect())?;
            }
            WOp::At(q, f) => {
                let want: Vec<u32> = plain.locate_all_at_point(p(q)).map(|i| i.uid).collect();
                if *f >= 3 {
                    let g = quiet!(if *f == 3 { t.locate_at_point(p(q)) } else { t.locate_at_point_int(p(q)) });
                    let g = g.map(uid).transpose()?;
                    if g.is_some() != !want.is_empty() || g.is_some_and(|g| !want.contains(&g)) {
                        return Err(what(format!("{g:?}, one of {want:?} is expected")));
                    }
                    continue;
                }
                let mut v: Vec<&W> = vec![];
                quiet!(match f {
                    0 => v.extend(t.locate_all_at_point(p(q))),
                    1 => v.extend(t.locate_all_at_point_mut(p(q)).map(|x| &*x)),
                    _ => {
                        let _ = t.locate_all_at_point_int(p(q), |x| {
                            v.push(x);
                            ControlFlow::<()>::Continue(())
                        });
                    }
                });
                hits += same(ids(v)?, want)?;
            }
            WOp::Within(q, r) => {
                let want: Vec<u32> = plain.locate_within_distance(p(q), sq(*r)).map(|i| i.uid).collect();
                let v = quiet!(t.locate_within_distance(p(q), sq(*r)).collect());
                hits += same(ids(v)?, want)?;
            }
            WOp::Nn(q) => {
                let d = plain.nearest_neighbor_with_distance_2(p(q)).map(|x| x.1);
                let a = quiet!(t.nearest_neighbor_with_distance_2(p(q)));
                let b = quiet!(t.nearest_neighbor(p(q)));
                match (a, b, d) {
                    (None, None, None) => {}
                    (Some((a, ad)), Some(b), Some(d)) => {
                        let (a, b) = (uid(a)?, uid(b)?);
                        let da = items[a as usize].distance_2(&p(q));
                        if da != ad || !close(ad, d) || !close(items[b as usize].distance_2(&p(q)), d) {
                            return Err(what(format!("{a} at {ad:?} and {b}, the nearest is at {d:?}")));
                        }
                        hits += 1;
                    }
                    _ => return Err(what("one tree has no nearest neighbour".into())),
                }
            }
            WOp::NnIter(q, n) => {
                let n = if *n > 40 { usize::MAX } else { *n as usize };
                let want: Vec<_> = plain.nearest_neighbor_iter_with_distance_2(p(q)).take(n).collect();
                let got: Vec<_> = quiet!(t.nearest_neighbor_iter_with_distance_2(p(q)).take(n).collect());
                if want.len() != got.len() {
                    return Err(what(format!("{} instead of {} elements", got.len(), want.len())));
                }
                for ((w, d), (_, e)) in got.iter().zip(&want) {
                    let u = uid(w)?;
                    if items[u as usize].distance_2(&p(q)) != *d || !close(*d, *e) {
                        return Err(what(format!("{u} at {d:?} instead of {e:?}")));
                    }
                }
                if n == usize::MAX {
                    same(ids(got.iter().map(|x| x.0).collect())?, want.iter().map(|x| x.0.uid).collect())?;
                }
            }
            WOp::Nns(q) if !inexact => {
                let want: Vec<u32> = plain.nearest_neighbors(&p(q)).into_iter().map(|i| i.uid).collect();
                let v = quiet!(t.nearest_neighbors(&p(q)));
                hits += same(ids(v)?, want)?;
            }
            WOp::Nns(_) => {}
            WOp::Contains(i) => {
                let i = *i as usize % items.len();
                let there = (0..items.len()).any(|j| live[j] && items[i] == items[j] && (!spec.by_uid || i == j));
                let w = creating(i as u32)?;
                if quiet!(t.contains(&w)) != there {
                    return Err(what(format!("contains is {}", !there)));
                }
            }
            WOp::Join => {
                let mut want: Vec<(u32, u32)> =
                    plain.intersection_candidates_with_other_tree(&plain).map(|(a, b)| (a.uid, b.uid)).collect();
                let mut got = quiet!(t.intersection_candidates_with_other_tree(&t).collect::<Vec<_>>())
                    .into_iter()
                    .map(|(a, b)| Ok((uid(a)?, uid(b)?)))
                    .collect::<Result<Vec<_>, String>>()?;
                want.sort_unstable();
                got.sort_unstable();
                if got != want {
                    return Err(what(format!("{} instead of {} pairs, or others", got.len(), want.len())));
                }
            }
            WOp::All => {
                let v = quiet!(t.iter().collect());
                same(ids(v)?, (0..items.len() as u32).filter(|i| live[*i as usize]).collect())?;
            }
        }
        if t.size() != plain.size() {
            return Err(what(format!("size {} instead of {}", t.size(), plain.size())));
        }
    }
    let left = t.size();
    let rest: Vec<W> = quiet!(t.into_iter().collect());
    if ids(rest.iter().collect())? != (0..items.len() as u32).filter(|i| live[*i as usize]).collect::<Vec<_>>() {
        return Err("final content differs".into());
    }
    cov.nontrivial = (hits > 0 || c.geo == 5) && start.max(left) > 5;
    cov.label(spec.name);
    Ok(())
}
struct ByUid<P: Pt>(AABB<P>, u32);
impl<G: Geo> rstar::SelectionFunction<Item<G>> for ByUid<G::P> {
    fn should_unpack_parent(&self, e: &AABB<G::P>) -> bool {
        e.contains_envelope(&self.0)
    }
    fn should_unpack_leaf(&self, i: &Item<G>) -> bool {
        i.uid == self.1
    }
}
struct WByUid<'f, P: Pt, F>(AABB<P>, u32, &'f F);
impl<P: Pt, W: RTreeObject<Envelope = AABB<P>>, F: Fn(&W) -> (u32, Option<u64>)> rstar::SelectionFunction<W> for WByUid<'_, P, F> {
    fn should_unpack_parent(&self, e: &AABB<P>) -> bool {
        e.contains_envelope(&self.0)
    }
    fn should_unpack_leaf(&self, i: &W) -> bool {
        (self.2)(i).0 == self.1
    }
}

const CORE: usize = 6;
const FORMS_N: usize = 15;
fn items<G: Geo>(c: &WrapCase) -> Vec<Item<G>> {
    c.elems
        .iter()
        .enumerate()
        .map(|(i, e)| Item { geom: G::build(e, c.mode), tag: e.t, uid: i as u32, payload: 0 })
        .collect()
}
macro_rules! form {
    ($c:ident, $cov:ident, $items:ident, $name:literal, $by:literal, $cached:literal, $make:expr, $get:expr) => {
        drive(&$items, $c, $cov, Spec { name: $name, by_uid: $by, cached: $cached }, $make, $get)
    };
}
type It<G> = Item<G>;
/// The plain wrappers.
fn run_core<G: Geo>(c: &WrapCase, cov: &mut Cov) -> Result<(), String> {
    let items = items::<G>(c);
    match c.form {
        0 => form!(c, cov, items, "GeomWithData", true, false, |i: &It<G>| GeomWithData::new(i.clone(), key(i.uid)), |w| (w.geom().uid, Some(w.data))),
        1 => form!(c, cov, items, "CachedEnvelope", false, true, |i: &It<G>| CachedEnvelope::new(i.clone()), |w| (w.uid, None)),
        2 => form!(c, cov, items, "ObjectRef", false, false, |i| ObjectRef::new(i), |w: &ObjectRef<It<G>>| (w.uid, None)),
        3 => form!(c, cov, items, "Arc", false, false, |i: &It<G>| Arc::new(i.clone()), |w| (w.uid, None)),
        4 => form!(c, cov, items, "Rc", false, false, |i: &It<G>| Rc::new(i.clone()), |w| (w.uid, None)),
        _ => form!(
            c,
            cov,
            items,
            "GeomWithData of CachedEnvelope",
            true,
            true,
            |i: &It<G>| GeomWithData::new(CachedEnvelope::new(i.clone()), key(i.uid)),
            |w| (w.geom().uid, Some(w.data))
        ),
    }
}
/// Those and the nested ones.
fn run_all<G: Geo>(c: &WrapCase, cov: &mut Cov) -> Result<(), String> {
    let items = items::<G>(c);
    match c.form {
        0..=5 => run_core::<G>(c, cov),
        6 => form!(
            c,
            cov,
            items,
            "CachedEnvelope of GeomWithData",
            true,
            true,
            |i: &It<G>| CachedEnvelope::new(GeomWithData::new(i.clone(), key(i.uid))),
            |w| (w.geom().uid, Some(w.data))
        ),
        7 => form!(c, cov, items, "ObjectRef with data", true, false, |i| GeomWithData::new(ObjectRef::new(i), key(i.uid)), |w: &GeomWithData<
            ObjectRef<It<G>>,
            u64,
        >| (w.geom().uid, Some(w.data))),
        8 => form!(c, cov, items, "CachedEnvelope of Arc", false, true, |i: &It<G>| CachedEnvelope::new(Arc::new(i.clone())), |w| (w.uid, None)),
        9 => form!(c, cov, items, "Arc of CachedEnvelope", false, true, |i: &It<G>| Arc::new(CachedEnvelope::new(i.clone())), |w| (w.uid, None)),
        10 => form!(c, cov, items, "Rc of Arc of GeomWithData", true, false, |i: &It<G>| Rc::new(Arc::new(GeomWithData::new(i.clone(), key(i.uid)))), |w| (
            w.geom().uid,
            Some(w.data)
        )),
        11 => form!(c, cov, items, "ObjectRef with cached envelope", false, true, |i| CachedEnvelope::new(ObjectRef::new(i)), |w: &CachedEnvelope<
            ObjectRef<It<G>>,
        >| (w.uid, None)),
        12 => form!(
            c,
            cov,
            items,
            "GeomWithData of GeomWithData",
            true,
            false,
            |i: &It<G>| GeomWithData::new(GeomWithData::new(i.clone(), i.uid), key(i.uid)),
            |w| (w.geom().data, Some(w.data))
        ),
        13 => form!(
            c,
            cov,
            items,
            "Arc of a trait object",
            true,
            false,
            |i: &It<G>| {
                let a: Arc<dyn Obj<G::P>> = Arc::new(i.clone());
                a
            },
            |w| (w.uid(), None)
        ),
        _ => form!(
            c,
            cov,
            items,
            "Rc of a trait object",
            true,
            false,
            |i: &It<G>| {
                let a: Rc<dyn Obj<G::P>> = Rc::new(i.clone());
                a
            },
            |w| (w.uid(), None)
        ),
    }
}
#[allow(deprecated)]
fn run_pwd<P: Pt + Serialize + serde::de::DeserializeOwned>(c: &WrapCase, cov: &mut Cov) -> Result<(), String> {
    let items: Vec<Item<GPoint<P>>> = c
        .elems
        .iter()
        .enumerate()
        .map(|(i, e)| Item { geom: GPoint::build(e, c.mode), tag: 0, uid: i as u32, payload: 0 })
        .collect();
    let spec = Spec { name: "PointWithData", by_uid: true, cached: false };
    drive(
        &items,
        c,
        cov,
        spec,
        |i: &Item<GPoint<P>>| PointWithData::new((i.uid, key(i.uid)), i.geom.0.clone()),
        |w| {
            let u = w.data.0;
            let right = items.get(u as usize).is_some_and(|i| i.geom.0 == *w.position());
            (u, Some(if right { w.data.1 } else { 0 }))
        },
    )
}

pub struct C19;
impl Check for C19 {
    const ID: &'static str = "C19";
    type Case = WrapCase;
    const CASES: (u64, u64) = (2_500_000, 100_000_000);
    const RULE: &'static str = "a case is one of 16 wrappers (with data, cached, by reference, Arc, Rc, trait objects, nested, point with data) around points, rectangles, lines or an object with its own containment and visibility, probed directly at several points, and a tree of wrapped elements driven by insertions, removals, drains and queries next to a plain tree of the same elements; non-trivial: more than 5 elements and some query has a result; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] =
        &["trees are compared as sets of elements and by distances, ties may be broken differently"];
    fn gen(s: &mut Src, _: u64) -> WrapCase {
        let geo = [0, 1, 2, 2, 2, 3, 4, 5][s.below(8)];
        let form = if geo == 4 { 255 } else { s.below(if geo == 2 || geo == 5 { FORMS_N } else { CORE }) as u8 };
        let (cfg, kind) = [(1, Kind::Point), (2, Kind::Rect), (2, Kind::Rect), (12, Kind::Line), (0, Kind::Point), (2, Kind::Rect)][geo as usize];
        let mut g = Gen::for_cfg(s, cfg);
        debug_assert_eq!(g.kind, kind);
        if !g.mode.exact() {
            g.mode = Mode::Unit;
        }
        let size = s.size;
        let elems = s.list(400, |r| 1 + rlen(r, size).min(if size > 1 { 400 } else { 150 }), |s, _| g.elem(s));
        let elems = if elems.is_empty() { vec![g.elem(s)] } else { elems };
        let n = elems.len() as u64;
        let start = s.draw_with(n, |r| if r.below(3) > 0 { n } else { r.upto(n) }) as u32;
        let probes = (0..4).map(|_| g.pt(s)).collect();
        let r2 = |s: &mut Src, g: &Gen| {
            let m = [2, 5, 20, g.span as u64][s.below(4)];
            s.upto(m * m) as i64
        };
        let ops = s.list(
            60,
            |r| r.below(26) as usize,
            |s, _| match s.weighted(&[10, 4, 3, 3, 3, 2, 2, 3, 3, 4, 3, 4, 3, 3, 2, 1, 1]) {
                0 => WOp::Ins(s.upto(n) as u32),
                1 => WOp::RemEq(s.upto(n) as u32),
                2 => WOp::RemAt(g.pt(s)),
                3 => WOp::RemSel(s.upto(n) as u32),
                4 => WOp::Pop(g.pt(s)),
                5 => WOp::Drain(g.win(s), s.bool()),
                6 => WOp::DrainWithin(g.pt(s), r2(s, &g)),
                7 => WOp::In(g.win(s), s.upto(2) as u8),
                8 => WOp::Inter(g.win(s), s.upto(2) as u8),
                9 => WOp::At(g.pt(s), s.upto(4) as u8),
                10 => WOp::Within(g.pt(s), r2(s, &g)),
                11 => WOp::Nn(g.pt(s)),
                12 => WOp::NnIter(g.pt(s), s.upto(60) as u32),
                13 => WOp::Nns(g.pt(s)),
                14 => WOp::Contains(s.upto(n) as u32),
                15 => WOp::Join,
                _ => WOp::All,
            },
        );
        // searches rely on distances that the near-sighted objects do not report
        let ops = if geo == 5 { vec![] } else { ops };
        let mut elems = elems;
        if geo == 5 {
            elems.iter_mut().for_each(|e| e.t += 3);
        }
        WrapCase { geo, form, mode: g.mode, bulk: s.bool(), elems, start, probes, ops }
    }
    fn run(c: &WrapCase, cov: &mut Cov) -> Result<(), String> {
        match c.geo {
            0 => run_core::<GPoint<[i32; 2]>>(c, cov),
            1 => run_core::<Rectangle<[f64; 2]>>(c, cov),
            2 | 5 => run_all::<Odd>(c, cov),
            3 => run_core::<Line<[f64; 3]>>(c, cov),
            _ => run_pwd::<[f64; 2]>(c, cov),
        }
        .map_err(|e| format!("wrapper form {}: {e}", c.form))
    }
}

rcheck::registry! {
    "C19" => C19,
}
