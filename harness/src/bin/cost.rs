//! C24 and C25: work and memory follow the result and the contents.

use rcheck::alloc::{in_use, peak, reset_peak, Counting};
use rcheck::dyntree::*;
use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- what may be looked at

/// Marks the elements all of whose enclosing nodes satisfy `f` (the root counts as well if `top`).
fn allowed(root: &Node, n: usize, top: bool, f: &dyn Fn(&Node) -> bool) -> Vec<bool> {
    fn rec(n: &Node, f: &dyn Fn(&Node) -> bool, v: &mut [bool]) {
        for k in &n.kids {
            match k {
                Kid::Leaf(o) => v[o.uid as usize] = true,
                Kid::Node(n) => {
                    if f(n) {
                        rec(n, f, v)
                    }
                }
            }
        }
    }
    let mut v = vec![false; n];
    if !top || f(root) {
        rec(root, f, &mut v);
    }
    v
}
/// As above for removals, which may compute the envelope of any node again whose parent they enter:
/// elements held directly by a node that fails `f` count as well if all nodes around it pass.
fn allowed_removing(root: &Node, n: usize, f: &dyn Fn(&Node) -> bool) -> Vec<bool> {
    fn rec(n: &Node, f: &dyn Fn(&Node) -> bool, v: &mut [bool]) {
        let enter = f(n);
        for k in &n.kids {
            match k {
                Kid::Leaf(o) => v[o.uid as usize] = true,
                Kid::Node(n) if enter => rec(n, f, v),
                Kid::Node(_) => {}
            }
        }
    }
    let mut v = vec![false; n];
    rec(root, f, &mut v);
    v
}
fn meets(n: &Node, lo: &[f64], hi: &[f64]) -> bool {
    (0..lo.len()).all(|i| lo[i] <= n.hi[i] && n.lo[i] <= hi[i])
}
fn env_d2(n: &Node, p: &[f64]) -> f64 {
    (0..p.len())
        .map(|i| {
            let x = (n.lo[i] - p[i]).max(0.0).max(p[i] - n.hi[i]);
            x * x
        })
        .sum()
}
fn longest(n: &Node) -> usize {
    n.kids
        .iter()
        .map(|k| match k {
            Kid::Leaf(_) => 0,
            Kid::Node(n) => longest(n),
        })
        .max()
        .unwrap_or(0)
        .max(n.kids.len())
}
fn pt_f(sp: &Space, p: &Co) -> Vec<f64> {
    (0..p.d()).map(|i| sp.x(p[i])).collect()
}
fn win_f(sp: &Space, w: &Win) -> Option<(Vec<f64>, Vec<f64>)> {
    w.lo_hi().map(|(l, h)| (pt_f(sp, &l), pt_f(sp, &h)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Query(Q, Form, Option<u32>),
    AtOne(Co, Form),
    Contains(Elem),
    Nn(Co, bool),
    Nns(Co),
    NnIter(Co, u32),
    RemEq(Elem),
    RemAt(Co),
    Pop(Co),
    Drain(Q, Option<u32>),
    Ins(Elem),
    Join,
    /// with a tree of that many of the elements; whether that tree comes first
    JoinFew(u32, bool),
    /// bulk load everything again
    Rebuild,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CostCase {
    /// any tree, any operations: nothing outside promising nodes is looked at
    Acts(Recipe, Vec<Act>),
    /// evenly spread data: few elements are looked at
    Spread { cfg: usize, n: u32, seed: u32, how: How, points: u32 },
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum How {
    Bulk,
    Insert,
    /// half bulk loaded, the rest inserted
    Mixed,
    /// inserted, then half of it removed again
    Thinned,
}

struct Judge {
    /// fewest elements some question left out
    pruned: bool,
}
impl Judge {
    fn check(&mut self, what: &str, s: &Watched, ok: &[bool], live: usize, cov: &mut Cov) -> Result<(), String> {
        let may = ok.iter().filter(|x| **x).count();
        for (u, x) in s.seen.iter().enumerate() {
            if *x != 0 && !ok[u] {
                return Err(format!(
                    "{what}: element #{u} is examined although a node around it cannot contribute; {} of {live} elements examined, {may} are below promising nodes",
                    s.distinct()
                ));
            }
        }
        let calls = s.env_calls + s.dist_calls;
        let bound = 8 * may as u64 + 64;
        if calls > bound {
            return Err(format!("{what}: {calls} questions to elements, of which only {may} are below promising nodes"));
        }
        if may < live {
            self.pruned = true;
        }
        cov.count("elements examined by searches", s.distinct() as u64);
        cov.count("elements stored during searches", live as u64);
        Ok(())
    }
}

/// A radius that every computed distance up to the given ones stays below.
fn slack(sp: &Space, v: f64) -> f64 {
    let rel = if sp.f32_ { 1e-5 } else { 1e-12 };
    v * (1.0 + rel)
}
fn act(w: &mut World, a: &Act, j: &mut Judge, cov: &mut Cov) -> Result<(), String> {
    let root = w.tree.walk();
    let sp = w.sp;
    let n = w.m.len();
    let live = w.alive;
    let log = RefCell::new(SelLog::default());
    let q_rule = |q: &Q, what: &str, w: &World, s: &Watched, removing: bool, j: &mut Judge, cov: &mut Cov| -> Result<(), String> {
        let allow = |f: &dyn Fn(&Node) -> bool| {
            if removing {
                allowed_removing(&root, n, f)
            } else {
                allowed(&root, n, true, f)
            }
        };
        let ok = match q {
            Q::All => vec![true; n],
            Q::In(x) | Q::Inter(x) => match win_f(&sp, x) {
                Some((lo, hi)) => allow(&|m| meets(m, &lo, &hi)),
                None => allow(&|_| false),
            },
            Q::At(p) => {
                let p = pt_f(&sp, p);
                allow(&|m| meets(m, &p, &p))
            }
            Q::Within(p, r) => {
                let r = slack(&sp, r.val(&sp));
                let p = pt_f(&sp, p);
                allow(&|m| env_d2(m, &p) <= r)
            }
            Q::Sel(x) => allow(&|m| x.parent(&m.lo, &m.hi, &sp)),
        };
        j.check(what, s, &ok, w.alive.max(live), cov)
    };
    let env_of = |e: &Elem| {
        let (l, h) = e.env(sp.kind);
        (pt_f(&sp, &l), pt_f(&sp, &h))
    };
    // true distance of an element, an upper bound
    let far = |w: &World, u: u32, p: &Co| w.sp.dist2(&w.m[u as usize].e, p).1;
    match a {
        Act::Query(q, f, stop) => {
            watch_start(n);
            let r = w.tree.query(q, *f, stop.map(|x| x as usize), 0, &log);
            let s = watch_stop();
            cov.count("elements found", r.outs.len() as u64);
            q_rule(q, &format!("query {q:?} ({f:?})"), w, &s, false, j, cov)
        }
        Act::AtOne(p, f) => {
            watch_start(n);
            w.tree.at_one(p, *f);
            let s = watch_stop();
            q_rule(&Q::At(*p), &format!("single element at {p:?} ({f:?})"), w, &s, false, j, cov)
        }
        Act::Contains(e) => {
            watch_start(n);
            w.tree.contains(e);
            let s = watch_stop();
            let (lo, hi) = env_of(e);
            let ok = allowed(&root, n, true, &|m| meets(m, &lo, &hi));
            j.check(&format!("contains {e:?}"), &s, &ok, live, cov)
        }
        Act::Nn(p, plain) => {
            watch_start(n);
            let u = if *plain { w.tree.nn_plain(p).map(|o| o.uid) } else { w.tree.nn(p).map(|x| x.0.uid) };
            let s = watch_stop();
            let Some(u) = u else { return Ok(()) };
            let r = slack(&sp, far(w, u, p));
            let x = pt_f(&sp, p);
            let ok = allowed(&root, n, false, &|m| env_d2(m, &x) <= r);
            j.check(&format!("nearest neighbour of {p:?}"), &s, &ok, live, cov)
        }
        Act::Nns(p) => {
            watch_start(n);
            let outs = w.tree.nns(p).map(|x| x.0).unwrap_or_default();
            let s = watch_stop();
            // it has to see the first element that is farther
            let mut inside = vec![false; n];
            outs.iter().for_each(|o| inside[o.uid as usize] = true);
            let next = w.live().filter(|(u, _)| !inside[*u as usize]).map(|(u, _)| far(w, u, p)).fold(f64::INFINITY, f64::min);
            let r = slack(&sp, next);
            let x = pt_f(&sp, p);
            let ok = allowed(&root, n, false, &|m| env_d2(m, &x) <= r);
            j.check(&format!("all nearest neighbours of {p:?}"), &s, &ok, live, cov)
        }
        Act::NnIter(p, k) => {
            let k = *k as usize;
            watch_start(n);
            let outs = w.tree.nn_iter(p, Some(k));
            let s = watch_stop();
            let r = if outs.len() < k {
                f64::INFINITY
            } else {
                outs.iter().map(|o| far(w, o.0.uid, p)).fold(-1.0, f64::max)
            };
            let r = slack(&sp, r);
            let x = pt_f(&sp, p);
            let ok = allowed(&root, n, false, &|m| env_d2(m, &x) <= r);
            j.check(&format!("the first {k} by distance from {p:?}"), &s, &ok, live, cov)
        }
        Act::RemEq(e) => {
            watch_start(n);
            let o = w.tree.remove_eq(e);
            let s = watch_stop();
            let (lo, hi) = env_of(e);
            let ok = allowed_removing(&root, n, &|m| meets(m, &lo, &hi));
            if let Some(o) = o {
                w.kill(&o);
            }
            j.check(&format!("remove {e:?}"), &s, &ok, live, cov)
        }
        Act::RemAt(p) => {
            watch_start(n);
            let o = w.tree.remove_at(p);
            let s = watch_stop();
            if let Some(o) = o {
                w.kill(&o);
            }
            q_rule(&Q::At(*p), &format!("remove at {p:?}"), w, &s, true, j, cov)
        }
        Act::Pop(p) => {
            watch_start(n);
            let o = w.tree.pop(p);
            let s = watch_stop();
            let Some(o) = o else { return Ok(()) };
            let (lo, hi) = env_of(&w.m[o.uid as usize].e);
            let r = slack(&sp, far(w, o.uid, p));
            let x = pt_f(&sp, p);
            let mut ok = allowed(&root, n, false, &|m| env_d2(m, &x) <= r);
            let other = allowed_removing(&root, n, &|m| meets(m, &lo, &hi));
            ok.iter_mut().zip(other).for_each(|(a, b)| *a |= b);
            w.kill(&o);
            j.check(&format!("pop nearest to {p:?}"), &s, &ok, live, cov)
        }
        Act::Drain(q, take) => {
            let got = RefCell::new(vec![]);
            watch_start(n);
            w.tree.drain(q, take.map(|t| t as usize), End::Drop, &log, &got);
            let s = watch_stop();
            got.borrow().iter().for_each(|o| w.kill(o));
            w.removed();
            q_rule(q, &format!("drain {q:?}"), w, &s, true, j, cov)
        }
        Act::Ins(e) => {
            watch_start(n + 1);
            w.insert(e);
            let s = watch_stop();
            let len = longest(&root).max(w.cfg.max) + 2;
            let r = w.cfg.reins + 2;
            let (seen, calls) = (s.distinct(), s.env_calls + s.dist_calls);
            let d = w.cfg.dims;
            let lg = usize::BITS as usize - len.leading_zeros() as usize;
            // one node is reinserted from, and each reinserted element may split another one
            if seen > r * len {
                return Err(format!("insert {e:?}: {seen} of {live} elements examined, nodes hold at most {len}"));
            }
            let bound = r * (d + 1) * (2 * len * len + 4 * lg * len) + 64;
            if calls > bound as u64 {
                return Err(format!("insert {e:?}: {calls} questions to elements, nodes hold at most {len}"));
            }
            if live > r * len {
                j.pruned = true;
            }
            cov.count("elements examined by insertions", seen as u64);
            Ok(())
        }
        // a join may have as many results as there are pairs
        Act::Join if live > 2000 => Ok(()),
        Act::Join => {
            let pairs = join(w, &root, None, false, cov)?;
            if (pairs as usize) < live * live {
                j.pruned = true;
            }
            Ok(())
        }
        Act::JoinFew(few, _) if live * *few as usize > 40_000 => Ok(()),
        Act::JoinFew(few, flip) => {
            let pairs = join(w, &root, Some(*few as usize), *flip, cov)?;
            if (pairs as usize) < live {
                j.pruned = true;
            }
            Ok(())
        }
        Act::Rebuild => {
            let v: Vec<(Elem, u32, u64)> = w.live().map(|(u, m)| (m.e, u, m.payload)).collect();
            watch_start(n);
            let t = w.tree.fresh_bulk(&v);
            let s = watch_stop();
            let calls = s.env_calls + s.dist_calls;
            w.tree = t;
            w.pure_bulk = true;
            w.widest.set(None);
            bulk_bound(v.len(), calls, &w.cfg, cov)
        }
    }
}
/// Joins the tree with a copy of itself, or with a smaller tree of `few` of its elements, as the
/// second or (`flip`) the first tree. In pairs of nodes that intersect, every child may meet every
/// child; nothing else may be looked at.
fn join(w: &World, root: &Node, few: Option<usize>, flip: bool, cov: &mut Cov) -> Result<u64, String> {
    let sp = w.sp;
    let n = w.m.len();
    let live = w.alive;
    fn env(k: &Kid, w: &World, sp: &Space) -> (Vec<f64>, Vec<f64>) {
        match k {
            Kid::Node(n) => (n.lo.clone(), n.hi.clone()),
            Kid::Leaf(o) => {
                let (l, h) = w.m[o.uid as usize].e.env(sp.kind);
                (pt_f(sp, &l), pt_f(sp, &h))
            }
        }
    }
    fn rec(a: &Kid, b: &Kid, w: &World, sp: &Space) -> u64 {
        fn kids(k: &Kid) -> &[Kid] {
            match k {
                Kid::Node(n) => &n.kids,
                l => std::slice::from_ref(l),
            }
        }
        if let (Kid::Leaf(_), Kid::Leaf(_)) = (a, b) {
            return 0;
        }
        let (ka, kb) = (kids(a), kids(b));
        let mut t = (ka.len() + kb.len() + 2 * ka.len() * kb.len()) as u64;
        let eb: Vec<_> = kb.iter().map(|y| env(y, w, sp)).collect();
        for x in ka {
            let (lo, hi) = env(x, w, sp);
            for (y, (l, h)) in kb.iter().zip(&eb) {
                if (0..lo.len()).all(|i| lo[i] <= h[i] && l[i] <= hi[i]) {
                    t += rec(x, y, w, sp);
                }
            }
        }
        t
    }
    let o = match few {
        None => w.tree.clone_box(),
        Some(k) => {
            let v: Vec<(Elem, u32, u64)> = w.live().map(|(u, m)| (m.e, u, m.payload)).collect();
            let step = (v.len() / k.max(1)).max(1);
            let v: Vec<_> = v.into_iter().skip(step / 2).step_by(step).take(k).collect();
            w.tree.fresh_bulk(&v)
        }
    };
    let me = Kid::Node(root.clone());
    let it = Kid::Node(o.walk());
    let bound = if live == 0 || o.size() == 0 {
        16
    } else if flip {
        rec(&it, &me, w, &sp)
    } else {
        rec(&me, &it, w, &sp)
    };
    let mut pairs = 0u64;
    watch_start(n);
    if flip {
        o.join(&*w.tree, &mut |_, _| pairs += 1);
    } else {
        w.tree.join(&*o, &mut |_, _| pairs += 1);
    }
    let s = watch_stop();
    let calls = s.env_calls + s.dist_calls;
    if std::env::var("COST_DEBUG").is_ok() {
        eprintln!("JOIN live {live} few {few:?} flip {flip} calls {calls} bound {bound}");
    }
    if calls > 3 * bound + 64 {
        return Err(format!(
            "join of {live} and {} elements: {calls} questions to elements for {pairs} pairs, {bound} expected at most in intersecting nodes",
            o.size()
        ));
    }
    cov.label(if few.is_none() { "join" } else { "join of trees of different size" });
    Ok(pairs)
}
/// Bulk loading cuts into slabs along every axis, again and again, each time in linear time.
fn bulk_bound(n: usize, calls: u64, cfg: &Cfg, cov: &mut Cov) -> Result<(), String> {
    let lg = (usize::BITS - n.leading_zeros()) as f64;
    let clusters = (cfg.max as f64).powf(1.0 / cfg.dims as f64).ceil().max(2.0);
    let bound = n as f64 * (lg + cfg.dims as f64) * (clusters / 2.0).max(1.0) * BULK + 64.0;
    if std::env::var("COST_DEBUG").is_ok() {
        eprintln!("BULK n {n} cfg {} ratio {:.3}", cfg.name, calls as f64 / bound * BULK);
    }
    cov.count("bulk loads", 1);
    if calls as f64 > bound {
        return Err(format!("bulk loading {n} elements asks them {calls} times"));
    }
    Ok(())
}
const BULK: f64 = 24.0;

// ---------------------------------------------------------------- evenly spread data

fn spread(cfg: usize, n: u32, seed: u32, how: How, points: u32, cov: &mut Cov) -> Result<(), String> {
    let c = CFGS[cfg];
    let mut r = Rng::new(seed as u64 ^ 0xC057_0000_0000);
    let lim = c.lim.min(1000);
    let span = lim as i64;
    let co = |r: &mut Rng| Co::from_fn(c.dims, |_| (r.below(2 * span as u64 + 1) as i64 - span) as i32);
    let elems: Vec<Elem> = (0..n)
        .map(|_| {
            let a = co(&mut r);
            let b = match c.kind {
                Kind::Point => a,
                Kind::Circle => Co::from_fn(c.dims, |_| 2),
                _ => Co::from_fn(c.dims, |i| (a[i] + r.below(7) as i32 - 3).clamp(-lim, lim)),
            };
            Elem { a, b, t: 0 }
        })
        .collect();
    let n = n as usize;
    let mut w = match how {
        How::Bulk => {
            watch_start(n);
            let w = World::bulk(cfg, Mode::Unit, &elems);
            let s = watch_stop();
            bulk_bound(n, s.env_calls + s.dist_calls, &c, cov)?;
            w
        }
        How::Insert => {
            let mut w = World::new(cfg, Mode::Unit);
            elems.iter().for_each(|e| {
                w.insert(e);
            });
            w
        }
        How::Mixed => {
            let mut w = World::bulk(cfg, Mode::Unit, &elems[..n / 2]);
            elems[n / 2..].iter().for_each(|e| {
                w.insert(e);
            });
            w
        }
        How::Thinned => {
            let mut w = World::new(cfg, Mode::Unit);
            elems.iter().for_each(|e| {
                w.insert(e);
            });
            for e in elems.iter().step_by(2) {
                if let Some(o) = w.tree.remove_eq(e) {
                    w.kill(&o);
                }
            }
            w
        }
    };
    let log = RefCell::new(SelLog::default());
    // windows expected to hold 0, 10 and 100 elements
    let total = w.m.len();
    let report = |what: &'static str, results: f64, seen: f64| -> Result<(), String> {
        let (fixed, per) = few(&c);
        let bound = fixed + per * results;
        if std::env::var("COST_DEBUG").is_ok() {
            eprintln!("SPREAD {} {how:?} n {n} {what}: results {results:.1} seen {seen:.1} ratio {:.3}", c.name, seen / bound);
        }
        if seen > bound {
            return Err(format!(
                "on {n} evenly spread elements ({how:?}), {what} look at {seen:.1} elements on average for {results:.1} results; at most {bound:.0} expected"
            ));
        }
        Ok(())
    };
    let k = points as usize;
    let pts: Vec<Co> = (0..k).map(|_| co(&mut r)).collect();
    let avg = |v: usize| v as f64 / k as f64;
    for (name, want) in [("small windows", 1.0), ("windows", 10.0), ("large windows", 100.0)] {
        let side = ((want / w.alive.max(1) as f64).powf(1.0 / c.dims as f64) * span as f64).round() as i32;
        let (mut seen, mut res) = (0, 0);
        for p in &pts {
            let x = Win::Box(Co::from_fn(c.dims, |i| p[i] - side), Co::from_fn(c.dims, |i| p[i] + side));
            watch_start(total);
            res += w.tree.query(&Q::Inter(x), Form::Iter, None, 0, &log).outs.len();
            seen += watch_stop().distinct();
        }
        report(name, avg(res), avg(seen))?;
    }
    let (mut seen, mut res) = (0, 0);
    for i in 0..k {
        let p = if i % 2 == 0 { pts[i] } else { elems[i * 37 % n].a };
        watch_start(total);
        res += w.tree.query(&Q::At(p), Form::Iter, None, 0, &log).outs.len();
        seen += watch_stop().distinct();
    }
    report("point queries", avg(res), avg(seen))?;
    let mut seen = 0;
    for p in &pts {
        watch_start(total);
        w.tree.nn(p);
        seen += watch_stop().distinct();
    }
    report("nearest neighbour queries", 1.0, avg(seen))?;
    let mut seen = 0;
    for p in &pts {
        watch_start(total);
        w.tree.nn_iter(p, Some(10));
        seen += watch_stop().distinct();
    }
    report("ten nearest neighbours", 10.0, avg(seen))?;
    let root = w.tree.walk();
    for few in [1, 5, 60] {
        join(&w, &root, Some(few), seed % 2 == 0, cov)?;
    }
    cov.nontrivial = true;
    cov.label("evenly spread");
    Ok(())
}
/// (elements looked at anyway, elements looked at per result) allowed on evenly spread data
fn few(c: &Cfg) -> (f64, f64) {
    let m = (c.max * (c.dims - 1)) as f64;
    (m * 3.0, 3.5)
}

pub struct C24;
impl Check for C24 {
    const ID: &'static str = "C24";
    type Case = CostCase;
    const CASES: (u64, u64) = (600_000, 24_000_000);
    const RULE: &'static str = "a case is either a tree built by a random history with 1 to 12 operations (every query form, nearest neighbours, single and bulk removals, insertions, joins, bulk loading), where the stored elements record each call made into them: only elements below nodes that can contribute may be asked, and only a bounded number of times; or a few thousand evenly spread elements, where the average number of elements asked per query has to stay small; non-trivial: some operation had elements to leave out; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["an element is looked at when one of its methods (envelope, distance, containment, comparison) is called", "small means at most three full nodes (times dimensions less one) and 3.5 elements per result, 1.4 to 3 times what is measured; bulk loading may ask three times as often as measured, so that sorting instead of partitioning passes"];
    fn gen(s: &mut Src, _: u64) -> CostCase {
        if s.chance(1, 150) {
            let cfgs = [0usize, 1, 2, 4, 5, 6, 7, 11, 14];
            let cfg = cfgs[s.below(cfgs.len())];
            let how = [How::Bulk, How::Insert, How::Mixed, How::Thinned][s.weighted(&[3, 3, 2, 2])];
            let top = if how == How::Bulk { 40_000 } else { 6_000 };
            let n = 1000 + s.draw_with(top, |r| if r.below(2) == 0 { r.below(2000) } else { r.below(top) }) as u32;
            return CostCase::Spread { cfg, n, seed: s.upto(9999) as u32, how, points: 48 + s.upto(16) as u32 };
        }
        let mut g = Gen::new(s, &all_cfgs());
        let r = g.recipe(s, 15, if s.size > 1 { 1500 } else { 500 });
        let acts = s.list(
            40,
            |r| 1 + r.below(12) as usize,
            |s, _| match s.weighted(&[10, 3, 3, 5, 3, 5, 4, 3, 4, 4, 8, 1, 1]) {
                0 => {
                    let q = match s.below(5) {
                        0 => Q::In(g.win(s)),
                        1 => Q::Inter(g.win(s)),
                        2 => Q::At(g.pt(s)),
                        3 => {
                            let p = g.pt(s);
                            Q::Within(p, g.r2(s, &p))
                        }
                        _ => Q::Sel(g.sel(s)),
                    };
                    Act::Query(q, FORMS[s.below(4)], if s.chance(1, 5) { Some(s.upto(20) as u32) } else { None })
                }
                1 => Act::AtOne(g.pt(s), FORMS[s.below(4)]),
                2 => Act::Contains(g.remove_target(s)),
                3 => Act::Nn(g.pt(s), s.bool()),
                4 => Act::Nns(g.pt(s)),
                5 => Act::NnIter(g.pt(s), s.upto(30) as u32),
                6 => Act::RemEq(g.remove_target(s)),
                7 => Act::RemAt(g.pt(s)),
                8 => Act::Pop(g.pt(s)),
                9 => Act::Drain(g.drain_q(s), g.take(s)),
                10 => Act::Ins(g.elem(s)),
                11 => {
                    if s.bool() {
                        Act::Join
                    } else {
                        let most = if s.bool() { 3 } else { 40 };
                        Act::JoinFew(1 + s.upto(most) as u32, s.bool())
                    }
                }
                _ => Act::Rebuild,
            },
        );
        CostCase::Acts(r, acts)
    }
    fn run(c: &CostCase, cov: &mut Cov) -> Result<(), String> {
        match c {
            CostCase::Spread { cfg, n, seed, how, points } => spread(*cfg, *n, *seed, *how, *points, cov),
            CostCase::Acts(r, acts) => {
                let mut w = World::build(r, cov)?;
                let mut j = Judge { pruned: false };
                for (i, a) in acts.iter().enumerate() {
                    act(&mut w, a, &mut j, cov).map_err(|e| format!("operation {i}: {e}"))?;
                }
                cov.nontrivial = j.pruned;
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MemCase {
    /// a random history; then emptied in the given way: 0 drain, 1 pops, 2 removals, 3 drains piece by piece
    Hist(Recipe, u8),
    /// bulk loading n elements of one of the types and parameters, handed over with spare room
    Bulk { ty: u8, par: u8, n: u32, seed: u32, spare: u32, flat: bool },
}
fn count_kept<T>(f: impl FnOnce() -> T) -> (i64, T) {
    let a = in_use().0;
    let r = f();
    (in_use().0 - a, r)
}
/// (nodes, children, longest, sum of max(4, 2 * children))
fn shape(n: &Node) -> (usize, usize, usize, usize) {
    let mut r = (1, n.kids.len(), n.kids.len(), (2 * n.kids.len()).max(4));
    for k in &n.kids {
        if let Kid::Node(n) = k {
            let x = shape(n);
            r = (r.0 + x.0, r.1 + x.1, r.2.max(x.2), r.3 + x.3);
        }
    }
    r
}
/// Frees the tree and tells how many bytes that gave back, the tree's own struct not counted.
fn freed(t: Box<dyn DynTree>) -> i64 {
    let own = std::mem::size_of_val(&*t) as i64;
    -count_kept(|| drop(t)).0 - own
}
fn mem_hist(r: &Recipe, empty: u8, cov: &mut Cov) -> Result<(), String> {
    let mut longest = 0;
    let mut reshaped = false;
    let mut w = World::build_with(r, cov, false, &mut |w, _| {
        longest = longest.max(shape(&w.tree.walk()).2);
        Ok(())
    })?;
    reshaped |= !w.pure_bulk;
    let slot = w.tree.slot() as i64;
    let walk = w.tree.walk();
    let (nodes, kids, _, tight) = shape(&walk);
    // a node's buffer grows by doubling, and never beyond what one more child than the maximum needs
    let full = (2 * longest.max(w.cfg.max + 1)).max(4) as i64;
    // an empty root has room for one child more than the maximum
    let room = tight.max(w.cfg.max + 1) as i64;
    let mut copy = w.tree.clone_box();
    let n = w.alive;
    // the copy has its own buffers
    let root_spare = full * slot;
    {
        let kept = freed(w.tree.clone_box());
        let bound = room * slot;
        if kept > bound {
            return Err(format!("a clone of {n} elements in {nodes} nodes keeps {kept} bytes, at most {bound} expected"));
        }
    }
    std::mem::swap(&mut copy, &mut w.tree);
    // `copy` is the original now
    let kept = freed(copy);
    let bound = if w.pure_bulk { room * slot } else { nodes as i64 * full * slot };
    if kept > bound {
        return Err(format!(
            "{n} elements in {nodes} nodes with {kids} children of {slot} bytes keep {kept} bytes, at most {bound} expected{}",
            if w.pure_bulk { " right after bulk loading" } else { "" }
        ));
    }
    if std::env::var("COST_DEBUG").is_ok() && n > 50 {
        eprintln!("MEM {} bulk {} n {n} ratio {:.3} of bound {:.3}", w.cfg.name, w.pure_bulk, kept as f64 / (kids as f64 * slot as f64), kept as f64 / bound as f64);
    }
    // emptied
    let mut cov2 = Cov::default();
    let o = Co::from_fn(w.cfg.dims, |_| 0);
    match empty {
        0 => w.apply(&Op::Drain(Q::All, None), false, &mut cov2)?,
        1 => {
            while w.alive > 0 {
                w.apply(&Op::Pop(o), false, &mut cov2)?
            }
        }
        2 => {
            let v: Vec<Elem> = w.live().map(|(_, m)| m.e).collect();
            for e in v {
                w.apply(&Op::RemEq(e), false, &mut cov2)?
            }
        }
        _ => {
            for k in 0..=n as u32 {
                if w.alive == 0 {
                    break;
                }
                w.apply(&Op::Drain(Q::All, Some(1 + k)), false, &mut cov2)?
            }
        }
    }
    if w.tree.size() != 0 {
        return Err(format!("{} elements are left after taking out all {n}", w.tree.size()));
    }
    let t = w.tree;
    let kept = freed(t);
    if kept > root_spare {
        return Err(format!("an emptied tree that held {n} elements keeps {kept} bytes, one node's buffer is {root_spare} at most"));
    }
    cov.nontrivial = nodes > 2;
    cov.label_if(w.pure_bulk && !reshaped, "freshly bulk loaded");
    cov.count("bytes kept per 100 bytes of children", if kids > 0 { 100 * kept as u64 / (kids as u64 * slot as u64) } else { 0 });
    Ok(())
}

trait Mem: rstar::RTreeObject + Clone {
    fn make(c: [i32; 4], i: usize) -> Self;
}
type Data<G, T> = rstar::primitives::GeomWithData<G, T>;
type Rc2 = rstar::primitives::Rectangle<[f64; 2]>;
fn rect2(c: [i32; 4]) -> Rc2 {
    let f = |i: usize| c[i] as f64;
    Rc2::from_corners([f(0), f(1)], [f(0) + (f(2) / 50.0).abs(), f(1) + (f(3) / 50.0).abs()])
}
impl Mem for [i32; 2] {
    fn make(c: [i32; 4], _: usize) -> Self {
        [c[0], c[1]]
    }
}
impl Mem for Data<Rc2, ([u64; 8], bool)> {
    fn make(c: [i32; 4], i: usize) -> Self {
        Data::new(rect2(c), ([i as u64; 8], i % 2 == 0))
    }
}
impl Mem for Data<[f64; 3], Option<std::num::NonZeroU8>> {
    fn make(c: [i32; 4], i: usize) -> Self {
        Data::new([c[0] as f64, c[1] as f64, c[2] as f64], std::num::NonZeroU8::new(i as u8))
    }
}
impl Mem for Data<[f32; 2], (&'static str, [u32; 12])> {
    fn make(c: [i32; 4], i: usize) -> Self {
        Data::new([c[0] as f32, c[1] as f32], (["a", "bc"][i % 2], [i as u32; 12]))
    }
}
impl Mem for Data<rstar::primitives::CachedEnvelope<Rc2>, (bool, [u64; 4])> {
    fn make(c: [i32; 4], i: usize) -> Self {
        Data::new(rstar::primitives::CachedEnvelope::new(rect2(c)), (i % 2 == 0, [0; 4]))
    }
}
impl Mem for [i64; 4] {
    fn make(c: [i32; 4], _: usize) -> Self {
        c.map(i64::from)
    }
}
fn node_shape<T: rstar::RTreeObject>(n: &rstar::ParentNode<T>) -> (usize, usize) {
    let len = n.children().len();
    let mut r = (1, (2 * len).max(4));
    for k in n.children() {
        if let rstar::RTreeNode::Parent(p) = k {
            let x = node_shape(p);
            r = (r.0 + x.0, r.1 + x.1);
        }
    }
    r
}
fn mem_bulk<T: Mem, PA: rstar::RTreeParams>(n: u32, seed: u32, spare: u32, flat: bool, cov: &mut Cov) -> Result<(), String>
where
    <T::Envelope as rstar::Envelope>::Point: rstar::Point,
{
    let mut r = Rng::new(seed as u64 ^ 0x3E3);
    let start = in_use().0;
    let mut v: Vec<T> = Vec::with_capacity((n + spare) as usize);
    for i in 0..n as usize {
        let c = [0; 4].map(|_: i32| r.below(2001) as i32 - 1000);
        v.push(T::make(if flat { [c[0], 0, 0, 0] } else { c }, i));
    }
    let input = v.capacity() * std::mem::size_of::<T>();
    reset_peak();
    let t = rstar::RTree::<T, PA>::bulk_load_with_params(v);
    let most = peak() - start;
    let kept = in_use().0 - start;
    let slot = std::mem::size_of::<rstar::RTreeNode<T>>();
    let (nodes, cap) = node_shape(t.root());
    let bound = (cap.max(PA::MAX_SIZE + 1) * slot) as i64;
    let name = std::any::type_name::<T>();
    if std::env::var("COST_DEBUG").is_ok() && n > 50 {
        eprintln!("BLK {name} MAX {} n {n} kept/bound {:.3} peak/(input+kept) {:.3} sizes {} {slot}", PA::MAX_SIZE, kept as f64 / bound as f64, most as f64 / (input as f64 + kept as f64), std::mem::size_of::<T>());
    }
    if kept > bound {
        return Err(format!(
            "{n} elements of type {name} bulk loaded into {nodes} nodes (at most {} children) keep {kept} bytes; their nodes need at most {bound}",
            PA::MAX_SIZE
        ));
    }
    let most_bound = PEAK * (input as i64 + kept) + 4096;
    if most > most_bound {
        return Err(format!(
            "bulk loading {n} elements of type {name} ({input} bytes) into a tree of {kept} bytes takes {most} bytes meanwhile"
        ));
    }
    drop(t);
    let left = in_use().0 - start;
    if left != 0 {
        return Err(format!("{left} bytes stay behind after the tree was dropped"));
    }
    cov.nontrivial = nodes > 1;
    cov.label_if(slot == std::mem::size_of::<T>(), "element and node of the same size");
    cov.label_if(nodes == 1, "one node only");
    cov.label_if(spare > 0, "spare room handed over");
    Ok(())
}
const PEAK: i64 = 2;

pub struct C25;
impl Check for C25 {
    const ID: &'static str = "C25";
    type Case = MemCase;
    const CASES: (u64, u64) = (700_000, 28_000_000);
    const RULE: &'static str = "a case is either a tree built by a random history, whose heap blocks (counted by the allocator as it is dropped, a clone of it, and again after it was emptied by draining, popping or removing) may not exceed what its nodes need, or a tree bulk loaded from elements of one of 6 types (among them types as large as a node) and 4 parameter sets, for which memory kept and the highest use meanwhile are measured; non-trivial: the tree has several nodes; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["what a node needs: room for twice its children, or for twice the configured maximum after insertions and removals"];
    fn gen(s: &mut Src, _: u64) -> MemCase {
        if s.chance(1, 3) {
            return MemCase::Bulk {
                ty: s.below(6) as u8,
                par: s.below(4) as u8,
                n: s.draw_with(20_000, |r| {
                    let t = [5, 70, 400, 3000, 8000][[0, 1, 1, 2, 2, 2, 3, 3, 4][r.below(9) as usize]];
                    r.below(t)
                }) as u32,
                seed: s.upto(9999) as u32,
                spare: if s.bool() { s.draw_with(5000, |r| [1, 100, 5000][r.below(3) as usize]) as u32 } else { 0 },
                flat: s.chance(1, 5),
            };
        }
        let mut g = Gen::new(s, &all_cfgs());
        let r = g.recipe(s, 25, if s.size > 1 { 1500 } else { 500 });
        let how = s.below(4) as u8;
        // one at a time takes too long for the largest trees
        let huge = r.pat.as_ref().is_some_and(|p| p.n >= 10_000);
        MemCase::Hist(r, if huge { 0 } else { how })
    }
    fn run(c: &MemCase, cov: &mut Cov) -> Result<(), String> {
        fn with<T: Mem>(par: u8, n: u32, seed: u32, spare: u32, flat: bool, cov: &mut Cov) -> Result<(), String> {
            match par {
                0 => mem_bulk::<T, rstar::DefaultParams>(n, seed, spare, flat, cov),
                1 => mem_bulk::<T, Pa<32, 64, 20>>(n, seed, spare, flat, cov),
                2 => mem_bulk::<T, Pa<1, 4, 1>>(n, seed, spare, flat, cov),
                _ => mem_bulk::<T, Pa<5, 20, 3>>(n, seed, spare, flat, cov),
            }
        }
        match c {
            MemCase::Hist(r, e) => mem_hist(r, *e, cov),
            MemCase::Bulk { ty, par, n, seed, spare, flat } => {
                let (p, n, s, x, f) = (*par, *n, *seed, *spare, *flat);
                match ty {
                    0 => with::<[i32; 2]>(p, n, s, x, f, cov),
                    1 => with::<Data<Rc2, ([u64; 8], bool)>>(p, n, s, x, f, cov),
                    2 => with::<Data<[f64; 3], Option<std::num::NonZeroU8>>>(p, n, s, x, f, cov),
                    3 => with::<Data<[f32; 2], (&'static str, [u32; 12])>>(p, n, s, x, f, cov),
                    4 => with::<Data<rstar::primitives::CachedEnvelope<Rc2>, (bool, [u64; 4])>>(p, n, s, x, f, cov),
                    _ => with::<[i64; 4]>(p, n, s, x, f, cov),
                }
            }
        }
    }
}

rcheck::registry! {
    "C24" => C24,
    "C25" => C25,
}
