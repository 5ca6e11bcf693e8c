//! C01-C12, C14, C15: checks on histories of trees of every configuration.

use rcheck::dyntree::*;
use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;

const ASSUME: &[&str] = &[
    "coordinates are finite and small enough that squared distances and areas do not overflow the scalar type",
    "elements' geometry and distance functions are consistent and do not change while stored",
];

// ---------------------------------------------------------------- structure

/// Verifies the structural claims on the tree of a world.
pub fn check_structure(w: &World) -> Result<(), String> {
    let root = w.tree.walk();
    if w.tree.size() != w.alive {
        return Err(format!("size() is {} but {} elements are stored", w.tree.size(), w.alive));
    }
    let mut leaves = 0;
    let mut leaf_depth = None;
    if root.kids.is_empty() {
        if !root.empty {
            return Err(format!("the empty tree has the non-empty envelope {:?}..{:?}", root.lo, root.hi));
        }
    } else {
        node(w, &root, 0, &mut leaf_depth, &mut leaves)?;
    }
    if leaves != w.alive {
        return Err(format!("{leaves} elements below the root, {} stored", w.alive));
    }
    // bulk loading may leave inner nodes above the maximum; nothing makes them larger afterwards
    let now = root.widest();
    if let Some(before) = w.widest.get() {
        if now > before.max(w.cfg.max) {
            return Err(format!("a node has {now} children, maximum {}, no node had more than {before} before", w.cfg.max));
        }
    }
    if w.pure_bulk || w.widest.get().is_some() {
        w.widest.set(Some(now));
    }
    let h = leaf_depth.unwrap_or(0) + 1;
    let (n, c) = (w.peak.max(1) as f64, &w.cfg);
    if w.only_inserts && c.min >= 2 && h > 1 {
        let bound = 1.0 + (n / 2.0).ln() / (c.min as f64).ln() + 1e-9;
        if h as f64 > bound {
            return Err(format!("height {h} with {} elements and minimum node size {}", w.peak, c.min));
        }
    }
    if w.pure_bulk && h as f64 > 1.0 + n.log2().ceil() {
        return Err(format!("height {h} after bulk loading {} elements", w.alive));
    }
    if w.no_removal && c.min >= 2 && h as f64 > 3.0 + 2.0 * (n + 1.0).log2() {
        return Err(format!("height {h} with {} elements and no removals", w.peak));
    }
    return Ok(());

    fn node(
        w: &World,
        n: &Node,
        depth: usize,
        leaf_depth: &mut Option<usize>,
        leaves: &mut usize,
    ) -> Result<(Vec<f64>, Vec<f64>), String> {
        let d = w.cfg.dims;
        if n.kids.is_empty() {
            return Err(format!("childless inner node at depth {depth}"));
        }
        let (mut lo, mut hi) = (vec![f64::INFINITY; d], vec![f64::NEG_INFINITY; d]);
        let mut direct = 0;
        for k in &n.kids {
            let (l, h) = match k {
                Kid::Leaf(o) => {
                    direct += 1;
                    *leaves += 1;
                    match leaf_depth {
                        None => *leaf_depth = Some(depth),
                        Some(x) if *x != depth => {
                            return Err(format!("elements at depth {depth} and at depth {x}"))
                        }
                        _ => {}
                    }
                    w.check_out(o)?;
                    let (a, b) = w.m[o.uid as usize].e.env(w.sp.kind);
                    (
                        a.c().iter().map(|x| w.sp.x(*x)).collect::<Vec<_>>(),
                        b.c().iter().map(|x| w.sp.x(*x)).collect::<Vec<_>>(),
                    )
                }
                Kid::Node(k) => node(w, k, depth + 1, leaf_depth, leaves)?,
            };
            for i in 0..d {
                lo[i] = lo[i].min(l[i]);
                hi[i] = hi[i].max(h[i]);
            }
        }
        if lo != n.lo || hi != n.hi {
            return Err(format!(
                "node at depth {depth} reports the envelope {:?}..{:?} but covers {:?}..{:?}",
                n.lo, n.hi, lo, hi
            ));
        }
        if direct > w.cfg.max || (w.only_inserts && n.kids.len() > w.cfg.max) {
            return Err(format!("node at depth {depth} has {} children, maximum {}", n.kids.len(), w.cfg.max));
        }
        if w.only_inserts && depth > 0 && n.kids.len() < w.cfg.min {
            return Err(format!("node at depth {depth} has {} children, minimum {}", n.kids.len(), w.cfg.min));
        }
        Ok((lo, hi))
    }
}

/// Runs `f` after every operation while the tree is small, less often when it is large.
fn sampled(n: &mut usize, alive: usize, f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    *n += 1;
    let every = 1 + alive / 60;
    if *n % every == 0 {
        f()
    } else {
        Ok(())
    }
}

fn hist_gen(s: &mut Src, w: &[u32; 11], max_ops: u64, big: u64) -> Recipe {
    let mut g = Gen::new(s, &all_cfgs());
    hist_gen_for(s, &mut g, w, max_ops, big)
}
fn hist_gen_for(s: &mut Src, g: &mut Gen, w: &[u32; 11], max_ops: u64, big: u64) -> Recipe {
    let size = s.size;
    let bulk = s.bool();
    let huge = g.huge(s);
    let few = huge.is_some();
    let pat = huge.or_else(|| if s.chance(1, 3) { Some(g.pattern(s, big)) } else { None });
    let init = if pat.is_some() {
        vec![]
    } else {
        s.list(2000, |r| rlen(r, size), |s, _| g.elem(s))
    };
    let ops = s.list(
        1000,
        |r| {
            let m = if few { 12 } else { [4, 12, 40, max_ops][r.below(4) as usize] * size as u64 };
            r.below(m + 1) as usize
        },
        |s, _| g.op(s, w),
    );
    Recipe { cfg: g.cfg, mode: g.mode, bulk: bulk || few, init, pat, ops }
}

fn had_removal(cov: &Cov) -> bool {
    cov.counts.iter().any(|c| matches!(c.0, "removals" | "pops" | "drained elements") && c.1 > 0)
}
fn label_shape(w: &World, cov: &mut Cov) {
    cov.label(w.cfg.name);
    let h = height(&w.tree.walk());
    cov.label(match h {
        0 | 1 => "height 1",
        2 => "height 2",
        3 => "height 3",
        4 => "height 4",
        _ => "height 5+",
    });
    if !w.sp.int {
        cov.label(match w.sp.mode {
            Mode::Unit => "unit lattice",
            Mode::Eighth => "eighths",
            Mode::Big => "multiples of 1024",
            Mode::NegZero => "negative zeros",
            Mode::Tenth => "tenths (rounded)",
            Mode::Offset => "offset (rounded)",
            Mode::Huge => "huge coordinates",
            Mode::Tiny => "tiny coordinates",
            Mode::Warp => "three magnitudes",
        });
    }
}

// ---------------------------------------------------------------- C01

pub struct C01;
impl Check for C01 {
    const ID: &'static str = "C01";
    type Case = Recipe;
    const CASES: (u64, u64) = (900_000, 36_000_000);
    const RULE: &'static str = "a case is a configuration (element type, scalar, dimension, parameters), an initial bulk load or insertions, and a history of insert/remove/pop/drain/rebuild/clone/serde operations; non-trivial: at least 7 elements at some time and at least one successful removal; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> Recipe {
        hist_gen(s, &[40, 14, 8, 8, 10, 5, 3, 1, 2, 1, 1], 120, 400)
    }
    fn run(r: &Recipe, cov: &mut Cov) -> Result<(), String> {
        let mut n = 0;
        let mut last_ops = r.ops.iter();
        let mut first = true;
        let mut w = World::build_with(r, cov, true, &mut |w, _| {
            if w.tree.size() != w.alive {
                return Err(format!("size() is {} but {} elements are stored", w.tree.size(), w.alive));
            }
            if !first {
                match last_ops.next() {
                    Some(Op::Ins(e)) => {
                        if !w.tree.contains(e) {
                            return Err("contains() is false for the element just inserted".into());
                        }
                    }
                    Some(Op::RemEq(e)) => {
                        let k = w.sp.kind;
                        let x = w.live().any(|(_, m)| m.e.same(e, k));
                        if w.tree.contains(e) != x {
                            return Err(format!("contains() is {} after the removal", !x));
                        }
                    }
                    _ => {}
                }
            }
            first = false;
            sampled(&mut n, w.alive, || w.check_content())
        })?;
        w.check_content()?;
        let log = RefCell::new(SelLog::default());
        let outs = w.tree.query(&Q::All, Form::Iter, None, 0, &log).outs;
        w.check_all(&outs, "iter()")?;
        let outs = w.tree.query(&Q::All, Form::Mut, None, 0, &log).outs;
        w.check_all(&outs, "iter_mut()")?;
        w.check_all(&w.tree.into_iter_ref(), "iteration over &tree")?;
        let outs = w.tree.into_iter_mut(0);
        w.check_all(&outs, "iteration over &mut tree")?;
        let k = w.sp.kind;
        let total = w.m.len();
        for i in 0..total.min(40) {
            let i = i * total / total.min(40);
            let mut e = w.m[i].e;
            for t in [e.t, 3] {
                e.t = t;
                let x = w.live().any(|(_, m)| m.e.same(&e, k));
                if w.tree.contains(&e) != x {
                    return Err(format!("contains({e:?}) is {}", !x));
                }
            }
        }
        label_shape(&w, cov);
        cov.nontrivial = w.peak >= 7 && had_removal(cov);
        let World { tree, .. } = &w;
        let t = tree.clone_box();
        w.check_all(&t.into_iter_own(None), "owned iteration")?;
        Ok(())
    }
}

// ---------------------------------------------------------------- C02

pub struct C02;
impl Check for C02 {
    const ID: &'static str = "C02";
    type Case = Recipe;
    const CASES: (u64, u64) = (800_000, 32_000_000);
    const RULE: &'static str = "a case is a configuration, an initial tree and a history; after operations the whole node structure is walked and compared with envelopes recomputed from the model; non-trivial: a tree of height at least 2 was walked; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> Recipe {
        match s.weighted(&[3, 2, 1]) {
            0 => hist_gen(s, &[40, 10, 6, 8, 14, 4, 4, 1, 0, 1, 1], 100, 500),
            1 => hist_gen(s, &[60, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0], 150, 500),
            _ => {
                let mut r = hist_gen(s, &[40, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0], 40, 2500);
                r.bulk = true;
                r
            }
        }
    }
    fn run(r: &Recipe, cov: &mut Cov) -> Result<(), String> {
        let mut n = 0;
        let mut deep = false;
        let w = World::build_with(r, cov, false, &mut |w, cov| {
            deep |= w.alive > w.cfg.max;
            cov.label_if(w.only_inserts && w.alive > w.cfg.max, "insertion-only tree");
            cov.label_if(w.pure_bulk && w.alive > w.cfg.max, "freshly bulk-loaded tree");
            if w.pure_bulk && w.widest.get().is_none() {
                check_structure(w)?;
            }
            cov.label_if(!w.pure_bulk && w.widest.get().is_some_and(|n| n > w.cfg.max), "over-full inner nodes from bulk loading");
            sampled(&mut n, w.alive, || check_structure(w))
        })?;
        check_structure(&w)?;
        label_shape(&w, cov);
        cov.nontrivial = deep;
        Ok(())
    }
}

// ---------------------------------------------------------------- queries

#[derive(Clone, Serialize, Deserialize)]
pub struct QCase {
    pub tree: Recipe,
    pub qs: Vec<(Q, Option<u32>)>,
}
fn qcase(s: &mut Src, cfgs: &[usize], mut f: impl FnMut(&Gen, &mut Src) -> Q) -> QCase {
    let mut g = Gen::new(s, cfgs);
    let tree = g.recipe(s, 25, 700);
    let qs = s.list(60, |r| 3 + r.below(10) as usize, |s, _| {
        let q = f(&g, s);
        let stop = if s.chance(1, 3) { Some(s.upto(12) as u32) } else { None };
        (q, stop)
    });
    QCase { tree, qs }
}
fn run_queries(c: &QCase, cov: &mut Cov, forms: &[Form]) -> Result<(), String> {
    let mut w = World::build(&c.tree, cov)?;
    w.check_content()?;
    for (q, stop) in &c.qs {
        let sel = w.sel_vec(q);
        let (must, may) = w.expected_counts(q, sel.as_deref());
        cov.label_if(must > 0 && may < w.alive, "proper part selected");
        cov.label_if(may == 0, "nothing selected");
        cov.label_if(must == w.alive && must > 0, "everything selected");
        cov.label_if(must < may, "undecided by rounding");
        if must > 0 && may < w.alive && w.alive > w.cfg.max {
            cov.nontrivial = true;
        }
        let mut n0 = None;
        for f in forms {
            let n = w.run_query(q, *f, None)?;
            cov.count("results", n as u64);
            if *n0.get_or_insert(n) != n {
                return Err(format!("{q:?}: {n} results as {f:?}, {} as {:?}", n0.unwrap(), forms[0]));
            }
            if let Some(stop) = stop {
                let k = w.run_query(q, *f, Some(*stop as usize))?;
                if k != n.min(*stop as usize) {
                    return Err(format!("{q:?} as {f:?} stopped after {stop}: {k} of {n} results"));
                }
            }
        }
    }
    label_shape(&w, cov);
    Ok(())
}

pub struct C04;
impl Check for C04 {
    const ID: &'static str = "C04";
    type Case = QCase;
    const CASES: (u64, u64) = (800_000, 32_000_000);
    const RULE: &'static str = "a case is a tree (configuration, bulk load or insertions, history) and 3 to 12 windows, each queried for containment or intersection in all four forms, partly stopped early; non-trivial: some window selects a proper non-empty part of a tree with at least two levels; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> QCase {
        qcase(s, &all_cfgs(), |g, s| {
            let w = g.win(s);
            if s.bool() {
                Q::In(w)
            } else {
                Q::Inter(w)
            }
        })
    }
    fn run(c: &QCase, cov: &mut Cov) -> Result<(), String> {
        run_queries(c, cov, &FORMS)
    }
}

pub struct C05;
impl Check for C05 {
    const ID: &'static str = "C05";
    type Case = QCase;
    const CASES: (u64, u64) = (800_000, 32_000_000);
    const RULE: &'static str = "a case is a tree (configuration, bulk load or insertions, history) and 3 to 12 points located in all four forms, partly stopped early, and through the single-result forms, plus membership tests of stored, removed and absent elements; non-trivial: some point selects a proper non-empty part of a tree with at least two levels; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> QCase {
        qcase(s, &all_cfgs(), |g, s| Q::At(g.pt(s)))
    }
    fn run(c: &QCase, cov: &mut Cov) -> Result<(), String> {
        run_queries(c, cov, &FORMS)?;
        let mut w = World::build(&c.tree, &mut Cov::default())?;
        for (q, _) in &c.qs {
            let Q::At(p) = q else { continue };
            let (must, _) = w.expected_counts(q, None);
            for f in FORMS {
                match w.tree.at_one(p, f) {
                    Some(o) => {
                        w.check_out(&o)?;
                        if w.tri(q, o.uid) == Tri::Not {
                            return Err(format!("locate_at_point({p:?}) as {f:?} gives {} {:?}", fmt_out(&o), w.m[o.uid as usize].e));
                        }
                    }
                    None if must > 0 => {
                        return Err(format!("locate_at_point({p:?}) as {f:?} gives nothing, {must} elements are there"))
                    }
                    None => {}
                }
            }
        }
        let k = w.sp.kind;
        let total = w.m.len();
        for i in 0..total.min(30) {
            let mut e = w.m[i * total / total.min(30)].e;
            for t in [e.t, (e.t + 1) % 3, 7] {
                e.t = t;
                let x = w.live().any(|(_, m)| m.e.same(&e, k));
                cov.label_if(x, "contains: present");
                cov.label_if(!x, "contains: absent");
                if w.tree.contains(&e) != x {
                    return Err(format!("contains({e:?}) is {}", !x));
                }
            }
        }
        Ok(())
    }
}

pub struct C06;
impl Check for C06 {
    const ID: &'static str = "C06";
    type Case = QCase;
    const CASES: (u64, u64) = (1200_000, 48_000_000);
    const RULE: &'static str = "a case is a tree (configuration, bulk load or insertions, history) and 3 to 12 radius queries with centres near, on and far from the data and radii at, just below and just above the distance of an element, zero, negative and the largest value; non-trivial: some query selects a proper non-empty part of a tree with at least two levels; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> QCase {
        qcase(s, &all_cfgs(), |g, s| {
            let p = g.pt(s);
            Q::Within(p, g.r2(s, &p))
        })
    }
    fn run(c: &QCase, cov: &mut Cov) -> Result<(), String> {
        run_queries(c, cov, &[Form::Iter])
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Serialize, Deserialize)]
pub struct C03Case {
    pub tree: Recipe,
    pub qs: Vec<Q>,
}
fn any_query(g: &Gen, s: &mut Src) -> Q {
    match s.below(6) {
        0 => Q::In(g.win(s)),
        1 => Q::Inter(g.win(s)),
        2 => Q::At(g.pt(s)),
        3 => {
            let p = g.pt(s);
            Q::Within(p, g.r2(s, &p))
        }
        4 => Q::All,
        _ => Q::Sel(Sel { p: PRule::All, l: g.lrule(s), panic_parent: None, panic_leaf: None }),
    }
}
fn answer_check(w: &mut World, q: &Q) -> Result<(), String> {
    w.run_query(q, Form::Iter, None)?;
    if let Q::At(p) | Q::Within(p, _) = q {
        match w.tree.nn(p) {
            Some((o, d)) => w.check_nearest(p, &o, Some(d))?,
            None if w.alive > 0 => return Err("no nearest neighbour in a non-empty tree".into()),
            None => {}
        }
        check_nn_iter(w, p, None)?;
    }
    Ok(())
}
pub struct C03;
impl Check for C03 {
    const ID: &'static str = "C03";
    type Case = C03Case;
    const CASES: (u64, u64) = (600_000, 24_000_000);
    const RULE: &'static str = "a case is an element list (generated element by element or a layout of up to 3000 elements; the first cases sweep every size up to 750 over all configurations), bulk loaded and also inserted one by one; both trees must hold it and answer 2 to 8 queries of every kind as the linear scan does, then take a common continuation of operations and do so again; non-trivial: more elements than one node holds; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, idx: u64) -> C03Case {
        // a systematic sweep over sizes first
        let sweep = idx < 16 * 750;
        let mut g = if sweep {
            let cfg = s.draw_with(CFGS.len() as u64 - 1, |_| idx % CFGS.len() as u64) as usize;
            Gen::for_cfg(s, cfg)
        } else {
            Gen::new(s, &all_cfgs())
        };
        let size = s.size;
        let huge = if sweep { None } else { g.huge(s) };
        let few = huge.is_some();
        let pat = if sweep {
            let mut p = g.pattern(s, 10);
            p.n = s.draw_with(3000, |_| idx / CFGS.len() as u64) as u32;
            Some(p)
        } else if few {
            huge
        } else if s.chance(1, 3) {
            let max = [60, 300, 1000, 3000][s.weighted(&[8, 4, 2, 1])];
            Some(g.pattern(s, max))
        } else {
            None
        };
        let init = if pat.is_some() { vec![] } else { s.list(3000, |r| rlen(r, size), |s, _| g.elem(s)) };
        let w = [40, 14, 6, 6, 8, 3, 2, 0, 0, 0, 0];
        let ops = s.list(300, |r| r.below([3, 10, 40][if few { 1 } else { r.clone().below(3) as usize }]) as usize, |s, _| g.op(s, &w));
        let qs = s.list(20, |r| 2 + r.below(7) as usize, |s, _| any_query(&g, s));
        C03Case { tree: Recipe { cfg: g.cfg, mode: g.mode, bulk: true, init, pat, ops }, qs }
    }
    fn run(c: &C03Case, cov: &mut Cov) -> Result<(), String> {
        let r = &c.tree;
        let mut elems = r.init.clone();
        if let Some(p) = r.pat {
            elems.extend(p.expand(CFGS[r.cfg].dims));
        }
        let mut b = World::bulk(r.cfg, r.mode, &elems);
        b.check_content()?;
        let mut i = World::new(r.cfg, r.mode);
        for e in &elems {
            i.insert(e);
        }
        i.check_content().map_err(|e| format!("tree filled by insertions: {e}"))?;
        for q in &c.qs {
            answer_check(&mut b, q).map_err(|e| format!("bulk-loaded tree: {e}"))?;
            answer_check(&mut i, q).map_err(|e| format!("tree filled by insertions: {e}"))?;
        }
        for (k, op) in r.ops.iter().enumerate() {
            b.apply(op, true, cov).map_err(|e| format!("bulk-loaded tree, operation {k} ({op:?}): {e}"))?;
            i.apply(op, true, &mut Cov::default())
                .map_err(|e| format!("tree filled by insertions, operation {k} ({op:?}): {e}"))?;
            if b.tree.size() != b.alive {
                return Err(format!("operation {k} ({op:?}): size() is {} instead of {}", b.tree.size(), b.alive));
            }
        }
        if !r.ops.is_empty() {
            b.check_content().map_err(|e| format!("after the continuation: {e}"))?;
            for q in &c.qs {
                answer_check(&mut b, q).map_err(|e| format!("after the continuation: {e}"))?;
            }
        }
        cov.nontrivial = elems.len() > b.cfg.max;
        cov.label_if(r.ops.len() > 5, "longer continuation");
        cov.label(match elems.len() {
            0 => "size 0",
            1..=10 => "size 1-10",
            11..=100 => "size 11-100",
            101..=1000 => "size 101-1000",
            1001..=10000 => "size 1001-10000",
            _ => "size 10001+",
        });
        label_shape(&b, cov);
        Ok(())
    }
}

// ---------------------------------------------------------------- C07, C08

#[derive(Clone, Serialize, Deserialize)]
pub struct NCase {
    pub tree: Recipe,
    pub ps: Vec<(Co, Option<u32>)>,
}
fn ncase(s: &mut Src, k: u64) -> NCase {
    let mut g = Gen::new(s, &all_cfgs());
    let tree = g.recipe(s, 25, 700);
    let ps = s.list(60, |r| 3 + r.below(k) as usize, |s, _| {
        let p = g.pt(s);
        let stop = if s.chance(1, 3) { Some(s.upto(40) as u32) } else { None };
        (p, stop)
    });
    NCase { tree, ps }
}
pub struct C07;
impl Check for C07 {
    const ID: &'static str = "C07";
    type Case = NCase;
    const CASES: (u64, u64) = (1200_000, 48_000_000);
    const RULE: &'static str = "a case is a tree (configuration, bulk load or insertions, history) and 3 to 22 query points inside, on, near and far from the elements; the neighbour and its distance are compared with a linear scan; non-trivial: a tree of at least two levels that was queried; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> NCase {
        ncase(s, 20)
    }
    fn run(c: &NCase, cov: &mut Cov) -> Result<(), String> {
        let w = World::build(&c.tree, cov)?;
        w.check_content()?;
        for (p, _) in &c.ps {
            let (a, b) = (w.tree.nn(p), w.tree.nn_plain(p));
            if a.is_some() != (w.alive > 0) || b.is_some() != (w.alive > 0) {
                return Err(format!("nearest neighbour of {p:?}: {a:?} / {b:?} with {} elements", w.alive));
            }
            if let (Some((o, d)), Some(o2)) = (a, b) {
                w.check_nearest(p, &o, Some(d))?;
                w.check_nearest(p, &o2, None)?;
                cov.label_if(d == 0.0, "distance zero");
                cov.label_if(d > 0.0, "positive distance");
            }
        }
        cov.nontrivial = w.alive > w.cfg.max && !c.ps.is_empty();
        cov.label_if(w.alive == 0, "empty tree");
        label_shape(&w, cov);
        Ok(())
    }
}

/// Complete or cut-short iteration by distance.
fn check_nn_iter(w: &World, p: &Co, stop: Option<usize>) -> Result<(), String> {
    let v = w.tree.nn_iter(p, stop);
    let outs: Vec<Out> = v.iter().map(|x| x.0).collect();
    check_order(w, p, &outs, Some(&v.iter().map(|x| x.1).collect::<Vec<_>>()), stop)
}
fn check_order(w: &World, p: &Co, outs: &[Out], ds: Option<&[f64]>, stop: Option<usize>) -> Result<(), String> {
    let want = w.alive.min(stop.unwrap_or(usize::MAX));
    if outs.len() != want {
        return Err(format!("iteration by distance from {p:?} yields {} of {want} elements", outs.len()));
    }
    w.check_outs(outs)?;
    let iv: Vec<(f64, f64)> = outs.iter().map(|o| w.sp.dist2(&w.m[o.uid as usize].e, p)).collect();
    for (i, (lo, hi)) in iv.iter().enumerate() {
        if let Some(ds) = ds {
            if !(*lo <= ds[i] && ds[i] <= *hi) {
                return Err(format!(
                    "{} {:?} reported at squared distance {:e} from {p:?}, true value in [{lo:e}, {hi:e}]",
                    fmt_out(&outs[i]),
                    w.m[outs[i].uid as usize].e,
                    ds[i]
                ));
            }
        }
    }
    // non-decreasing: nothing may come after something definitely farther
    let mut far = 0;
    for i in 1..iv.len() {
        let tol = (iv[i].1 - iv[i].0) + (iv[far].1 - iv[far].0);
        if iv[i].1 + tol < iv[far].0 {
            return Err(format!(
                "by distance from {p:?}, {:?} at {:e} comes after {:?} at {:e}",
                w.m[outs[i].uid as usize].e, iv[i].1, w.m[outs[far].uid as usize].e, iv[far].0
            ));
        }
        if iv[i].0 > iv[far].0 {
            far = i;
        }
    }
    if stop.is_some() && !outs.is_empty() {
        // what was not handed out is not nearer
        let mut have = vec![false; w.m.len()];
        outs.iter().for_each(|o| have[o.uid as usize] = true);
        for (u, m) in w.live() {
            if !have[u as usize] {
                let (lo, hi) = w.sp.dist2(&m.e, p);
                if hi + (hi - lo) + (iv[far].1 - iv[far].0) < iv[far].0 {
                    return Err(format!("by distance from {p:?}, {:?} at {hi:e} was skipped before {:e}", m.e, iv[far].0));
                }
            }
        }
    }
    Ok(())
}
pub struct C08;
impl Check for C08 {
    const ID: &'static str = "C08";
    type Case = NCase;
    const CASES: (u64, u64) = (600_000, 24_000_000);
    const RULE: &'static str = "a case is a tree (configuration, bulk load or insertions, history) and 3 to 8 query points; complete and cut-short iteration by distance and the set of all nearest neighbours are compared with a linear scan; non-trivial: a tree of at least two levels that was queried; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> NCase {
        ncase(s, 6)
    }
    fn run(c: &NCase, cov: &mut Cov) -> Result<(), String> {
        let w = World::build(&c.tree, cov)?;
        w.check_content()?;
        for (p, stop) in &c.ps {
            check_nn_iter(&w, p, None)?;
            check_order(&w, p, &w.tree.nn_iter_plain(p, None), None, None)?;
            let v = w.tree.nn_iter_deprecated(p, None);
            let (o, d): (Vec<Out>, Vec<f64>) = v.into_iter().unzip();
            check_order(&w, p, &o, Some(&d), None)?;
            if let Some(st) = stop {
                check_nn_iter(&w, p, Some(*st as usize))?;
                check_order(&w, p, &w.tree.nn_iter_plain(p, Some(*st as usize)), None, Some(*st as usize))?;
            }
            // all nearest neighbours
            let a = w.tree.nns(p);
            let b = w.tree.nns_plain(p);
            if a.is_some() != (w.alive > 0) || b.is_empty() != (w.alive == 0) {
                return Err(format!("nearest neighbours of {p:?}: {a:?} / {b:?} with {} elements", w.alive));
            }
            let Some((a, d)) = a else { continue };
            let exact = w.sp.exact() && matches!(w.sp.kind, Kind::Point | Kind::Rect | Kind::Frame);
            let (_, best) = w.min_dist(p);
            for (what, set) in [("with distance", &a), ("plain", &b)] {
                w.check_outs(set)?;
                for o in set.iter() {
                    let (lo, hi) = w.sp.dist2(&w.m[o.uid as usize].e, p);
                    if lo > best {
                        return Err(format!("nearest neighbours of {p:?} ({what}): {:?} at {lo:e}, best is {best:e}", w.m[o.uid as usize].e));
                    }
                    if what == "with distance" && !(lo <= d && d <= hi) {
                        return Err(format!("nearest neighbours of {p:?}: distance {d:e} reported, {:?} is in [{lo:e}, {hi:e}]", w.m[o.uid as usize].e));
                    }
                }
                let mut have = vec![false; w.m.len()];
                set.iter().for_each(|o| have[o.uid as usize] = true);
                let found: HashSet<(Co, Co)> =
                    set.iter().map(|o| w.m[o.uid as usize].e.env(w.sp.kind)).collect();
                let mut ties = 0;
                for (u, m) in w.live() {
                    let tie = if exact {
                        w.sp.dist2(&m.e, p).0 == best
                    } else {
                        matches!(w.sp.kind, Kind::Point | Kind::Rect | Kind::Frame)
                            && found.contains(&m.e.env(w.sp.kind))
                    };
                    if tie {
                        ties += 1;
                        if !have[u as usize] {
                            return Err(format!("nearest neighbours of {p:?} ({what}): {:?} is as near ({best:e}) but missing from {} results", m.e, set.len()));
                        }
                    }
                }
                cov.label_if(ties > 1, "several nearest neighbours");
            }
        }
        cov.nontrivial = w.alive > w.cfg.max && !c.ps.is_empty();
        cov.label_if(w.alive > 32, "more than 32 elements in the heap");
        cov.label_if(w.alive == 0, "empty tree");
        label_shape(&w, cov);
        Ok(())
    }
}

// ---------------------------------------------------------------- C09, C10, C12

/// Strict operations with full verification of content and structure around each.
fn run_strict(r: &Recipe, cov: &mut Cov, upto: usize) -> Result<World, String> {
    let mut n = 0;
    let mut steps = 0;
    let w = World::build_with(r, cov, true, &mut |w, _| {
        steps += 1;
        sampled(&mut n, if steps > upto { 10_000 } else { w.alive / 2 }, || {
            w.check_content()?;
            check_structure(w)
        })
    })?;
    w.check_content()?;
    check_structure(&w)?;
    label_shape(&w, cov);
    Ok(w)
}

pub struct C09;
impl Check for C09 {
    const ID: &'static str = "C09";
    type Case = Recipe;
    const CASES: (u64, u64) = (800_000, 32_000_000);
    const RULE: &'static str = "a case is a tree and a history of mostly removals (by equality, at a point, by selection function), of present and absent elements, with insertions between; each removal is judged against the model and the whole content and node structure compared; non-trivial: at least one removal from a tree of more than one node; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> Recipe {
        hist_gen(s, &[20, 25, 18, 2, 2, 14, 1, 0, 0, 0, 0], 80, 300)
    }
    fn run(r: &Recipe, cov: &mut Cov) -> Result<(), String> {
        let w = run_strict(r, cov, 400)?;
        cov.nontrivial = w.peak > w.cfg.max && cov.counts.iter().any(|c| c.0 == "removals" && c.1 > 0);
        Ok(())
    }
}

pub struct C10;
impl Check for C10 {
    const ID: &'static str = "C10";
    type Case = Recipe;
    const CASES: (u64, u64) = (1000_000, 40_000_000);
    const RULE: &'static str = "a case is a tree and a history of drains of every kind, complete or dropped after k elements, with insertions and removals between; yielded and remaining elements and the node structure are compared with the model after each; non-trivial: at least one element drained from a tree of more than one node; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> Recipe {
        hist_gen(s, &[20, 3, 1, 2, 40, 2, 4, 0, 0, 0, 0], 40, 400)
    }
    fn run(r: &Recipe, cov: &mut Cov) -> Result<(), String> {
        let w = run_strict(r, cov, 400)?;
        for op in &r.ops {
            if let Op::Drain(q, t) = op {
                cov.label(match q {
                    Q::All => "drain everything",
                    Q::In(_) => "drain in envelope",
                    Q::Inter(_) => "drain intersecting",
                    Q::Within(..) => "drain within distance",
                    Q::Sel(_) => "drain by selection function",
                    Q::At(_) => "?",
                });
                cov.label_if(t.is_some(), "drain dropped early");
            }
        }
        cov.nontrivial = w.peak > w.cfg.max && cov.counts.iter().any(|c| c.0 == "drained elements" && c.1 > 0);
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct C12Case {
    pub tree: Recipe,
    pub pops: Vec<(Co, Option<Elem>)>,
    pub until_empty: Option<Co>,
}
pub struct C12;
impl Check for C12 {
    const ID: &'static str = "C12";
    type Case = C12Case;
    const CASES: (u64, u64) = (900_000, 36_000_000);
    const RULE: &'static str = "a case is a tree and a series of pops from query points, with insertions between, then partly popping until empty; each popped element is judged against the linear scan, the rest compared with the model; non-trivial: at least one pop from a tree of more than one node; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> C12Case {
        let mut g = Gen::new(s, &all_cfgs());
        let tree = g.recipe(s, 15, 250);
        let pops = s.list(200, |r| r.below([4, 20, 60][r.clone().below(3) as usize]) as usize, |s, _| {
            let p = g.pt(s);
            let e = if s.chance(1, 3) { Some(g.elem(s)) } else { None };
            (p, e)
        });
        let many = tree.pat.is_some_and(|p| p.n > 5000);
        let until_empty = if s.bool() && !many { Some(g.pt(s)) } else { None };
        C12Case { tree, pops, until_empty }
    }
    fn run(c: &C12Case, cov: &mut Cov) -> Result<(), String> {
        let mut w = World::build(&c.tree, cov)?;
        w.check_content()?;
        let mut n = 0;
        for (i, (p, e)) in c.pops.iter().enumerate() {
            cov.nontrivial |= w.alive > w.cfg.max;
            w.apply(&Op::Pop(*p), true, cov).map_err(|e| format!("pop {i} from {p:?}: {e}"))?;
            if let Some(e) = e {
                w.insert(e);
            }
            sampled(&mut n, w.alive, || w.check_content()).map_err(|e| format!("after pop {i} from {p:?}: {e}"))?;
        }
        w.check_content()?;
        check_structure(&w)?;
        label_shape(&w, cov);
        if let Some(p) = &c.until_empty {
            let mut outs = vec![];
            let want = w.alive;
            while let Some(o) = w.tree.pop(p) {
                w.check_out(&o)?;
                w.kill(&o);
                outs.push(o);
                if outs.len() > want {
                    return Err("more pops than elements".into());
                }
            }
            if outs.len() != want || w.tree.size() != 0 {
                return Err(format!("popping until empty gave {} of {want} elements", outs.len()));
            }
            w.check_content()?;
            // all were alive before, in order
            let mut w2 = World::build(&c.tree, &mut Cov::default())?;
            w2.m = w.m.clone();
            w2.m.iter_mut().for_each(|m| m.alive = false);
            outs.iter().for_each(|o| w2.m[o.uid as usize].alive = true);
            w2.alive = outs.len();
            check_order(&w2, p, &outs, None, None).map_err(|e| format!("popping until empty: {e}"))?;
            cov.label("popped until empty");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Serialize, Deserialize)]
pub enum Fault {
    /// drop, forget, or unwind out of a drain after some elements
    Drain(Q, u32, End),
    /// the selection function panics while draining
    SelDrain(Sel, u32),
    /// the selection function panics while removing one element
    SelRemove(Sel),
    /// the selection function panics in a search
    SelSearch(Sel, Form),
    /// an element panics when it is compared or measured for the n-th time during a removal or drain
    Element(Op, u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C11Case {
    pub tree: Recipe,
    pub steps: Vec<(Fault, Vec<Op>)>,
    pub probe: Vec<Q>,
}
pub struct C11;
impl Check for C11 {
    const ID: &'static str = "C11";
    type Case = C11Case;
    const CASES: (u64, u64) = (1000_000, 40_000_000);
    const RULE: &'static str = "a case is a tree and 1 to 4 faulty removals: a drain forgotten, dropped or unwound after k elements, a selection function that panics at its k-th question about a node or an element, or an element that panics when compared or measured for the k-th time, each followed by ordinary operations; content, size, node structure and queries are compared with the model after each; non-trivial: a fault really hit a tree of more than one node; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> C11Case {
        let mut g = Gen::new(s, &all_cfgs());
        let tree = g.recipe(s, 12, 250);
        let steps = s.list(8, |r| 1 + r.below(4) as usize, |s, _| {
            let sel = |s: &mut Src, g: &Gen| {
                let mut x = g.sel(s);
                let k = 1 + s.draw_with(60, |r| r.below([4, 12, 60][r.clone().below(3) as usize])) as u32;
                if s.bool() {
                    x.panic_leaf = Some(k)
                } else {
                    x.panic_parent = Some(k)
                }
                x
            };
            let f = match s.weighted(&[4, 4, 3, 1, 3]) {
                0 => {
                    let q = g.drain_q(s);
                    let k = s.draw_with(100, |r| r.below([3, 10, 100][r.clone().below(3) as usize])) as u32;
                    Fault::Drain(q, k, [End::Forget, End::Panic, End::Drop][s.below(3)])
                }
                1 => {
                    let x = sel(s, &g);
                    Fault::SelDrain(x, s.draw_with(100, |r| if r.below(2) == 0 { 100 } else { r.below(8) }) as u32)
                }
                2 => Fault::SelRemove(sel(s, &g)),
                3 => Fault::SelSearch(sel(s, &g), [Form::Iter, Form::Mut][s.below(2)]),
                _ => {
                    let op = match s.below(4) {
                        0 => Op::RemEq(g.remove_target(s)),
                        1 => Op::RemAt(g.pt(s)),
                        2 => Op::Pop(g.pt(s)),
                        _ => Op::Drain(g.drain_q(s), g.take(s)),
                    };
                    Fault::Element(op, 1 + s.draw_with(100, |r| r.below([1, 6, 100][r.clone().below(3) as usize])) as u32)
                }
            };
            let w = [40, 12, 6, 6, 8, 4, 0, 0, 0, 0, 0];
            let ops = s.list(20, |r| r.below(6) as usize, |s, _| g.op(s, &w));
            (f, ops)
        });
        let probe = s.list(6, |_| 2, |s, _| any_query(&g, s));
        C11Case { tree, steps, probe }
    }
    fn run(c: &C11Case, cov: &mut Cov) -> Result<(), String> {
        use std::panic::{catch_unwind, AssertUnwindSafe};
        let mut w = World::build(&c.tree, cov)?;
        w.check_content()?;
        for (i, (f, ops)) in c.steps.iter().enumerate() {
            let got = RefCell::new(vec![]);
            let log = RefCell::new(SelLog::default());
            let big = w.alive > w.cfg.max;
            let sel = match f {
                Fault::Drain(q, ..) => w.sel_vec(q),
                Fault::SelDrain(s, _) | Fault::SelRemove(s) => w.sel_vec(&Q::Sel(*s)),
                _ => None,
            };
            let r = {
                let tree = &mut w.tree;
                catch_unwind(AssertUnwindSafe(|| match f {
                    Fault::Drain(q, k, end) => tree.drain(q, Some(*k as usize), *end, &log, &got),
                    Fault::SelDrain(s, k) => tree.drain(&Q::Sel(*s), Some(*k as usize), End::Drop, &log, &got),
                    Fault::SelRemove(s) => {
                        if let Some(o) = tree.remove_sel(s, &log) {
                            got.borrow_mut().push(o)
                        }
                    }
                    Fault::SelSearch(s, f) => {
                        tree.query(&Q::Sel(*s), *f, None, 0, &log);
                    }
                    Fault::Element(op, n) => {
                        rcheck::geo::set_fuse(*n);
                        let one = match op {
                            Op::RemEq(e) => tree.remove_eq(e),
                            Op::RemAt(p) => tree.remove_at(p),
                            Op::Pop(p) => tree.pop(p),
                            Op::Drain(q, k) => {
                                tree.drain(q, k.map(|k| k as usize), End::Drop, &log, &got);
                                None
                            }
                            _ => None,
                        };
                        got.borrow_mut().extend(one);
                    }
                }))
            };
            rcheck::geo::set_fuse(0);
            if r.is_err() && !last_panic().contains("injected panic") {
                return Err(format!("fault {i}: {}", last_panic()));
            }
            let got = got.into_inner();
            let what = match f {
                Fault::Drain(_, _, End::Forget) => "forgotten drain",
                Fault::Drain(_, _, End::Panic) => "consumer panic",
                Fault::Drain(_, _, End::Drop) => "dropped drain",
                Fault::SelDrain(..) => "selection panic in drain",
                Fault::SelRemove(..) => "selection panic in removal",
                Fault::SelSearch(..) => "selection panic in search",
                Fault::Element(Op::RemEq(_), _) => "element panic in removal",
                Fault::Element(Op::RemAt(_), _) => "element panic in removal at a point",
                Fault::Element(Op::Pop(_), _) => "element panic in pop",
                Fault::Element(..) => "element panic in drain",
            };
            let ctx = |e: String| format!("fault {i} ({what}): {e}");
            let hit = r.is_err() || matches!(f, Fault::Drain(_, _, End::Forget));
            cov.label_if(hit, what);
            cov.nontrivial |= hit && big;
            if let Fault::Drain(q, ..) = f {
                w.check_result(q, &got, true, sel.as_deref()).map_err(ctx)?;
            } else {
                w.check_outs(&got).map_err(ctx)?;
                if let Some(v) = &sel {
                    if let Some(o) = got.iter().find(|o| !v[o.uid as usize]) {
                        return Err(ctx(format!("{} was not selected", fmt_out(o))));
                    }
                }
            }
            got.iter().for_each(|o| w.kill(o));
            w.removed();
            if matches!(f, Fault::Drain(_, _, End::Forget)) {
                // a leaked drain may take elements with it, but never leaves wrong ones behind
                let root = w.tree.walk();
                let mut left = vec![];
                collect_leaves(&root, &mut left);
                w.check_outs(&left).map_err(ctx)?;
                w.m.iter_mut().for_each(|m| m.alive = false);
                left.iter().for_each(|o| w.m[o.uid as usize].alive = true);
                w.alive = left.len();
            }
            w.check_content().map_err(ctx)?;
            check_structure(&w).map_err(ctx)?;
            for q in &c.probe {
                answer_check(&mut w, q).map_err(ctx)?;
            }
            for (k, op) in ops.iter().enumerate() {
                w.apply(op, true, &mut Cov::default())
                    .map_err(|e| format!("operation {k} ({op:?}) after fault {i} ({what}): {e}"))?;
            }
            w.check_content().and_then(|_| check_structure(&w)).map_err(|e| format!("operations after fault {i} ({what}): {e}"))?;
        }
        label_shape(&w, cov);
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Serialize, Deserialize)]
pub struct C14Case {
    pub tree: Recipe,
    pub sels: Vec<(Sel, u8, Option<u32>)>,
}
pub struct C14;
impl Check for C14 {
    const ID: &'static str = "C14";
    type Case = C14Case;
    const CASES: (u64, u64) = (900_000, 36_000_000);
    const RULE: &'static str = "a case is a tree and 2 to 9 selection functions (arbitrary predicates over envelopes, by hash or window, and over elements) used in shared and mutable searches, drains and single removals, complete or cut short; results and every question asked are compared with the node structure; non-trivial: a function rejects some node and selects something in a tree of at least two levels; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> C14Case {
        let mut g = Gen::new(s, &all_cfgs());
        let tree = g.recipe(s, 20, 500);
        let sels = s.list(20, |r| 2 + r.below(8) as usize, |s, _| {
            let f = g.sel(s);
            let how = s.weighted(&[3, 3, 2, 2]) as u8;
            let stop = if s.chance(1, 3) { Some(s.upto(10) as u32) } else { None };
            (f, how, stop)
        });
        C14Case { tree, sels }
    }
    fn run(c: &C14Case, cov: &mut Cov) -> Result<(), String> {
        let mut w = World::build(&c.tree, cov)?;
        w.check_content()?;
        for (f, how, stop) in &c.sels {
            let root = w.tree.walk();
            let expect = w.sel_expect(f, &root);
            // what may be asked: nodes all of whose ancestors were accepted, and their elements
            let mut envs = std::collections::HashSet::new();
            let mut may = vec![false; w.m.len()];
            let mut rejected = false;
            fn go(
                w: &World,
                f: &Sel,
                n: &Node,
                envs: &mut std::collections::HashSet<Vec<u64>>,
                may: &mut [bool],
                rejected: &mut bool,
            ) {
                envs.insert(env_key(&n.lo, &n.hi));
                if !f.parent(&n.lo, &n.hi, &w.sp) {
                    *rejected = true;
                    return;
                }
                for k in &n.kids {
                    match k {
                        Kid::Leaf(o) => may[o.uid as usize] = true,
                        Kid::Node(n) => go(w, f, n, envs, may, rejected),
                    }
                }
            }
            if !root.kids.is_empty() {
                go(&w, f, &root, &mut envs, &mut may, &mut rejected);
            }
            let log = RefCell::new(SelLog::default());
            let q = Q::Sel(*f);
            let stop = stop.map(|s| s as usize);
            let (what, outs, stopped) = match how {
                0 => {
                    let v = w.tree.query(&q, Form::Iter, stop, 0, &log).outs;
                    let st = stop.is_some_and(|s| v.len() >= s);
                    ("search", v, st)
                }
                1 => {
                    let v = w.tree.query(&q, Form::Mut, stop, 0, &log).outs;
                    let st = stop.is_some_and(|s| v.len() >= s);
                    ("mutable search", v, st)
                }
                2 => {
                    let got = RefCell::new(vec![]);
                    w.tree.drain(&q, stop, End::Drop, &log, &got);
                    let v = got.into_inner();
                    let st = stop.is_some_and(|s| v.len() >= s);
                    ("drain", v, st)
                }
                _ => {
                    let v: Vec<Out> = w.tree.remove_sel(f, &log).into_iter().collect();
                    let st = !v.is_empty();
                    ("removal", v, st)
                }
            };
            let ctx = |e: String| format!("{what} with {f:?}: {e}");
            w.check_result(&q, &outs, stopped, Some(&expect)).map_err(ctx)?;
            let log = log.into_inner();
            for u in &log.leaves {
                if !may.get(*u as usize).copied().unwrap_or(false) {
                    return Err(ctx(format!("asked about element #{u}, which lies under a rejected node")));
                }
            }
            if *how < 2 {
                for (lo, hi) in &log.parents {
                    if !envs.contains(&env_key(lo, hi)) {
                        return Err(ctx(format!("asked about the envelope {lo:?}..{hi:?}, which no node in reach has")));
                    }
                }
            }
            cov.label(["search", "mutable search", "drain", "removal"][(*how).min(3) as usize]);
            cov.label_if(rejected, "some node rejected");
            cov.nontrivial |= rejected && expect.iter().any(|x| *x) && w.alive > w.cfg.max;
            if *how >= 2 {
                outs.iter().for_each(|o| w.kill(o));
                w.removed();
                w.check_content().map_err(ctx)?;
                check_structure(&w).map_err(ctx)?;
            }
        }
        // every envelope offered covers the elements below it
        check_structure(&w)?;
        label_shape(&w, cov);
        Ok(())
    }
}
fn env_key(lo: &[f64], hi: &[f64]) -> Vec<u64> {
    lo.iter().chain(hi).map(|x| (x + 0.0).to_bits()).collect()
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Serialize, Deserialize)]
pub struct C15Case {
    pub tree: Recipe,
    pub muts: Vec<(Q, bool, Option<u32>, u16)>,
    pub after: Vec<Op>,
    pub probe: Vec<Q>,
}
pub struct C15;
impl Check for C15 {
    const ID: &'static str = "C15";
    type Case = C15Case;
    const CASES: (u64, u64) = (900_000, 36_000_000);
    const RULE: &'static str = "a case is a tree, 1 to 8 mutable queries (all kinds, iterator and visitor forms, complete or stopped early) each adding to the payload of what it hands out while all references are held together, then operations and queries that must show the changed payloads; non-trivial: some mutable query selects a proper non-empty part of a tree of at least two levels; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn gen(s: &mut Src, _: u64) -> C15Case {
        let mut g = Gen::new(s, &all_cfgs());
        let tree = g.recipe(s, 15, 400);
        let muts = s.list(20, |r| 1 + r.below(8) as usize, |s, _| {
            let q = match s.below(5) {
                0 => Q::All,
                1 => Q::In(g.win(s)),
                2 => Q::Inter(g.win(s)),
                3 => Q::At(g.pt(s)),
                _ => Q::Sel(g.sel(s)),
            };
            let stop = if s.chance(1, 4) { Some(s.upto(10) as u32) } else { None };
            (q, s.bool(), stop, 1 + s.upto(999) as u16)
        });
        let w = [30, 12, 6, 6, 8, 4, 0, 1, 2, 1, 1];
        let after = s.list(30, |r| r.below(10) as usize, |s, _| g.op(s, &w));
        let probe = s.list(6, |_| 3, |s, _| any_query(&g, s));
        C15Case { tree, muts, after, probe }
    }
    fn run(c: &C15Case, cov: &mut Cov) -> Result<(), String> {
        let mut w = World::build(&c.tree, cov)?;
        w.check_content()?;
        let shape = w.tree.walk();
        for (q, int, stop, add) in &c.muts {
            let form = if *int { Form::IntMut } else { Form::Mut };
            let sel = w.sel_vec(q);
            let (must, may) = w.expected_counts(q, sel.as_deref());
            cov.nontrivial |= must > 0 && may < w.alive && w.alive > w.cfg.max;
            let log = RefCell::new(SelLog::default());
            let shared = w.tree.query(q, Form::Iter, None, 0, &log).outs;
            let v = w.tree.query(q, form, stop.map(|s| s as usize), *add as u64, &log);
            let ctx = |e: String| format!("{q:?} as {form:?}: {e}");
            let stopped = stop.is_some_and(|s| v.outs.len() >= s as usize);
            w.check_result(q, &v.outs, stopped, sel.as_deref()).map_err(ctx)?;
            if v.outs.len() != shared.len().min(stop.map(|s| s as usize).unwrap_or(usize::MAX)) {
                return Err(ctx(format!("{} elements, the shared query gives {}", v.outs.len(), shared.len())));
            }
            let by_uid: std::collections::HashMap<u32, &Out> = shared.iter().map(|o| (o.uid, o)).collect();
            for o in &v.outs {
                if by_uid.get(&o.uid) != Some(&o) {
                    return Err(ctx(format!("{} is not in the shared query's result", fmt_out(o))));
                }
                w.m[o.uid as usize].payload = w.m[o.uid as usize].payload.wrapping_add(*add as u64);
            }
            cov.count("payloads changed", v.outs.len() as u64);
            w.check_content().map_err(ctx)?;
            if let Q::At(p) = q {
                for f in [Form::Mut, Form::IntMut] {
                    let (a, b) = (w.tree.at_one(p, f), w.tree.at_one(p, Form::Iter));
                    if a.is_some() != b.is_some() {
                        return Err(ctx(format!("single result {a:?} as {f:?} but {b:?} shared")));
                    }
                    if let Some(o) = a {
                        w.check_out(&o).map_err(ctx)?;
                        if w.tri(q, o.uid) == Tri::Not {
                            return Err(ctx(format!("single result {} is not there", fmt_out(&o))));
                        }
                    }
                }
            }
        }
        // nothing but payloads changed
        if let Some(e) = same_shape(&shape, &w.tree.walk()) {
            return Err(format!("mutable queries changed the tree: {e}"));
        }
        for q in &c.probe {
            w.run_query(q, Form::Iter, None)?;
        }
        for (k, op) in c.after.iter().enumerate() {
            w.apply(op, true, &mut Cov::default()).map_err(|e| format!("operation {k} ({op:?}) afterwards: {e}"))?;
        }
        w.check_content()?;
        check_structure(&w)?;
        label_shape(&w, cov);
        Ok(())
    }
}
/// Compares node structures up to payloads.
pub fn same_shape(a: &Node, b: &Node) -> Option<String> {
    if a.lo != b.lo || a.hi != b.hi || a.kids.len() != b.kids.len() {
        return Some(format!("node {:?}..{:?} ({}) against {:?}..{:?} ({})", a.lo, a.hi, a.kids.len(), b.lo, b.hi, b.kids.len()));
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        match (x, y) {
            (Kid::Leaf(x), Kid::Leaf(y)) => {
                if (x.uid, x.tag, x.geo) != (y.uid, y.tag, y.geo) {
                    return Some(format!("element #{} against #{}", x.uid, y.uid));
                }
            }
            (Kid::Node(x), Kid::Node(y)) => {
                if let Some(e) = same_shape(x, y) {
                    return Some(e);
                }
            }
            _ => return Some("a node against an element".into()),
        }
    }
    None
}

rcheck::registry! {
    "C01" => C01,
    "C02" => C02,
    "C03" => C03,
    "C04" => C04,
    "C05" => C05,
    "C06" => C06,
    "C07" => C07,
    "C08" => C08,
    "C09" => C09,
    "C10" => C10,
    "C11" => C11,
    "C12" => C12,
    "C14" => C14,
    "C15" => C15,
}
