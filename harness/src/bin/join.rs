//! C13: joining two trees.

use rcheck::dyntree::*;
use rcheck::engine::*;
use rcheck::geo::*;
use rcheck::hist::*;
use rstar::primitives::{Line, Rectangle};
use rstar::{DefaultParams, RTree, RTreeParams};
use serde::{Deserialize, Serialize};

/// One side of the join: elements, then windows drained (possibly cut short), then more insertions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Side {
    pub bulk: bool,
    pub elems: Vec<Elem>,
    pub pat: Option<Pattern>,
    pub drains: Vec<(Win, u32)>,
    pub more: Vec<Elem>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct JoinCase {
    pub combo: u8,
    pub mode: Mode,
    pub a: Side,
    pub b: Side,
    /// join the first tree with itself as well
    pub own: bool,
    pub stop: Option<u32>,
}

struct Built<G: Geo, PA: RTreeParams> {
    tree: RTree<Item<G>, PA>,
    m: Vec<(u32, Elem)>,
}
fn build<G: Geo, PA: RTreeParams>(s: &Side, mode: Mode, base: u32) -> Result<Built<G, PA>, String> {
    let d = <G::P as rstar::Point>::DIMENSIONS;
    let mut es = s.elems.clone();
    if let Some(p) = s.pat {
        es.extend(p.expand(d));
    }
    let mut m: Vec<(u32, Elem)> = es.into_iter().enumerate().map(|(i, e)| (base + i as u32, e)).collect();
    let mut tree = if s.bulk {
        RTree::bulk_load_with_params(m.iter().map(|(u, e)| item::<G>(e, *u, 0, mode)).collect())
    } else {
        let mut t = RTree::new_with_params();
        m.iter().for_each(|(u, e)| t.insert(item::<G>(e, *u, 0, mode)));
        t
    };
    for (w, n) in &s.drains {
        let gone: Vec<u32> =
            tree.drain_in_envelope_intersecting(w.make(mode)).take(*n as usize).map(|i| i.uid).collect();
        m.retain(|(u, _)| !gone.contains(u));
    }
    let next = base + 500_000;
    for (i, e) in s.more.iter().enumerate() {
        tree.insert(item::<G>(e, next + i as u32, 0, mode));
        m.push((next + i as u32, *e));
    }
    if tree.size() != m.len() {
        return Err(format!("a side has size {} instead of {}", tree.size(), m.len()));
    }
    Ok(Built { tree, m })
}
fn disjoint(a: &Elem, ka: Kind, b: &Elem, kb: Kind) -> bool {
    let ((al, ah), (bl, bh)) = (a.env(ka), b.env(kb));
    (0..al.d()).any(|i| ah[i] < bl[i] || bh[i] < al[i])
}
fn compare(
    got: Vec<(u32, u32)>,
    stop: Option<usize>,
    a: &[(u32, Elem)],
    ka: Kind,
    b: &[(u32, Elem)],
    kb: Kind,
    what: &str,
) -> Result<usize, String> {
    let mut want = Vec::new();
    for (u, x) in a {
        for (v, y) in b {
            if !disjoint(x, ka, y, kb) {
                want.push((*u, *v));
            }
        }
    }
    want.sort_unstable();
    let n = want.len();
    let mut g = got.clone();
    g.sort_unstable();
    if let Some(w) = g.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("{what}: the pair {:?} is returned twice", w[0]));
    }
    let name = |p: &(u32, u32)| {
        let f = |l: &[(u32, Elem)], u: u32| l.iter().find(|x| x.0 == u).map(|x| x.1);
        format!("{p:?} = ({:?}, {:?})", f(a, p.0), f(b, p.1))
    };
    if let Some(p) = g.iter().find(|p| want.binary_search(p).is_err()) {
        return Err(format!("{what}: the pair {} is returned but does not intersect", name(p)));
    }
    let expect = stop.map_or(n, |s| s.min(n));
    if g.len() != expect {
        let miss = want.iter().find(|p| g.binary_search(p).is_err());
        return Err(format!(
            "{what}: {} of {expect} pairs returned; missing {:?}",
            g.len(),
            miss.map(name)
        ));
    }
    Ok(n)
}
fn run_combo<GA: Geo, PA: RTreeParams, GB: Geo<P = GA::P>>(c: &JoinCase, cov: &mut Cov) -> Result<(), String> {
    let a = build::<GA, PA>(&c.a, c.mode, 0)?;
    let b = build::<GB, DefaultParams>(&c.b, c.mode, 1_000_000)?;
    let stop = c.stop.map(|s| s as usize);
    let got = hinted(a.tree.intersection_candidates_with_other_tree(&b.tree))
        .take(stop.unwrap_or(usize::MAX))
        .map(|(x, y)| (x.uid, y.uid))
        .collect();
    let n = compare(got, stop, &a.m, GA::KIND, &b.m, GB::KIND, "join")?;
    cov.nontrivial = n > 0 && n < a.m.len() * b.m.len() && a.m.len() > 3 && b.m.len() > 3;
    let (ha, hb) = (height(&walk(a.tree.root())), height(&walk(b.tree.root())));
    cov.label_if(ha > hb && hb > 0 && !b.m.is_empty(), "first tree higher");
    cov.label_if(ha < hb && !a.m.is_empty(), "second tree higher");
    cov.label_if(ha > 1 && ha == hb, "same height, several levels");
    cov.label_if(a.m.is_empty() != b.m.is_empty(), "one side empty");
    cov.label_if(a.m.is_empty() && b.m.is_empty(), "both sides empty");
    cov.count("pairs", n as u64);
    Ok(())
}
/// The same with the roles swapped, and a tree with itself.
fn run_own<G: Geo>(c: &JoinCase, cov: &mut Cov) -> Result<(), String> {
    if !c.own {
        return Ok(());
    }
    let a = build::<G, DefaultParams>(&c.a, c.mode, 0)?;
    let got =
        hinted(a.tree.intersection_candidates_with_other_tree(&a.tree)).map(|(x, y)| (x.uid, y.uid)).collect();
    compare(got, None, &a.m, G::KIND, &a.m, G::KIND, "join with itself")?;
    cov.label("joined with itself");
    Ok(())
}

type P2 = GPoint<[f64; 2]>;
type R2 = Rectangle<[f64; 2]>;
const KINDS: [(Kind, Kind, usize, bool); 8] = [
    (Kind::Point, Kind::Rect, 2, false),
    (Kind::Rect, Kind::Rect, 2, false),
    (Kind::Rect, Kind::Rect, 2, true),
    (Kind::Line, Kind::Rect, 2, false),
    (Kind::Rect, Kind::Rect, 3, true),
    (Kind::Point, Kind::Rect, 2, true),
    (Kind::Rect, Kind::Point, 2, false),
    (Kind::Rect, Kind::Line, 4, false),
];
fn gen_side(g: &mut Gen, s: &mut Src) -> Side {
    let size = s.size;
    // rarely several thousand elements: joins of more than 16 bits of pairs, and trees of more levels
    let most = if s.chance(1, 2000) { 2500 } else { 150 };
    let pat = if most > 150 || s.chance(1, 3) { Some(g.pattern(s, most)) } else { None };
    let elems = if pat.is_some() { vec![] } else { s.list(500, |r| rlen(r, size).min(150), |s, _| g.elem(s)) };
    Side {
        bulk: s.bool(),
        elems,
        pat,
        drains: s.list(4, |r| [0, 0, 1, 2][r.below(4) as usize], |s, _| (g.win(s), s.upto(40) as u32)),
        more: s.list(40, |r| [0, 1, 12][r.clone().below(3) as usize], |s, _| g.elem(s)),
    }
}

pub struct C13;
impl Check for C13 {
    const ID: &'static str = "C13";
    type Case = JoinCase;
    const CASES: (u64, u64) = (900_000, 36_000_000);
    const RULE: &'static str = "a case is a pair of trees of one of 8 type and parameter combinations, each bulk loaded or inserted, partly drained and extended, whose join (complete, or stopped early) must be exactly the pairs a nested loop over the lattice boxes finds, and the join of the first tree with itself; non-trivial: both sides have more than 3 elements and some but not all pairs intersect; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] =
        &["finite coordinates without NaN", "the second tree has default parameters, as the method's signature demands"];
    fn gen(s: &mut Src, _: u64) -> JoinCase {
        let combo = s.upto(KINDS.len() as u64 - 1) as u8;
        let (ka, kb, d, int) = KINDS[combo as usize];
        let span = [1, 3, 10, 40, 500][s.weighted(&[1, 3, 4, 4, 2])];
        let mode = if int { Mode::Unit } else { MODES[s.weighted(&[6, 3, 1, 2, 3, 3, 1, 1, 2])] };
        let mut g = Gen { cfg: 0, mode, d, kind: ka, span, lim: 500, pool: vec![], elems: vec![] };
        let a = gen_side(&mut g, s);
        g.kind = kb;
        // half of the time the second side lives elsewhere (still overlapping)
        if s.chance(1, 3) {
            g.pool.clear();
            g.elems.clear();
            g.span = [1, 10, 40, 500][s.below(4)];
        } else {
            // elements of the first side show up in the second one, too
            for e in &mut g.elems {
                if kb == Kind::Point {
                    e.b = e.a;
                }
            }
        }
        let b = gen_side(&mut g, s);
        JoinCase { combo, mode, a, b, own: s.chance(1, 3), stop: if s.chance(1, 4) { Some(s.upto(20) as u32) } else { None } }
    }
    fn run(c: &JoinCase, cov: &mut Cov) -> Result<(), String> {
        match c.combo {
            0 => {
                run_combo::<P2, DefaultParams, R2>(c, cov)?;
                run_own::<P2>(c, cov)
            }
            1 => {
                run_combo::<R2, DefaultParams, R2>(c, cov)?;
                run_own::<R2>(c, cov)
            }
            2 => {
                run_combo::<Rectangle<[i32; 2]>, Pa<1, 4, 1>, Rectangle<[i32; 2]>>(c, cov)?;
                run_own::<Rectangle<[i32; 2]>>(c, cov)
            }
            3 => {
                run_combo::<Line<[f64; 2]>, Pa<20, 40, 10>, R2>(c, cov)?;
                run_own::<Line<[f64; 2]>>(c, cov)
            }
            4 => {
                run_combo::<Rectangle<[i64; 3]>, Pa<2, 4, 0>, Rectangle<[i64; 3]>>(c, cov)?;
                run_own::<Rectangle<[i64; 3]>>(c, cov)
            }
            5 => {
                run_combo::<GPoint<MyPoint>, Pa<2, 8, 3>, Rectangle<MyPoint>>(c, cov)?;
                run_own::<GPoint<MyPoint>>(c, cov)
            }
            6 => {
                run_combo::<Rectangle<(f32, f32)>, Pa<1, 6, 4>, GPoint<(f32, f32)>>(c, cov)?;
                run_own::<Rectangle<(f32, f32)>>(c, cov)
            }
            _ => {
                run_combo::<Rectangle<[f64; 4]>, DefaultParams, Line<[f64; 4]>>(c, cov)?;
                run_own::<Rectangle<[f64; 4]>>(c, cov)
            }
        }
    }
}

rcheck::registry! {
    "C13" => C13,
}
