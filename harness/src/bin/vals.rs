//! C28: boxes, primitives and wrapped objects as values: equality, order, hash, copies, parts.

use rcheck::engine::*;
use rcheck::geo::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, ObjectRef, PointWithData, Rectangle};
use rstar::{RTree, AABB};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// What a value is made of, from which equality follows.
type Key = Vec<i64>;

fn partial<T: Clone + Debug + PartialOrd>(what: &str, v: &[T], k: &[Key], cov: &mut Cov) -> Result<(), String> {
    for (a, ka) in v.iter().zip(k) {
        for (b, kb) in v.iter().zip(k) {
            let eq = ka == kb;
            let say = |s: &str| Err(format!("{what}: {a:?} and {b:?} (made of {ka:?} and {kb:?}) {s}"));
            if (a == b) != eq {
                return say(if eq { "are unequal" } else { "are equal" });
            }
            #[allow(clippy::nonminimal_bool)]
            if (a != b) == eq {
                return say("are both equal and unequal, or neither");
            }
            let o = a.partial_cmp(b);
            if (o == Some(Ordering::Equal)) != eq || o.is_none() {
                return say(&format!("compare as {o:?}"));
            }
            if b.partial_cmp(a) != o.map(Ordering::reverse) {
                return say(&format!("compare as {o:?} and, the other way round, as {:?}", b.partial_cmp(a)));
            }
            let ops = (a < b, a <= b, a > b, a >= b);
            let o = o.unwrap();
            if ops != (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()) {
                return say(&format!("compare as {o:?}, the operators say {ops:?}"));
            }
            cov.label(if eq { "equal values" } else { "unequal values" });
            for c in v {
                if a <= b && b <= c && !(a <= c) {
                    return say(&format!("are in this order, {b:?} and {c:?} too, but not the first and the last"));
                }
            }
        }
        let copy = a.clone();
        let mut over = v[0].clone();
        over.clone_from(a);
        if copy != *a || over != *a {
            return Err(format!("{what}: a clone of {a:?} is {copy:?} or {over:?}"));
        }
    }
    Ok(())
}
fn total<T: Clone + Debug + Ord + Hash>(what: &str, v: &[T], k: &[Key], cov: &mut Cov) -> Result<(), String> {
    partial(what, v, k, cov)?;
    let hash = |t: &T| {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    for a in v {
        for b in v {
            if Some(a.cmp(b)) != a.partial_cmp(b) {
                return Err(format!("{what}: {a:?} and {b:?} have different total and partial orders"));
            }
            if a == b && hash(a) != hash(b) {
                return Err(format!("{what}: the equal {a:?} and {b:?} have different hashes"));
            }
            let (lo, hi) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
            if lo > hi || !(lo == *a && hi == *b || lo == *b && hi == *a) {
                return Err(format!("{what}: the lesser of {a:?} and {b:?} is {lo:?}, the greater {hi:?}"));
            }
        }
    }
    let n = k.iter().collect::<HashSet<_>>().len();
    let (h, b) = (v.iter().collect::<HashSet<_>>().len(), v.iter().collect::<BTreeSet<_>>().len());
    let mut s = v.to_vec();
    s.sort();
    s.dedup();
    if (h, b, s.len()) != (n, n, n) {
        return Err(format!("{what}: {n} different values of {v:?}; as sets {h} and {b}, sorted {}", s.len()));
    }
    Ok(())
}

struct Raw<'a> {
    a: &'a Co,
    b: &'a Co,
    t: u8,
}
fn key(parts: &[&Co], t: Option<u8>) -> Key {
    parts.iter().flat_map(|c| c.c().iter().map(|v| *v as i64)).chain(t.map(|t| t as i64)).collect()
}

/// Checks all kinds of values over one point type with the given laws.
macro_rules! laws {
    ($law:ident, $c:expr, $cov:expr, $P:ty) => {{
        type P = $P;
        let cov: &mut Cov = $cov;
        let m = $c.mode;
        let raws: Vec<Raw> = $c.vals.iter().map(|(a, b, t)| Raw { a, b, t: *t }).collect();
        let p = |c: &Co| mk::<P>(c, m);
        let sorted = |r: &Raw| -> Key {
            let d = r.a.d();
            (0..d).map(|i| r.a[i].min(r.b[i]) as i64).chain((0..d).map(|i| r.a[i].max(r.b[i]) as i64)).collect()
        };
        let with = |mut k: Key, t: u8| {
            k.push(t as i64);
            k
        };
        let keys: Vec<Key> = raws.iter().map(sorted).collect();
        let dkeys: Vec<Key> = raws.iter().zip(&keys).map(|(r, k)| with(k.clone(), r.t)).collect();
        let ends: Vec<Key> = raws.iter().map(|r| key(&[r.a, r.b], None)).collect();
        let dends: Vec<Key> = raws.iter().map(|r| key(&[r.a, r.b], Some(r.t))).collect();
        let boxes: Vec<AABB<P>> = raws.iter().map(|r| AABB::from_corners(p(r.a), p(r.b))).collect();
        $law("AABB", &boxes, &keys, cov)?;
        let rects: Vec<Rectangle<P>> = raws.iter().map(|r| Rectangle::from_corners(p(r.a), p(r.b))).collect();
        $law("Rectangle", &rects, &keys, cov)?;
        for (r, b) in rects.iter().zip(&boxes) {
            let back = AABB::from_corners(r.lower(), r.upper());
            if back != *b || Rectangle::from(b.clone()) != *r {
                return Err(format!("{r:?} made from {b:?} gives {back:?}"));
            }
        }
        let lines: Vec<Line<P>> = raws.iter().map(|r| Line::new(p(r.a), p(r.b))).collect();
        $law("Line", &lines, &ends, cov)?;
        for (l, r) in lines.iter().zip(&raws) {
            if l.from != p(r.a) || l.to != p(r.b) {
                return Err(format!("a line from {:?} to {:?} is {l:?}", r.a, r.b));
            }
        }
        let data: Vec<_> = raws.iter().zip(&lines).map(|(r, l)| GeomWithData::new(l.clone(), r.t)).collect();
        $law("GeomWithData", &data, &dends, cov)?;
        for ((g, l), r) in data.iter().zip(&lines).zip(&raws) {
            if g.geom() != l || g.data != r.t {
                return Err(format!("{l:?} with data {} is {g:?}", r.t));
            }
        }
        let cached: Vec<_> = lines.iter().map(|l| CachedEnvelope::new(l.clone())).collect();
        $law("CachedEnvelope", &cached, &ends, cov)?;
        let refs: Vec<_> = rects.iter().map(|l| ObjectRef::new(l)).collect();
        $law("ObjectRef", &refs, &keys, cov)?;
        for i in 0..lines.len() {
            if *cached[i] != lines[i] || *refs[i] != rects[i] {
                return Err(format!("{:?} wraps {:?}, {:?} {:?}", cached[i], lines[i], refs[i], rects[i]));
            }
        }
        let deep: Vec<_> =
            rects.iter().zip(&raws).map(|(x, r)| GeomWithData::new(CachedEnvelope::new(x.clone()), r.t)).collect();
        $law("GeomWithData<CachedEnvelope>", &deep, &dkeys, cov)?;
        #[allow(deprecated)]
        let points: Vec<PointWithData<u8, P>> = raws.iter().map(|r| PointWithData::new(r.t, p(r.a))).collect();
        let pkeys: Vec<Key> = raws.iter().map(|r| key(&[r.a], Some(r.t))).collect();
        $law("PointWithData", &points, &pkeys, cov)?;
        for (x, r) in points.iter().zip(&raws) {
            if *x.position() != p(r.a) || x.data != r.t {
                return Err(format!("{:?} with data {} is {x:?}", r.a, r.t));
            }
        }
        // with data changed in place
        for (r, q) in raws.iter().zip(raws.iter().rev()) {
            let l = Line::new(p(r.a), p(r.b));
            let mut g = GeomWithData::new(l.clone(), r.t);
            g.data = q.t;
            if g != GeomWithData::new(l, q.t) {
                return Err(format!("with its data replaced by {}: {g:?}", q.t));
            }
        }
        // membership follows equality
        let tree = RTree::bulk_load(data[..data.len() / 2].to_vec());
        for (g, k) in data.iter().zip(&dends) {
            if tree.contains(g) != dends[..data.len() / 2].contains(k) {
                return Err(format!("tree of half of {data:?}: contains {g:?} is {}", tree.contains(g)));
            }
        }
        cov.nontrivial = (0..raws.len()).any(|i| (0..i).any(|j| dends[i] == dends[j]))
            && (0..raws.len()).any(|i| (0..i).any(|j| ends[i] != ends[j] && keys[i] == keys[j] || ends[i] == ends[j] && raws[i].t != raws[j].t));
        Ok(())
    }};
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ValCase {
    ty: u8,
    mode: Mode,
    vals: Vec<(Co, Co, u8)>,
}
const DIMS: [usize; 10] = [2, 2, 3, 2, 3, 5, 2, 3, 2, 4];
const NAMES: [&str; 10] = [
    "[i32; 2]", "[i8; 2]", "[i64; 3]", "(i32, i32)", "(i16, i16, i16)", "[i128; 5]", "[f64; 2]", "[f32; 3]", "(f64, f64)", "[Wrapping<i32>; 4]",
];

pub struct C28;
impl Check for C28 {
    const ID: &'static str = "C28";
    type Case = ValCase;
    const CASES: (u64, u64) = (2_000_000, 80_000_000);
    const RULE: &'static str = "a case is 2 to 7 pairs of points with data, over one of 10 point types, drawn so that many agree in some or all parts; of each pair a box, a rectangle, a line, objects with data, with cached envelopes, by reference and nested are made; equality must be equality of the parts, order and hash must agree with it, clones be equal, and accessors return the parts; non-trivial: two values equal in all parts, and two that differ only in direction or only in their data; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &["coordinates are ordered numbers (no NaN)", "the attached data has a total order and a hash of its own"];
    fn gen(s: &mut Src, _: u64) -> ValCase {
        let ty = s.below(DIMS.len());
        let d = DIMS[ty];
        let mode = if ty == 6 || ty == 7 || ty == 8 { [Mode::Unit, Mode::NegZero, Mode::Eighth][s.below(3)] } else { Mode::Unit };
        let span = [1, 2, 5, 100][s.weighted(&[3, 3, 2, 1])];
        let mut vals: Vec<(Co, Co, u8)> = vec![];
        let n = 2 + s.below(6);
        for _ in 0..n {
            let co = |s: &mut Src| {
                Co::from_fn(d, |_| match s.weighted(&[12, 1]) {
                    0 => s.signed(span) as i32,
                    _ => [i8::MIN as i32, i8::MAX as i32][s.below(2)],
                })
            };
            let fresh = (co(s), co(s), s.below(3) as u8);
            let v = if vals.is_empty() {
                fresh
            } else {
                let o = vals[s.below(vals.len())];
                match s.weighted(&[3, 3, 2, 2, 2, 2]) {
                    0 => fresh,
                    1 => o,
                    2 => (o.1, o.0, o.2),
                    3 => (o.0, o.1, fresh.2),
                    4 => (o.0, fresh.1, o.2),
                    _ => {
                        // another pair of opposite corners of the same box
                        let ax = s.below(d);
                        let sw = |x: &Co, y: &Co| Co::from_fn(d, |i| if i == ax { y[i] } else { x[i] });
                        (sw(&o.0, &o.1), sw(&o.1, &o.0), o.2)
                    }
                }
            };
            vals.push(v);
        }
        ValCase { ty: ty as u8, mode, vals }
    }
    fn run(c: &ValCase, cov: &mut Cov) -> Result<(), String> {
        cov.label(NAMES[c.ty as usize]);
        match c.ty {
            0 => laws!(total, c, cov, [i32; 2]),
            1 => laws!(total, c, cov, [i8; 2]),
            2 => laws!(total, c, cov, [i64; 3]),
            3 => laws!(total, c, cov, (i32, i32)),
            4 => laws!(total, c, cov, (i16, i16, i16)),
            5 => laws!(total, c, cov, [i128; 5]),
            6 => laws!(partial, c, cov, [f64; 2]),
            7 => laws!(partial, c, cov, [f32; 3]),
            8 => laws!(partial, c, cov, (f64, f64)),
            _ => laws!(total, c, cov, [std::num::Wrapping<i32>; 4]),
        }
    }
}

rcheck::registry! {
    "C28" => C28,
}
