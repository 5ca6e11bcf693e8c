//! C16 to C18: boxes and primitives against definitions evaluated on lattice coordinates.

use rcheck::engine::*;
use rcheck::geo::*;
use rstar::primitives::{Line, Rectangle};
use rstar::{Envelope, PointDistance, RTreeObject, AABB};
use serde::{Deserialize, Serialize};
use std::num::Wrapping;

/// Calls a generic function for the chosen point type.
macro_rules! point_types {
    ($( ($name:literal, $t:ty) ),+ $(,)?) => {
        pub const PT_NAMES: &[&str] = &[$($name),+];
        pub const PT_DIMS: &[usize] = &[$(<$t as rstar::Point>::DIMENSIONS),+];
        pub const PT_INT: &[bool] = &[$(<<$t as Pt>::S as Sc>::INT),+];
        /// half the largest value of small integer types, else something large
        pub const PT_BITS: &[usize] = &[$(std::mem::size_of::<<$t as Pt>::S>()),+];
        macro_rules! with_point_type {
            ($idx:expr, $f:ident, $case:expr, $cov:expr) => {{
                let mut _i = 0usize;
                $( if $idx == _i { return $f::<$t>($case, $cov); } _i += 1; )+
                panic!("no point type {}", $idx)
            }};
        }
    };
}
point_types![
    ("[f64; 2]", [f64; 2]),
    ("[i32; 2]", [i32; 2]),
    ("[f32; 2]", [f32; 2]),
    ("[f64; 3]", [f64; 3]),
    ("[i64; 3]", [i64; 3]),
    ("(f64, f64)", (f64, f64)),
    ("(i32, i32, i32)", (i32, i32, i32)),
    ("[i8; 2]", [i8; 2]),
    ("[i16; 3]", [i16; 3]),
    ("[isize; 2]", [isize; 2]),
    ("[i128; 4]", [i128; 4]),
    ("[Wrapping<i32>; 2]", [Wrapping<i32>; 2]),
    ("mint::Point2<f64>", mint::Point2<f64>),
    ("mint::Point3<f32>", mint::Point3<f32>),
    ("MyPoint", MyPoint),
    ("[f64; 6]", [f64; 6]),
    ("(i64, ..; 5)", (i64, i64, i64, i64, i64)),
    ("[f32; 10]", [f32; 10]),
    ("[f64; 1]", [f64; 1]),
    ("(i32,)", (i32,)),
];

#[derive(Clone, Serialize, Deserialize)]
pub struct BoxCase {
    pub ty: usize,
    pub mode: Mode,
    /// corners of boxes; i32::MIN/MAX stand for the limits of the scalar
    pub boxes: Vec<(Co, Co)>,
    pub pts: Vec<Co>,
    pub r: i32,
    pub axis: usize,
    pub part: usize,
    /// further points: for C16 with coordinates at the limits of the scalar, for C17 more to partition
    #[serde(default)]
    pub more: Vec<Co>,
}
/// Lattice limit for a type so that sums of two coordinates always fit.
fn lim_of(ty: usize) -> i64 {
    match PT_BITS[ty] {
        1 => 40,
        2 => 10_000,
        _ => 100_000,
    }
}
pub fn gen_co(s: &mut Src, d: usize, span: i64, pool: &mut Vec<Co>, lim: i64) -> Co {
    let c = match if pool.is_empty() { 0 } else { s.weighted(&[4, 3, 3, 2]) } {
        0 => Co::from_fn(d, |_| s.signed(span) as i32),
        1 => pool[s.below(pool.len())],
        2 => {
            let n = pool.len();
            Co::from_fn(d, |i| pool[s.below(n)][i])
        }
        _ => {
            let p = pool[s.below(pool.len())];
            Co::from_fn(d, |i| (p[i] as i64 + s.signed(2)).clamp(-lim, lim) as i32)
        }
    };
    pool.push(c);
    c
}
fn gen_box_case(s: &mut Src, limits: bool, big: bool) -> BoxCase {
    let ty = s.below(PT_NAMES.len());
    let d = PT_DIMS[ty];
    let mode = if PT_INT[ty] { Mode::Unit } else { MODES[s.weighted(&[8, 3, 2, 2, 3, 3, 1, 1, 2])] };
    let lim = lim_of(ty);
    let spans = [2, 5, 12, 100, lim];
    let span = spans[s.weighted(&[3, 4, 4, 2, if big { 3 } else { 0 }])].min(lim);
    let mut pool = vec![];
    let nb = 2 + s.below(4);
    let boxes = (0..nb)
        .map(|_| {
            let a = gen_co(s, d, span, &mut pool, lim);
            let mut b = gen_co(s, d, span, &mut pool, lim);
            if s.chance(1, 6) {
                b = a;
            }
            if s.chance(1, 6) {
                let ax = s.below(d);
                b.c_mut()[ax] = a[ax];
            }
            if limits && s.chance(1, 8) {
                let ax = s.below(d);
                b.c_mut()[ax] = if s.bool() { i32::MAX } else { i32::MIN };
            }
            (a, b)
        })
        .collect();
    let np = 1 + s.below(5);
    let pts = (0..np).map(|_| gen_co(s, d, span, &mut pool, lim)).collect();
    let r = s.upto(span as u64) as i32;
    let axis = s.below(d);
    let more: Vec<Co> = if !s.chance(1, 6) {
        vec![]
    } else if limits {
        let n = 1 + s.below(4);
        (0..n)
            .map(|_| {
                Co::from_fn(d, |_| match s.weighted(&[2, 2, 3]) {
                    0 => i32::MIN,
                    1 => i32::MAX,
                    _ => s.signed(span) as i32,
                })
            })
            .collect()
    } else {
        // short lists are sorted as a whole by the standard library's selection
        let n = 10 + s.below(60);
        (0..n).map(|_| Co::from_fn(d, |_| s.signed(span) as i32)).collect()
    };
    let part = s.below(nb + if limits { 0 } else { 2 * np + more.len() });
    BoxCase { ty, mode, boxes, pts, r, axis, part, more }
}
fn lohi(b: &(Co, Co)) -> (Co, Co) {
    let d = b.0.d();
    (Co::from_fn(d, |i| b.0[i].min(b.1[i])), Co::from_fn(d, |i| b.0[i].max(b.1[i])))
}
fn unbounded(b: &(Co, Co)) -> bool {
    b.0.c().iter().chain(b.1.c()).any(|v| *v == i32::MAX || *v == i32::MIN)
}
macro_rules! want {
    ($cond:expr, $($m:tt)+) => { if !$cond { return Err(format!($($m)+)); } };
}

// ---------------------------------------------------------------- C16

fn c16<P: Pt>(c: &BoxCase, cov: &mut Cov) -> Result<(), String> {
    let m = c.mode;
    let d = P::DIMENSIONS;
    let exact = P::S::INT || m.exact();
    let p = |c: &Co| mk::<P>(c, m);
    let is = |b: &AABB<P>, lo: &Co, hi: &Co| b.lower() == p(lo) && b.upper() == p(hi);
    let bs: Vec<(AABB<P>, Co, Co)> = c
        .boxes
        .iter()
        .map(|b| {
            let (l, h) = lohi(b);
            (AABB::from_corners(p(&b.0), p(&b.1)), l, h)
        })
        .collect();
    for (i, (b, l, h)) in bs.iter().enumerate() {
        want!(is(b, l, h), "from_corners{:?} is {b:?}", c.boxes[i]);
        let sw = AABB::from_corners(p(&c.boxes[i].1), p(&c.boxes[i].0));
        want!(is(&sw, l, h), "from_corners with swapped corners {:?} is {sw:?}", c.boxes[i]);
        let fb = AABB::from_bounds(p(l), p(h));
        want!(is(&fb, l, h), "from_bounds({l:?}, {h:?}) is {fb:?}");
        want!(fb == *b, "boxes with equal corners {l:?}, {h:?} are unequal");
        want!(!b.is_empty(), "the box {l:?} to {h:?} calls itself empty");
        let r = Rectangle::from_corners(p(&c.boxes[i].0), p(&c.boxes[i].1));
        want!(r.lower() == p(l) && r.upper() == p(h), "Rectangle::from_corners{:?} is {r:?}", c.boxes[i]);
        want!(Rectangle::from_aabb(b.clone()) == r && Rectangle::from(b.clone()) == r, "Rectangle from {b:?} differs");
        want!(r.envelope() == *b, "envelope of the rectangle {r:?} is {:?}", r.envelope());
        for q in c.pts.iter().chain(c.boxes.iter().flat_map(|b| [&b.0, &b.1])) {
            let inside = (0..d).all(|k| l[k] <= q[k] && q[k] <= h[k]);
            want!(b.contains_point(&mkq(q, m)) == inside, "{l:?}..{h:?} contains_point {q:?}: {}", !inside);
            cov.label(if inside { "point inside" } else { "point outside" });
        }
    }
    for (a, al, ah) in &bs {
        for (b, bl, bh) in &bs {
            let inter = (0..d).all(|k| al[k] <= bh[k] && bl[k] <= ah[k]);
            want!(a.intersects(b) == inter, "{al:?}..{ah:?} intersects {bl:?}..{bh:?}: {}", !inter);
            let cont = (0..d).all(|k| al[k] <= bl[k] && bh[k] <= ah[k]);
            want!(a.contains_envelope(b) == cont, "{al:?}..{ah:?} contains {bl:?}..{bh:?}: {}", !cont);
            let (l, h) = (Co::from_fn(d, |k| al[k].min(bl[k])), Co::from_fn(d, |k| ah[k].max(bh[k])));
            let u = a.merged(b);
            want!(is(&u, &l, &h), "{al:?}..{ah:?} merged with {bl:?}..{bh:?} is {u:?}");
            let mut v = a.clone();
            v.merge(b);
            want!(v == u, "merge and merged differ: {v:?}, {u:?}");
            want!(u.contains_envelope(a) && u.contains_envelope(b), "{u:?} does not contain its parts");
            cov.label(match (cont, inter) {
                (true, _) => "one box inside the other",
                (_, true) => "boxes intersect",
                _ => "boxes apart",
            });
            cov.label_if(inter && (0..d).any(|k| al[k] == bh[k] || bl[k] == ah[k]), "boxes touch");
            cov.nontrivial |= !cont || al != ah;
        }
    }
    // associativity, and merging everything in any grouping
    if bs.len() > 2 {
        let x = bs[0].0.merged(&bs[1].0).merged(&bs[2].0);
        let y = bs[0].0.merged(&bs[1].0.merged(&bs[2].0));
        want!(x == y, "merging is not associative: {x:?}, {y:?}");
    }
    // points
    let fp = |v: &[Co]| {
        let ps: Vec<P> = v.iter().map(p).collect();
        AABB::from_points(ps.iter())
    };
    for k in 1..=c.pts.len() {
        let v = &c.pts[..k];
        let lo = Co::from_fn(d, |i| v.iter().map(|c| c[i]).min().unwrap());
        let hi = Co::from_fn(d, |i| v.iter().map(|c| c[i]).max().unwrap());
        let b = fp(v);
        want!(is(&b, &lo, &hi), "from_points {v:?} is {b:?}");
        want!(!b.is_empty(), "from_points {v:?} is called empty");
    }
    // points at the limits of the number type, the greatest finite numbers for floats
    let pl = |q: &Co| {
        P::generate(|i| match q[i] {
            i32::MAX => P::S::top(),
            i32::MIN => P::S::bottom(),
            v => P::S::conv(v as i64, m),
        })
    };
    let e = AABB::<P>::new_empty();
    for k in 1..=c.more.len() {
        let v = &c.more[..k];
        let lo = pl(&Co::from_fn(d, |i| v.iter().map(|c| c[i]).min().unwrap()));
        let hi = pl(&Co::from_fn(d, |i| v.iter().map(|c| c[i]).max().unwrap()));
        let ps: Vec<P> = v.iter().map(pl).collect();
        let mut boxes = vec![("from_points", AABB::from_points(ps.iter()))];
        boxes.push(("merging points", ps.iter().fold(e.clone(), |b, p| b.merged(&AABB::from_point(p.clone())))));
        if k == 2 {
            boxes.push(("from_corners", AABB::from_corners(ps[0].clone(), ps[1].clone())));
        }
        for (what, b) in boxes {
            want!(b.lower() == lo && b.upper() == hi, "{what} of {ps:?} gives {b:?}");
            want!(!b.is_empty(), "{what} of {ps:?} gives an empty box");
            want!(ps.iter().all(|p| b.contains_point(p)), "{what} of {ps:?} does not contain them: {b:?}");
        }
        cov.label("points at the limits of the number type");
    }
    let b = AABB::from_point(p(&c.pts[0]));
    want!(is(&b, &c.pts[0], &c.pts[0]), "from_point({:?}) is {b:?}", c.pts[0]);
    want!(p(&c.pts[0]).envelope() == b, "the envelope of the point {:?} is {:?}", c.pts[0], p(&c.pts[0]).envelope());
    if exact {
        let step = if P::S::INT { 1.0 } else { m.step(P::S::F32) };
        let b = AABB::from_center(p(&c.pts[0]), P::S::from_f(c.r as f64 * step));
        let (lo, hi) = (Co::from_fn(d, |i| c.pts[0][i] - c.r), Co::from_fn(d, |i| c.pts[0][i] + c.r));
        want!(is(&b, &lo, &hi), "from_center({:?}, {}) is {b:?}", c.pts[0], c.r);
    }
    // the empty box
    let e = AABB::<P>::new_empty();
    want!(e.is_empty(), "the empty box is not empty");
    want!(e.merged(&e).is_empty(), "the empty box merged with itself is not empty");
    want!(fp(&[]).is_empty(), "the box of no points is not empty");
    want!(!e.intersects(&e), "the empty box intersects itself");
    for q in &c.pts {
        want!(!e.contains_point(&mkq(q, m)), "the empty box contains {q:?}");
    }
    for (i, (b, l, h)) in bs.iter().enumerate() {
        if unbounded(&c.boxes[i]) {
            cov.label("unbounded box");
            continue;
        }
        want!(is(&e.merged(b), l, h) && is(&b.merged(&e), l, h), "merging {l:?}..{h:?} with the empty box changes it");
        let mut x = e.clone();
        x.merge(b);
        want!(is(&x, l, h), "merging {l:?}..{h:?} into the empty box gives {x:?}");
        want!(!e.intersects(b) && !b.intersects(&e), "{l:?}..{h:?} intersects the empty box");
        want!(!e.contains_envelope(b), "the empty box contains {l:?}..{h:?}");
    }
    cov.label(PT_NAMES[c.ty]);
    Ok(())
}
pub struct C16;
impl Check for C16 {
    const ID: &'static str = "C16";
    type Case = BoxCase;
    const CASES: (u64, u64) = (6_000_000, 240_000_000);
    const RULE: &'static str = "a case is 2 to 5 boxes (degenerate, touching, nested, apart, some unbounded in a direction) and 1 to 5 points in one of 20 point types and 9 coordinate scalings; every constructor, containment, intersection and merge of every pair is compared with interval arithmetic on the lattice; non-trivial: some pair of boxes is neither equal nor nested; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "coordinates are ordered numbers (no NaN); points given to from_points are finite, and boxes merged or compared with the empty box stay below the limits of the number type",
        "from_center is compared where centre plus and minus distance are exact",
    ];
    fn gen(s: &mut Src, _: u64) -> BoxCase {
        gen_box_case(s, true, true)
    }
    fn run(c: &BoxCase, cov: &mut Cov) -> Result<(), String> {
        with_point_type!(c.ty, c16, c, cov)
    }
}

// ---------------------------------------------------------------- C17

/// Compares a metric with its exact lattice value `v` (in lattice units to the power `pow`).
/// Values that do not fit the scalar type are outside the domain: `None` means not comparable.
struct Meter {
    int: bool,
    exact: bool,
    step: f64,
    eps: f64,
    max: f64,
}
impl Meter {
    fn of<S: Sc>(m: Mode) -> Meter {
        Meter {
            int: S::INT,
            exact: S::INT || m.exact(),
            step: if S::INT { 1.0 } else if m == Mode::Warp { Mode::unit(i64::MAX, S::F32) } else { m.step(S::F32) },
            eps: S::EPS,
            max: if S::INT { S::top().f() } else { S::top().f() / 8.0 },
        }
    }
    /// `v` lattice units to the power `pow` (and every lower power of the step) fit the type
    fn fits(&self, v: i128, pow: usize) -> bool {
        (v as f64) * self.step.powi(pow as i32).max(1.0) < self.max
    }
    /// `n` bounds the rounding steps, `scale` the magnitude they refer to
    fn same(&self, got: f64, v: i128, pow: i32, n: usize) -> bool {
        let want = v as f64 * self.step.powi(pow);
        if self.int {
            return got == want;
        }
        let exact_bits = if self.eps > 1e-10 { 1i128 << 24 } else { 1i128 << 53 };
        if self.exact && v < exact_bits {
            return got == want;
        }
        (got - want).abs() <= want.abs() * self.eps * (n + 4) as f64
    }
}

fn c17<P: Pt>(c: &BoxCase, cov: &mut Cov) -> Result<(), String> {
    let m = c.mode;
    let d = P::DIMENSIONS;
    let me = Meter::of::<P::S>(m);
    // rounded lattices: true coordinates are the rounded ones, so compare in f64 with those
    let xs = |co: &Co| -> Vec<f64> { coords(&mk::<P>(co, m)) };
    let near = |got: f64, want: f64, scale: f64, n: usize| (got - want).abs() <= scale * me.eps * (n + 4) as f64;
    cov.label(PT_NAMES[c.ty]);
    for bx in &c.boxes {
        let (l, h) = lohi(bx);
        let b = AABB::from_corners(mk::<P>(&bx.0, m), mk::<P>(&bx.1, m));
        let (fl, fh) = (xs(&l), xs(&h));
        // area
        let side = |k: usize| h[k] as i128 - l[k] as i128;
        let prod = (0..d).fold(1i128, |a, k| a.saturating_mul(side(k)));
        let grow = (0..d).fold(1i128, |a, k| a.saturating_mul(side(k).max(1)));
        if me.fits(grow, d) {
            let a = b.area().f();
            let ok = if me.exact { me.same(a, prod, d as i32, d) } else {
                let w: f64 = (0..d).map(|k| fh[k] - fl[k]).product();
                // differences are rounded once each
                near(a, w, w.abs() + if me.eps > 1e-10 { 1e-37 } else { 1e-307 }, 4 * d)
            };
            want!(ok, "area of {l:?}..{h:?} is {a:e}");
            want!(a >= 0.0, "the area of {l:?}..{h:?} is negative");
            cov.count("areas", 1);
        }
        // perimeter: proportional to the sum of the sides
        let sum = (0..d).fold(0i128, |a, k| a + side(k));
        if me.fits(sum, 1) {
            let per = b.perimeter_value().f();
            let unit = AABB::from_corners(P::generate(|_| num_traits::zero()), P::generate(|_| num_traits::one()));
            let k = unit.perimeter_value().f() / d as f64;
            want!(k > 0.0, "the unit box has no perimeter");
            let w = if me.exact { sum as f64 * me.step } else { (0..d).map(|k| fh[k] - fl[k]).sum::<f64>() } * k;
            let ok = if me.exact && sum < (1 << 24) { per == w } else { near(per, w, w.abs(), 2 * d) };
            want!(ok, "perimeter value of {l:?}..{h:?} is {per:e} instead of {w:e}");
        }
        // centre
        let ce = coords(&b.center());
        for k in 0..d {
            let w = (fl[k] + fh[k]) / 2.0;
            let ok = if me.int {
                (2.0 * ce[k] - fl[k] - fh[k]).abs() <= 1.0 && fl[k] <= ce[k] && ce[k] <= fh[k]
            } else if me.exact {
                ce[k] == w
            } else {
                near(ce[k], w, fl[k].abs().max(fh[k].abs()), 2)
            };
            want!(ok, "centre of {l:?}..{h:?} is {ce:?}");
        }
        for q in &c.pts {
            let qp = mkq::<P>(q, m);
            let fq = xs(q);
            let inside = (0..d).all(|k| l[k] <= q[k] && q[k] <= h[k]);
            // closest point
            let cl = b.min_point(&qp);
            let wc = Co::from_fn(d, |k| q[k].clamp(l[k], h[k]));
            want!(cl == mkq::<P>(&wc, m), "closest point of {l:?}..{h:?} to {q:?} is {cl:?}");
            let sq = |k: usize, to: i32| (q[k] as i128 - to as i128).pow(2);
            let dist = (0..d).fold(0i128, |a, k| a + sq(k, wc[k]));
            if me.fits(dist, 2) {
                let g = b.distance_2(&qp).f();
                let g2 = <AABB<P> as Envelope>::distance_2(&b, &qp).f();
                want!(g == g2, "the two distance_2 of {l:?}..{h:?} to {q:?} differ: {g:e}, {g2:e}");
                let ok = if me.exact { me.same(g, dist, 2, 2 * d) } else {
                    let w: f64 = (0..d).map(|k| { let x = fq[k].clamp(fl[k], fh[k]) - fq[k]; x * x }).sum();
                    near(g, w, w, 2 * d + 4)
                };
                want!(ok, "squared distance of {l:?}..{h:?} to {q:?} is {g:e}");
                want!((g == 0.0) == inside, "squared distance of {l:?}..{h:?} to {q:?} is {g:e}");
                cov.count("distances", 1);
                cov.label(if inside { "point inside" } else { "point outside" });
                cov.nontrivial |= !inside;
            }
            // min-max distance
            let far = |k: usize| sq(k, l[k]).max(sq(k, h[k]));
            let nearf = |k: usize| sq(k, l[k]).min(sq(k, h[k]));
            let total: i128 = (0..d).map(far).sum();
            let mm = (0..d).map(|k| total - far(k) + nearf(k)).min().unwrap();
            if me.fits(total, 2) {
                let g = b.min_max_dist_2(&qp).f();
                let ok = if me.exact { me.same(g, mm, 2, 2 * d) } else {
                    let f = |k: usize| (fq[k] - fl[k]).powi(2).max((fq[k] - fh[k]).powi(2));
                    let n = |k: usize| (fq[k] - fl[k]).powi(2).min((fq[k] - fh[k]).powi(2));
                    let w = (0..d)
                        .map(|k| (0..d).map(|j| if j == k { n(j) } else { f(j) }).sum::<f64>())
                        .fold(f64::INFINITY, f64::min);
                    // which face is chosen may depend on rounding of the largest term
                    let t: f64 = (0..d).map(f).sum();
                    near(g, w, t, 2 * d + 6)
                };
                want!(ok, "min-max distance of {l:?}..{h:?} to {q:?} is {g:e}, by definition {:e}", mm as f64 * me.step.powi(2));
                let dd = b.distance_2(&qp).f();
                want!(g >= dd * (1.0 - 8.0 * me.eps), "min-max distance {g:e} below the distance {dd:e} of {l:?}..{h:?} to {q:?}");
                cov.count("min-max distances", 1);
            }
        }
    }
    // intersection areas
    for x in &c.boxes {
        for y in &c.boxes {
            let ((al, ah), (bl, bh)) = (lohi(x), lohi(y));
            let a = AABB::from_corners(mk::<P>(&al, m), mk::<P>(&ah, m));
            let b = AABB::from_corners(mk::<P>(&bl, m), mk::<P>(&bh, m));
            let side = |k: usize| (ah[k].min(bh[k]) as i128 - al[k].max(bl[k]) as i128).max(0);
            let grow = (0..d).fold(1i128, |a, k| a.saturating_mul(side(k).max(1)));
            if !me.fits(grow, d) {
                continue;
            }
            let prod = (0..d).fold(1i128, |a, k| a.saturating_mul(side(k)));
            let g = a.intersection_area(&b).f();
            let ok = if me.exact { me.same(g, prod, d as i32, d) } else {
                let (u, v, x, y) = (xs(&al), xs(&ah), xs(&bl), xs(&bh));
                let w: f64 = (0..d).map(|k| (v[k].min(y[k]) - u[k].max(x[k])).max(0.0)).product();
                near(g, w, w + if me.eps > 1e-10 { 1e-37 } else { 1e-307 }, 4 * d)
            };
            want!(ok, "intersection area of {al:?}..{ah:?} and {bl:?}..{bh:?} is {g:e}");
            cov.label_if(prod > 0, "boxes overlap");
        }
    }
    // sorting and partitioning along an axis
    let mut es: Vec<Elem> = c.boxes.iter().map(|b| Elem { a: b.0, b: b.1, t: 0 }).collect();
    es.extend(c.pts.iter().zip(c.pts.iter().rev()).map(|(a, b)| Elem { a: *a, b: *b, t: 0 }));
    es.extend(c.pts.iter().chain(&c.more).map(|a| Elem { a: *a, b: *a, t: 0 }));
    #[derive(Clone)]
    struct It<P: Pt>(usize, AABB<P>);
    impl<P: Pt> RTreeObject for It<P> {
        type Envelope = AABB<P>;
        fn envelope(&self) -> AABB<P> {
            self.1.clone()
        }
    }
    let orig: Vec<It<P>> = es
        .iter()
        .enumerate()
        .map(|(i, e)| It(i, AABB::from_corners(mk(&e.a, m), mk(&e.b, m))))
        .collect();
    let low = |i: usize| es[i].a[c.axis].min(es[i].b[c.axis]);
    let perm = |v: &[It<P>]| {
        let mut x: Vec<usize> = v.iter().map(|i| i.0).collect();
        x.sort_unstable();
        x == (0..es.len()).collect::<Vec<_>>()
    };
    let mut v = orig.clone();
    <AABB<P> as Envelope>::sort_envelopes(c.axis, &mut v);
    want!(perm(&v), "sort_envelopes does not permute");
    let keys: Vec<i32> = v.iter().map(|i| low(i.0)).collect();
    want!(keys.windows(2).all(|w| w[0] <= w[1]), "sort_envelopes along axis {} leaves {keys:?}", c.axis);
    let mut v = orig;
    let k = c.part.min(es.len() - 1);
    <AABB<P> as Envelope>::partition_envelopes(c.axis, &mut v, k);
    want!(perm(&v), "partition_envelopes does not permute");
    let keys: Vec<i32> = v.iter().map(|i| low(i.0)).collect();
    want!(
        keys[..k].iter().all(|x| *x <= keys[k]) && keys[k..].iter().all(|x| *x >= keys[k]),
        "partition_envelopes along axis {} at {k} leaves {keys:?}",
        c.axis
    );
    Ok(())
}
pub struct C17;
impl Check for C17 {
    const ID: &'static str = "C17";
    type Case = BoxCase;
    const CASES: (u64, u64) = (5_000_000, 200_000_000);
    const RULE: &'static str = "a case is 2 to 5 boxes and 1 to 5 points in one of 20 point types and 9 coordinate scalings; closest point, distance, min-max distance, area, intersection area, perimeter and centre are compared with their definitions in 128-bit integers (or within rounding bounds for rounded coordinates), sorting and partitioning with their post-conditions; non-trivial: some point lies outside some box and the distance fits the number type; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "values whose exact result or intermediate sums exceed the number type are outside the domain and skipped",
        "the perimeter value is only required to be proportional to the sum of the sides",
    ];
    fn gen(s: &mut Src, _: u64) -> BoxCase {
        gen_box_case(s, false, true)
    }
    fn run(c: &BoxCase, cov: &mut Cov) -> Result<(), String> {
        with_point_type!(c.ty, c17, c, cov)
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Serialize, Deserialize)]
pub struct PrimCase {
    pub ty: usize,
    pub mode: Mode,
    pub a: Co,
    pub b: Co,
    pub qs: Vec<Co>,
    /// bounds relative to the distance: how far above (in 1/8 of it) or below
    pub bounds: Vec<i8>,
}
/// Bounds for the bounded-distance query: the distance itself, its neighbours, zero, the largest value.
fn check_bounded<T: PointDistance<Envelope = AABB<P>>, P: Pt>(o: &T, q: &P, slack: bool, rel: &[i8], what: &str) -> Result<(), String> {
    let d = o.distance_2(q);
    let mut bounds = vec![d, P::S::top(), num_traits::zero::<P::S>() - num_traits::one()];
    let one: P::S = num_traits::one();
    if P::S::INT {
        if d < P::S::top() {
            bounds.push(d + one);
        }
        bounds.push(d - one);
        bounds.push(num_traits::zero());
    } else {
        bounds.extend(rel.iter().map(|k| P::S::from_f(d.f() * (1.0 + *k as f64 / 8.0))));
        bounds.push(num_traits::zero());
    }
    for m in bounds {
        let g = o.distance_2_if_less_or_equal(q, m);
        // within rounding of the bound either answer is right for objects whose distance is rounded
        if slack && d <= m && g.is_none() && d.f() >= m.f() * (1.0 - 64.0 * P::S::EPS) {
            continue;
        }
        let want = if d <= m { Some(d) } else { None };
        if g != want {
            return Err(format!("{what}: bounded by {m:?} the distance to {q:?} is {g:?}, but distance_2 is {d:?}"));
        }
    }
    Ok(())
}
fn c18<P: Pt>(c: &PrimCase, cov: &mut Cov) -> Result<(), String> {
    let m = c.mode;
    let d = P::DIMENSIONS;
    let me = Meter::of::<P::S>(m);
    let int = P::S::INT;
    let (pa, pb) = (mk::<P>(&c.a, m), mk::<P>(&c.b, m));
    cov.label(PT_NAMES[c.ty]);
    let env_is = |e: &AABB<P>, l: &Co, h: &Co| e.lower() == mk::<P>(l, m) && e.upper() == mk::<P>(h, m);
    let (lo, hi) = lohi(&(c.a, c.b));
    let rect = Rectangle::from_corners(pa.clone(), pb.clone());
    let line = Line::new(pa.clone(), pb.clone());
    want!(env_is(&pa.envelope(), &c.a, &c.a), "envelope of the point {:?} is {:?}", c.a, pa.envelope());
    want!(env_is(&rect.envelope(), &lo, &hi), "envelope of the rectangle {lo:?}..{hi:?} is {:?}", rect.envelope());
    want!(env_is(&line.envelope(), &lo, &hi), "envelope of the line {:?} to {:?} is {:?}", c.a, c.b, line.envelope());
    let fx = |co: &Co| coords(&mk::<P>(co, m));
    let (fa, fb) = (fx(&c.a), fx(&c.b));
    // length
    let len2: i128 = (0..d).map(|k| (c.b[k] as i128 - c.a[k] as i128).pow(2)).sum();
    if me.fits(len2, 2) {
        let g = line.length_2().f();
        let w: f64 = (0..d).map(|k| (fb[k] - fa[k]).powi(2)).sum();
        let ok = if me.exact { me.same(g, len2, 2, 2 * d) } else { (g - w).abs() <= w * me.eps * (2 * d + 8) as f64 };
        want!(ok, "squared length of the line {:?} to {:?} is {g:e}", c.a, c.b);
    }
    cov.label_if(len2 == 0, "degenerate line");
    cov.label_if((0..d).any(|k| c.a[k] == c.b[k]), "flat or axis-parallel");
    let sp = |kind: Kind| Space { kind, mode: m, int, f32_: P::S::F32 };
    let e = Elem { a: c.a, b: c.b, t: 0 };
    for q in &c.qs {
        let qp = mkq::<P>(q, m);
        let fq = fx(q);
        // point and rectangle
        let dp: i128 = (0..d).map(|k| (q[k] as i128 - c.a[k] as i128).pow(2)).sum();
        if me.fits(dp, 2) {
            let (l, h) = sp(Kind::Point).dist2(&e, q);
            let g = PointDistance::distance_2(&pa, &qp).f();
            want!(g >= l && g <= h, "squared distance of the points {:?} and {q:?} is {g:e}, expected {l:e}..{h:e}", c.a);
            want!(pa.contains_point(&qp) == (c.a == *q), "point {:?} contains {q:?}: {}", c.a, pa.contains_point(&qp));
            check_bounded(&pa, &qp, false, &c.bounds, &format!("point {:?}", c.a))?;
        }
        let clamp = Co::from_fn(d, |k| q[k].clamp(lo[k], hi[k]));
        let inside = clamp == *q;
        let dr: i128 = (0..d).map(|k| (q[k] as i128 - clamp[k] as i128).pow(2)).sum();
        if me.fits(dr, 2) {
            let np = rect.nearest_point(&qp);
            want!(np == mkq::<P>(&clamp, m), "nearest point of the rectangle {lo:?}..{hi:?} to {q:?} is {np:?}");
            let (l, h) = sp(Kind::Rect).dist2(&e, q);
            let g = rect.distance_2(&qp).f();
            want!(g >= l && g <= h, "squared distance of the rectangle {lo:?}..{hi:?} to {q:?} is {g:e}, expected {l:e}..{h:e}");
            want!(rect.contains_point(&qp) == inside, "rectangle {lo:?}..{hi:?} contains {q:?}: {}", !inside);
            want!((g == 0.0) == inside, "rectangle {lo:?}..{hi:?}: distance {g:e} to {q:?}");
            check_bounded(&rect, &qp, false, &c.bounds, &format!("rectangle {lo:?}..{hi:?}"))?;
            cov.label(if inside { "inside the rectangle" } else { "outside the rectangle" });
            cov.label_if(inside && (0..d).any(|k| q[k] == lo[k] || q[k] == hi[k]), "on the border");
        }
        // line
        let (mut dot, mut dot_abs) = (0i128, 0i128);
        for k in 0..d {
            let t = (c.b[k] as i128 - c.a[k] as i128) * (q[k] as i128 - c.a[k] as i128);
            dot += t;
            dot_abs += t.abs();
        }
        let db: i128 = (0..d).map(|k| (q[k] as i128 - c.b[k] as i128).pow(2)).sum();
        if !(me.fits(dot_abs, 2) && me.fits(len2, 2) && me.fits(dp, 2) && me.fits(db, 2)) {
            continue;
        }
        let what = format!("line {:?} to {:?}", c.a, c.b);
        let np = line.nearest_point(&qp);
        let fnp = coords(&np);
        let g = line.distance_2(&qp).f();
        let own: f64 = (0..d).map(|k| (fnp[k] - fq[k]).powi(2)).sum();
        let region = if len2 == 0 { 0 } else if dot <= 0 { 1 } else if dot >= len2 { 2 } else { 3 };
        cov.label(["degenerate line, any point", "before the start", "behind the end", "beside the line"][region]);
        cov.nontrivial |= region == 3 && dp != 0;
        let ends: &[&Co] = match region {
            0 | 1 => &[&c.a],
            2 => &[&c.b],
            _ => &[],
        };
        if int {
            if let [end] = ends {
                want!(np == mk::<P>(end, m), "{what}: nearest point to {q:?} is {np:?}");
            } else {
                // the foot point is a lattice point, or rounds; the library cannot represent others
                let truth = seg_dist2(&fa, &fb, &fq).0;
                let best = (0..d).map(|k| (fnp[k] - fq[k]).powi(2)).sum::<f64>();
                if best > truth * (1.0 + 1e-9) + 1e-9 {
                    let msg = format!("{what}: nearest point to {q:?} is {np:?} at squared distance {best}, the true one is at {truth}");
                    if np == pa {
                        cov.finding("C18", "integer-line-projection", msg)?;
                    } else {
                        return Err(msg);
                    }
                }
            }
            want!(g == own, "{what}: squared distance to {q:?} is {g:e}, but the nearest point is at {own:e}");
        } else {
            let (_, mag) = seg_dist2(&fa, &fb, &fq);
            let err = me.eps * (8 * d + 16) as f64 * mag;
            let (l, h) = sp(Kind::Line).dist2(&e, q);
            want!(g >= l && g <= h, "{what}: squared distance to {q:?} is {g:e}, expected {l:e}..{h:e}");
            want!(
                (g.sqrt() - own.sqrt()).abs() <= err,
                "{what}: squared distance to {q:?} is {g:e}, but the nearest point {np:?} is at {own:e}"
            );
            // the nearest point lies on the line
            let off = seg_dist2(&fa, &fb, &fnp).0.sqrt();
            want!(off <= err, "{what}: nearest point {np:?} to {q:?} is {off:e} off the line");
            if let [end] = ends {
                let clear = region == 0 || me.exact || (if region == 1 { -dot } else { dot - len2 }) > dot_abs / 1000 + 1;
                want!(!clear || np == mk::<P>(end, m), "{what}: nearest point to {q:?} is {np:?}");
            }
        }
        let ct = line.contains_point(&qp);
        want!(ct == (g == 0.0), "{what}: contains {q:?} is {ct} at squared distance {g:e}");
        if !int {
            match sp(Kind::Line).at(&e, q) {
                Tri::Must => want!(ct, "{what}: does not contain {q:?}"),
                Tri::Not => want!(!ct, "{what}: contains {q:?}"),
                Tri::Either => {}
            }
            cov.label_if(ct, "on the line");
        }
        check_bounded(&line, &qp, !int, &c.bounds, &what)?;
    }
    Ok(())
}
pub struct C18;
impl Check for C18 {
    const ID: &'static str = "C18";
    type Case = PrimCase;
    const CASES: (u64, u64) = (6_000_000, 240_000_000);
    const RULE: &'static str = "a case is two corner points in one of 20 point types and 8 coordinate scalings, taken as a point, a rectangle and a line, and 1 to 6 query points (on, near and far from them, on the carrying line, mixed corners); nearest point, distance, bounded distance, containment, length and envelope are compared with geometry computed independently; non-trivial: some query point projects properly between the ends of the line; distinct by choice sequence";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "values whose squares or scalar products exceed the number type are outside the domain and skipped",
        "rounded results may differ from the exact ones by a stated multiple of the rounding unit",
    ];
    fn gen(s: &mut Src, _: u64) -> PrimCase {
        let ty = s.below(PT_NAMES.len());
        let d = PT_DIMS[ty];
        let mode = if PT_INT[ty] { Mode::Unit } else { MODES[s.weighted(&[8, 3, 2, 2, 3, 3, 1, 1])] };
        let lim: i64 = match PT_BITS[ty] {
            1 => 6,
            2 => 100,
            _ => 1000,
        };
        let span = [2, 5, 12, 100, lim][s.weighted(&[3, 4, 4, 2, 2])].min(lim);
        let mut pool = vec![];
        let a = gen_co(s, d, span, &mut pool, lim);
        let mut b = gen_co(s, d, span, &mut pool, lim);
        match s.weighted(&[6, 1, 2, 2]) {
            1 => b = a,
            2 => {
                let ax = s.below(d);
                b = Co::from_fn(d, |k| if k == ax { b[k] } else { a[k] });
            }
            3 => {
                let ax = s.below(d);
                b.c_mut()[ax] = a[ax];
            }
            _ => {}
        }
        let n = 1 + s.below(6);
        let qs = (0..n)
            .map(|_| {
                if s.chance(1, 4) {
                    // on the carrying line, or next to it
                    let k = s.signed(4);
                    let den = 1 + s.below(4) as i64;
                    let off = if s.bool() { s.signed(1) } else { 0 };
                    Co::from_fn(d, |i| {
                        (a[i] as i64 + (b[i] as i64 - a[i] as i64) * k / den + if i == 0 { off } else { 0 }).clamp(-lim, lim) as i32
                    })
                } else {
                    gen_co(s, d, span, &mut pool, lim)
                }
            })
            .collect();
        let bounds = (0..2).map(|_| s.signed(12) as i8).collect();
        PrimCase { ty, mode, a, b, qs, bounds }
    }
    fn run(c: &PrimCase, cov: &mut Cov) -> Result<(), String> {
        with_point_type!(c.ty, c18, c, cov)
    }
}

rcheck::registry! {
    "C16" => C16,
    "C17" => C17,
    "C18" => C18,
}
