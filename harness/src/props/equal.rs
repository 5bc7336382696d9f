//! C31: values built from the same coordinates are equal, however they are built,
//! and from different ones are not.
use super::types::{gen_any, gen_any_large, AnyG, G};
use crate::engine::*;
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::linear::{primitives as lp, types as lt};
use magog::planar::primitives::{Envelope, HasEnvelope, Position, SafePosition, Segment, Triangle};
use magog::planar::types::{Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    f32: bool,
    a: G,
    b: G,
}

type Rings2 = Vec<Vec<FP>>;

fn lines_mut(g: &mut G) -> Vec<&mut Vec<FP>> {
    match g {
        G::Empty | G::Point(_) => vec![],
        G::Line(l) | G::MPoint(l) => vec![l],
        G::Poly(m) | G::MLine(m) => m.iter_mut().collect(),
        G::MPoly(m) => m.iter_mut().flatten().collect(),
    }
}

/// The same, or with one small difference.
fn change(t: &mut Tape, g: &G, is32: bool) -> G {
    let mut h = g.clone();
    let value = |t: &mut Tape, p: &mut FP| {
        let v = if t.chance(1, 2) { &mut p.0 } else { &mut p.1 };
        let x = v.v();
        *v = F::of(match t.below(6) {
            0 => -x,
            1 => 0.0,
            2 => -0.0,
            3 => wild(t, is32),
            // the next value
            4 if is32 => f32::from_bits((x as f32).to_bits().wrapping_add(1)) as f64,
            4 => f64::from_bits(x.to_bits().wrapping_add(1)),
            _ => x + 1.0,
        });
    };
    match t.below(12) {
        // every zero negated
        0 => {
            let flip = |p: &mut FP| {
                for v in [&mut p.0, &mut p.1] {
                    if v.v() == 0.0 {
                        *v = F::of(-v.v());
                    }
                }
            };
            if let G::Point(p) = &mut h {
                flip(p);
            }
            lines_mut(&mut h).into_iter().flatten().for_each(flip);
        }
        // one coordinate
        1..=3 => {
            if let G::Point(p) = &mut h {
                value(t, p);
            } else {
                let mut all: Vec<&mut FP> = lines_mut(&mut h).into_iter().flatten().collect();
                if !all.is_empty() {
                    let i = t.below(all.len());
                    value(t, all[i]);
                }
            }
        }
        // one position more or less, two swapped, one line reversed
        4 | 5 => {
            let mut all = lines_mut(&mut h);
            if !all.is_empty() {
                let i = t.below(all.len());
                let l = &mut all[i];
                match (t.below(4), l.len()) {
                    (0, _) => {
                        let k = t.below(l.len() + 1);
                        let p = if l.is_empty() { fp(0.0, 0.0) } else { l[t.below(l.len())] };
                        l.insert(k, p);
                    }
                    (_, 0) => {}
                    (1, n) => drop(l.remove(t.below(n))),
                    (2, n) => l.swap(t.below(n), n - 1),
                    _ => l.reverse(),
                }
            }
        }
        // another structure of the same positions
        6 | 7 => {
            h = match h {
                G::Empty => G::Line(vec![]),
                G::Point(p) => G::MPoint(vec![p]),
                G::Line(l) => [G::MPoint(l.clone()), G::Poly(vec![l.clone()]), G::MLine(vec![l])][t.below(3)].clone(),
                G::MPoint(l) => G::Line(l),
                G::Poly(r) => {
                    if t.chance(1, 2) {
                        G::MPoly(vec![r])
                    } else {
                        G::MLine(r)
                    }
                }
                G::MLine(m) => match t.below(3) {
                    0 => G::Line(m.concat()),
                    1 => G::MPoly(m.into_iter().map(|l| vec![l]).collect()),
                    _ => G::MLine(vec![m.concat()]),
                },
                G::MPoly(m) => match t.below(3) {
                    0 => G::MPoly(vec![m.concat()]),
                    1 => G::MPoly(m.concat().into_iter().map(|l| vec![l]).collect()),
                    _ => G::MLine(m.concat()),
                },
            };
        }
        // a member more, less or elsewhere
        8 | 9 => {
            let k = t.word() as usize;
            match &mut h {
                G::Poly(m) | G::MLine(m) => match k % 3 {
                    0 => m.insert(k / 3 % (m.len() + 1), vec![]),
                    1 if !m.is_empty() => drop(m.remove(k / 3 % m.len())),
                    _ => m.reverse(),
                },
                G::MPoly(m) => match k % 3 {
                    0 => m.insert(k / 3 % (m.len() + 1), vec![]),
                    1 if !m.is_empty() => drop(m.remove(k / 3 % m.len())),
                    _ => m.reverse(),
                },
                _ => {}
            }
        }
        _ => {}
    }
    h
}

fn two(t: &mut Tape, mut g: AnyG) -> Two {
    // gen_any knows zeros of one sign only
    if t.chance(1, 3) {
        let each = t.below(3) as u32 + 1;
        let mut flip = |p: &mut FP| {
            for v in [&mut p.0, &mut p.1] {
                if v.v() == 0.0 && t.chance(1, each) {
                    *v = F::of(-0.0);
                }
            }
        };
        if let G::Point(p) = &mut g.g {
            flip(p);
        }
        lines_mut(&mut g.g).into_iter().flatten().for_each(flip);
    }
    let b = change(t, &g.g, g.f32);
    let b = if t.chance(1, 5) { change(t, &b, g.f32) } else { b };
    Two { f32: g.f32, a: g.g, b }
}
fn gen_two(t: &mut Tape) -> Two {
    let g = gen_any(t);
    two(t, g)
}
fn gen_two_large(t: &mut Tape) -> Two {
    let g = gen_any_large(t);
    two(t, g)
}

// What equality should be.
fn peq<C: Flt>(a: &FP, b: &FP) -> bool {
    let f = |v: F| C::of64(v.v());
    f(a.0) == f(b.0) && f(a.1) == f(b.1)
}
fn leq<C: Flt>(a: &[FP], b: &[FP]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| peq::<C>(p, q))
}
fn req<C: Flt>(a: &Rings2, b: &Rings2) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| leq::<C>(p, q))
}
/// A polygon always has an exterior, perhaps without positions.
fn ext(r: &Rings2) -> Rings2 {
    if r.is_empty() {
        vec![vec![]]
    } else {
        r.clone()
    }
}
fn geq<C: Flt>(a: &G, b: &G) -> bool {
    match (a, b) {
        (G::Empty, G::Empty) => true,
        (G::Point(p), G::Point(q)) => peq::<C>(p, q),
        (G::Line(l), G::Line(m)) | (G::MPoint(l), G::MPoint(m)) => leq::<C>(l, m),
        (G::MLine(l), G::MLine(m)) => req::<C>(l, m),
        (G::Poly(l), G::Poly(m)) => req::<C>(&ext(l), &ext(m)),
        (G::MPoly(l), G::MPoly(m)) => l.len() == m.len() && l.iter().zip(m).all(|(p, q)| req::<C>(&ext(p), &ext(q))),
        _ => false,
    }
}

fn pair<C: Flt>(p: &FP) -> (C, C) {
    (C::of64(p.0.v()), C::of64(p.1.v()))
}
fn pairs<C: Flt>(l: &[FP]) -> Vec<(C, C)> {
    l.iter().map(pair).collect()
}
fn safe<C: Flt>(l: &[FP]) -> Option<Vec<SafePosition<C>>> {
    l.iter().map(|p| pos::<C>(*p).to_hashable().ok()).collect()
}

/// Ways to build a position, a line and so on.
fn positions<C: Flt>(p: &FP) -> Vec<Position<C>> {
    let (x, y) = pair::<C>(p);
    let mut v = vec![Position::new(x, y), (x, y).into(), [x, y].into(), Position { x, y }];
    if let Some(s) = safe::<C>(&[*p]) {
        v.push(s[0].into());
    }
    v
}
fn points<C: Flt>(p: &FP) -> Vec<Point<C>> {
    let (x, y) = pair::<C>(p);
    let mut v = vec![Point::new(Position::new(x, y)), Point(Position::new(x, y)), (x, y).into(), [x, y].into()];
    v.extend(positions::<C>(p).into_iter().map(Point::from));
    if let Some(s) = safe::<C>(&[*p]) {
        v.push(s[0].into());
    }
    v
}
fn lines<C: Flt>(l: &[FP]) -> Vec<LineString<C>> {
    let ps: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
    let arrays: Vec<[C; 2]> = pairs(l).into_iter().map(|(x, y)| [x, y]).collect();
    let mut v = vec![
        LineString::new(ps.clone()),
        LineString::from(ps.clone()),
        LineString::from(pairs::<C>(l)),
        LineString::from(arrays),
        LineString::collect_from(ps.iter().copied()),
        LineString::new(ps).clone(),
    ];
    if let Some(s) = safe::<C>(l) {
        v.push(LineString::collect_from(s.iter().map(|p| Position::from(*p))));
        v.push(LineString::from(s));
    }
    v
}
fn line<C: Flt>(l: &[FP]) -> LineString<C> {
    fline(l)
}
fn all_lines<C: Flt>(m: &[Vec<FP>]) -> Vec<LineString<C>> {
    m.iter().map(|l| line(l)).collect()
}
fn polygon<C: Flt>(r: &Rings2) -> Polygon<C> {
    let r = ext(r);
    Polygon::new(line(&r[0]), all_lines(&r[1..]))
}
fn polygons<C: Flt>(r: &Rings2) -> Vec<Polygon<C>> {
    let mut v = vec![polygon(r)];
    let r = ext(r);
    let [e] = &r[..] else { return v };
    v.push(line::<C>(e).into());
    v.push(pairs::<C>(e).into());
    if let Some(s) = safe::<C>(e) {
        v.push(s.into());
    }
    v
}
fn multipoints<C: Flt>(l: &[FP]) -> Vec<MultiPoint<C>> {
    let ps: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
    let mut v = vec![
        MultiPoint::new(ps.iter().map(|p| Point::new(*p)).collect()),
        MultiPoint::from(ps),
        MultiPoint::from(pairs::<C>(l)),
    ];
    if let Some(s) = safe::<C>(l) {
        v.push(MultiPoint::from(s));
    }
    v
}
fn multilines<C: Flt>(m: &Rings2) -> Vec<MultiLineString<C>> {
    let each: Vec<Vec<(C, C)>> = m.iter().map(|l| pairs(l)).collect();
    vec![MultiLineString::new(all_lines(m)), MultiLineString::from(all_lines::<C>(m)), MultiLineString::from(each)]
}
fn multipolygons<C: Flt>(m: &[Rings2]) -> Vec<MultiPolygon<C>> {
    let ps = || m.iter().map(|r| polygon::<C>(r)).collect::<Vec<_>>();
    let mut v = vec![MultiPolygon::new(ps()), MultiPolygon::from(ps())];
    if m.iter().all(|r| r.len() < 2) {
        let es: Rings2 = m.iter().map(|r| ext(r).remove(0)).collect();
        v.push(MultiPolygon::from(all_lines::<C>(&es)));
        v.push(MultiPolygon::from(es.iter().map(|l| pairs::<C>(l)).collect::<Vec<_>>()));
    }
    v
}

/// The coordinates as given, bit for bit.
fn stored<C: Flt>(p: &Position<C>, q: &FP) -> bool {
    let (x, y) = pair::<C>(q);
    let s = |a: C, b: C| (a == b && a.is_sign_negative() == b.is_sign_negative()) || (a.is_nan() && b.is_nan());
    s(p.x, x) && s(p.y, y)
}
fn line_stored<C: Flt>(l: &LineString<C>, w: &[FP]) -> bool {
    l.positions.len() == w.len() && l.positions.iter().zip(w).all(|(p, q)| stored(p, q))
}
fn polygon_stored<C: Flt>(p: &Polygon<C>, r: &Rings2) -> bool {
    let r = ext(r);
    line_stored(&p.exterior, &r[0])
        && p.interiors.len() == r.len() - 1
        && p.interiors.iter().zip(&r[1..]).all(|(l, w)| line_stored(l, w))
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    s.chars().take(600).collect()
}

fn t_c31(c: &Two) -> R {
    by_type!(c.f32, c31(c))
}
fn c31<C: Flt>(c: &Two) -> R {
    let want = geq::<C>(&c.a, &c.b);
    let me = geq::<C>(&c.a, &c.a);
    // All ways to build a against each other, the stored coordinates, and b.
    macro_rules! go {
        ($mk:expr, $stored:expr) => {{
            let v = $mk;
            let n = v.len();
            for (i, x) in v.iter().enumerate() {
                ensure!($stored(x), "way {} to build {} keeps other coordinates: {}", i, short(&c.a), short(x));
                for (j, y) in v.iter().enumerate() {
                    if i > 0 && j > 0 && i != j {
                        continue;
                    }
                    ensure!((x == y) == me && (x != y) != me, "ways {} and {} to build {} are equal: {}", i, j, short(&c.a), x == y);
                }
            }
            for i in 0..n {
                let g = || -> Geometry<C> { $mk.swap_remove(i).into() };
                let (x, y, h) = (g(), g(), wrap::<C>(&c.b));
                ensure!((x == y) == me, "{} wrapped equals itself: {}", short(&c.a), x == y);
                ensure!((x == h) == want && (h == x) == want && (x != h) != want,
                    "way {}: {} equals {}: {}, {}", i, short(&c.a), short(&c.b), x == h, h == x);
            }
        }};
    }
    match &c.a {
        G::Empty => {
            let h = wrap::<C>(&c.b);
            for x in [Geometry::<C>::empty(), Empty::<C>::new().into(), Geometry::Empty(Empty::new())] {
                ensure!((x == h) == want && (h == x) == want, "empty equals {:?}: {}", h, x == h);
            }
            ensure!(Empty::<C>::new() == Empty::<C>::new(), "two empties differ");
        }
        G::Point(p) => {
            for x in positions::<C>(p) {
                ensure!(stored(&x, p), "{:?} is stored as {:?}", p, x);
                ensure!((x == pos(*p)) == me, "{:?} equals itself: {}", x, !me);
            }
            go!(points::<C>(p), |x: &Point<C>| stored(&x.0, p))
        }
        G::Line(l) => go!(lines::<C>(l), |x: &LineString<C>| line_stored(x, l)),
        G::Poly(r) => go!(polygons::<C>(r), |x: &Polygon<C>| polygon_stored(x, r)),
        G::MPoint(l) => go!(multipoints::<C>(l), |x: &MultiPoint<C>| x.points.len() == l.len()
            && x.points.iter().zip(l).all(|(p, q)| stored(&p.0, q))),
        G::MLine(m) => go!(multilines::<C>(m), |x: &MultiLineString<C>| x.line_strings.len() == m.len()
            && x.line_strings.iter().zip(m).all(|(l, w)| line_stored(l, w))),
        G::MPoly(m) => go!(multipolygons::<C>(m), |x: &MultiPolygon<C>| x.polygons.len() == m.len()
            && x.polygons.iter().zip(m).all(|(p, r)| polygon_stored(p, r))),
    }
    Ok(Obs::new(!matches!(c.a, G::Empty))
        .tag(if want { "equal" } else { "different" })
        .tag_if(!me, "not a number"))
}
fn wrap<C: Flt>(g: &G) -> Geometry<C> {
    match g {
        G::Empty => Geometry::empty(),
        G::Point(p) => Point::new(pos(*p)).into(),
        G::Line(l) => line(l).into(),
        G::Poly(r) => polygon(r).into(),
        G::MPoint(l) => multipoints(l).remove(0).into(),
        G::MLine(m) => MultiLineString::new(all_lines(m)).into(),
        G::MPoly(m) => MultiPolygon::new(m.iter().map(|r| polygon(r)).collect()).into(),
    }
}

// ------------------------------------------------------------ primitives, and the line

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Few {
    f32: bool,
    a: [F; 6],
    b: [F; 6],
    n: usize,
}
fn gen_few(t: &mut Tape) -> Few {
    let is32 = t.chance(1, 3);
    let mut a = [F::of(0.0); 6];
    for v in &mut a {
        *v = F::of(wild(t, is32));
    }
    let mut b = a;
    match t.below(4) {
        0 => {}
        1 => {
            let i = t.below(6);
            b[i] = F::of(wild(t, is32));
        }
        2 => {
            let i = t.below(6);
            b[i] = F::of(-a[i].v());
        }
        _ => {
            let (i, j) = (t.below(6), t.below(6));
            b.swap(i, j);
        }
    }
    Few { f32: is32, a, b, n: t.below(7) }
}
fn t_few(c: &Few) -> R {
    by_type!(c.f32, few(c))
}
fn few<C: Flt>(c: &Few) -> R {
    let conv = |v: &[F; 6]| -> Vec<C> { v.iter().map(|x| C::of64(x.v())).collect() };
    let (a, b) = (conv(&c.a), conv(&c.b));
    let eq = |n: usize| a[..n] == b[..n];
    let own = |n: usize| a[..n].iter().all(|x| !x.is_nan());
    macro_rules! same {
        ($n:expr, $what:expr, $x:expr, $y:expr) => {{
            let (x, y, z) = ($x(&a), $x(&b), $y(&a));
            ensure!((x == y) == eq($n) && (y == x) == eq($n) && (x != y) != eq($n), "{} {:?} equals {:?}: {}", $what, x, y, x == y);
            ensure!((x == z) == own($n) && (x == $x(&a)) == own($n), "{} {:?} built twice is equal: {}", $what, x, x == z);
        }};
    }
    let p = |x: C, y: C| Position::new(x, y);
    same!(2, "position", |v: &[C]| p(v[0], v[1]), |v: &[C]| Position::from([v[0], v[1]]));
    same!(4, "segment", |v: &[C]| Segment::new(p(v[0], v[1]), p(v[2], v[3])), |v: &[C]| Segment::from(((v[0], v[1]), (v[2], v[3]))));
    same!(4, "segment", |v: &[C]| Segment::from((p(v[0], v[1]), p(v[2], v[3]))), |v: &[C]| Segment::from(([v[0], v[1]], [v[2], v[3]])));
    for v in [&a, &b] {
        let s = Segment::from(((v[0], v[1]), (v[2], v[3])));
        let kept = |x: C, y: C| x.same(y) && (x.is_nan() || x.is_sign_negative() == y.is_sign_negative());
        ensure!(kept(s.start.x, v[0]) && kept(s.start.y, v[1]) && kept(s.end.x, v[2]) && kept(s.end.y, v[3]), "{:?} of {:?}", s, v);
        let q = [p(v[0], v[1]), p(v[2], v[3]), p(v[4], v[5])];
        for t in [
            Triangle::new(q[0], q[1], q[2]),
            Triangle::from((q[0], q[1], q[2])),
            Triangle::from(((v[0], v[1]), (v[2], v[3]), (v[4], v[5]))),
        ] {
            let r = t.to_array();
            let good = (0..3).all(|i| kept(r[i].x, q[i].x) && kept(r[i].y, q[i].y));
            ensure!(good, "{:?} of {:?}", t, v);
        }
    }
    // Boxes by their corners in any order
    if a[..4].iter().chain(&b[..4]).all(|x| !x.is_nan()) {
        let bx = |v: &[C]| Envelope::new(p(v[0], v[1]), p(v[2], v[3]));
        let norm = |v: &[C]| [v[0].min(v[2]), v[1].min(v[3]), v[0].max(v[2]), v[1].max(v[3])];
        let want = norm(&a) == norm(&b);
        ensure!((bx(&a) == bx(&b)) == want, "{:?} equals {:?}: {}", bx(&a), bx(&b), !want);
        let back = |v: &[C]| Envelope::new(p(v[2], v[1]), p(v[0], v[3]));
        ensure!(bx(&a) == back(&a), "{:?} and {:?}", bx(&a), back(&a));
        ensure!(bx(&a) != Envelope::empty() && Envelope::<C>::empty() == Envelope::Empty, "{:?} equals the empty box", bx(&a));
        let s = Segment::new(p(a[0], a[1]), p(a[2], a[3]));
        ensure!(s.envelope() == bx(&a), "{:?}: {:?}", s, s.envelope());
    }
    // The line
    let l = |x: C| lp::Position::new(x);
    same!(1, "1-d position", |v: &[C]| l(v[0]), |v: &[C]| lp::Position::from(v[0]));
    same!(1, "1-d point", |v: &[C]| lt::Point::new(l(v[0])), |v: &[C]| lt::Point::from(v[0]));
    same!(2, "1-d segment", |v: &[C]| lp::Segment::new(l(v[0]), l(v[1])), |v: &[C]| lp::Segment::from((v[0], v[1])));
    same!(2, "1-d line", |v: &[C]| lt::Line::new(l(v[0]), l(v[1])), |v: &[C]| lt::Line::from((v[0], v[1])));
    let n = c.n;
    {
        let k = n.min(6);
        same!(k, "1-d multipoint", |v: &[C]| lt::MultiPoint::new(v[..k].iter().map(|x| l(*x)).collect()), |v: &[C]| lt::MultiPoint::from(v[..k].to_vec()));
        let segs = |v: &[C]| v[..k / 2 * 2].chunks(2).map(|w| (w[0], w[1])).collect::<Vec<_>>();
        same!(k / 2 * 2, "1-d multiline",
            |v: &[C]| lt::MultiLine::new(segs(v).into_iter().map(|(x, y)| lp::Segment::new(l(x), l(y))).collect()),
            |v: &[C]| lt::MultiLine::from(segs(v)));
    }
    ensure!(lt::MultiPoint::<C>::empty() == lt::MultiPoint::new(vec![]), "empty 1-d multipoints differ");
    ensure!(lt::MultiLine::<C>::empty() == lt::MultiLine::new(vec![]), "empty 1-d multilines differ");
    ensure!(lt::Line::<C>::empty() == lt::Line::empty(), "empty 1-d lines differ");
    ensure!(lt::Line::<C>::empty() != lt::Line::new(l(a[0]), l(a[1])), "a line equals the empty one");
    if let Ok(h) = p(a[0], a[1]).to_hashable() {
        let q: Position<C> = h.into();
        ensure!(q == p(a[0], a[1]), "{:?} from its hashable form", q);
    }
    if let Ok(h) = l(a[0]).to_hashable() {
        ensure!(lp::Position::from(h) == l(a[0]), "{:?} from its hashable form", a[0]);
    }
    Ok(Obs::new(true).tag(if eq(6) { "equal" } else { "different" }))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "Random geometries of every type, arbitrary and well-formed, each built in every way there is (constructors, conversions from vectors of positions, pairs, arrays and hashable positions, iterators, clones): what is stored, equality of all ways with each other, and with a second value that is the same or differs a little (one coordinate by one step, a zero's sign, one position, member or structure); sub few: positions, segments, triangles, boxes and the one-dimensional types likewise. Non-trivial: not the empty geometry.",
        assumptions: &["boxes are compared without NaN"],
        subs: vec![
            random("geometries", 100_000, 4_000_000, || tape(900, gen_two), t_c31),
            random("large", 3_000, 100_000, || tape(7_100, gen_two_large), t_c31),
            random("few", 300_000, 8_000_000, || tape(40, gen_few), t_few),
        ],
    }]
}
