//! C15 (multipoints as sets), C18 (boundaries), C19 (the generic wrapper),
//! C20 (envelopes), C21 (line accessors and lengths).
use crate::engine::*;
use crate::exact::{self, Rings, P};
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::planar::types::{
    Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon,
};
use serde::{Deserialize, Serialize};

fn mpoint<C: Flt>(v: &[FP]) -> MultiPoint<C> {
    MultiPoint::new(v.iter().map(|p| Point::new(pos(*p))).collect())
}
fn fpoly<C: Flt>(r: &[Vec<FP>]) -> Polygon<C> {
    match r.split_first() {
        None => Polygon::new(LineString::new(vec![]), vec![]),
        Some((e, h)) => Polygon::new(fline(e), h.iter().map(|l| fline(l)).collect()),
    }
}
fn fmls<C: Flt>(ls: &[Vec<FP>]) -> MultiLineString<C> {
    MultiLineString::new(ls.iter().map(|l| fline(l)).collect())
}
fn fmpoly<C: Flt>(ps: &[Vec<Vec<FP>>]) -> MultiPolygon<C> {
    MultiPolygon::new(ps.iter().map(|p| fpoly(p)).collect())
}
fn same_pos<C: Flt>(a: Position<C>, b: Position<C>) -> bool {
    a.x.same(b.x) && a.y.same(b.y)
}
fn same_line<C: Flt>(a: &[Position<C>], b: &[FP]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_pos(*p, pos(*q)))
}

/// A description worked out at once only for small cases.
fn cut(f: impl Fn() -> String, size: usize) -> String {
    if size > 200 {
        format!("{} positions", size)
    } else {
        f()
    }
}

/// A coordinate: small integers (with both zeros) mostly.
fn coord(t: &mut Tape, is32: bool, finite: bool) -> f64 {
    match t.weighted(&[6, 3, 2, 2]) {
        0 => t.range(0, 3) as f64,
        1 => *t.pick(&[-0.0, 0.0, 1.0, -1.0, 0.5]),
        2 => tame(t, is32),
        _ => {
            let v = wild(t, is32);
            if finite && !(v.is_finite() && (!is32 || (v as f32).is_finite())) {
                2.0
            } else {
                v
            }
        }
    }
}
fn fpt(t: &mut Tape, is32: bool, finite: bool) -> FP {
    fp(coord(t, is32, finite), coord(t, is32, finite))
}
fn finite_pt<C: Flt>(p: &FP) -> bool {
    let q: Position<C> = pos(*p);
    q.x.is_finite() && q.y.is_finite()
}

// ------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pts {
    f32: bool,
    pts: Vec<FP>,
    /// The same points in another order and with repetitions, as indices.
    again: Vec<usize>,
    probes: Vec<FP>,
}

fn gen_c15(t: &mut Tape) -> Pts {
    let is32 = t.chance(1, 3);
    let n = match t.below(4) {
        0 => t.below(3),
        1 => t.below(6),
        2 => t.below(12),
        _ => t.below(60),
    };
    let finite = t.chance(1, 2);
    let mut pts: Vec<FP> = Vec::new();
    let spread = t.chance(1, 3);
    for i in 0..n {
        pts.push(if spread {
            // distinct by construction, unless edited below
            fp(i as f64 * 0.5 - 2.0, coord(t, is32, finite))
        } else {
            fpt(t, is32, finite)
        });
    }
    if spread {
        t.shuffle(&mut pts);
    }
    if n > 0 && t.chance(1, 4) {
        // a repetition, possibly with zeros of the other sign
        let p = *t.pick(&pts);
        let f = |v: F| if v.v() == 0.0 { F::of(-v.v()) } else { v };
        let q = if t.chance(1, 2) { (f(p.0), f(p.1)) } else { p };
        let i = t.below(pts.len() + 1);
        pts.insert(i, q);
    }
    let mut again: Vec<usize> = (0..pts.len()).collect();
    for _ in 0..t.below(4) {
        if !pts.is_empty() {
            again.push(t.below(pts.len()));
        }
    }
    t.shuffle(&mut again);
    let probes = (0..3)
        .map(|_| {
            if !pts.is_empty() && t.chance(1, 2) {
                let (a, b) = (*t.pick(&pts), *t.pick(&pts));
                (a.0, b.1)
            } else {
                fpt(t, is32, false)
            }
        })
        .collect();
    Pts { f32: is32, pts, again, probes }
}

fn gen_c15_large(t: &mut Tape) -> Pts {
    let is32 = t.chance(1, 3);
    let most = *t.pick(&[100, 600, 5000]);
    let n = 60 + t.below(most);
    // few values (many repetitions) or a grid's distinct points
    let w = *t.pick(&[20usize, 64, 1000]);
    let distinct = t.chance(1, 2);
    let shape = t.below(6);
    let mut pts: Vec<FP> = (0..n)
        .map(|i| {
            if distinct && shape == 0 {
                fp(i as f64 - 9.0, 1.5)
            } else if distinct && shape == 1 {
                fp(-2.0, i as f64 * 0.25)
            } else if distinct {
                fp((i % w) as f64 * 0.5 - 9.0, (i / w) as f64 - 2.0)
            } else {
                fp(t.below(w) as f64, t.range(0, 3) as f64)
            }
        })
        .collect();
    match t.below(4) {
        0 => t.shuffle(&mut pts),
        1 => pts.reverse(),
        _ => {
            let by = t.below(n);
            pts.rotate_left(by);
        }
    }
    for _ in 0..t.below(3) {
        // one point again, or not a number, anywhere
        let i = t.below(pts.len() + 1);
        let p = *t.pick(&pts);
        pts.insert(i, if t.chance(1, 4) { (p.0, F::of(f64::NAN)) } else { p });
    }
    let mut again: Vec<usize> = (0..pts.len()).collect();
    for _ in 0..t.below(100) {
        again.push(t.below(pts.len()));
    }
    t.shuffle(&mut again);
    let probes = (0..3).map(|_| { let (a, b) = (*t.pick(&pts), *t.pick(&pts)); (a.0, b.1) }).collect();
    Pts { f32: is32, pts, again, probes }
}

fn t_c15(c: &Pts) -> R {
    by_type!(c.f32, c15(c))
}
fn c15<C: Flt>(c: &Pts) -> R {
    let m: MultiPoint<C> = mpoint(&c.pts);
    let eq = |a: &Position<C>, b: &Position<C>| a.x == b.x && a.y == b.y;
    // model: finite points, sorted, distinct
    let all_finite = c.pts.iter().all(finite_pt::<C>);
    let mut set: Vec<Position<C>> =
        c.pts.iter().filter(|p| finite_pt::<C>(p)).map(|p| pos(*p)).collect();
    let finite_count = set.len();
    set.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    set.dedup_by(|a, b| eq(a, b));
    let valid = all_finite && set.len() == c.pts.len();
    ensure!(m.validate().is_ok() == valid, "{:?}: validate {:?}, want {}", m, m.validate(), valid);
    ensure!(m.is_simple() == valid, "{:?}: is_simple {}, want {}", m, m.is_simple(), valid);
    ensure!(m.num_points() == c.pts.len(), "{:?}: num_points {}", m, m.num_points());
    ensure!(m.is_empty() == c.pts.is_empty(), "{:?}: is_empty {}", m, m.is_empty());
    let stored: Vec<Position<C>> = m.points.iter().map(|p| p.0).collect();
    ensure!(same_line(&stored, &c.pts), "{:?}: stored {:?}", c.pts, stored);

    let check = |what: &str, g: Geometry<C>| -> Result<(), String> {
        let d = cut(|| format!("{} of {:?}: {:?}, want {:?}", what, c.pts, g, set), c.pts.len());
        ensure!(g.is_simple(), "not simple: {}", d);
        match g {
            Geometry::Empty(_) => ensure!(set.is_empty(), "{}", d),
            Geometry::MultiPoint(s) => {
                ensure!(!set.is_empty(), "empty set: {}", d);
                ensure!(s.points.len() == set.len(), "{}", d);
                ensure!(s.points.iter().zip(&set).all(|(a, b)| eq(&a.0, b)), "{}", d);
                ensure!(s.validate().is_ok(), "not valid: {}", d);
                let e = s.envelope();
                ensure!(e == Envelope::of(set.iter()), "envelope {:?}: {}", e, d);
            }
            _ => return Err(d),
        }
        Ok(())
    };
    check("make_simple", m.make_simple())?;
    let shuffled: Vec<FP> = c.again.iter().map(|i| c.pts[*i]).collect();
    check("make_simple, reordered and repeated,", mpoint::<C>(&shuffled).make_simple())?;
    if let Geometry::MultiPoint(s) = m.make_simple() {
        check("make_simple twice", s.make_simple())?;
    }
    // membership
    let step = 1 + c.pts.len() / 100;
    for p in c.probes.iter().chain(c.pts.iter().step_by(step)).chain(c.pts.last()) {
        let q: Position<C> = pos(*p);
        let want = stored.iter().any(|s| eq(s, &q));
        let got = m.contains_point(&Point::new(q));
        ensure!(got == want, "{:?} contains_point {:?} = {}, want {}", m, q, got, want);
    }
    Ok(Obs::new(c.pts.len() >= 2)
        .tag(if valid { "valid" } else if all_finite { "repeated point" } else { "non-finite point" })
        .tag_if(finite_count > set.len(), "repetition removed")
        .tag_if(set.is_empty() && !c.pts.is_empty(), "nothing left"))
}

// ------------------------------------------------------------ C18

/// The boundary as (type name, its points if a multipoint or empty, its lines).
fn boundary_points<C: Flt>(what: &str, g: Geometry<C>) -> Result<Vec<Position<C>>, String> {
    match g {
        Geometry::Empty(_) => Ok(vec![]),
        Geometry::MultiPoint(m) => Ok(m.points.iter().map(|p| p.0).collect()),
        g => Err(format!("{}: boundary is a {}", what, g.geometry_type())),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lines {
    f32: bool,
    m: Vec<Vec<FP>>,
}

fn gen_c18_lines(t: &mut Tape) -> Lines {
    let is32 = t.chance(1, 3);
    let k = 1 + t.below(6);
    let mut nodes: Vec<FP> = (0..k)
        .map(|_| match t.below(5) {
            0..=2 => fp(t.range(-1, 2) as f64, t.range(-1, 2) as f64),
            3 => fp(tame(t, is32), tame(t, is32)),
            _ => {
                let v = [0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e-30];
                fp(*t.pick(&v), *t.pick(&v))
            }
        })
        .collect();
    // the same node with zeros of the other sign
    for i in 0..nodes.len() {
        if (nodes[i].0.v() == 0.0 || nodes[i].1.v() == 0.0) && t.chance(1, 2) {
            let f = |v: F| if v.v() == 0.0 { F::of(-v.v()) } else { v };
            let q = (f(nodes[i].0), f(nodes[i].1));
            nodes.push(q);
        }
    }
    let n = if t.chance(1, 6) { t.below(40) } else { t.below(7) };
    let m = (0..n)
        .map(|_| {
            let len = match t.below(6) {
                0 => 0,
                1 => 1,
                2 | 3 => 2,
                4 => 3,
                _ => 4 + t.below(3),
            };
            let mut l: Vec<FP> = (0..len).map(|_| *t.pick(&nodes)).collect();
            if len > 1 && t.chance(1, 4) {
                l[len - 1] = if t.chance(1, 4) { next_to(t, is32, l[0]) } else { l[0] };
            }
            l
        })
        .collect();
    Lines { f32: is32, m }
}

/// Many members over many shared ends; ends met up to hundreds of times.
fn gen_c18_large(t: &mut Tape) -> Lines {
    let is32 = t.chance(1, 3);
    let most = *t.pick(&[80, 300, 1500]);
    let n = 30 + t.below(most);
    let k = *t.pick(&[1usize, 3, 30, 300]);
    let node = |i: usize| fp((i % 17) as f64, (i / 17) as f64 * 0.5);
    let hub = t.chance(1, 3);
    let m = (0..n)
        .map(|i| {
            let a = node(if hub && t.chance(3, 4) { 0 } else { t.below(k) });
            let b = node(if t.chance(1, 4) { k + i } else { t.below(k) });
            match t.below(8) {
                0 => vec![a, b, fp(-1.0, -1.0), a],
                1 => vec![b, fp(0.5, 0.25), fp(0.25, 1.0), a],
                2 => vec![b, a],
                _ => vec![a, b],
            }
        })
        .collect();
    Lines { f32: is32, m }
}

fn t_c18_lines(c: &Lines) -> R {
    by_type!(c.f32, c18_lines(c))
}
fn c18_lines<C: Flt>(c: &Lines) -> R {
    let eq = |a: &Position<C>, b: &Position<C>| a.x == b.x && a.y == b.y;
    let mut ends: Vec<Position<C>> = vec![];
    let (mut open, mut closed) = (0, 0);
    for l in &c.m {
        let ls: LineString<C> = fline(l);
        let what = format!("{:?}", ls);
        let is_closed = l.len() >= 4 && eq(&ls.positions[0], &ls.positions[l.len() - 1]);
        let want: Vec<Position<C>> =
            if is_closed || l.is_empty() { vec![] } else { vec![ls.positions[0], ls.positions[l.len() - 1]] };
        let b = ls.boundary();
        ensure!(b.is_empty() == want.is_empty(), "{}: boundary {:?}", what, b);
        ensure!(b.boundary().is_empty(), "{}: boundary has a boundary {:?}", what, b.boundary());
        let got = boundary_points(&what, b)?;
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| eq(a, b)), "{}: boundary {:?}", what, got);
        if want.is_empty() {
            closed += 1;
        } else {
            open += 1;
        }
        ends.extend(want);
        for p in l {
            let p: Point<C> = Point::new(pos(*p));
            ensure!(p.boundary().is_empty() && p.boundary().geometry_type() == "Empty", "{:?}: boundary {:?}", p, p.boundary());
        }
        let m: MultiPoint<C> = mpoint(l);
        ensure!(m.boundary().geometry_type() == "Empty", "{:?}: boundary {:?}", m, m.boundary());
    }
    // ends met an odd number of times, sorted
    let mut want: Vec<Position<C>> = Vec::new();
    for e in &ends {
        if ends.iter().filter(|x| eq(x, e)).count() % 2 == 1 && !want.iter().any(|x| eq(x, e)) {
            want.push(*e);
        }
    }
    want.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    let m: MultiLineString<C> = fmls(&c.m);
    let b = m.boundary();
    let what = cut(|| format!("{:?}: boundary {:?}, want {:?}", m, b, want), c.m.len());
    ensure!(want.is_empty() == (b.geometry_type() == "Empty"), "{}", what);
    ensure!(b.boundary().is_empty(), "has a boundary: {}", what);
    let got = boundary_points(&what, b)?;
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| eq(a, b)), "{}", what);
    let cancelled = ends.len() > want.len();
    Ok(Obs::new(open >= 2)
        .tag_if(cancelled, "some end met more than once")
        .tag_if(closed > 0 && open > 0, "closed and open members")
        .tag_if(want.is_empty(), "empty boundary")
        .tag_if(want.len() > 4, "more than four boundary points"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Areas {
    lat: Lat,
    ps: Vec<Rings>,
}

fn gen_c18_areas(t: &mut Tape) -> Areas {
    let mut ps = match t.below(3) {
        0 => vec![any_polygon(t)],
        1 => any_multipolygon(t),
        // rings of any form
        _ => (0..t.below(4))
            .map(|_| {
                (0..t.below(4))
                    .map(|i| {
                        let n = if i == 0 { 1 + t.below(5) } else { t.below(6) };
                        (0..n).map(|_| grid_point(t, 4)).collect()
                    })
                    .collect()
            })
            .collect(),
    };
    // An area without an exterior has no holes either.
    for p in ps.iter_mut() {
        if p.first().map_or(false, |e| e.is_empty()) {
            p.truncate(1);
        }
    }
    if t.chance(1, 4) {
        let i = t.below(ps.len() + 1);
        ps.insert(i, if t.chance(1, 2) { vec![] } else { vec![vec![]] });
    }
    let w = normalize(&mut ps.iter_mut().flatten().collect::<Vec<_>>());
    Areas { lat: Lat::gen(t, w), ps }
}

fn gen_c18_large_areas(t: &mut Tape) -> Areas {
    let mut ps = match t.below(3) {
        0 => vec![large_polygon(t)],
        1 => {
            let mut m = large_multipolygon(t);
            m.push(large_polygon(t));
            m
        }
        _ => large_multipolygon(t),
    };
    if t.chance(1, 4) {
        let i = t.below(ps.len() + 1);
        ps.insert(i, if t.chance(1, 2) { vec![] } else { vec![vec![]] });
    }
    let w = normalize(&mut ps.iter_mut().flatten().collect::<Vec<_>>());
    Areas { lat: Lat::gen(t, w), ps }
}

fn t_c18_areas(c: &Areas) -> R {
    by_type!(c.lat.f32, c18_areas(c))
}
fn c18_areas<C: Flt>(c: &Areas) -> R {
    let judge = |what: &str, b: Geometry<C>, rings: &[&Vec<P>], valid: bool| -> Result<(), String> {
        let d = cut(|| format!("{} {:?}: boundary {:?}", what, rings, b), rings.iter().map(|r| r.len()).sum());
        ensure!(b.is_empty() == rings.iter().all(|r| r.is_empty()), "{}", d);
        if valid {
            ensure!(b.boundary().is_empty(), "valid, but its boundary has a boundary {:?}: {}", b.boundary(), d);
        }
        if b.is_empty() {
            return Ok(());
        }
        let Some(m) = b.as_multilinestring() else { return Err(d) };
        ensure!(m.line_strings.len() == rings.len(), "{}", d);
        for (l, r) in m.line_strings.iter().zip(rings) {
            let want: LineString<C> = c.lat.line(r);
            ensure!(l.positions == want.positions, "{}", d);
        }
        Ok(())
    };
    let mut some_valid = false;
    for p in &c.ps {
        let v = exact::polygon_valid(p);
        some_valid |= v && !p.is_empty() && !p[0].is_empty();
        judge("polygon", c.lat.poly::<C>(p).boundary(), &p.iter().collect::<Vec<_>>(), v)?;
    }
    let v = exact::multipolygon_valid(&c.ps);
    let rings: Vec<&Vec<P>> = c.ps.iter().filter(|p| p.iter().any(|r| !r.is_empty())).flatten().collect();
    judge("multipolygon", c.lat.mpoly::<C>(&c.ps).boundary(), &rings, v)?;
    Ok(Obs::new(rings.len() >= 2)
        .tag_if(v, "valid multipolygon")
        .tag_if(some_valid, "a valid polygon")
        .tag_if(c.ps.iter().any(|p| p.is_empty() || p[0].is_empty()), "empty member"))
}

// ------------------------------------------------------------ C19, C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum G {
    Empty,
    Point(FP),
    Line(Vec<FP>),
    Poly(Vec<Vec<FP>>),
    MPoint(Vec<FP>),
    MLine(Vec<Vec<FP>>),
    MPoly(Vec<Vec<Vec<FP>>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct AnyG {
    pub f32: bool,
    pub g: G,
}

fn floats(l: &[P]) -> Vec<FP> {
    l.iter().map(|p| fp(p.0 as f64, p.1 as f64)).collect()
}

pub(super) fn gen_any(t: &mut Tape) -> AnyG {
    let is32 = t.chance(1, 3);
    let finite = t.chance(2, 3);
    // zeros of one sign only: printed forms are compared
    fn n0(p: FP) -> FP {
        fp(p.0.v() + 0.0, p.1.v() + 0.0)
    }
    let line = |t: &mut Tape| -> Vec<FP> {
        let n = t.below(6);
        let mut l: Vec<FP> = (0..n).map(|_| n0(fpt(t, is32, finite))).collect();
        if n > 2 && t.chance(1, 2) {
            let f = l[0];
            l.push(f);
        }
        l
    };
    let structured = t.chance(1, 3);
    let g = match t.below(7) {
        0 => G::Empty,
        1 => G::Point(n0(fpt(t, is32, finite))),
        2 => G::Line(if structured { floats(&any_line(t)) } else { line(t) }),
        3 => G::Poly(if structured {
            any_polygon(t).iter().map(|r| floats(r)).collect()
        } else {
            (0..t.below(4)).map(|_| line(t)).collect()
        }),
        4 => G::MPoint(line(t)),
        5 => G::MLine(if structured {
            any_multiline(t).iter().map(|r| floats(r)).collect()
        } else {
            (0..t.below(4)).map(|_| line(t)).collect()
        }),
        _ => G::MPoly(if structured {
            any_multipolygon(t)
                .iter()
                .map(|p| p.iter().map(|r| floats(r)).collect())
                .collect()
        } else {
            (0..t.below(4)).map(|_| (0..t.below(3)).map(|_| line(t)).collect()).collect()
        }),
    };
    AnyG { f32: is32, g }
}

/// Hundreds of positions, members or rings, with few odd ones among them.
pub(super) fn gen_any_large(t: &mut Tape) -> AnyG {
    let is32 = t.chance(1, 3);
    let most = *t.pick(&[30, 100, 1000, 3000]);
    let n = 20 + t.below(most);
    let odd = if t.chance(1, 2) { 0 } else { 1 + t.below(3) };
    let lone = t.chance(1, 2);
    let mut at: Vec<usize> = (0..odd).map(|_| t.below(n)).collect();
    at.sort();
    let mut pts: Vec<FP> = (0..n)
        .map(|i| {
            if at.contains(&i) {
                let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, 7777.0, -7777.0];
                let x = *t.pick(&v[if lone { 3 } else { 0 }..]);
                if t.chance(1, 2) { fp(x, 1.0) } else { fp(2.0, x) }
            } else {
                fp(t.range(0, 60) as f64, t.range(-30, 30) as f64)
            }
        })
        .collect();
    // cut into pieces, some of them empty
    let mean = *t.pick(&[1usize, 2, 5, 40]);
    let pieces = |t: &mut Tape, pts: &[FP], hollow: bool| -> Vec<Vec<FP>> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < pts.len() {
            let some = !hollow || t.below(8) < 7;
            let k = if some { (1 + t.below(2 * mean)).min(pts.len() - i) } else { 0 };
            v.push(pts[i..i + k].to_vec());
            i += k;
        }
        v
    };
    let shaped = t.chance(1, 3);
    let fl = |v: Vec<Vec<P>>| -> Vec<Vec<FP>> { v.iter().map(|r| floats(r)).collect() };
    let g = match t.below(5) {
        0 => G::Line(if shaped { floats(&large_line(t)) } else { pts }),
        1 => G::Poly(if shaped { fl(large_polygon(t)) } else { pieces(t, &pts, false) }),
        2 => {
            if t.chance(1, 2) {
                // all different
                for (i, p) in pts.iter_mut().enumerate() {
                    p.0 = F::of(p.0.v() + 100.0 * i as f64);
                }
            }
            G::MPoint(pts)
        }
        3 => G::MLine(if shaped { fl(large_multiline(t)) } else { pieces(t, &pts, true) }),
        _ => G::MPoly(if shaped {
            large_multipolygon(t).into_iter().map(fl).collect()
        } else {
            let v = pieces(t, &pts, false);
            v.chunks(1 + t.below(3)).map(|c| c.to_vec()).collect()
        }),
    };
    AnyG { f32: is32, g }
}

fn t_c19(c: &AnyG) -> R {
    by_type!(c.f32, c19(c))
}
fn c19<C: Flt>(c: &AnyG) -> R {
    // (type name, dimension, no positions)
    let no = |ls: &[Vec<FP>]| ls.iter().all(|l| l.is_empty());
    let ext = |p: &Vec<Vec<FP>>| p.first().map_or(true, |e| e.is_empty());
    // An empty exterior with holes is neither here nor there.
    let odd = |p: &Vec<Vec<FP>>| ext(p) && !no(p);
    match &c.g {
        G::Poly(p) if odd(p) => return Ok(Obs::new(false).tag("holes without exterior")),
        G::MPoly(m) if m.iter().any(odd) => return Ok(Obs::new(false).tag("holes without exterior")),
        _ => {}
    }
    let (name, dim, none) = match &c.g {
        G::Empty => ("Empty", 0u8, true),
        G::Point(_) => ("Point", 0, false),
        G::Line(l) => ("LineString", 1, l.is_empty()),
        G::Poly(p) => ("Polygon", 2, ext(p)),
        G::MPoint(l) => ("MultiPoint", 0, l.is_empty()),
        G::MLine(m) => ("MultiLineString", 1, no(m)),
        G::MPoly(m) => ("MultiPolygon", 2, m.iter().all(ext)),
    };
    let env = |a: Envelope<C>, b: Envelope<C>| match (a, b) {
        (Envelope::Empty, Envelope::Empty) => true,
        (Envelope::Bounds { min: a, max: b }, Envelope::Bounds { min: c, max: d }) => same_pos(a, c) && same_pos(b, d),
        _ => false,
    };
    // $as: (converter, name) for each type
    macro_rules! go {
        ($mk:expr) => {{
            let mk = || $mk;
            let x = mk();
            let what = format!("{:?}", x);
            let g: Geometry<C> = mk().into();
            ensure!(x.dimension() == dim && g.dimension() == dim, "{}: dimension {} / {}", what, x.dimension(), g.dimension());
            ensure!(x.geometry_type() == name && g.geometry_type() == name, "{}: type {} / {}", what, x.geometry_type(), g.geometry_type());
            ensure!(x.is_empty() == none && g.is_empty() == none, "{}: is_empty {} / {}", what, x.is_empty(), g.is_empty());
            ensure!(x.is_simple() == g.is_simple(), "{}: is_simple {} / {}", what, x.is_simple(), g.is_simple());
            ensure!(env(x.envelope(), g.envelope()), "{}: envelope {:?} / {:?}", what, x.envelope(), g.envelope());
            let (a, b) = (format!("{:?}", x.boundary()), format!("{:?}", g.boundary()));
            ensure!(a == b, "{}: boundary {} / {}", what, a, b);
            let g = || -> Geometry<C> { mk().into() };
            ensure!(g().as_empty().is_some() == none, "{}: as_empty {:?}", what, g().as_empty());
            macro_rules! unwrap {
                ($as:ident, $n:expr) => {
                    match g().$as() {
                        None => ensure!(name != $n, "{}: {} gives nothing", what, stringify!($as)),
                        Some(y) => {
                            ensure!(name == $n, "{}: {} gives {:?}", what, stringify!($as), y);
                            ensure!(format!("{:?}", y) == what, "{}: {} gives {:?}", what, stringify!($as), y);
                        }
                    }
                };
            }
            unwrap!(as_point, "Point");
            unwrap!(as_linestring, "LineString");
            unwrap!(as_polygon, "Polygon");
            unwrap!(as_multipoint, "MultiPoint");
            unwrap!(as_multilinestring, "MultiLineString");
            unwrap!(as_multipolygon, "MultiPolygon");
            Obs::new(!none).tag(name).tag_if(x.is_simple(), "simple").tag_if(none, "empty")
        }};
    }
    Ok(match &c.g {
        G::Empty => {
            let e = Geometry::<C>::empty();
            ensure!(e.geometry_type() == "Empty" && e.is_empty(), "Geometry::empty() is {:?}", e);
            go!(Empty::<C>::new())
        }
        G::Point(p) => go!(Point::<C>::new(pos(*p))),
        G::Line(l) => go!(fline::<C>(l)),
        G::Poly(p) => go!(fpoly::<C>(p)),
        G::MPoint(l) => go!(mpoint::<C>(l)),
        G::MLine(m) => go!(fmls::<C>(m)),
        G::MPoly(m) => go!(fmpoly::<C>(m)),
    })
}

fn t_c20(c: &AnyG) -> R {
    by_type!(c.f32, c20(c))
}
fn c20<C: Flt>(c: &AnyG) -> R {
    let mut axes_nan = false;
    let mut judge = |what: String, e: Envelope<C>, pts: &[FP]| -> Result<(), String> {
        let d = format!("{}: envelope {:?}", what, e);
        ensure!(e.is_empty() == pts.is_empty(), "{}", d);
        ensure!(e.min().is_some() != pts.is_empty() && e.max().is_some() != pts.is_empty(), "{}", d);
        let (Some(lo), Some(hi)) = (e.min(), e.max()) else { return Ok(()) };
        let axis = |f: fn(&Position<C>) -> C| -> Option<(C, C)> {
            let v: Vec<C> = pts.iter().map(|p| f(&pos(*p))).filter(|v| !v.is_nan()).collect();
            let a = *v.first()?;
            Some(v.iter().fold((a, a), |(l, h), x| (if *x < l { *x } else { l }, if *x > h { *x } else { h })))
        };
        match axis(|p| p.x) {
            Some((l, h)) => ensure!(lo.x == l && hi.x == h, "x not {:?}..{:?}: {}", l, h, d),
            None => axes_nan = true,
        }
        match axis(|p| p.y) {
            Some((l, h)) => ensure!(lo.y == l && hi.y == h, "y not {:?}..{:?}: {}", l, h, d),
            None => axes_nan = true,
        }
        Ok(())
    };
    macro_rules! go {
        ($x:expr, $pts:expr) => {{
            let x = $x;
            let pts: Vec<FP> = $pts;
            judge(format!("{:?}", x), x.envelope(), &pts)?;
            let d = format!("wrapped {:?}", x);
            let g: Geometry<C> = x.into();
            judge(d, g.envelope(), &pts)?;
        }};
    }
    let line = |l: &Vec<FP>, judge: &mut dyn FnMut(String, Envelope<C>, &[FP]) -> Result<(), String>| -> Result<(), String> {
        for w in l.windows(2) {
            let s: Segment<C> = Segment::new(pos(w[0]), pos(w[1]));
            judge(format!("{:?}", s), s.envelope(), w)?;
            let s: Segment<C> = (pos::<C>(w[0]), pos::<C>(w[1])).into();
            judge(format!("{:?}", s), s.envelope(), w)?;
        }
        let ps: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
        judge(format!("Envelope::of {:?}", ps), Envelope::of(ps.iter()), l)?;
        for (p, f) in ps.iter().zip(l) {
            judge(format!("{:?}", p), p.envelope(), &[*f])?;
        }
        Ok(())
    };
    let exts = |p: &Vec<Vec<FP>>| p.first().cloned().unwrap_or_default();
    let mut n = 0;
    match &c.g {
        G::Empty => go!(Empty::<C>::new(), vec![]),
        G::Point(p) => {
            go!(Point::<C>::new(pos(*p)), vec![*p]);
            n = 1;
        }
        G::Line(l) => {
            line(l, &mut judge)?;
            go!(fline::<C>(l), l.clone());
            let v: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
            go!(LineString::<C>::from(v.clone()), l.clone());
            go!(LineString::<C>::collect_from(v.into_iter()), l.clone());
            n = l.len();
        }
        G::Poly(p) => {
            go!(fpoly::<C>(p), exts(p));
            let e: LineString<C> = fline(&exts(p));
            go!(Polygon::<C>::from(e), exts(p));
            n = exts(p).len();
        }
        G::MPoint(l) => {
            go!(mpoint::<C>(l), l.clone());
            let v: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
            go!(MultiPoint::<C>::from(v), l.clone());
            n = l.len();
        }
        G::MLine(m) => {
            let all: Vec<FP> = m.iter().flatten().copied().collect();
            n = all.len();
            go!(fmls::<C>(m), all.clone());
            let v: Vec<LineString<C>> = m.iter().map(|l| fline(l)).collect();
            go!(MultiLineString::<C>::from(v), all.clone());
        }
        G::MPoly(m) => {
            let all: Vec<FP> = m.iter().flat_map(exts).collect();
            n = all.len();
            go!(fmpoly::<C>(m), all.clone());
            let v: Vec<Polygon<C>> = m.iter().map(|p| fpoly(p)).collect();
            go!(MultiPolygon::<C>::from(v), all.clone());
        }
    }
    Ok(Obs::new(n >= 2).tag_if(axes_nan, "an axis without numbers").tag(match c.g {
        G::Empty => "Empty",
        G::Point(_) => "Point",
        G::Line(_) => "LineString",
        G::Poly(_) => "Polygon",
        G::MPoint(_) => "MultiPoint",
        G::MLine(_) => "MultiLineString",
        G::MPoly(_) => "MultiPolygon",
    }))
}

// ------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinesQ {
    f32: bool,
    m: Vec<Vec<FP>>,
    q: (FP, FP),
}

fn gen_c21(t: &mut Tape) -> LinesQ {
    let is32 = t.chance(1, 3);
    let k = 1 + t.below(4);
    let m = (0..k)
        .map(|_| {
            let n = match t.below(5) {
                0 => t.below(3),
                1 | 2 => t.below(8),
                3 => t.below(40),
                _ => 15 + t.below(60),
            };
            let kind = t.below(3);
            let mut l: Vec<FP> = (0..n)
                .map(|i| match kind {
                    0 => fp(t.range(0, 3) as f64, t.range(0, 3) as f64),
                    1 => fp(tame(t, is32), tame(t, is32)),
                    _ => fp(i as f64 * 3.0, t.range(0, 4) as f64 * 4.0),
                })
                .collect();
            if n > 0 && t.chance(1, 3) {
                let f = l[0];
                l.push(if t.chance(1, 4) { next_to(t, is32, f) } else { f });
            }
            l
        })
        .collect();
    let b = |t: &mut Tape| {
        let s = *t.pick(&[4.0, 40.0, 200.0]);
        fp(t.unit() * s - s / 4.0, t.unit() * s - s / 4.0)
    };
    let q = (b(t), b(t));
    LinesQ { f32: is32, m, q }
}

fn gen_c21_large(t: &mut Tape) -> LinesQ {
    let is32 = t.chance(1, 3);
    let most = *t.pick(&[100, 600, 4000]);
    let n = 75 + t.below(most);
    let kind = t.below(5);
    let (mut x, mut y) = (0i64, 0i64);
    let mut all: Vec<FP> = (0..n)
        .map(|i| match kind {
            0 => fp(t.range(0, 60) as f64, t.range(0, 60) as f64),
            1 => fp(i as f64 * 3.0, t.range(0, 4) as f64 * 4.0),
            2 => fp(tame(t, is32), tame(t, is32)),
            3 => {
                x += t.range(-1, 1);
                y += t.range(-1, 1);
                fp(x as f64, y as f64)
            }
            _ => fp(t.unit() * 1e3, t.unit() * 1e3),
        })
        .collect();
    if t.chance(1, 3) {
        let f = all[0];
        all.push(f);
    }
    let m = if t.chance(1, 2) {
        vec![all]
    } else {
        // many members, each closed or not
        let k = 4 + t.below(8);
        let open = t.below(3);
        let mut m: Vec<Vec<FP>> = all.chunks(k)
            .enumerate()
            .map(|(i, c)| {
                let mut l = c.to_vec();
                if open == 0 || (open == 1 && i != n / k / 2) {
                    l.push(l[0]);
                }
                l
            })
            .collect();
        if t.chance(1, 2) {
            // one that is hardly a line
            let i = t.below(m.len());
            let k = t.below(5).min(m[i].len());
            if t.chance(1, 2) {
                m[i].truncate(k);
            } else {
                let l = m[i][..k].to_vec();
                m.insert(i, l);
            }
        }
        m
    };
    let b = |t: &mut Tape| {
        let s = *t.pick(&[60.0, 300.0, 1000.0]);
        fp(t.unit() * s, t.unit() * s - s / 4.0)
    };
    let q = (b(t), b(t));
    LinesQ { f32: is32, m, q }
}

fn t_c21(c: &LinesQ) -> R {
    by_type!(c.f32, c21(c))
}
fn c21<C: Flt>(c: &LinesQ) -> R {
    // `under`: what squares too small to represent may take off a length
    let (tol, under) = if C::IS32 { (1e-4, 1e-15) } else { (1e-12, 1e-150) };
    let close = |a: f64, b: f64| (a - b).abs() <= tol * b.abs() + under;
    let mut total = 0.0;
    let mut all_closed = true;
    let mut longest = 0;
    for l in &c.m {
        longest = longest.max(l.len());
        let ps: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
        let n = ps.len();
        let ls = LineString::new(ps.clone());
        let what = cut(|| format!("{:?}", ls), n);
        // however constructed
        let pairs: Vec<(C, C)> = ps.iter().map(|p| (p.x, p.y)).collect();
        let arrays: Vec<[C; 2]> = ps.iter().map(|p| [p.x, p.y]).collect();
        for (how, other) in [
            ("pairs", LineString::from(pairs)),
            ("arrays", LineString::from(arrays)),
            ("positions", LineString::from(ps.clone())),
            ("iterator", LineString::collect_from(ps.iter().copied())),
            ("clone", ls.clone()),
        ] {
            ensure!(other.positions == ps && other == ls, "{} from {}: {:?}", what, how, other);
        }
        ensure!(ls.positions == ps, "{} stores {:?}", what, ls.positions);
        ensure!(ls.num_points() == n && ls.is_empty() == (n == 0), "{}: num_points {} is_empty {}", what, ls.num_points(), ls.is_empty());
        for i in 0..n + 3 {
            let p = ls.get_point(i).map(|p| p.0);
            ensure!(p == ps.get(i).copied(), "{}: get_point({}) = {:?}", what, i, p);
            if let Some(pt) = ls.get_point(i) {
                ensure!(pt.x() == ps[i].x && pt.y() == ps[i].y, "{}: point {:?} has x {:?} y {:?}", what, pt, pt.x(), pt.y());
            }
        }
        ensure!(ls.get_point(usize::MAX).is_none(), "{}: get_point(max)", what);
        ensure!(ls.start_point().map(|p| p.0) == ps.first().copied(), "{}: start {:?}", what, ls.start_point());
        ensure!(ls.end_point().map(|p| p.0) == ps.last().copied(), "{}: end {:?}", what, ls.end_point());
        let closed = n >= 4 && ps[0] == ps[n - 1];
        ensure!(ls.is_closed() == closed, "{}: is_closed {}", what, ls.is_closed());
        all_closed &= closed;
        // segments
        let segs: Vec<Segment<C>> = ls.segments_iter().collect();
        let want: Vec<Segment<C>> = (1..n).map(|i| Segment::new(ps[i - 1], ps[i])).collect();
        ensure!(segs == want, "{}: segments {:?}", what, segs);
        for (k, w) in want.iter().enumerate() {
            ensure!(ls.get_segment(k) == *w, "{}: get_segment({}) = {:?}", what, k, ls.get_segment(k));
        }
        // the index over its segments
        let tree = ls.build_rtree();
        let meets = |q: Envelope<C>, s: &Segment<C>| {
            let (Some(a), Some(b)) = (q.min(), q.max()) else { return false };
            let f = |u: C, v: C| if u < v { (u, v) } else { (v, u) };
            let ((x0, x1), (y0, y1)) = (f(s.start.x, s.end.x), f(s.start.y, s.end.y));
            a.x <= x1 && x0 <= b.x && a.y <= y1 && y0 <= b.y
        };
        let q1 = Envelope::new(pos(c.q.0), pos(c.q.1));
        let whole = ls.envelope();
        let mut queries = vec![q1, whole];
        if n > 1 {
            queries.push(Envelope::new(ps[n / 2], ps[n / 2]));
            queries.push(Envelope::new(ps[0], ps[1]));
        }
        for q in queries {
            let mut got = tree.find_intersection_candidates(q);
            got.sort();
            let want: Vec<usize> = (0..want.len()).filter(|i| meets(q, &want[*i])).collect();
            ensure!(got == want, "{}: segment index answers {:?} with {:?}, want {:?}", what, q, got, want);
        }
        // length
        let len: f64 = ps.windows(2).map(|w| (w[1].x.up() - w[0].x.up()).hypot(w[1].y.up() - w[0].y.up())).sum();
        ensure!(close(ls.length().up(), len), "{}: length {:?}, want {}", what, ls.length(), len);
        total += len;
    }
    let m: MultiLineString<C> = fmls(&c.m);
    ensure!(close(m.length().up(), total), "{:?}: length {:?}, want {}", m, m.length(), total);
    ensure!(m.is_closed() == all_closed, "{:?}: is_closed {}", m, m.is_closed());
    let stored = m.line_strings.len() == c.m.len()
        && m.line_strings.iter().zip(&c.m).all(|(l, w)| same_line(&l.positions, w));
    ensure!(stored, "{:?} stores {:?}", c.m, m);
    Ok(Obs::new(longest >= 3)
        .tag_if(all_closed, "all members closed")
        .tag_if(longest > 17, "more than 16 segments")
        .tag_if(c.m.iter().any(|l| l.is_empty()), "empty member"))
}

/// Positions of any bits.
fn gen_c21_bits(t: &mut Tape) -> LinesQ {
    let is32 = t.chance(1, 3);
    let n = match t.below(3) {
        0 => t.below(4),
        1 => t.below(8),
        _ => t.below(40),
    };
    let some = t.below(3);
    // few values, so that neighbours agree
    let pool = [f64::NAN, wild(t, is32), wild(t, is32)];
    let mut l: Vec<FP> = (0..n)
        .map(|_| {
            let mut v = || match some {
                0 => wild(t, is32),
                1 => *t.pick(&pool),
                _ if t.chance(3, 4) => t.range(-3, 3) as f64,
                _ => wild(t, is32),
            };
            fp(v(), v())
        })
        .collect();
    if n > 1 && t.chance(1, 3) {
        l[n - 1] = l[0];
    }
    if n > 1 && t.chance(1, 3) {
        let i = t.below(n - 1);
        l[i + 1] = l[i];
    }
    LinesQ { f32: is32, m: vec![l], q: (fp(0.0, 0.0), fp(0.0, 0.0)) }
}
fn t_c21_bits(c: &LinesQ) -> R {
    by_type!(c.f32, c21_bits(c))
}
fn c21_bits<C: Flt>(c: &LinesQ) -> R {
    let l = &c.m[0];
    let n = l.len();
    let ps: Vec<Position<C>> = l.iter().map(|p| pos(*p)).collect();
    let ls = LineString::new(ps.clone());
    for (how, other) in [
        ("positions", LineString::from(ps.clone())),
        ("pairs", LineString::from(ps.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>())),
        ("iterator", LineString::collect_from(ps.iter().copied())),
        ("new", ls.clone()),
    ] {
        ensure!(same_line(&other.positions, l), "{:?} from {}: stores {:?}", ps, how, other.positions);
    }
    ensure!(ls.num_points() == n && ls.is_empty() == (n == 0), "{:?}: num_points {}", ls, ls.num_points());
    for i in 0..n + 2 {
        match ls.get_point(i) {
            Some(p) => ensure!(i < n && same_pos(p.0, ps[i]), "{:?}: get_point({}) = {:?}", ls, i, p),
            None => ensure!(i >= n, "{:?}: get_point({}) = None", ls, i),
        }
    }
    let end = |p: Option<Point<C>>, w: Option<&Position<C>>| match (p, w) {
        (Some(p), Some(w)) => same_pos(p.0, *w),
        (None, None) => true,
        _ => false,
    };
    ensure!(end(ls.start_point(), ps.first()), "{:?}: start {:?}", ls, ls.start_point());
    ensure!(end(ls.end_point(), ps.last()), "{:?}: end {:?}", ls, ls.end_point());
    let closed = n >= 4 && ps[0].x == ps[n - 1].x && ps[0].y == ps[n - 1].y;
    ensure!(ls.is_closed() == closed, "{:?}: is_closed {}", ls, ls.is_closed());
    let segs: Vec<Segment<C>> = ls.segments_iter().collect();
    ensure!(segs.len() == n.saturating_sub(1), "{:?}: {} segments", ls, segs.len());
    for (k, s) in segs.iter().enumerate() {
        for s in [*s, ls.get_segment(k)] {
            ensure!(same_pos(s.start, ps[k]) && same_pos(s.end, ps[k + 1]), "{:?}: segment {} is {:?}", ls, k, s);
        }
    }
    let all_finite = l.iter().all(finite_pt::<C>);
    if n > 1 && !all_finite {
        let len = ls.length();
        ensure!(!len.is_finite(), "{:?}: length {:?}", ls, len);
    }
    Ok(Obs::new(n >= 2).tag_if(!all_finite, "not finite").tag_if(closed, "closed"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "Random point lists of 0-60 (sub large: 60-5000) points, many repetitions, zeros of both signs, NaN/infinite/extreme values, reordered and repeated; against a sorted distinct list of the finite points. Non-trivial: at least two points.",
            assumptions: &["zeros of either sign count as the same coordinate, as they compare equal"],
            subs: vec![super::vast::sub("C15"), random("points", 300_000, 10_000_000, || tape(300, gen_c15), t_c15),
                random("large", 6_000, 200_000, || tape(12_000, gen_c15_large), t_c15)],
        },
        Prop {
            id: "C18",
            rule: "Multilines of 0-40 members over a few shared end nodes (closed, open, one-position, empty members, zeros of both signs, infinities) against counting ends; polygons and multipolygons (valid, invalid, arbitrary rings, empty members) against their rings; boundaries of boundaries; subs large: up to 1500 members with ends met hundreds of times, areas of hundreds of rings or thousands of vertices. Non-trivial: two open members, resp. two rings.",
            assumptions: &["end points are not NaN", "an area without exterior has no holes"],
            subs: vec![super::vast::sub("C18"), 
                random("lines", 300_000, 10_000_000, || tape(300, gen_c18_lines), t_c18_lines),
                random("areas", 60_000, 2_000_000, || tape(1200, gen_c18_areas), t_c18_areas),
                random("large", 6_000, 200_000, || tape(6_000, gen_c18_large), t_c18_lines),
                random("large_areas", 4_000, 120_000, || tape(5_000, gen_c18_large_areas), t_c18_areas),
            ],
        },
        Prop {
            id: "C19",
            rule: "Random geometries of every type, arbitrary and well-formed, finite and not: every accessor of the wrapped and the concrete value compared, every conversion back tried; sub large: thousands of positions, hundreds of members. Non-trivial: the geometry has positions.",
            assumptions: &["polygons with holes but no exterior positions are left out (neither empty nor not)"],
            subs: vec![super::vast::sub("C19"), random("wrap", 100_000, 4_000_000, || tape(800, gen_any), t_c19),
                random("large", 6_000, 200_000, || tape(7_000, gen_any_large), t_c19)],
        },
        Prop {
            id: "C20",
            rule: "Random geometries of every type, arbitrary (NaN, infinities, extremes) and well-formed, and the segments, positions and sequences inside them: envelope against minimum and maximum of the non-NaN coordinates per axis; sub large: thousands of positions, the extreme one anywhere. Non-trivial: at least two bounding positions.",
            assumptions: &["an axis on which every coordinate is NaN is not judged"],
            subs: vec![super::vast::sub("C20"), random("envelopes", 100_000, 4_000_000, || tape(800, gen_any), t_c20),
                random("large", 6_000, 200_000, || tape(7_000, gen_any_large), t_c20)],
        },
        Prop {
            id: "C21",
            rule: "Random lines of 0-75 positions (grids, arbitrary coordinates, long runs; closed and open; up to four together; sub large: to 4000 positions or hundreds of members) built in five ways: accessors, segments by iteration, index and the segment index, lengths, closedness against the plain position list. Non-trivial: a line of at least three positions.",
            assumptions: &["lengths within 1e-12 (f64) or 1e-4 (f32) relative"],
            subs: vec![super::vast::sub("C21"), random("lines", 100_000, 4_000_000, || tape(600, gen_c21), t_c21),
                random("large", 6_000, 200_000, || tape(9_000, gen_c21_large), t_c21),
                random("bits", 100_000, 4_000_000, || tape(200, gen_c21_bits), t_c21_bits)],
        },
    ]
}
