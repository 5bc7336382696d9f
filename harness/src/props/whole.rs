//! C26 (validity part by part), C27 (representative points), C28 (index then exact
//! test), C29 (work), C30 (answers depend on the coordinates' values only).
use super::valid::{alike, parts, stretch, Shape, Wild};
use crate::count::{cost, costs, cpu, Cost, K};
use crate::engine::*;
use crate::exact::{self, Inter, Rings, P};
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::flatbush::{Flatbush, FlatbushNode, FLATBUSH_DEFAULT_DEGREE};
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment, SegmentIntersection, Triangle};
use magog::planar::types::{Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use magog::serde::wkt::parse_wkt;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts {
    w: Wild,
    /// Where to cut lines and put empty members.
    cuts: Vec<u32>,
}

fn float_all(e: &Emb, m: &[Rings]) -> Vec<Vec<Vec<FP>>> {
    let p = |q: &P| -> FP {
        if e.is32() {
            let v: Position<f32> = e.p(*q);
            fp(v.x as f64, v.y as f64)
        } else {
            let v: Position<f64> = e.p(*q);
            fp(v.x, v.y)
        }
    };
    m.iter().map(|x| x.iter().map(|r| r.iter().map(p).collect()).collect()).collect()
}

/// Shapes of every kind on lattices, rotated and jittered, warped or stretched:
/// near-contacts and rounding are welcome here.
fn gen_parts(t: &mut Tape, large: bool) -> Parts {
    let mut m: Vec<Rings> = match (large, t.below(5)) {
        (false, 4) => match parts(t) {
            Shape::Line(l) => vec![vec![l]],
            Shape::Lines(m) | Shape::Poly(m) => vec![m],
            Shape::MPoly(m) => m,
        },
        (false, 0) => vec![vec![any_line(t)]],
        (false, 1) => vec![any_multiline(t)],
        (false, 2) => vec![any_polygon(t)],
        (false, _) => any_multipolygon(t),
        (true, 0 | 4) => vec![vec![large_line(t)]],
        (true, 1) => vec![large_multiline(t)],
        (true, 2) => vec![large_polygon(t)],
        (true, _) => large_multipolygon(t),
    };
    let is32 = t.chance(1, 3);
    let w = match t.below(5) {
        0 => stretch(t, is32, m),
        k => {
            let mut all: Vec<&mut Vec<P>> = m.iter_mut().flatten().collect();
            let e = if k == 1 {
                // any shape, not only axis-parallel ones
                Emb::warp(t, &mut all)
            } else {
                Emb::gen(t, &mut all)
            };
            Wild { f32: e.is32(), m: float_all(&e, &m), finite: true }
        }
    };
    Parts { w, cuts: (0..8).map(|_| t.word()).collect() }
}
fn gen_c26(t: &mut Tape) -> Parts {
    gen_parts(t, false)
}
fn gen_c26_large(t: &mut Tape) -> Parts {
    gen_parts(t, true)
}

/// Pairs to look at: all of few; of many, those that lie close in the list and
/// those whose boxes meet.
fn pairs<C: Flt>(envs: &[Envelope<C>]) -> Vec<(usize, usize)> {
    let n = envs.len();
    let mut v = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            let meets = match (envs[i], envs[j]) {
                (Envelope::Bounds { min: a, max: b }, Envelope::Bounds { min: c, max: d }) => {
                    a.x <= d.x && c.x <= b.x && a.y <= d.y && c.y <= b.y
                }
                _ => false,
            };
            if n <= 16 || meets || j == i + 1 {
                v.push((i, j));
            }
        }
    }
    v
}

fn t_c26(c: &Parts) -> R {
    by_type!(c.w.f32, c26(c))
}
fn c26<C: Flt>(c: &Parts) -> R {
    let line = |r: &Vec<FP>| fline::<C>(r);
    let mls = |v: &[&Vec<FP>]| MultiLineString::new(v.iter().map(|r| line(r)).collect()).validate().is_ok();
    let poly = |e: &[FP], hs: &[&Vec<FP>]| Polygon::new(fline::<C>(e), hs.iter().map(|r| line(r)).collect());
    let part = |r: &Rings2| match r.split_first() {
        None => poly(&[], &[]),
        Some((e, hs)) => poly(e, &hs.iter().collect::<Vec<_>>()),
    };
    let (mut members, mut conflicts, mut together) = (0, 0, false);
    let mut decide = |what: &str, whole: bool, each: &[bool], pair: &mut dyn FnMut(usize, usize) -> bool, ps: &[(usize, usize)]| -> Result<(), String> {
        let bad = each.iter().position(|v| !v);
        let clash = if bad.is_none() { ps.iter().find(|(i, j)| !pair(*i, *j)).copied() } else { None };
        members = members.max(each.len());
        conflicts += usize::from(clash.is_some());
        together |= whole && each.len() > 1;
        ensure!(
            whole == (bad.is_none() && clash.is_none()),
            "{} of {}: valid = {}, but the first invalid member is {:?} and the first two invalid together are {:?}",
            what, each.len(), whole, bad, clash
        );
        Ok(())
    };
    for p in &c.w.m {
        let refs: Vec<&Vec<FP>> = p.iter().collect();
        // Lines: parts of a valid line are valid.
        for r in p {
            let l = line(r);
            if l.validate().is_ok() && r.len() > 2 {
                for k in c.cuts.chunks(2) {
                    let a = k[0] as usize % (r.len() - 1);
                    let b = a + 2 + k[1] as usize % (r.len() - 1 - a);
                    if b - a < r.len() {
                        let sub = fline::<C>(&r[a..b]);
                        ensure!(sub.validate().is_ok(), "a valid line, but its part {}..{} is not: {:?}", a, b, sub);
                    }
                }
            }
            // Points.
            let pts = |v: &[FP]| MultiPoint::new(v.iter().map(|q| Point::new(pos::<C>(*q))).collect());
            let r = &r[..r.len().min(40)];
            let each: Vec<bool> = r.iter().map(|q| pts(&[*q]).validate().is_ok()).collect();
            let all: Vec<(usize, usize)> = (0..r.len()).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
            decide("MultiPoint", pts(r).validate().is_ok(), &each, &mut |i, j| pts(&[r[i], r[j]]).validate().is_ok(), &all)?;
        }
        // Lines together.
        let envs: Vec<Envelope<C>> = p.iter().map(|r| line(r).envelope()).collect();
        let ps = pairs(&envs);
        let each: Vec<bool> = p.iter().map(|r| mls(&[r])).collect();
        let whole = mls(&refs);
        decide("MultiLineString", whole, &each, &mut |i, j| mls(&[&p[i], &p[j]]), &ps)?;
        let none: Vec<FP> = vec![];
        let mut more = refs.clone();
        more.insert(c.cuts[0] as usize % (more.len() + 1), &none);
        ensure!(mls(&more) == whole, "an empty line added to {:?} changes the answer {}", p, whole);
        // A polygon: its exterior, each hole in it, each two holes in it.
        if let Some((e, hs)) = p.split_first() {
            let h: Vec<&Vec<FP>> = hs.iter().collect();
            let whole = poly(e, &h).validate().is_ok();
            let each: Vec<bool> = if h.is_empty() {
                vec![poly(e, &[]).validate().is_ok()]
            } else {
                h.iter().map(|r| poly(e, &[r]).validate().is_ok()).collect()
            };
            if !h.is_empty() && each.iter().any(|v| *v) {
                ensure!(poly(e, &[]).validate().is_ok(), "valid with a hole, but not without: {:?}", e);
            }
            let ps: Vec<_> = ps.iter().filter(|q| q.0 > 0).map(|q| (q.0 - 1, q.1 - 1)).collect();
            decide("Polygon holes", whole, &each, &mut |i, j| poly(e, &[h[i], h[j]]).validate().is_ok(), &ps)?;
        }
    }
    let ms = &c.w.m;
    let mp = |v: &[&Rings2]| MultiPolygon::new(v.iter().map(|r| part(r)).collect::<Vec<_>>()).validate().is_ok();
    let refs: Vec<&Rings2> = ms.iter().collect();
    let whole = mp(&refs);
    let each: Vec<bool> = ms.iter().map(|r| mp(&[r])).collect();
    for (i, v) in each.iter().enumerate() {
        ensure!(part(&ms[i]).validate().is_ok() == *v, "polygon {} alone and as the only member differ", i);
    }
    let envs: Vec<Envelope<C>> = ms.iter().map(|r| part(r).envelope()).collect();
    decide("MultiPolygon", whole, &each, &mut |i, j| mp(&[&ms[i], &ms[j]]), &pairs(&envs))?;
    let none: Rings2 = vec![];
    let mut more = refs.clone();
    more.insert(c.cuts[1] as usize % (more.len() + 1), &none);
    ensure!(mp(&more) == whole, "an empty polygon added changes the answer {}", whole);
    Ok(Obs::new(members > 1 && (together || conflicts > 0))
        .tag_if(conflicts > 0, "two members conflict")
        .tag_if(together, "members valid together")
        .tag_if(members > 8, "many members")
        .tag_if(!c.w.finite, "non-finite"))
}
type Rings2 = Vec<Vec<FP>>;

// ------------------------------------------------------------ C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SurfC {
    emb: Emb,
    ps: Vec<Rings>,
}

fn gen_c27(t: &mut Tape) -> SurfC {
    let mut ps = match t.below(5) {
        0 => any_multipolygon(t),
        1 => recti_multipolygon(t),
        2 => (0..t.below(3)).map(|_| vec![ring(t)]).collect(),
        _ => vec![any_polygon(t)],
    };
    for _ in 0..t.below(3) {
        let i = t.below(ps.len() + 1);
        ps.insert(i, if t.chance(1, 2) { vec![] } else { vec![vec![]] });
    }
    let emb = Emb::gen(t, &mut ps.iter_mut().flatten().collect::<Vec<_>>());
    SurfC { emb, ps }
}

/// Is a point given in lattice units in the closed area of the rings?
fn on_area(rings: &Rings, x: f64, y: f64) -> bool {
    let far = rings.iter().flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0);
    // nowhere near
    if !(x.abs().max(y.abs()) <= far as f64 + 1.0) {
        return false;
    }
    // in fine steps, with room for exact products
    let s = [1024, 64, 4].into_iter().find(|s| (far + 2) * s < 1 << 29).unwrap_or(1);
    let q = ((x * s as f64).round() as i64, (y * s as f64).round() as i64);
    let exact = q.0 as f64 == x * s as f64 && q.1 as f64 == y * s as f64;
    let up: Rings = rings.iter().map(|r| scale(r, s)).collect();
    let at = |q: P| {
        exact::locate(&up[0], q) >= 0 && up[1..].iter().all(|h| exact::locate(h, q) <= 0)
    };
    // Between the steps accept what is next to a point of the area.
    at(q) || (!exact && (-3..=3).any(|i| (-3..=3).any(|j| at((q.0 + i, q.1 + j)))))
}

fn t_c27(c: &SurfC) -> R {
    by_type!(c.emb.is32(), c27(c))
}
fn c27<C: Flt>(c: &SurfC) -> R {
    let empty = |r: &Rings| r.first().map_or(true, |e| e.is_empty());
    let back = |p: &Point<C>, l: &Lat| {
        let s = (2f64).powi(l.k);
        (p.x().up() / s - l.ox as f64, p.y().up() / s - l.oy as f64)
    };
    let mut judged = false;
    for r in &c.ps {
        let g = c.emb.poly::<C>(r);
        let got = g.point_on_surface();
        ensure!(got.is_some() != empty(r), "{:?}: {:?}", g, got);
        let (Some(p), Emb::Lat(l)) = (got, &c.emb) else { continue };
        if exact::polygon_valid(r) {
            let q = back(&p, l);
            ensure!(on_area(r, q.0, q.1), "{:?} is not on {:?}", p, g);
            judged = true;
        }
    }
    let g = c.emb.mpoly::<C>(&c.ps);
    let got = g.point_on_surface();
    ensure!(got.is_some() != c.ps.iter().all(empty), "{:?}: {:?}", g, got);
    let skipped = c.ps.first().map_or(false, empty) && got.is_some();
    if let (Some(p), Emb::Lat(l)) = (got, &c.emb) {
        let live: Vec<Rings> = c.ps.iter().filter(|r| !empty(r)).cloned().collect();
        if exact::multipolygon_valid(&live) {
            let q = back(&p, l);
            ensure!(live.iter().any(|r| on_area(r, q.0, q.1)), "{:?} is not on {:?}", p, g);
            judged = true;
        }
    }
    Ok(Obs::new(judged)
        .tag_if(skipped, "empty member first")
        .tag_if(c.ps.iter().any(|r| r.len() > 1), "holes")
        .tag_if(c.ps.iter().all(empty), "no position"))
}

// ------------------------------------------------------------ C28

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ob {
    Pos(P),
    Pt(P),
    Seg(P, P),
    Line(Vec<P>),
    Pts(Vec<P>),
    Lines(Vec<Vec<P>>),
    /// One ring, filled.
    Area(Vec<P>),
    Areas(Vec<Vec<P>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SceneC {
    lat: Lat,
    a: Vec<Ob>,
    b: Vec<Ob>,
    degree: (usize, usize),
    sorted: (bool, bool),
    /// Probes: where, how far (in lattice units).
    near: Vec<(P, i64)>,
}

impl Ob {
    fn lines(&self) -> Vec<&[P]> {
        match self {
            Ob::Pos(p) | Ob::Pt(p) => vec![std::slice::from_ref(p)],
            Ob::Seg(..) => vec![],
            Ob::Line(l) | Ob::Area(l) => vec![l],
            Ob::Pts(l) => l.iter().map(std::slice::from_ref).collect(),
            Ob::Lines(m) | Ob::Areas(m) => m.iter().map(|l| &l[..]).collect(),
        }
    }
    /// As segments, points being segments without length.
    fn segs(&self) -> Vec<(P, P)> {
        if let Ob::Seg(a, b) = self {
            return vec![(*a, *b)];
        }
        self.lines()
            .into_iter()
            .flat_map(|l| if l.len() == 1 { vec![(l[0], l[0])] } else { exact::segs(l) })
            .collect()
    }
    fn rings(&self) -> Vec<&Vec<P>> {
        match self {
            Ob::Area(r) => vec![r],
            Ob::Areas(m) => m.iter().collect(),
            _ => vec![],
        }
    }
    fn points_mut(&mut self) -> Vec<&mut P> {
        match self {
            Ob::Pos(p) | Ob::Pt(p) => vec![p],
            Ob::Seg(a, b) => vec![a, b],
            Ob::Line(l) | Ob::Area(l) | Ob::Pts(l) => l.iter_mut().collect(),
            Ob::Lines(m) | Ob::Areas(m) => m.iter_mut().flatten().collect(),
        }
    }
}

enum Thing<C: Flt> {
    Pos(Position<C>),
    Pt(Point<C>),
    Seg(Segment<C>),
    Line(LineString<C>),
    Pts(MultiPoint<C>),
    Lines(MultiLineString<C>),
    Area(Polygon<C>),
    Areas(MultiPolygon<C>),
}
impl<C: Flt> HasEnvelope<C> for Thing<C> {
    fn envelope(&self) -> Envelope<C> {
        match self {
            Thing::Pos(x) => x.envelope(),
            Thing::Pt(x) => x.envelope(),
            Thing::Seg(x) => x.envelope(),
            Thing::Line(x) => x.envelope(),
            Thing::Pts(x) => x.envelope(),
            Thing::Lines(x) => x.envelope(),
            Thing::Area(x) => x.envelope(),
            Thing::Areas(x) => x.envelope(),
        }
    }
}
impl Ob {
    fn thing<C: Flt>(&self, l: &Lat) -> Thing<C> {
        match self {
            Ob::Pos(p) => Thing::Pos(l.p(*p)),
            Ob::Pt(p) => Thing::Pt(Point::new(l.p(*p))),
            Ob::Seg(a, b) => Thing::Seg(Segment::new(l.p(*a), l.p(*b))),
            Ob::Line(v) => Thing::Line(l.line(v)),
            Ob::Pts(v) => Thing::Pts(MultiPoint::new(v.iter().map(|p| Point::new(l.p(*p))).collect())),
            Ob::Lines(m) => Thing::Lines(l.mls(m)),
            Ob::Area(r) => Thing::Area(Polygon::new(l.line(r), vec![])),
            Ob::Areas(m) => {
                Thing::Areas(MultiPolygon::new(m.iter().map(|r| Polygon::new(l.line(r), vec![])).collect()))
            }
        }
    }
}

fn gen_scene(t: &mut Tape, large: bool) -> SceneC {
    let mut base: Vec<Vec<P>> = match (large, t.below(4)) {
        (true, 0) => large_multiline(t),
        (true, 1) => large_multipolygon(t).into_iter().flatten().collect(),
        (true, 2) => vec![large_line(t), large_line(t)],
        (true, _) => {
            let w = *t.pick(&[20, 60, 200]);
            (0..40 + t.below(400))
                .map(|_| {
                    let p = grid_point(t, w);
                    (0..1 + t.below(4)).map(|_| (p.0 + t.range(-3, 3), p.1 + t.range(-3, 3))).collect()
                })
                .collect()
        }
        (false, 0) => network(t),
        (false, 1) => any_multiline(t),
        (false, 2) => any_multipolygon(t).into_iter().flatten().collect(),
        (false, _) => (0..1 + t.below(12)).map(|_| (0..1 + t.below(4)).map(|_| grid_point(t, 12)).collect()).collect(),
    };
    base.retain(|l| !l.is_empty());
    if base.is_empty() {
        base.push(vec![(0, 0)]);
    }
    let side = |t: &mut Tape| -> Vec<Ob> {
        let mut v = Vec::new();
        let keep = 1 + t.below(4) as u32;
        for l in &base {
            if !t.chance(keep, 4) {
                continue;
            }
            let closed = exact::closed(l);
            v.push(match t.below(9) {
                0 => Ob::Pos(*t.pick(l)),
                1 => Ob::Pt(point_on(t, l)),
                2 => {
                    let i = t.below(l.len());
                    Ob::Seg(l[i], l[(i + 1) % l.len()])
                }
                3 => {
                    let (a, b) = (point_on(t, l), point_on(t, l));
                    Ob::Seg(a, b)
                }
                4 => Ob::Pts((0..1 + t.below(4)).map(|_| point_on(t, l)).collect()),
                5 => {
                    let m = t.pick(&base).clone();
                    Ob::Lines(vec![l.clone(), m])
                }
                6 if closed => {
                    let m = t.pick(&base).clone();
                    Ob::Areas(if exact::closed(&m) { vec![l.clone(), m] } else { vec![l.clone()] })
                }
                7 if closed => Ob::Area(l.clone()),
                _ => {
                    // positions may repeat
                    let mut l = l.clone();
                    for _ in 0..t.below(3) {
                        let i = t.below(l.len());
                        l.insert(i, l[i]);
                    }
                    Ob::Line(l)
                }
            });
        }
        v
    };
    let mut a = side(t);
    let mut b = side(t);
    // one frame for both
    let pts: Vec<P> = a.iter_mut().chain(b.iter_mut()).flat_map(|o| o.points_mut()).map(|p| *p).collect();
    let (x0, y0) = (pts.iter().map(|p| p.0).min().unwrap_or(0), pts.iter().map(|p| p.1).min().unwrap_or(0));
    let mut w = 0;
    for p in a.iter_mut().chain(b.iter_mut()).flat_map(|o| o.points_mut()) {
        *p = (p.0 - x0, p.1 - y0);
        w = w.max(p.0).max(p.1);
    }
    let lat = Lat::gen(t, w);
    let near = (0..t.below(4))
        .map(|_| {
            let p = if t.chance(1, 2) || pts.is_empty() {
                (t.range(0, w), t.range(0, w))
            } else {
                let q = *t.pick(&pts);
                ((q.0 - x0 + t.range(-5, 5)).clamp(0, w), (q.1 - y0 + t.range(-5, 5)).clamp(0, w))
            };
            // Pythagorean distances are met exactly
            (p, (*t.pick(&[0, 1, 5, 5, 10, 13])).min(w))
        })
        .collect();
    let degree = (*t.pick(&[2, 4, 8, 16]), *t.pick(&[2, 4, 8, 16]));
    let sorted = (t.chance(1, 2), t.chance(1, 2));
    SceneC { lat, a, b, degree, sorted, near }
}
fn gen_c28(t: &mut Tape) -> SceneC {
    gen_scene(t, false)
}
fn gen_c28_large(t: &mut Tape) -> SceneC {
    gen_scene(t, true)
}

struct Flat {
    segs: Vec<(P, P)>,
    rings: Vec<Vec<P>>,
    lo: P,
    hi: P,
}
fn flat(o: &Ob) -> Flat {
    let segs = o.segs();
    let p: Vec<P> = segs.iter().flat_map(|s| [s.0, s.1]).collect();
    Flat {
        lo: (p.iter().map(|p| p.0).min().unwrap(), p.iter().map(|p| p.1).min().unwrap()),
        hi: (p.iter().map(|p| p.0).max().unwrap(), p.iter().map(|p| p.1).max().unwrap()),
        rings: o.rings().into_iter().cloned().collect(),
        segs,
    }
}
fn apart(a: &Flat, b: &Flat) -> bool {
    a.hi.0 < b.lo.0 || b.hi.0 < a.lo.0 || a.hi.1 < b.lo.1 || b.hi.1 < a.lo.1
}
fn curves_meet(a: &Flat, b: &Flat) -> bool {
    !apart(a, b)
        && a.segs.iter().any(|s| b.segs.iter().any(|r| exact::near(*s, *r) && exact::inter(*s, *r) != Inter::None))
}
/// Do the two point sets (areas filled) share a point?
fn contact(a: &Flat, b: &Flat) -> bool {
    if apart(a, b) {
        return false;
    }
    let covers = |x: &Flat, y: &Flat| x.rings.iter().any(|r| y.segs.iter().any(|s| exact::locate(r, s.0) >= 0));
    curves_meet(a, b) || covers(a, b) || covers(b, a)
}
/// Is the squared distance of p to the segment at most d squared?
fn within(s: (P, P), p: P, d: i64) -> bool {
    let (vx, vy) = ((s.1 .0 - s.0 .0) as i128, (s.1 .1 - s.0 .1) as i128);
    let (wx, wy) = ((p.0 - s.0 .0) as i128, (p.1 - s.0 .1) as i128);
    let (dd, l2, dot) = ((d * d) as i128, vx * vx + vy * vy, wx * vx + wy * vy);
    if dot <= 0 {
        wx * wx + wy * wy <= dd
    } else if dot >= l2 {
        let (ux, uy) = ((p.0 - s.1 .0) as i128, (p.1 - s.1 .1) as i128);
        ux * ux + uy * uy <= dd
    } else {
        let cr = vx * wy - vy * wx;
        cr * cr <= dd * l2
    }
}

/// The curves of a thing as magog line strings (points have none).
fn curves<C: Flt>(o: &Ob, l: &Lat) -> Vec<LineString<C>> {
    match o {
        Ob::Seg(a, b) => vec![l.line(&[*a, *b])],
        _ => o.lines().iter().filter(|v| v.len() > 1).map(|v| l.line(v)).collect(),
    }
}

fn t_c28(c: &SceneC) -> R {
    by_type!(c.lat.f32, c28(c))
}
fn c28<C: Flt>(c: &SceneC) -> R {
    let things = |v: &[Ob]| v.iter().map(|o| o.thing::<C>(&c.lat)).collect::<Vec<_>>();
    let index = |v: &[Thing<C>], d: usize, s: bool| if s { Flatbush::new(v, d) } else { Flatbush::new_unsorted(v, d) };
    let (ta, tb) = (things(&c.a), things(&c.b));
    let (fa, fb) = (index(&ta, c.degree.0, c.sorted.0), index(&tb, c.degree.1, c.sorted.1));
    let (xa, xb): (Vec<Flat>, Vec<Flat>) = (c.a.iter().map(flat).collect(), c.b.iter().map(flat).collect());
    // What the exact test says of a pair of curves, using the library alone.
    let by_library = |i: &Ob, j: &Ob| -> bool {
        let (u, v) = (curves::<C>(i, &c.lat), curves::<C>(j, &c.lat));
        u.iter().any(|p| {
            let rp = p.build_rtree();
            v.iter().any(|q| {
                rp.find_other_rtree_intersection_candidates(&q.build_rtree()).into_iter().any(|(s, r)| {
                    p.get_segment(s).intersect_segment(q.get_segment(r)) != SegmentIntersection::None
                })
            })
        })
    };
    let mut hits = 0;
    let mut judge = |what: &str, n: usize, m: usize, cand: Vec<(usize, usize)>, xs: (&[Flat], &[Flat]), os: (&[Ob], &[Ob])| -> Result<(), String> {
        let mut grid = vec![false; n * m];
        let mut exact_by_lib = 0;
        for (i, j) in cand {
            ensure!(i < n && j < m, "{}: ({}, {}) of {} and {}", what, i, j, n, m);
            grid[i * m + j] = true;
            let (oi, oj) = (&os.0[i], &os.1[j]);
            let curved = |o: &Ob| matches!(o, Ob::Seg(..)) || (!o.segs().is_empty() && o.lines().iter().all(|l| l.len() > 1));
            if exact_by_lib < 60 && curved(oi) && curved(oj) {
                exact_by_lib += 1;
                let (want, got) = (curves_meet(&xs.0[i], &xs.1[j]), by_library(oi, oj));
                ensure!(got == want, "{}: {:?} and {:?} meet = {}, found {}", what, oi, oj, want, got);
            }
        }
        for i in 0..n {
            for j in 0..m {
                if what == "self-join" && i >= j {
                    continue;
                }
                if contact(&xs.0[i], &xs.1[j]) {
                    hits += 1;
                    ensure!(grid[i * m + j], "{} misses {:?} and {:?}, which share a point", what, os.0[i], os.1[j]);
                }
            }
        }
        Ok(())
    };
    let (n, m) = (c.a.len(), c.b.len());
    judge("self-join", n, n, fa.find_self_intersection_candidates(), (&xa, &xa), (&c.a, &c.a))?;
    judge("cross-join", n, m, fa.find_other_rtree_intersection_candidates(&fb), (&xa, &xb), (&c.a, &c.b))?;
    let q = (0..m).flat_map(|j| {
        fa.find_intersection_candidates(tb[j].envelope()).into_iter().map(move |i| (i, j))
    });
    judge("query", n, m, q.collect(), (&xa, &xb), (&c.a, &c.b))?;
    for (p, d) in &c.near {
        let got = fa.find_candidates_within(c.lat.p(*p), c.lat.len(*d));
        for i in 0..n {
            let close = xa[i].segs.iter().any(|s| within(*s, *p, *d))
                || xa[i].rings.iter().any(|r| exact::locate(r, *p) >= 0);
            hits += usize::from(close);
            ensure!(!close || got.contains(&i), "{:?} is within {} of {:?} but not found", c.a[i], d, p);
        }
    }
    Ok(Obs::new(hits > 0)
        .tag_if(n > 50 || m > 50, "many things")
        .tag_if(c.lat.f32, "f32")
        .tag_if(!c.near.is_empty(), "proximity"))
}

// ------------------------------------------------------------ C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Work {
    seed: u32,
    layout: u8,
    n: (usize, usize),
    degree: (usize, usize),
    sorted: (bool, bool),
    /// Queries: corner and sides as fractions of the whole.
    q: Vec<(F, F, F, F)>,
}

fn gen_c29(t: &mut Tape) -> Work {
    let n = |t: &mut Tape| match t.below(3) {
        0 => t.below(60),
        1 => 60 + t.below(500),
        _ => 560 + t.below(3000),
    };
    let n = (n(t), n(t));
    let degree = (*t.pick(&[2, 4, 8, 16, 32]), *t.pick(&[2, 4, 8, 16, 32]));
    let sorted = (t.chance(2, 3), t.chance(2, 3));
    let q = (0..1 + t.below(4))
        .map(|_| {
            let s = *t.pick(&[0.0, 0.001, 0.02, 0.2]);
            (F::of(t.unit()), F::of(t.unit()), F::of(s * t.unit()), F::of(s * t.unit()))
        })
        .collect();
    Work { seed: t.word(), layout: t.below(5) as u8, n, degree, sorted, q }
}

fn hash(a: u64, b: u64) -> f64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b.wrapping_mul(0xC2B2AE3D27D4EB4F));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64
}

/// Boxes in the unit square, roughly.
fn work_boxes(c: &Work, n: usize, salt: u64) -> Vec<Envelope<K>> {
    let side = (n as f64).sqrt().ceil().max(1.0);
    let h = |i: usize, k: u64| hash(c.seed as u64 ^ (salt << 40), (i as u64) << 3 | k);
    let bx = |x: f64, y: f64, w: f64, v: f64| {
        Envelope::new(Position::new(K(x), K(y)), Position::new(K(x + w), K(y + v)))
    };
    (0..n)
        .map(|i| match c.layout {
            // row by row
            0 => {
                let (r, q) = ((i as f64 / side).floor(), i as f64 % side);
                bx(q / side, r / side, 0.7 / side * h(i, 2), 0.7 / side * h(i, 3))
            }
            1 => bx(h(i, 0), h(i, 1), 0.0, 0.0),
            2 => bx(h(i, 0), h(i, 1), 0.01 * h(i, 2), 0.01 * h(i, 3)),
            // clusters
            3 => {
                let k = i % 9;
                bx(h(k, 4) + 0.02 * h(i, 0), h(k, 5) + 0.02 * h(i, 1), 1e-3 * h(i, 2), 1e-3 * h(i, 3))
            }
            // a chain, each touching the next
            _ => bx(i as f64 / n as f64, h(i, 0) * 0.01, 1.0 / n as f64, 0.001),
        })
        .collect()
}

fn meet(a: &Envelope<K>, b: &Envelope<K>) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: a, max: b }, Envelope::Bounds { min: c, max: d }) => {
            a.x.0 <= d.x.0 && c.x.0 <= b.x.0 && a.y.0 <= d.y.0 && c.y.0 <= b.y.0
        }
        _ => false,
    }
}

/// Inner nodes whose box meets the query.
fn reached(f: &Flatbush<K>, q: &Envelope<K>) -> u64 {
    let mut n = 0;
    let mut todo = vec![f.root_node()];
    while let Some(x) = todo.pop() {
        if x.level > 0 && meet(&x.envelope, q) {
            n += 1;
            todo.extend(f.get_children(x));
        }
    }
    n
}
/// Pairs of inner nodes of one level whose boxes meet (each once, with itself too).
fn reached_self(f: &Flatbush<K>) -> u64 {
    let mut n = 0;
    let root = f.root_node();
    let mut todo = vec![(root, root)];
    while let Some((a, b)) = todo.pop() {
        if a.level == 0 || a.tree_index > b.tree_index || !meet(&a.envelope, &b.envelope) {
            continue;
        }
        n += 1;
        let (ca, cb) = (f.get_children(a), f.get_children(b));
        todo.extend(ca.iter().flat_map(|x| cb.iter().map(move |y| (*x, *y))));
    }
    n
}
/// Pairs of nodes whose boxes meet on the way down two trees.
fn reached_cross(f: &Flatbush<K>, g: &Flatbush<K>, first: bool) -> u64 {
    let mut n = 0;
    let mut todo: Vec<(FlatbushNode<K>, FlatbushNode<K>)> = vec![(f.root_node(), g.root_node())];
    while let Some((a, b)) = todo.pop() {
        if (a.level == 0 && b.level == 0) || !meet(&a.envelope, &b.envelope) {
            continue;
        }
        n += 1;
        if a.level > b.level || (a.level == b.level && first) {
            todo.extend(f.get_children(a).into_iter().map(|x| (x, b)));
        } else {
            todo.extend(g.get_children(b).into_iter().map(|y| (a, y)));
        }
    }
    n
}

/// A box test compares four pairs of coordinates; allow four times that.
const TEST: u64 = 16;

/// A node of the tree in memory, and a few times that.
const NODE: u64 = 4 * std::mem::size_of::<FlatbushNode<K>>() as u64;

fn t_c29(c: &Work) -> R {
    let mk = |n: usize, salt: u64, d: usize, s: bool| {
        let v = work_boxes(c, n, salt);
        costs(|| if s { Flatbush::new(&v, d) } else { Flatbush::new_unsorted(&v, d) })
    };
    let (fa, ba) = mk(c.n.0, 1, c.degree.0, c.sorted.0);
    let (fb, _) = mk(c.n.1, 2, c.degree.1, c.sorted.1);
    let (da, db) = (c.degree.0 as u64, c.degree.1 as u64);
    let n = c.n.0 as u64;
    ensure!(ba.ops <= 200 * (n + da) + 1000, "building an index of {} took {:?}", n, ba);
    // items, inner nodes, and padding at every level
    let (la, lb) = (fa.root_node().level as u64 + 1, fb.root_node().level as u64 + 1);
    let size = 2 * n + da * la + 8;
    ensure!(ba.kept <= NODE * size, "an index of {} (degree {}) keeps {} bytes", n, da, ba.kept);
    ensure!(ba.bytes <= 4 * NODE * size, "building an index of {} (degree {}) took {:?}", n, da, ba);
    // `per` coordinates' worth of nodes looked at for each of `nodes`; `found` results
    let judge = |what: &str, w: Cost, per: u64, nodes: u64, found: usize| {
        let ops = TEST * per * (nodes + 1) + 64;
        // listing a node's children once for each of them is wasteful, but no more work
        // for a larger index
        let again = (da.max(db) + 2).pow(2);
        let bytes = NODE * (per * (nodes + 1) + (da + db) * (la + lb))
            + NODE / 4 * again * (nodes + 1)
            + 64 * found as u64
            + 4096;
        ensure!(
            w.ops <= ops && w.bytes <= bytes,
            "{} of {} x {} items (degrees {}, {}) meeting {} inner nodes or pairs and finding {} took {:?}, over {} and {}",
            what, c.n.0, c.n.1, da, db, nodes, found, w, ops, bytes
        );
        Ok(())
    };
    let mut pruned = false;
    let all = reached(&fa, &Envelope::new(Position::new(K(-9.0), K(-9.0)), Position::new(K(9.0), K(9.0))));
    for (x, y, w, h) in &c.q {
        let p = Position::new(K(x.v()), K(y.v()));
        let q = Envelope::new(p, Position::new(K(x.v() + w.v()), K(y.v() + h.v())));
        let nodes = reached(&fa, &q);
        pruned |= (nodes + 1) * 8 < all;
        let (got, work) = costs(|| fa.find_intersection_candidates(q));
        judge("a query", work, da, nodes, got.len())?;
        // as a square around p
        let q = Envelope::new(
            Position::new(K(x.v() - w.v()), K(y.v() - w.v())),
            Position::new(K(x.v() + w.v()), K(y.v() + w.v())),
        );
        let nodes = reached(&fa, &q);
        let (got, work) = costs(|| fa.find_candidates_within(p, K(w.v())));
        judge("a proximity query", work, da, nodes, got.len())?;
    }
    let (got, work) = costs(|| fa.find_self_intersection_candidates());
    judge("a self-join", work, da * da + 2 * da, reached_self(&fa), got.len())?;
    let nodes = reached_cross(&fa, &fb, true).max(reached_cross(&fa, &fb, false));
    let (got, work) = costs(|| fa.find_other_rtree_intersection_candidates(&fb));
    judge("a cross-join", work, da.max(db), nodes, got.len())?;
    Ok(Obs::new(pruned).tag_if(all > 200, "over 200 inner nodes"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WorkLines {
    ls: Vec<Vec<P>>,
}
fn gen_c29_lines(t: &mut Tape) -> WorkLines {
    let ls = match t.below(4) {
        0 => large_multiline(t),
        1 => network(t),
        _ => vec![large_simple(t)],
    };
    WorkLines { ls }
}
fn t_c29_lines(c: &WorkLines) -> R {
    let mk = |l: &Vec<P>| {
        LineString::new(l.iter().map(|p| Position::new(K(p.0 as f64), K(p.1 as f64))).collect::<Vec<_>>())
    };
    let lines: Vec<LineString<K>> = c.ls.iter().map(mk).collect();
    let mut total = 0;
    let mut longest = 0;
    for l in &lines {
        if l.num_points() < 2 {
            continue;
        }
        let (f, build) = cost(|| l.build_rtree());
        let (cand, join) = cost(|| f.find_self_intersection_candidates());
        let (_, ops) = cost(|| l.validate().is_ok());
        let limit = 4 * (build + join) + 150 * (l.num_points() + cand.len()) as u64 + 1000;
        ensure!(
            ops <= limit,
            "validating a line of {} positions with {} candidate pairs took {} operations, over {}",
            l.num_points(), cand.len(), ops, limit
        );
        total += limit;
        longest = longest.max(l.num_points());
    }
    let (f, build) = cost(|| Flatbush::new(&lines, FLATBUSH_DEFAULT_DEGREE));
    let (cand, join) = cost(|| f.find_self_intersection_candidates());
    total += 4 * (build + join) + 1000;
    for (i, j) in cand {
        let ((a, u), (b, v)) = (cost(|| lines[i].build_rtree()), cost(|| lines[j].build_rtree()));
        let (k, w) = cost(|| a.find_other_rtree_intersection_candidates(&b));
        total += 4 * (u + v + w) + 150 * k.len() as u64 + 400;
    }
    let n = lines.len();
    let m = MultiLineString::new(lines);
    let (_, ops) = cost(|| m.validate().is_ok());
    ensure!(ops <= total, "validating {} lines took {} operations, over {}", n, ops, total);
    Ok(Obs::new(longest > 100 || n > 20).tag_if(n > 1, "several lines"))
}

/// What relating two rings may take: the pairs of nodes of the two segment indexes
/// where the first, stretched to the right edge of the second, meets it, either way
/// round; and a ray to the right for every touch.
fn ring_limit(a: &LineString<K>, b: &LineString<K>) -> u64 {
    if !meet(&a.envelope(), &b.envelope()) {
        return 100;
    }
    let tree = |l: &LineString<K>| cost(|| l.build_rtree());
    let ((fa, ca), (fb, cb)) = (tree(a), tree(b));
    let stretch = |e: Envelope<K>, x: f64| match e {
        Envelope::Bounds { min, max } => Envelope::Bounds { min, max: Position::new(K(max.x.0.max(x)), max.y) },
        e => e,
    };
    let right = |e: &Envelope<K>| e.max().map_or(f64::NEG_INFINITY, |m| m.x.0);
    let mut most = 4 * (ca + cb) + 200 * (a.num_points() + b.num_points()) as u64 + 1000;
    for (f, g) in [(&fa, &fb), (&fb, &fa)] {
        let mut touches = std::collections::HashMap::new();
        let mut todo = vec![(f.root_node(), g.root_node())];
        while let Some((x, y)) = todo.pop() {
            if !meet(&stretch(x.envelope, right(&y.envelope)), &y.envelope) {
                continue;
            }
            most += 4 * TEST;
            if x.level == 0 && y.level == 0 {
                most += 150;
                if meet(&x.envelope, &y.envelope) {
                    *touches.entry(x.tree_index).or_insert((0, x.envelope)) = {
                        let n = touches.get(&x.tree_index).map_or(0, |v: &(u64, Envelope<K>)| v.0);
                        (n + 1, x.envelope)
                    };
                }
            } else if x.level >= y.level {
                todo.extend(f.get_children(x).into_iter().map(|c| (c, y)));
            } else {
                todo.extend(g.get_children(y).into_iter().map(|c| (x, c)));
            }
        }
        for (n, e) in touches.values() {
            let q = stretch(*e, right(&g.envelope()));
            most += n * (50 * 8 * (reached(g, &q) + 1) + 100);
        }
    }
    most
}
fn gen_c29_areas(t: &mut Tape) -> WorkAreas {
    let mut m = match t.below(4) {
        0 | 1 => vec![large_polygon(t)],
        2 => large_multipolygon(t),
        _ => any_multipolygon(t),
    };
    if t.chance(1, 3) {
        // many small holes in rows
        let n = t.range(5, 18);
        let mut p = vec![vec![(-5, -5), (10 * n, -5), (10 * n, 10 * n), (-5, 10 * n), (-5, -5)]];
        for i in 0..n * n {
            let (x, y) = (10 * (i % n), 10 * (i / n));
            p.push(vec![(x, y), (x + 5, y), (x + 5, y + 5), (x, y)]);
        }
        m = vec![p];
    }
    WorkAreas { m }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WorkAreas {
    m: Vec<Rings>,
}
fn t_c29_areas(c: &WorkAreas) -> R {
    let mk = |l: &Vec<P>| {
        LineString::new(l.iter().map(|p| Position::new(K(p.0 as f64), K(p.1 as f64))).collect::<Vec<_>>())
    };
    let joined = |n: usize, f: (Flatbush<K>, u64)| {
        let (_, join) = cost(|| f.0.find_self_intersection_candidates());
        4 * (f.1 + join) + 100 * n as u64 + 1000
    };
    let pairs = |v: &[Envelope<K>]| -> Vec<(usize, usize)> {
        let n = v.len();
        (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|(i, j)| meet(&v[*i], &v[*j])).collect()
    };
    let mut total = 0;
    let mut size = 0;
    let mut all = vec![];
    for r in c.m.iter().filter(|r| !r.is_empty()) {
        let rings: Vec<LineString<K>> = r.iter().map(mk).collect();
        let mut most = 0;
        for l in &rings {
            size += l.num_points();
            let (f, build) = cost(|| l.build_rtree());
            let (cand, join) = cost(|| f.find_self_intersection_candidates());
            most += 4 * (build + join) + 150 * (l.num_points() + cand.len()) as u64 + 1000;
        }
        let holes = &rings[1..];
        most += joined(holes.len(), cost(|| Flatbush::new(holes, FLATBUSH_DEFAULT_DEGREE)));
        most += holes.iter().map(|h| ring_limit(&rings[0], h)).sum::<u64>();
        let boxes: Vec<_> = holes.iter().map(|h| h.envelope()).collect();
        most += pairs(&boxes).into_iter().map(|(i, j)| ring_limit(&holes[i], &holes[j])).sum::<u64>();
        let p = Polygon::new(rings[0].clone(), holes.to_vec());
        let (_, ops) = cost(|| p.validate().is_ok());
        ensure!(
            ops <= most,
            "validating an area of {} rings, {} positions took {} operations, over {}",
            rings.len(), rings.iter().map(|l| l.num_points()).sum::<usize>(), ops, most
        );
        total += most;
        all.push(p);
    }
    let n = all.len();
    total += joined(n, cost(|| Flatbush::new(&all, FLATBUSH_DEFAULT_DEGREE)));
    let boxes: Vec<_> = all.iter().map(|p| p.envelope()).collect();
    for (i, j) in pairs(&boxes) {
        total += ring_limit(&all[i].exterior, &all[j].exterior);
        for (p, q) in [(&all[i], &all[j]), (&all[j], &all[i])] {
            total += p.interiors.iter().map(|h| ring_limit(&q.exterior, h)).sum::<u64>();
        }
    }
    let m = MultiPolygon::new(all);
    let (_, ops) = cost(|| m.validate().is_ok());
    if std::env::var("TIMES").is_ok() {
        eprintln!("{:.3} areas {} {}", ops as f64 / total as f64, n, size);
    }
    ensure!(ops <= total, "validating {} areas of {} positions took {} operations, over {}", n, size, ops, total);
    Ok(Obs::new(size > 100).tag_if(n > 1, "several areas").tag_if(c.m.iter().any(|r| r.len() > 20), "over 20 rings"))
}

/// Hull, points, boundary, length and envelope: about n log n.
fn gen_c29_rest(t: &mut Tape) -> WorkLines {
    let ls = match t.below(5) {
        0 => large_multiline(t),
        1 => network(t),
        2 => large_polygon(t),
        3 => {
            // points of a grid or a parabola in some order
            let n = 50 + t.below(4000) as i64;
            let k = 1 + t.range(0, 2) * 2;
            let w = t.range(1, 60);
            let l: Vec<P> = if t.chance(1, 2) {
                (0..n).map(|i| ((i * k) % n % w, (i * k) % n / w)).collect()
            } else {
                (0..n).map(|i| (i, i * i)).collect()
            };
            vec![l]
        }
        _ => vec![large_simple(t)],
    };
    WorkLines { ls }
}
fn t_c29_rest(c: &WorkLines) -> R {
    let p = |p: &P| Position::new(K(p.0 as f64), K(p.1 as f64));
    let mk = |l: &Vec<P>| LineString::new(l.iter().map(p).collect::<Vec<_>>());
    let all: Vec<P> = c.ls.concat();
    let n = all.len() as u64;
    let limit = |f: u64, n: u64| f * (n + 4) * (n + 4).ilog2() as u64 + 1000;
    macro_rules! within {
        ($what:expr, $f:expr, $n:expr, $do:expr) => {{
            let (r, work) = costs(|| $do);
            let most = limit($f, $n as u64);
            ensure!(work.ops <= most, "{} of {} positions took {:?}, over {}", $what, $n, work, most);
            ensure!(work.bytes <= 20 * most, "{} of {} positions took {:?}, over {} bytes", $what, $n, work, 20 * most);
            r
        }};
    }
    let lines = within!("building lines", 30, n, c.ls.iter().map(mk).collect::<Vec<_>>());
    for l in &lines {
        let k = l.num_points();
        within!("length", 30, k, l.length());
        within!("boundary", 30, k, l.boundary());
        within!("ends", 30, 1, (l.is_closed(), l.start_point(), l.end_point(), l.envelope()));
        if l.is_closed() {
            let p = Polygon::from(l.clone());
            within!("the convex hull", 100, k, p.convex_hull());
            within!("a point", 100, k, p.point_on_surface());
            within!("boundary of a polygon", 30, k, p.boundary());
        }
    }
    let ring = {
        let mut r = all.clone();
        r.extend(all.first());
        r
    };
    if all.len() > 3 {
        within!("the convex hull", 100, n, Polygon::from(mk(&ring)).convex_hull());
    }
    let m = within!("building a multiline", 30, n, MultiLineString::new(lines));
    within!("boundary of a multiline", 100, n, m.boundary());
    within!("length of a multiline", 30, n, m.length());
    let pts = || MultiPoint::from(all.iter().map(p).collect::<Vec<_>>());
    let m = within!("building a multipoint", 30, n, pts());
    within!("validating a multipoint", 100, n, m.validate().is_ok());
    within!("simplifying a multipoint", 100, n, m.make_simple());
    within!("point membership", 30, n, m.contains_point(&Point::new(p(&all.first().copied().unwrap_or((1, 2))))));
    Ok(Obs::new(n > 100).tag_if(n > 1000, "over 1000 positions"))
}

/// Processor time at sizes where work that grows with the square would take seconds.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    seed: u32,
    layout: u8,
    degree: usize,
    n: usize,
    what: u8,
}
fn gen_c29_time(t: &mut Tape) -> Big {
    Big {
        seed: t.word(),
        layout: t.below(5) as u8,
        degree: *t.pick(&[4, 8, 8, 16, 32]),
        n: *t.pick(&[300_000, 400_000, 500_000]),
        what: t.below(8) as u8,
    }
}
/// The least of up to five tries, until one is within the limit.
fn quickest<T>(limit: f64, mut f: impl FnMut() -> T) -> (f64, T) {
    let mut best = f64::INFINITY;
    for k in 1.. {
        let t = cpu();
        let r = f();
        best = best.min(cpu() - t);
        if best <= limit || best > 3.0 * limit || k == 5 {
            return (best, r);
        }
    }
    unreachable!()
}
fn t_c29_time(c: &Big) -> R {
    let n = c.n;
    // Something to go by: sorting as many numbers.
    let unit = {
        let v: Vec<f64> = (0..n).map(|i| hash(c.seed as u64, i as u64)).collect();
        let t = cpu();
        let mut w = v.clone();
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        std::hint::black_box(&w);
        cpu() - t
    };
    let limit = 0.2 + 60.0 * unit;
    macro_rules! within {
        ($what:expr, $do:expr) => { within!($what, limit, $do) };
        ($what:expr, $limit:expr, $do:expr) => {{
            let limit = $limit;
            let (secs, r) = quickest(limit, || $do);
            if std::env::var("TIMES").is_ok() {
                eprintln!("{:.2} {} {} {:.4} of {:.3}", secs / limit, $what, n, secs, limit);
            }
            ensure!(secs <= limit, "{} of {} took {:.3} s of processor time, over {:.3} s", $what, n, secs, limit);
            r
        }};
    }
    let p = |x: f64, y: f64| Position::new(x, y);
    // a zigzag, a comb of lines, scattered points
    let zig = || (0..n).map(|i| p(i as f64, (i % 2 * 3) as f64)).collect::<Vec<_>>();
    let h = |i: usize, k: u64| (hash(c.seed as u64, (i as u64) << 3 | k) * 1e6).round();
    let scattered = || (0..n).map(|i| p(h(i, 0), h(i, 1))).collect::<Vec<_>>();
    match c.what {
        0 | 1 => {
            let w = Work { seed: c.seed, layout: c.layout, n: (n, n), degree: (c.degree, c.degree), sorted: (true, true), q: vec![] };
            let cheap = |e: Envelope<K>| match e {
                Envelope::Bounds { min, max } => Envelope::new(p(min.x.0, min.y.0), p(max.x.0, max.y.0)),
                e => {
                    debug_assert!(e.is_empty());
                    Envelope::Empty
                }
            };
            // as many as n boxes, however they lie, each over a few others
            let f = (30_000.0 / n as f64).sqrt();
            let mut v: Vec<Envelope<f64>> = work_boxes(&w, n, 1).into_iter().map(cheap).collect();
            for e in v.iter_mut() {
                if let Envelope::Bounds { min, max } = e {
                    *max = *min + (*max - *min) * if c.layout == 4 { 1.0 } else { f * f };
                }
            }
            let t = within!("building an index", Flatbush::new(&v, c.degree));
            if c.layout == 0 || c.layout == 4 {
                within!("building an index as given", Flatbush::new_unsorted(&v, c.degree));
            }
            let queries = || (0..1000).map(|i| t.find_intersection_candidates(v[i * (n / 1000)]).len()).sum::<usize>();
            let found = within!("1000 queries", 0.1 + unit, queries());
            let bytes = costs(queries).1.bytes;
            let nodes: usize = (0..1000)
                .map(|i| {
                    let q = v[i * (n / 1000)];
                    let (mut k, mut todo) = (1, vec![t.root_node()]);
                    while let Some(x) = todo.pop() {
                        if x.level > 0 && x.envelope.intersects(q) {
                            k += 1;
                            todo.extend(t.get_children(x));
                        }
                    }
                    k
                })
                .sum();
            let (d, levels) = (c.degree, t.root_node().level + 1);
            let most = NODE * (d * (nodes + 1000 * 2 * levels)) as u64
                + NODE / 4 * ((d + 2).pow(2) * (nodes + 1000)) as u64
                + 64 * found as u64
                + 1000 * 4096;
            if std::env::var("TIMES").is_ok() {
                eprintln!("{:.3} bytes", bytes as f64 / most as f64);
            }
            ensure!(bytes <= most, "1000 queries of {} finding {} took {} bytes", n, found, bytes);
            ensure!(found >= 1000, "1000 queries find {}", found);
            within!("1000 proximity queries", 0.1 + unit, {
                (0..1000)
                    .map(|i| v[i * (n / 1000)].min().map_or(0, |m| t.find_candidates_within(m, 1e-5).len()))
                    .sum::<usize>()
            });
            if c.what == 0 {
                within!("a self-join", 4.0 * limit, t.find_self_intersection_candidates());
            } else {
                within!("a cross-join", 4.0 * limit, t.find_other_rtree_intersection_candidates(&t));
            }
        }
        2 => {
            let l = within!("building a line", LineString::new(zig()));
            within!("the length", l.length());
            within!("the segments", l.segments_iter().count());
            within!("the boundary", l.boundary());
            let r = within!("validating a line", l.validate().is_ok());
            ensure!(r, "a zigzag of {} is not valid", n);
        }
        3 => {
            let y = |i: usize| 2.0 * i as f64;
            let m = within!("building many lines", {
                MultiLineString::new((0..n / 2).map(|i| LineString::new(vec![p(0.0, y(i)), p(9.0, y(i))])).collect())
            });
            within!("the boundary of many lines", m.boundary());
            within!("the length of many lines", m.length());
            ensure!(within!("validating many lines", m.validate().is_ok()), "{} lines are not valid", n / 2);
        }
        4 => {
            let ps = scattered();
            let m = MultiPoint::from(ps.clone());
            within!("validating a multipoint", m.validate().is_ok());
            within!("simplifying a multipoint", m.make_simple());
            within!("point membership", m.contains_point(&Point::new(ps[n / 2])));
            within!("building a multipoint", MultiPoint::from(ps.clone()));
        }
        6 | 7 => {
            // n / 4 holes, or areas
            let k = n / 4;
            let s = (k as f64).sqrt().ceil();
            let at = |i: usize| (4.0 * (i as f64 % s), 4.0 * (i as f64 / s).floor());
            let ring = |x: f64, y: f64, w: f64| {
                LineString::new(vec![p(x, y), p(x + w, y), p(x + w, y + w), p(x, y + w), p(x, y)])
            };
            let rings = || (0..k).map(|i| ring(at(i).0, at(i).1, 2.0));
            let valid = if c.what == 6 {
                let q = within!("building an area", Polygon::new(ring(-4.0, -4.0, 4.0 * s + 8.0), rings().collect()));
                within!("the boundary of an area", q.boundary());
                within!("validating an area", q.validate())
            } else {
                let m = within!("building areas", MultiPolygon::new(rings().map(Polygon::from).collect()));
                within!("the boundary of areas", m.boundary());
                within!("validating areas", m.validate())
            };
            ensure!(valid.is_ok(), "{} rings: {:?}", k, valid);
        }
        _ => {
            let mut r = zig();
            r.extend([p(n as f64, 0.0), p(n as f64, n as f64), p(0.0, n as f64), r[0]]);
            let q = Polygon::from(LineString::new(r));
            within!("the convex hull", q.convex_hull());
            within!("the boundary of a polygon", q.boundary());
            let text: String = {
                let l: Vec<String> = (0..n / 2).map(|i| format!("{} {}", i, i % 7)).collect();
                let kind = c.layout % 3;
                let (open, close, sep) = [("LINESTRING (", ")", ","), ("MULTIPOINT ((", "))", "),("), ("MULTILINESTRING ((1 2,", "))", "),(3 4,")][kind as usize];
                format!("{}{}{}", open, l.join(sep), close)
            };
            let r = within!("reading text", parse_wkt(&text));
            ensure!(r.is_ok(), "text of {} positions is not read: {:?}", n / 2, r.err());
        }
    }
    Ok(Obs::new(true).tag(["index, self-join", "index, cross-join", "line", "many lines", "points", "area, text", "holes", "areas"][c.what as usize]))
}

// ------------------------------------------------------------ C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Same {
    lat: Lat,
    s: Shape,
}
fn gen_c30(t: &mut Tape) -> Same {
    loop {
        let mut s = match t.below(4) {
            0 => Shape::Line(any_line(t)),
            1 => Shape::Lines(any_multiline(t)),
            2 => Shape::Poly(any_polygon(t)),
            _ => Shape::MPoly(any_multipolygon(t)),
        };
        let w = normalize(&mut s.lines_mut());
        if w <= 400 && t.chance(1, 3) {
            let lat = Lat::near_in(t, &mut s.lines_mut(), true);
            return Same { lat, s };
        }
        let mut lat = Lat::gen(t, w.min(400));
        lat.f32 = true;
        // within what single precision holds exactly, products included
        lat.ox = lat.ox.clamp(-Lat::FAR_32, Lat::FAR_32);
        lat.oy = lat.oy.clamp(-Lat::FAR_32, Lat::FAR_32);
        lat.k = lat.k.clamp(-50, 50);
        if w <= 400 {
            return Same { lat, s };
        }
        if t.word() == 0 {
            return Same { lat: Lat::PLAIN, s: Shape::Line(vec![(0, 0), (1, 1)]) };
        }
    }
}

/// Everything one can ask of a shape, as numbers.
#[derive(PartialEq, Debug, Default)]
struct Answers(Vec<(&'static str, Vec<f64>)>);

impl Answers {
    fn flag(&mut self, what: &'static str, v: bool) {
        self.0.push((what, vec![f64::from(u8::from(v))]));
    }
    fn env<C: Flt>(&mut self, what: &'static str, e: Envelope<C>) {
        self.0.push((
            what,
            match e {
                Envelope::Empty => vec![],
                Envelope::Bounds { min, max } => vec![min.x.up(), min.y.up(), max.x.up(), max.y.up()],
            },
        ));
    }
    fn line<C: Flt>(&mut self, what: &'static str, l: &[Position<C>]) {
        self.0.push((what, l.iter().flat_map(|p| [p.x.up(), p.y.up()]).collect()));
    }
    fn geometry<C: Flt>(&mut self, g: &Geometry<C>) {
        self.flag("empty", g.is_empty());
        self.flag("simple", g.is_simple());
        self.0.push(("dimension", vec![g.dimension() as f64]));
        self.env("envelope", g.envelope());
        self.contents(g.boundary());
    }
    fn contents<C: Flt>(&mut self, g: Geometry<C>) {
        self.0.push((g.geometry_type(), vec![]));
        match g {
            Geometry::Empty(_) => {}
            Geometry::Point(p) => self.line("point", &[p.0]),
            Geometry::LineString(l) => self.line("line", &l.positions),
            Geometry::MultiPoint(m) => self.line("points", &m.points.iter().map(|p| p.0).collect::<Vec<_>>()),
            Geometry::MultiLineString(m) => m.line_strings.iter().for_each(|l| self.line("member", &l.positions)),
            Geometry::Polygon(p) => {
                self.line("exterior", &p.exterior.positions);
                p.interiors.iter().for_each(|l| self.line("hole", &l.positions));
            }
            Geometry::MultiPolygon(m) => {
                for p in &m.polygons {
                    self.line("exterior", &p.exterior.positions);
                    p.interiors.iter().for_each(|l| self.line("hole", &l.positions));
                }
            }
        }
    }
}

enum Built<C: Flt> {
    Line(LineString<C>),
    Lines(MultiLineString<C>),
    Poly(Polygon<C>),
    MPoly(MultiPolygon<C>),
}
impl<C: Flt> Built<C> {
    fn of(s: &Shape, l: &Lat) -> Built<C> {
        match s {
            Shape::Line(v) => Built::Line(l.line(v)),
            Shape::Lines(m) => Built::Lines(l.mls(m)),
            Shape::Poly(r) => Built::Poly(l.poly(r)),
            Shape::MPoly(m) => Built::MPoly(l.mpoly(m)),
        }
    }
    fn ask(&self) -> Answers {
        let mut a = Answers::default();
        let lines: Vec<&LineString<C>> = match self {
            Built::Line(l) => vec![l],
            Built::Lines(m) => m.line_strings.iter().collect(),
            Built::Poly(p) => std::iter::once(&p.exterior).chain(&p.interiors).collect(),
            Built::MPoly(m) => {
                m.polygons.iter().flat_map(|p| std::iter::once(&p.exterior).chain(&p.interiors)).collect()
            }
        };
        match self {
            Built::Line(l) => {
                a.flag("valid", l.validate().is_ok());
                a.flag("simple", l.is_simple());
                a.env("envelope", l.envelope());
                a.contents(l.boundary());
            }
            Built::Lines(m) => {
                a.flag("valid", m.validate().is_ok());
                a.flag("simple", m.is_simple());
                a.flag("closed", m.is_closed());
                a.env("envelope", m.envelope());
                a.contents(m.boundary());
            }
            Built::Poly(p) => {
                a.flag("valid", p.validate().is_ok());
                a.flag("simple", p.is_simple());
                a.env("envelope", p.envelope());
                a.contents(p.boundary());
                a.line("on surface", &p.point_on_surface().map(|q| vec![q.0]).unwrap_or_default());
                if p.validate().is_ok() && !p.is_empty() {
                    a.line("hull", &p.convex_hull().positions);
                }
            }
            Built::MPoly(m) => {
                a.flag("valid", m.validate().is_ok());
                a.flag("simple", m.is_simple());
                a.env("envelope", m.envelope());
                a.contents(m.boundary());
                a.line("on surface", &m.point_on_surface().map(|q| vec![q.0]).unwrap_or_default());
            }
        }
        for (i, l) in lines.iter().enumerate() {
            a.flag("line valid", l.validate().is_ok());
            a.flag("line closed", l.is_closed());
            a.flag("ring", l.is_ring());
            a.env("line envelope", l.envelope());
            a.contents(l.boundary());
            let pts = MultiPoint::new(l.positions.iter().map(|p| Point::new(*p)).collect());
            a.flag("points valid", pts.validate().is_ok());
            a.contents(pts.make_simple());
            let f = l.build_rtree();
            let mut v = f.find_self_intersection_candidates();
            v.sort_unstable();
            a.0.push(("pairs", v.iter().flat_map(|(i, j)| [*i as f64, *j as f64]).collect()));
            for (i, j) in v.into_iter().take(30) {
                let (s, r) = (l.get_segment(i), l.get_segment(j));
                match s.intersect_segment(r) {
                    SegmentIntersection::None => a.0.push(("none", vec![])),
                    SegmentIntersection::Segment(x) => {
                        let (p, q) = if (x.start.x, x.start.y) <= (x.end.x, x.end.y) { (x.start, x.end) } else { (x.end, x.start) };
                        a.line("overlap", &[p, q]);
                    }
                    SegmentIntersection::Position(p) => {
                        // a crossing inside both is rounded, perhaps onto an end
                        let end = s.contains(r.start) || s.contains(r.end) || r.contains(s.start) || r.contains(s.end);
                        a.line("touch", if end { std::slice::from_ref(&p) } else { &[] });
                        a.flag("at an end", end);
                    }
                }
                a.0.push(("side", vec![s.position_location(r.start) as u8 as f64]));
                a.flag("on", s.contains(r.end));
                let t = Triangle::new(s.start, s.end, r.end);
                a.0.push(("area", vec![t.signed_area().up(), t.area().up()]));
                a.0.push(("length squared", vec![s.length_squared().up()]));
            }
            if let Some(m) = lines.get(i + 1) {
                let mut v = f.find_other_rtree_intersection_candidates(&m.build_rtree());
                v.sort_unstable();
                a.0.push(("cross pairs", v.iter().flat_map(|(i, j)| [*i as f64, *j as f64]).collect()));
            }
        }
        a
    }
    fn wrap(self) -> Geometry<C> {
        match self {
            Built::Line(x) => x.into(),
            Built::Lines(x) => x.into(),
            Built::Poly(x) => x.into(),
            Built::MPoly(x) => x.into(),
        }
    }
}

fn differ(what: &str, a: &Answers, b: &Answers) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = (0..a.0.len().max(b.0.len())).find(|&i| a.0.get(i) != b.0.get(i)).unwrap_or(0);
    Err(format!("{}: answer {}: {:?} and {:?}", what, i, a.0.get(i), b.0.get(i)))
}

fn t_c30(c: &Same) -> R {
    let valid = same_answers(&c.lat, &c.s)?;
    let n: usize = c.s.lines().iter().map(|l| l.len()).sum();
    Ok(Obs::new(n >= 3)
        .tag(match c.s {
            Shape::Line(_) => "line",
            Shape::Lines(_) => "lines",
            Shape::Poly(_) => "polygon",
            Shape::MPoly(_) => "multipolygon",
        })
        .tag_if(valid, "valid"))
}
/// The same of one object asked twice, in two threads, of one built again and of one
/// in the other precision; is it valid?
pub(super) fn same_answers(lat: &Lat, s: &Shape) -> Result<bool, String> {
    let d = Built::<f64>::of(s, lat);
    let first = d.ask();
    differ("asked again", &first, &d.ask())?;
    let other = std::thread::scope(|s| s.spawn(|| d.ask()).join());
    match other {
        Ok(o) => differ("asked in another thread", &first, &o)?,
        Err(_) => return Err("panicked in another thread only".into()),
    }
    differ("asked of an equal object", &first, &Built::<f64>::of(s, lat).ask())?;
    let single = Built::<f32>::of(s, lat);
    differ("double and single precision", &first, &single.ask())?;
    let (mut a, mut b) = (Answers::default(), Answers::default());
    a.geometry(&d.wrap());
    b.geometry(&single.wrap());
    differ("wrapped, double and single precision", &a, &b)?;
    Ok(first.0[0].1 == [1.0])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SameIndex {
    boxes: Vec<Option<(FP, FP)>>,
    q: Vec<(FP, FP)>,
    degree: usize,
}
fn gen_c30_index(t: &mut Tape) -> SameIndex {
    let wide = t.chance(1, 3);
    let w = *t.pick(&[3i64, 10, 60]);
    let v = |t: &mut Tape| {
        let x = if wide { wild(t, true) } else { t.range(0, w) as f64 * 0.1 };
        let x = x as f32 as f64;
        if x.is_nan() {
            0.0
        } else {
            x
        }
    };
    let b = |t: &mut Tape| (fp(v(t), v(t)), fp(v(t), v(t)));
    let n = *t.pick(&[5, 30, 120]);
    let boxes = (0..t.below(n)).map(|_| if t.chance(1, 12) { None } else { Some(b(t)) }).collect();
    let q = (0..1 + t.below(4)).map(|_| b(t)).collect();
    SameIndex { boxes, q, degree: *t.pick(&[2, 4, 8, 16]) }
}
fn index_answers<C: Flt>(c: &SameIndex, sorted: bool) -> (Flatbush<C>, Answers) {
    let e = |b: &(FP, FP)| Envelope::new(pos::<C>(b.0), pos::<C>(b.1));
    let items: Vec<Envelope<C>> = c.boxes.iter().map(|b| b.as_ref().map_or(Envelope::empty(), e)).collect();
    let f = if sorted { Flatbush::new(&items, c.degree) } else { Flatbush::new_unsorted(&items, c.degree) };
    let a = ask_index(c, &f);
    (f, a)
}
fn ask_index<C: Flt>(c: &SameIndex, f: &Flatbush<C>) -> Answers {
    let e = |b: &(FP, FP)| Envelope::new(pos::<C>(b.0), pos::<C>(b.1));
    let mut a = Answers::default();
    a.env("envelope", f.envelope());
    let list = |mut v: Vec<(usize, usize)>| {
        v.sort_unstable();
        v.into_iter().flat_map(|(i, j)| [i as f64, j as f64]).collect::<Vec<f64>>()
    };
    for q in &c.q {
        let v = f.find_intersection_candidates(e(q)).into_iter().map(|i| (i, 0)).collect();
        a.0.push(("found", list(v)));
        let v = f.find_candidates_within(pos::<C>(q.0), C::zero()).into_iter().map(|i| (i, 0)).collect();
        a.0.push(("at", list(v)));
    }
    a.0.push(("self-join", list(f.find_self_intersection_candidates())));
    let qs: Vec<Envelope<C>> = c.q.iter().map(e).collect();
    let g = Flatbush::new(&qs, c.degree);
    a.0.push(("cross-join", list(f.find_other_rtree_intersection_candidates(&g))));
    a.0.push(("cross-join back", list(g.find_other_rtree_intersection_candidates(f))));
    a
}
fn t_c30_index(c: &SameIndex) -> R {
    let (f, first) = index_answers::<f64>(c, true);
    differ("asked again", &first, &ask_index(c, &f))?;
    match std::thread::scope(|s| s.spawn(|| ask_index(c, &f)).join()) {
        Ok(o) => differ("asked in another thread", &first, &o)?,
        Err(_) => return Err("panicked in another thread only".into()),
    }
    differ("sorted and in input order", &first, &index_answers::<f64>(c, false).1)?;
    let mut d = c.clone();
    d.degree = if c.degree == 2 { 64 } else { 2 };
    differ("of another degree", &first, &index_answers::<f64>(&d, true).1)?;
    differ("single precision", &first, &index_answers::<f32>(c, true).1)?;
    differ("single precision in input order", &first, &index_answers::<f32>(c, false).1)?;
    Ok(Obs::new(c.boxes.len() > 1).tag_if(c.boxes.len() > 16, "over 16 items"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SameText {
    lat: Lat,
    s: Shape,
}
fn gen_c30_text(t: &mut Tape) -> SameText {
    let c = gen_c30(t);
    SameText { lat: c.lat, s: c.s }
}
/// A shape written as text and read answers as the shape built directly.
fn t_c30_text(c: &SameText) -> R {
    let mut lat = c.lat;
    lat.nz = false;
    let num = |p: &P| {
        let q: Position<f64> = lat.p(*p);
        format!("{} {}", q.x, q.y)
    };
    let line = |l: &Vec<P>| {
        if l.is_empty() {
            "EMPTY".to_string()
        } else {
            format!("({})", l.iter().map(num).collect::<Vec<_>>().join(", "))
        }
    };
    let list = |v: &[Vec<P>]| {
        if v.is_empty() {
            "EMPTY".to_string()
        } else {
            format!("({})", v.iter().map(line).collect::<Vec<_>>().join(", "))
        }
    };
    // Structures that text can hold
    let s = match &c.s {
        Shape::Line(l) => Shape::Line(l.clone()),
        Shape::Lines(m) => Shape::Lines(m.iter().filter(|l| !l.is_empty()).cloned().collect()),
        Shape::Poly(r) => Shape::Poly(r.iter().filter(|l| !l.is_empty()).cloned().collect()),
        Shape::MPoly(m) => Shape::MPoly(
            m.iter()
                .map(|r| r.iter().filter(|l| !l.is_empty()).cloned().collect::<Rings>())
                .filter(|r| !r.is_empty())
                .collect(),
        ),
    };
    let text = match &s {
        Shape::Line(l) => format!("LINESTRING {}", line(l)),
        Shape::Lines(m) => format!("MULTILINESTRING {}", list(m)),
        Shape::Poly(r) => format!("POLYGON {}", list(r)),
        Shape::MPoly(m) if m.is_empty() => "MULTIPOLYGON EMPTY".into(),
        Shape::MPoly(m) => format!("MULTIPOLYGON ({})", m.iter().map(|r| list(r)).collect::<Vec<_>>().join(", ")),
    };
    let read = |text: &str| -> Result<Option<Built<f64>>, String> {
        let v = parse_wkt(text).map_err(|e| format!("{:?} is refused: {}", text, e))?;
        ensure!(v.len() == 1, "{:?} is {} geometries", text, v.len());
        Ok(match v.into_iter().next().unwrap() {
            Geometry::LineString(x) => Some(Built::Line(x)),
            Geometry::MultiLineString(x) => Some(Built::Lines(x)),
            Geometry::Polygon(x) => Some(Built::Poly(x)),
            Geometry::MultiPolygon(x) => Some(Built::MPoly(x)),
            Geometry::Empty(_) => None,
            g => return Err(format!("{:?} is {:?}", text, g)),
        })
    };
    let want = Built::<f64>::of(&s, &lat);
    match read(&text)? {
        None => {
            let g = want.wrap();
            ensure!(g.is_empty(), "{:?} is read as empty", text);
            return Ok(Obs::new(false));
        }
        Some(got) => {
            let a = got.ask();
            differ("read and built", &a, &want.ask())?;
            let again = read(&text)?.map(|g| g.ask()).unwrap_or_default();
            differ("read twice", &a, &again)?;
        }
    }
    Ok(Obs::new(text.len() > 40))
}

/// Some shapes that are much alike, and the order in which they are asked.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    lat: Lat,
    shapes: Vec<Shape>,
    /// Which shape to ask, and which object of it: one that is kept, one built for
    /// the question, or one edited from another kept object.
    turns: Vec<(usize, u8)>,
}
fn gen_c30_history(t: &mut Tape) -> History {
    let c = gen_c30(t);
    let shapes = alike(t, c.s);
    let n = shapes.len();
    let turns = (0..3 + t.below(8)).map(|_| (t.below(n), t.below(3) as u8)).collect();
    History { lat: c.lat, shapes, turns }
}
impl<C: Flt> Built<C> {
    fn lines_mut(&mut self) -> Vec<&mut LineString<C>> {
        match self {
            Built::Line(l) => vec![l],
            Built::Lines(m) => m.line_strings.iter_mut().collect(),
            Built::Poly(p) => std::iter::once(&mut p.exterior).chain(&mut p.interiors).collect(),
            Built::MPoly(m) => m
                .polygons
                .iter_mut()
                .flat_map(|p| std::iter::once(&mut p.exterior).chain(&mut p.interiors))
                .collect(),
        }
    }
    fn boxes(&self) -> Vec<Envelope<C>> {
        match self {
            Built::Line(l) => vec![l.envelope()],
            Built::Lines(m) => std::iter::once(m.envelope()).chain(m.line_strings.iter().map(|l| l.envelope())).collect(),
            Built::Poly(p) => std::iter::once(p.envelope())
                .chain(std::iter::once(&p.exterior).chain(&p.interiors).map(|l| l.envelope()))
                .collect(),
            Built::MPoly(m) => std::iter::once(m.envelope())
                .chain(m.polygons.iter().flat_map(|p| {
                    std::iter::once(p.envelope())
                        .chain(std::iter::once(&p.exterior).chain(&p.interiors).map(|l| l.envelope()))
                }))
                .collect(),
        }
    }
    /// Give it the other's positions in place, if it is of the same make and every box
    /// stays the same, so that the two are equal afterwards.
    fn edit(&mut self, to: &mut Built<C>) -> bool {
        if self.boxes() != to.boxes() {
            return false;
        }
        let mut v = self.lines_mut();
        let w = to.lines_mut();
        if v.len() != w.len() {
            return false;
        }
        for (a, b) in v.iter_mut().zip(w) {
            a.positions.clear();
            a.positions.extend_from_slice(&b.positions);
        }
        true
    }
}
/// Questions about other shapes, asked before, between and at the same time, must not
/// show in an answer.
fn t_c30_history(c: &History) -> R {
    ensure!(c.turns.iter().all(|(i, _)| *i < c.shapes.len()), "bad replay");
    let build = |i: usize| Built::<f64>::of(&c.shapes[i], &c.lat);
    // each asked in a thread of its own, after shapes that are quite different
    let mut want = vec![];
    for i in 0..c.shapes.len() {
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                let l = Lat::PLAIN;
                Built::<f64>::of(&Shape::Line(vec![(700, 3), (701, 5), (702, 4)]), &l).ask();
                Built::<f64>::of(&Shape::Poly(vec![vec![(900, 0), (909, 1), (905, 8), (900, 0)]]), &l).ask();
                build(i).ask()
            })
            .join()
        });
        match r {
            Ok(a) => want.push(a),
            Err(_) => return Err(format!("panicked on shape {}", i)),
        }
    }
    let says = |a: &Answers, i: usize, how: &str| differ(&format!("shape {}, asked alone and {}", i, how), &want[i], a);
    let mut kept: Vec<Built<f64>> = (0..c.shapes.len()).map(build).collect();
    let mut edited = 0;
    for (k, &(i, what)) in c.turns.iter().enumerate() {
        match what {
            0 => says(&kept[i].ask(), i, "after others")?,
            1 => says(&build(i).ask(), i, "after others, built for it")?,
            _ => {
                // the previous turn's object becomes this shape, and then itself again
                let j = c.turns[k.max(1) - 1].0;
                if kept[j].edit(&mut build(i)) {
                    edited += 1;
                    says(&kept[j].ask(), i, "as an edited object")?;
                    kept[j].edit(&mut build(j));
                }
                says(&kept[j].ask(), j, "after an edit and back")?;
            }
        }
    }
    let truth: Vec<bool> = c.shapes.iter().map(|s| s.truly_valid()).collect();
    for (i, (w, v)) in want.iter().zip(&truth).enumerate() {
        ensure!((w.0[0].1 == [1.0]) == *v, "shape {} is valid: {}; but validate: {}", i, v, !v);
    }
    Ok(Obs::new(want.iter().any(|a| *a != want[0]))
        .tag_if(truth.iter().any(|v| *v != truth[0]), "of different validity")
        .tag_if(edited > 0, "edited in place"))
}

/// The shapes asked over and over by threads that run at the same time, each its own
/// share, against the answers each gives alone.
fn t_c30_together(c: &History) -> R {
    let kept: Vec<Built<f64>> = c.shapes.iter().map(|s| Built::of(s, &c.lat)).collect();
    let want: Vec<Answers> = kept.iter().map(|b| b.ask()).collect();
    let threads = 3;
    let start = std::sync::Barrier::new(threads);
    let r: Result<Vec<()>, String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (kept, want, start) = (&kept, &want, &start);
                s.spawn(move || {
                    start.wait();
                    for n in 0..40 {
                        let i = (n + k) % kept.len();
                        differ(&format!("shape {}, asked alone and beside other threads", i), &want[i], &kept[i].ask())?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("panicked beside other threads".into())))
            .collect()
    });
    r?;
    Ok(Obs::new(want.iter().any(|a| *a != want[0])))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "Lines, multilines, polygons and multipolygons of every validity class on lattices, rotated and jittered, on warped axes or stretched onto extreme values (rounding, near-contacts and non-finite coordinates included), up to hundreds of members (sub large): the whole against each member and each two members, valid lines against their contiguous parts, each with an empty member added. Non-trivial: at least two members, valid together or with two that are invalid only together.",
            assumptions: &["of more than 16 members only neighbours in the list and pairs whose boxes meet are tried together"],
            subs: vec![
                super::vast::sub("C26"),
                random("shapes", 60_000, 2_000_000, || tape(1400, gen_c26), t_c26),
                random("large", 600, 20_000, || tape(5000, gen_c26_large), t_c26),
            ],
        },
        Prop {
            id: "C27",
            rule: "Polygons and multipolygons of every validity class, with empty members anywhere: the point is none exactly when no exterior has a position; of shapes valid by the exact oracle on lattices it is located exactly. Non-trivial: such a point was located.",
            assumptions: &["points between steps of 1/1024 of the lattice are located within three such steps"],
            subs: vec![
                super::vast::sub("C27"),
                random("areas", 60_000, 2_000_000, || tape(1400, gen_c27), t_c27),
            ],
        },
        Prop {
            id: "C28",
            rule: "Two collections of positions, points, segments, lines, multipoints, multilines and filled areas around common curves, indexed in both modes: every pair that shares a point by exact integer geometry is found by self-join, cross-join and query, everything within a whole distance by the proximity query, and segment indexes of lines followed by the segment intersection decide exactly which curves meet. Non-trivial: some pair shares a point.",
            assumptions: &["lattices on which coordinate products are exact"],
            subs: vec![
                super::vast::sub("C28"),
                random("scenes", 60_000, 2_000_000, || tape(1400, gen_c28), t_c28),
                random("large", 300, 10_000, || tape(5000, gen_c28_large), t_c28),
            ],
        },
        Prop {
            id: "C29",
            rule: "Indexes of up to 3500 boxes in five layouts with coordinates that count every operation and an allocator that counts every byte: the operations and memory of queries and joins against the number of tree nodes (found by walking the tree) whose boxes meet, with a factor 4 of slack; validation of lines, multilines, areas and multi-areas against the index operations and ring relations it needs, the latter from a walk of the two indexes; sub rest: building, lengths, boundaries, hulls, multipoint validation and simplification of up to thousands of positions against n log n; sub time: each of these on 300 000 to 500 000 items, in processor time against sorting as many numbers (the least of up to five tries, a factor of at least 4 of slack). Non-trivial: a query that meets under an eighth of the inner nodes; lines: over 100 positions or 20 lines; areas: over 100 positions.",
            assumptions: &["work is measured in operations on coordinates, bytes allocated and, with generous limits, processor time"],
            subs: vec![
                random("index", 12_000, 400_000, || tape(60, gen_c29), t_c29),
                random("lines", 2_000, 60_000, || tape(5000, gen_c29_lines), t_c29_lines),
                random("areas", 1_000, 40_000, || tape(5000, gen_c29_areas), t_c29_areas),
                random("rest", 1_000, 40_000, || tape(5000, gen_c29_rest), t_c29_rest),
                random("time", 32, 600, || tape(40, gen_c29_time), t_c29_time),
            ],
        },
        Prop {
            id: "C30",
            rule: "Shapes of every kind and validity class on lattices exact in both precisions: some thirty kinds of answers asked twice, in another thread, of a rebuilt object, of the f32 object and of the object read from text; indexes over arbitrary f32 boxes likewise, in both modes and two degrees. Sub history: two to four shapes of one make differing in a place, asked in random turns as kept, new and edited objects, against the answers each gives alone (non-trivial: not all alike). Sub together: such shapes asked by three threads at once, forty times each. Non-trivial: at least three positions; indexes: two items.",
            assumptions: &["crossing points inside two segments are not compared between precisions", "order of search results is not compared"],
            subs: vec![
                super::vast::sub("C30"),
                random("shapes", 40_000, 1_500_000, || tape(1400, gen_c30), t_c30),
                random("index", 30_000, 1_000_000, || tape(900, gen_c30_index), t_c30_index),
                random("text", 30_000, 1_000_000, || tape(1400, gen_c30_text), t_c30_text),
                random("together", 1_000, 40_000, || tape(1500, gen_c30_history), t_c30_together),
                random("history", 25_000, 1_000_000, || tape(1500, gen_c30_history), t_c30_history),
            ],
        },
    ]
}
