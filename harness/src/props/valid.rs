//! C11-C14 (validity against the definitions), C16 (total), C17 (same shape, same answer).
use crate::engine::*;
use crate::exact::{self, Rings, P};
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::planar::primitives::{HasEnvelope, Position};
use magog::planar::types::{
    Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon,
};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LineC {
    emb: Emb,
    l: Vec<P>,
    /// Replace one coordinate by this value.
    bad: Option<(usize, bool, F)>,
}

/// The lattice embedding: near-contacts need not be looked for.
fn lat(t: &mut Tape, lines: &mut [&mut Vec<P>]) -> Lat {
    if t.chance(1, 5) {
        return Lat::near(t, lines);
    }
    let w = normalize(lines);
    Lat::gen(t, w)
}
fn gen_c11_large(t: &mut Tape) -> LineC {
    let mut l = large_line(t);
    let emb = Emb::Lat(lat(t, &mut [&mut l]));
    LineC { emb, l, bad: None }
}

fn gen_c11_recti(t: &mut Tape) -> LineC {
    let mut l = recti_line(t);
    LineC { emb: Emb::warp(t, &mut [&mut l]), l, bad: None }
}

fn gen_c11(t: &mut Tape) -> LineC {
    let mut l = any_line(t);
    let emb = Emb::gen(t, &mut [&mut l]);
    let bad = if t.chance(1, 12) && !l.is_empty() {
        let v = *t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        Some((t.below(l.len()), t.chance(1, 2), F::of(v)))
    } else {
        None
    };
    LineC { emb, l, bad }
}

/// Shapes that stay simple in floats: monotone chains and star rings.
fn gen_c11_long(t: &mut Tape) -> LineC {
    let n = 2 + t.below(120) as i64;
    let mut l: Vec<P> = match t.below(3) {
        0 => (0..n).map(|i| (3 * i + t.range(0, 1), t.range(0, 40))).collect(),
        1 => {
            let m = n.max(4).min(60);
            let mut v: Vec<P> = (0..m)
                .map(|i| {
                    let a = (i as f64 + 0.6 * t.unit()) / m as f64 * std::f64::consts::TAU;
                    let r = 2000.0 + 3000.0 * t.unit();
                    ((r * a.cos()) as i64, (r * a.sin()) as i64)
                })
                .collect();
            if t.chance(3, 4) {
                let f = v[0];
                v.push(f);
            }
            v
        }
        _ => long_line(t, n as usize),
    };
    // sometimes run the last segment into the rest
    if t.chance(1, 3) && l.len() > 3 {
        let k = t.below(l.len() - 1);
        let p = match t.below(3) {
            0 => l[k],
            1 => ((l[k].0 + l[k + 1].0) / 2, (l[k].1 + l[k + 1].1) / 2),
            _ => {
                let e = l[l.len() - 1];
                (l[k].0 + l[k + 1].0 - e.0, l[k].1 + l[k + 1].1 - e.1)
            }
        };
        l.push(p);
    }
    if t.chance(1, 2) {
        l.reverse();
    }
    let emb = Emb::gen(t, &mut [&mut l]);
    LineC { emb, l, bad: None }
}

fn all_lines(tier: Tier) -> CaseIter<LineC> {
    // Every sequence of positions on a 3x3 grid, by length; then on 4x4 and 5x2.
    fn seqs(w: i64, h: i64, n: u32) -> Box<dyn Iterator<Item = Vec<P>>> {
        let m = w * h;
        Box::new((0..m.pow(n)).map(move |mut i| {
            (0..n)
                .map(|_| {
                    let c = i % m;
                    i /= m;
                    (c % w, c / w)
                })
                .collect()
        }))
    }
    let mut it: CaseIter<Vec<P>> = Box::new(std::iter::once(vec![]));
    let top = if tier == Tier::Quick { 6 } else { 7 };
    for n in 1..=top {
        it = Box::new(it.chain(seqs(3, 3, n)));
    }
    it = Box::new(it.chain(seqs(4, 4, 4)));
    it = Box::new(it.chain(seqs(5, 2, 5)));
    if tier == Tier::Thorough {
        it = Box::new(it.chain(seqs(4, 4, 5)));
        it = Box::new(it.chain(seqs(6, 2, 6)));
    }
    Box::new(it.enumerate().map(|(i, l)| {
        let f32 = i % 2 == 1;
        let lat = if i % 5 == 0 { Lat { f32, k: -2, ox: -1, oy: -1, nz: true } } else { Lat { f32, ..Lat::PLAIN } };
        LineC { emb: Emb::Lat(lat), l, bad: None }
    }))
}

fn t_c11(c: &LineC) -> R {
    by_type!(c.emb.is32(), c11(c))
}
fn c11<C: Flt>(c: &LineC) -> R {
    if !c.emb.decides(&[&c.l]) {
        return Ok(Obs::new(false).tag("near-contact in floats"));
    }
    let mut ls: LineString<C> = c.emb.line(&c.l);
    let (mut valid, mut closed) = (exact::line_valid(&c.l), exact::closed(&c.l));
    if let Some((i, y, v)) = c.bad {
        let mut ps = ls.positions.clone();
        if y {
            ps[i].y = C::of64(v.v());
        } else {
            ps[i].x = C::of64(v.v());
        }
        valid = false;
        if i == 0 || i + 1 == ps.len() {
            let (a, b) = (ps[0], ps[ps.len() - 1]);
            closed = ps.len() >= 4 && a.x == b.x && a.y == b.y;
        }
        ls = LineString::new(ps);
    }
    let d = || format!("{:?} {:?}", c.emb, c.l);
    let v = ls.validate();
    ensure!(v.is_ok() == valid, "{}: validate says {:?}, but simple = {}", d(), v, valid);
    ensure!(ls.is_simple() == valid, "{}: is_simple = {}, expected {}", d(), ls.is_simple(), valid);
    ensure!(ls.is_closed() == closed, "{}: is_closed = {}, expected {}", d(), ls.is_closed(), closed);
    ensure!(
        ls.is_ring() == (closed && valid),
        "{}: is_ring = {}, closed {} and simple {}",
        d(),
        ls.is_ring(),
        closed,
        valid
    );
    Ok(Obs::new(c.l.len() >= 3)
        .tag(match (valid, closed) {
            (true, true) => "ring",
            (true, false) => "simple",
            (false, true) => "closed, not simple",
            (false, false) => "not simple",
        })
        .tag_if(c.emb.fine(), "rounding coordinates")
        .tag_if(c.bad.is_some(), "non-finite")
        .tag_if(c.l.len() > 20, "long"))
}

// ------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinesC {
    emb: Emb,
    ls: Vec<Vec<P>>,
}

fn refs(ls: &mut [Vec<P>]) -> Vec<&mut Vec<P>> {
    ls.iter_mut().collect()
}

fn gen_c12(t: &mut Tape) -> LinesC {
    let mut ls = any_multiline(t);
    let emb = Emb::gen(t, &mut refs(&mut ls));
    LinesC { emb, ls }
}

/// A grid of roads cut at its nodes, then possibly damaged.
fn gen_c12_large(t: &mut Tape) -> LinesC {
    if t.chance(1, 4) {
        let g = 8 + t.range(0, 16);
        return road_grid(t, g);
    }
    let mut ls = large_multiline(t);
    let emb = Emb::Lat(lat(t, &mut refs(&mut ls)));
    LinesC { emb, ls }
}
fn gen_c12_grid(t: &mut Tape) -> LinesC {
    let g = 2 + t.range(0, 5);
    road_grid(t, g)
}
fn road_grid(t: &mut Tape, g: i64) -> LinesC {
    let mut ls: Vec<Vec<P>> = Vec::new();
    for x in 0..=g {
        for y in 0..=g {
            for (dx, dy) in [(1, 0), (0, 1)] {
                if x + dx <= g && y + dy <= g && t.chance(2, 3) {
                    let (a, b) = ((4 * x, 4 * y), (4 * (x + dx), 4 * (y + dy)));
                    let mut l = vec![a];
                    // a bend off the axis keeps clear of everything else
                    if t.chance(1, 2) {
                        l.push((a.0 + 2 * dx + dy, a.1 + 2 * dy + dx));
                    }
                    l.push(b);
                    ls.push(l);
                }
            }
        }
    }
    match t.below(6) {
        0 => ls.push(vec![(1, -1), (4 * g - 1, 4 * g + 1)]),
        1 => {
            // ends on the middle of a road
            if !ls.is_empty() {
                let l = t.pick(&ls).clone();
                let k = t.below(l.len() - 1);
                let m = ((l[k].0 + l[k + 1].0) / 2, (l[k].1 + l[k + 1].1) / 2);
                ls.push(vec![m, (m.0 + 1, m.1 + 2)]);
            }
        }
        2 => {
            // a bend of one is the end of another
            if let Some(l) = ls.iter().find(|l| l.len() == 3).cloned() {
                ls.push(vec![l[1], (l[1].0 + 1, l[1].1 + 1)]);
            }
        }
        3 => {
            // a closed member through a node
            let (x, y) = (4 * t.range(0, g), 4 * t.range(0, g));
            ls.push(vec![(x, y), (x + 2, y + 1), (x + 1, y + 2), (x, y)]);
        }
        _ => {}
    }
    for l in ls.iter_mut() {
        if t.chance(1, 2) {
            l.reverse();
        }
    }
    t.shuffle(&mut ls);
    let emb = Emb::gen(t, &mut refs(&mut ls));
    LinesC { emb, ls }
}

fn all_pairs_of_lines(tier: Tier) -> CaseIter<LinesC> {
    let pt = |i: i64| (i % 3, i / 3);
    let mut one: Vec<Vec<P>> = vec![vec![]];
    for a in 0..9 {
        for b in 0..9 {
            if a == b {
                continue;
            }
            one.push(vec![pt(a), pt(b)]);
            for c in 0..9 {
                if c != b {
                    one.push(vec![pt(a), pt(b), pt(c)]);
                }
            }
        }
    }
    if tier == Tier::Thorough {
        // closed triangles too
        for a in 0..9 {
            for b in 0..9 {
                for c in 0..9 {
                    let r = vec![pt(a), pt(b), pt(c), pt(a)];
                    if exact::is_ring(&r) {
                        one.push(r);
                    }
                }
            }
        }
    } else {
        one.push(vec![(0, 0), (2, 0), (1, 2), (0, 0)]);
        one.push(vec![(1, 0), (2, 1), (1, 2), (0, 1), (1, 0)]);
    }
    let n = one.len();
    Box::new((0..n * n).map(move |i| LinesC {
        emb: Emb::Lat(Lat { f32: i % 2 == 1, nz: i % 3 == 1, ..Lat::PLAIN }),
        ls: vec![one[i / n].clone(), one[i % n].clone()],
    }))
}

fn t_c12(c: &LinesC) -> R {
    by_type!(c.emb.is32(), c12(c))
}
fn c12<C: Flt>(c: &LinesC) -> R {
    if !c.emb.decides(&c.ls.iter().collect::<Vec<_>>()) {
        return Ok(Obs::new(false).tag("near-contact in floats"));
    }
    let valid = exact::multiline_valid(&c.ls);
    let mut rev: Vec<Vec<P>> = c.ls.iter().rev().cloned().collect();
    for (i, l) in rev.iter_mut().enumerate() {
        if i % 2 == 0 {
            l.reverse();
        }
    }
    for ls in [&c.ls, &rev] {
        let m: MultiLineString<C> = c.emb.mls(ls);
        let v = m.validate();
        ensure!(v.is_ok() == valid, "{:?} {:?}: validate says {:?}, expected valid = {}", c.emb, ls, v, valid);
        ensure!(m.is_simple() == valid, "{:?} {:?}: is_simple = {}", c.emb, ls, m.is_simple());
    }
    let members_ok = c.ls.iter().all(|l| exact::line_valid(l));
    let mut meet = false;
    for i in 0..c.ls.len() {
        for j in 0..i {
            let (a, b) = (bbox(&c.ls[i]), bbox(&c.ls[j]));
            meet |= !c.ls[i].is_empty()
                && !c.ls[j].is_empty()
                && a.0 <= b.2
                && b.0 <= a.2
                && a.1 <= b.3
                && b.1 <= a.3;
        }
    }
    Ok(Obs::new(members_ok && meet)
        .tag(match (valid, members_ok) {
            (true, _) => "valid",
            (_, true) => "members conflict",
            _ => "a member is invalid",
        })
        .tag_if(c.emb.fine(), "rounding coordinates")
        .tag_if(c.ls.len() > 8, "many members"))
}

// ------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyC {
    emb: Emb,
    r: Rings,
}

fn gen_c12_recti(t: &mut Tape) -> LinesC {
    let mut ls = recti_multiline(t);
    LinesC { emb: Emb::warp(t, &mut refs(&mut ls)), ls }
}
fn gen_c13_recti(t: &mut Tape) -> PolyC {
    let mut r = recti_polygon(t);
    PolyC { emb: Emb::warp(t, &mut refs(&mut r)), r }
}
fn gen_c14_recti(t: &mut Tape) -> MPolyC {
    let mut m = recti_multipolygon(t);
    MPolyC { emb: Emb::warp(t, &mut m.iter_mut().flatten().collect::<Vec<_>>()), m }
}
fn gen_c13_large(t: &mut Tape) -> PolyC {
    let mut r = large_polygon(t);
    let emb = Emb::Lat(lat(t, &mut refs(&mut r)));
    PolyC { emb, r }
}
fn gen_c13(t: &mut Tape) -> PolyC {
    let mut r = any_polygon(t);
    let emb = Emb::gen(t, &mut refs(&mut r));
    PolyC { emb, r }
}

fn fixed_rings() -> Vec<Vec<P>> {
    let c = |v: &[P]| {
        let mut v = v.to_vec();
        v.push(v[0]);
        v
    };
    vec![
        c(&[(0, 0), (4, 0), (4, 4), (0, 4)]),
        c(&[(0, 0), (4, 0), (4, 4)]),
        c(&[(2, 0), (4, 2), (2, 4), (0, 2)]),
        c(&[(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)]),
        c(&[(0, 0), (4, 0), (4, 4), (3, 4), (3, 2), (1, 2), (1, 4), (0, 4)]),
        c(&[(0, 0), (4, 0), (2, 2), (4, 4), (0, 4)]),
        c(&[(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (4, 3), (4, 4), (0, 4)]),
        c(&[(0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2)]),
        c(&[(1, 0), (3, 0), (3, 1), (4, 1), (4, 3), (3, 3), (3, 4), (1, 4), (1, 3), (0, 3), (0, 1), (1, 1)]),
        c(&[(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (0, 2)]),
        c(&[(0, 0), (2, 2), (4, 0), (4, 4), (0, 4)]),
        c(&[(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]),
    ]
}
fn triangles(w: i64) -> Vec<Vec<P>> {
    let n = w * w;
    let p = |i: i64| (i % w, i / w);
    let mut v = Vec::new();
    for a in 0..n {
        for b in 0..a {
            for c in 0..b {
                if exact::orient(p(a), p(b), p(c)) != 0 {
                    v.push(vec![p(a), p(b), p(c), p(a)]);
                }
            }
        }
    }
    v
}
fn quads(w: i64) -> Vec<Vec<P>> {
    let n = w * w;
    let p = |i: i64| (i % w, i / w);
    let mut v = Vec::new();
    for a in 0..n {
        for b in 0..a {
            for c in 0..a {
                for d in 0..c {
                    let r = vec![p(a), p(b), p(c), p(d), p(a)];
                    if b != c && b != d && exact::is_ring(&r) {
                        v.push(r);
                    }
                }
            }
        }
    }
    v
}
fn lat_for(i: usize) -> Emb {
    Emb::Lat(Lat { f32: i % 2 == 1, nz: i % 7 == 3, ..Lat::PLAIN })
}

/// Fixed exteriors with every triangle (and small quadrilateral) as hole.
fn all_holes(tier: Tier) -> CaseIter<PolyC> {
    let ext = fixed_rings();
    let mut holes = triangles(5);
    holes.extend(quads(if tier == Tier::Quick { 3 } else { 4 }));
    let n = holes.len();
    Box::new((0..ext.len() * n).map(move |i| PolyC {
        emb: lat_for(i),
        r: vec![ext[i / n].clone(), holes[i % n].clone()],
    }))
}
/// Every pair of triangles on a small grid as holes of a large square.
fn all_hole_pairs(tier: Tier) -> CaseIter<PolyC> {
    let mut h = triangles(if tier == Tier::Quick { 3 } else { 4 });
    h.extend(quads(3));
    h.extend(fixed_rings());
    let n = h.len();
    let sq = vec![(-1, -1), (6, -1), (6, 6), (-1, 6), (-1, -1)];
    Box::new((0..n * n).map(move |i| PolyC {
        emb: lat_for(i),
        r: vec![sq.clone(), h[i / n].clone(), h[i % n].clone()],
    }))
}

fn t_c13(c: &PolyC) -> R {
    by_type!(c.emb.is32(), c13(c))
}
fn c13<C: Flt>(c: &PolyC) -> R {
    if !c.emb.decides(&c.r.iter().collect::<Vec<_>>()) {
        return Ok(Obs::new(false).tag("near-contact in floats"));
    }
    let valid = exact::polygon_valid(&c.r);
    let p: Polygon<C> = c.emb.poly(&c.r);
    let v = p.validate();
    ensure!(v.is_ok() == valid, "{:?} {:?}: validate says {:?}, expected valid = {}", c.emb, c.r, v, valid);
    ensure!(p.is_simple() == valid, "{:?} {:?}: is_simple = {}", c.emb, c.r, p.is_simple());
    let rings_ok = c.r.iter().all(|r| exact::is_ring(r));
    let mut obs = Obs::new(rings_ok && c.r.len() >= 2)
        .tag(match (valid, rings_ok) {
            (true, _) => "valid",
            (_, true) => "rings conflict",
            _ => "not rings",
        })
        .tag_if(c.emb.fine(), "rounding coordinates")
        .tag_if(c.r.len() > 9, "many holes");
    if obs.nontrivial {
        let (mut touch, mut all_on) = (0, false);
        for i in 0..c.r.len().min(6) {
            for j in 0..i {
                let x = exact::rel(&c.r[j], &c.r[i]);
                touch = touch.max(x.touches);
                all_on |= x.all_on;
            }
        }
        obs = obs
            .tag_if(touch == 1, "rings touch at one point")
            .tag_if(touch >= 2, "rings touch at several points")
            .tag_if(all_on, "a ring has all its vertices on another");
    }
    Ok(obs)
}

// ------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MPolyC {
    emb: Emb,
    m: Vec<Rings>,
}

fn gen_c14_large(t: &mut Tape) -> MPolyC {
    let mut m = large_multipolygon(t);
    let emb = Emb::Lat(lat(t, &mut m.iter_mut().flatten().collect::<Vec<_>>()));
    MPolyC { emb, m }
}
fn gen_c14(t: &mut Tape) -> MPolyC {
    let mut m = any_multipolygon(t);
    let emb = Emb::gen(t, &mut m.iter_mut().flatten().collect::<Vec<_>>());
    MPolyC { emb, m }
}
fn all_poly_pairs(tier: Tier) -> CaseIter<MPolyC> {
    let mut h = triangles(if tier == Tier::Quick { 3 } else { 4 });
    h.extend(quads(3));
    h.extend(fixed_rings());
    let mut ps: Vec<Rings> = h.into_iter().map(|r| vec![r]).collect();
    // with holes
    let c = |x0: i64, y0: i64, x1: i64, y1: i64| vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)];
    ps.push(vec![c(-1, -1, 5, 5), c(0, 0, 4, 4)]);
    ps.push(vec![c(-1, -1, 5, 5), c(0, 0, 2, 2), c(2, 2, 4, 4)]);
    ps.push(vec![c(-1, -1, 5, 5), vec![(2, 0), (4, 2), (2, 4), (0, 2), (2, 0)]]);
    ps.push(vec![c(-1, -1, 6, 6), c(0, 0, 3, 5), c(4, 0, 5, 5)]);
    ps.push(vec![vec![]]);
    let n = ps.len();
    Box::new((0..n * n).map(move |i| MPolyC { emb: lat_for(i), m: vec![ps[i / n].clone(), ps[i % n].clone()] }))
}

fn t_c14(c: &MPolyC) -> R {
    by_type!(c.emb.is32(), c14(c))
}
fn c14<C: Flt>(c: &MPolyC) -> R {
    if !c.emb.decides(&c.m.iter().flatten().collect::<Vec<_>>()) {
        return Ok(Obs::new(false).tag("near-contact in floats"));
    }
    let valid = exact::multipolygon_valid(&c.m);
    let rev: Vec<Rings> = c.m.iter().rev().cloned().collect();
    for m in [&c.m, &rev] {
        let g: MultiPolygon<C> = c.emb.mpoly(m);
        let v = g.validate();
        ensure!(v.is_ok() == valid, "{:?} {:?}: validate says {:?}, expected valid = {}", c.emb, m, v, valid);
        ensure!(g.is_simple() == valid, "{:?} {:?}: is_simple = {}", c.emb, m, g.is_simple());
    }
    let members_ok = c.m.iter().all(exact::polygon_valid);
    let live: Vec<&Rings> = c.m.iter().filter(|p| !p.is_empty() && !p[0].is_empty()).collect();
    let mut obs = Obs::new(members_ok && live.len() >= 2)
        .tag(match (valid, members_ok) {
            (true, _) => "valid",
            (_, true) => "members conflict",
            _ => "a member is invalid",
        })
        .tag_if(c.emb.fine(), "rounding coordinates")
        .tag_if(live.len() > 8, "many members");
    if obs.nontrivial {
        let (mut touch, mut nested) = (false, false);
        for i in 0..live.len().min(6) {
            for j in 0..i {
                let x = exact::rel(&live[i][0], &live[j][0]);
                touch |= x.touches > 0;
                nested |= matches!(x.rel, exact::Rel::Within | exact::Rel::Contains);
            }
        }
        obs = obs.tag_if(touch, "exteriors touch").tag_if(nested, "exteriors nest");
    }
    Ok(obs)
}

// ------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Wild {
    pub f32: bool,
    /// Polygons as lists of rings; the other types are built from the same lists.
    pub m: Vec<Vec<Vec<FP>>>,
    /// Every coordinate is finite by construction.
    pub finite: bool,
}

fn gen_c16(t: &mut Tape) -> Wild {
    let is32 = t.chance(1, 3);
    let v = |t: &mut Tape, clean: bool| loop {
        let x = wild(t, is32);
        if !clean || x.is_finite() {
            return x;
        }
        if t.word() == 0 {
            return 1.0;
        }
    };
    let clean = t.chance(2, 3);
    // A few values used over and over make contacts likely.
    let pool: Vec<f64> = (0..2 + t.below(5)).map(|_| v(t, clean)).collect();
    let np = 1 + t.below(3);
    let m: Vec<Vec<Vec<FP>>> = (0..np)
        .map(|_| {
            let nr = t.below(4);
            (0..nr)
                .map(|_| {
                    let n = t.below(8);
                    let pooled = t.chance(2, 3);
                    let mut l: Vec<FP> = (0..n)
                        .map(|_| {
                            if pooled {
                                (F::of(*t.pick(&pool)), F::of(*t.pick(&pool)))
                            } else {
                                fp(v(t, clean), v(t, clean))
                            }
                        })
                        .collect();
                    if !l.is_empty() && t.chance(2, 3) {
                        l.push(l[0]);
                    }
                    l
                })
                .collect()
        })
        .collect();
    let finite = m.iter().flatten().flatten().all(|p| ok(is32, p));
    Wild { f32: is32, m, finite }
}
fn ok(is32: bool, p: &FP) -> bool {
    let f = |x: F| if is32 { (x.v() as f32).is_finite() } else { x.v().is_finite() };
    f(p.0) && f(p.1)
}

/// A well-shaped geometry whose axes are stretched onto extreme values, so that
/// all the later stages of validation are reached; possibly one coordinate
/// replaced by a non-finite one.
fn gen_c16_shape(t: &mut Tape) -> Wild {
    let is32 = t.chance(1, 3);
    let m = match t.below(4) {
        0 => vec![vec![any_line(t)]],
        1 => vec![any_multiline(t)],
        2 => vec![any_polygon(t)],
        _ => any_multipolygon(t),
    };
    stretch(t, is32, m)
}
fn gen_c16_large(t: &mut Tape) -> Wild {
    let is32 = t.chance(1, 3);
    let m = match t.below(4) {
        0 => vec![vec![large_line(t)]],
        1 => vec![large_multiline(t)],
        2 => vec![large_polygon(t)],
        _ => large_multipolygon(t),
    };
    stretch(t, is32, m)
}
pub(super) fn stretch(t: &mut Tape, is32: bool, mut m: Vec<Vec<Vec<P>>>) -> Wild {
    let w = normalize(&mut m.iter_mut().flatten().collect::<Vec<_>>());
    let n = (w + 1) as usize;
    let axis = |t: &mut Tape| -> Vec<f64> {
        let mode = t.below(4);
        let mut v: Vec<f64> = Vec::new();
        let mut tries = 0;
        while v.len() < n && n <= 64 && tries < 4 * n {
            tries += 1;
            let x = match mode {
                0 => *t.pick(&[
                    f64::MAX, f64::MIN, 1e300, -1e300, 1e200, -1e200, 1e154, 1e155, -1e155, 0.0, 5e-324, -5e-324,
                    1e-310, 1e-160, 1e-154, 2.2e-308, 1.0, -1.0, 3.4e38, -3.4e38, 1e19, -1e19, 1e-45, 1e-23, 1e38,
                ]),
                1 => {
                    let e = if is32 { t.range(-149, 127) } else { t.range(-1060, 1023) } as i32;
                    (1.0 + t.unit()) * (2f64).powi(e.max(-1022)) * (2f64).powi(e.min(-1022) + 1022)
                        * if t.chance(1, 2) { -1.0 } else { 1.0 }
                }
                2 => wild(t, is32),
                _ => t.unit() * 1e-3 + 1.0,
            };
            let x = if is32 { x as f32 as f64 } else { x };
            if x.is_finite() && !v.contains(&x) {
                v.push(x);
            }
        }
        let mut i = 0.0;
        while v.len() < n {
            i += 1.0;
            v.push(i * 1.5 + 0.25);
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let (xs, ys) = (axis(t), axis(t));
    let mut m: Vec<Vec<Vec<FP>>> = m
        .iter()
        .map(|p| {
            p.iter().map(|r| r.iter().map(|q| fp(xs[q.0 as usize], ys[q.1 as usize])).collect()).collect()
        })
        .collect();
    if t.chance(1, 3) {
        let bad = *t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let all: Vec<(usize, usize, usize)> = m
            .iter()
            .enumerate()
            .flat_map(|(i, p)| {
                p.iter().enumerate().flat_map(move |(j, r)| (0..r.len()).map(move |k| (i, j, k)))
            })
            .collect();
        if !all.is_empty() {
            let (i, j, k) = *t.pick(&all);
            let y = t.chance(1, 2);
            let set = |q: &mut FP| if y { q.1 = F::of(bad) } else { q.0 = F::of(bad) };
            let last = m[i][j].len() - 1;
            set(&mut m[i][j][k]);
            // keep a closed ring closed (infinities compare equal)
            if k == 0 && t.chance(1, 2) {
                set(&mut m[i][j][last]);
            }
        }
    }
    let finite = m.iter().flatten().flatten().all(|p| ok(is32, p));
    Wild { f32: is32, m, finite }
}

fn t_c16(c: &Wild) -> R {
    by_type!(c.f32, c16(c))
}
fn c16<C: Flt>(c: &Wild) -> R {
    let mk = |r: &Vec<FP>| fline::<C>(r);
    let mk_poly = |p: &Vec<Vec<FP>>| {
        if p.is_empty() {
            Polygon::new(LineString::new(vec![]), vec![])
        } else {
            Polygon::new(mk(&p[0]), p[1..].iter().map(mk).collect())
        }
    };
    let fin = |r: &Vec<FP>| r.iter().all(|p| ok(c.f32, p));
    let mut some_valid = false;
    let mut polys = 0;
    // ans: (valid, simple); finite; empty of its type
    let mut judge = |what: &str, v: Result<(), &'static str>, s: bool, finite: bool, empty: bool| -> Result<(), String> {
        ensure!(v.is_ok() == s, "{}: validate {:?} but is_simple {}", what, v, s);
        ensure!(finite || !s, "{}: valid with a non-finite coordinate", what);
        ensure!(!empty || s, "{}: empty but {:?}", what, v);
        some_valid |= s && !empty;
        Ok(())
    };
    macro_rules! go {
        ($what:expr, $g:expr, $fin:expr, $empty:expr) => {{
            let g = $g;
            let what = format!("{} {:?}", $what, g);
            judge(&what, g.validate(), g.is_simple(), $fin, $empty)?;
            let _ = (g.envelope(), g.is_empty(), g.dimension());
            let b = g.boundary();
            let _ = (b.envelope(), b.is_empty(), b.is_simple(), b.dimension());
            let bb = b.boundary();
            let _ = (bb.envelope(), bb.is_empty(), bb.is_simple());
            let s = g.is_simple();
            let gg: Geometry<C> = g.into();
            ensure!(gg.is_simple() == s, "{}: wrapped is_simple {}", what, !s);
            let _ = (gg.envelope(), gg.is_empty(), gg.boundary().is_empty());
        }};
    }
    for p in &c.m {
        for r in p {
            go!("LineString", mk(r), fin(r), r.is_empty());
            let ls = mk(r);
            let _ = (ls.is_closed(), ls.is_ring(), ls.length(), ls.num_points(), ls.start_point(), ls.end_point());
            let _ = ls.build_rtree();
            let pts = || r.iter().map(|q| Point::new(pos::<C>(*q))).collect::<Vec<_>>();
            go!("MultiPoint", MultiPoint::new(pts()), fin(r), r.is_empty());
            let _ = MultiPoint::new(pts()).make_simple();
            for q in r.iter().take(3) {
                go!("Point", Point::new(pos::<C>(*q)), ok(c.f32, q), false);
            }
        }
        let finite = p.iter().all(fin);
        let empty = p.is_empty();
        go!("MultiLineString", MultiLineString::new(p.iter().map(mk).collect()), finite, p.iter().all(|r| r.is_empty()));
        let m = MultiLineString::new(p.iter().map(mk).collect());
        let _ = (m.is_closed(), m.length());
        go!("Polygon", mk_poly(p), finite, empty || (p.len() == 1 && p[0].is_empty()));
        polys += 1;
    }
    let finite = c.m.iter().flatten().all(fin);
    let empty = c.m.iter().all(|p| p.is_empty() || (p.len() == 1 && p[0].is_empty()));
    go!("MultiPolygon", MultiPolygon::new(c.m.iter().map(mk_poly).collect()), finite, empty);
    let flat: Vec<LineString<C>> = c.m.iter().flatten().map(mk).collect();
    let e = flat.iter().all(|l| l.is_empty());
    go!("MultiLineString", MultiLineString::new(flat), finite, e);
    let _ = polys;
    let any = c.m.iter().flatten().flatten().next().is_some();
    Ok(Obs::new(any).tag(if c.finite { "finite" } else { "non-finite" }).tag_if(some_valid, "a part is valid"))
}

// ------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Shape {
    Line(Vec<P>),
    Lines(Vec<Vec<P>>),
    Poly(Rings),
    MPoly(Vec<Rings>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C17 {
    emb: Emb,
    s: Shape,
    /// Rewritings to apply, each alone and then all together.
    ops: Vec<(u8, u32)>,
}

impl Shape {
    pub fn lines(&self) -> Vec<&Vec<P>> {
        match self {
            Shape::Line(l) => vec![l],
            Shape::Lines(m) | Shape::Poly(m) => m.iter().collect(),
            Shape::MPoly(m) => m.iter().flatten().collect(),
        }
    }
    pub fn lines_mut(&mut self) -> Vec<&mut Vec<P>> {
        match self {
            Shape::Line(l) => vec![l],
            Shape::Lines(m) | Shape::Poly(m) => m.iter_mut().collect(),
            Shape::MPoly(m) => m.iter_mut().flatten().collect(),
        }
    }
    /// By the exact oracle.
    pub fn truly_valid(&self) -> bool {
        match self {
            Shape::Line(l) => exact::line_valid(l),
            Shape::Lines(m) => exact::multiline_valid(m),
            Shape::Poly(r) => exact::polygon_valid(r),
            Shape::MPoly(m) => exact::multipolygon_valid(m),
        }
    }
    pub fn valid<C: Flt>(&self, e: &Emb) -> bool {
        match self {
            Shape::Line(l) => e.line::<C>(l).validate().is_ok(),
            Shape::Lines(m) => e.mls::<C>(m).validate().is_ok(),
            Shape::Poly(r) => e.poly::<C>(r).validate().is_ok(),
            Shape::MPoly(m) => e.mpoly::<C>(m).validate().is_ok(),
        }
    }
}

/// Another shape with as many lines of as many positions, mostly within the same box.
fn vary(t: &mut Tape, s: &mut Shape) {
    let mut ls = s.lines_mut();
    if ls.is_empty() {
        return;
    }
    let i = t.below(ls.len());
    let all: Vec<P> = ls.iter().flat_map(|l| l.iter().copied()).collect();
    let l = &mut *ls[i];
    let n = l.len();
    if n < 2 {
        return;
    }
    let closed = exact::closed(l);
    // within the line, mostly leaving its ends alone
    let a = if n > 2 && t.chance(5, 6) { 1 + t.below(n - 2) } else { t.below(n) };
    let b = if n > 2 && t.chance(5, 6) { 1 + t.below(n - 2) } else { t.below(n) };
    match t.below(8) {
        0 | 1 => l.swap(a, b),
        2 => l[a] = all[t.below(all.len())],
        3 => l[a] = (l[b].0, l[a].1),
        4 => l[a] = (l[a].0, l[b].1),
        5 => l[a.min(b)..=a.max(b)].reverse(),
        6 => {
            let (x0, y0, x1, y1) = bbox(l);
            l[a] = (t.range(x0, x1), t.range(y0, y1));
        }
        _ => l[a] = l[b],
    }
    if closed && t.chance(7, 8) {
        l[n - 1] = l[0];
    }
}
/// The shape and a few that are much like it.
pub(super) fn alike(t: &mut Tape, s: Shape) -> Vec<Shape> {
    let mut shapes = vec![s];
    for _ in 0..1 + t.below(3) {
        let from = t.below(shapes.len());
        let mut s = shapes[from].clone();
        vary(t, &mut s);
        shapes.push(s);
    }
    shapes
}

/// Shapes much alike, validated one after the other: what was asked before must not
/// show in an answer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alike {
    lat: Lat,
    shapes: Vec<Shape>,
}
fn gen_alike(t: &mut Tape, s: Shape) -> Alike {
    let mut shapes = alike(t, s);
    let lat = lat(t, &mut shapes.iter_mut().flat_map(|s| s.lines_mut()).collect::<Vec<_>>());
    Alike { lat, shapes }
}
fn t_alike(c: &Alike) -> R {
    if c.lat.f32 {
        alike_valid::<f32>(c)
    } else {
        alike_valid::<f64>(c)
    }
}
fn alike_valid<C: Flt>(c: &Alike) -> R {
    let truth: Vec<bool> = c.shapes.iter().map(|s| s.truly_valid()).collect();
    let e = Emb::Lat(c.lat);
    // in this order and back, each built anew, the last twice
    let n = c.shapes.len();
    for i in (0..n).chain((0..n).rev()) {
        let got = c.shapes[i].valid::<C>(&e);
        ensure!(got == truth[i], "shape {} is valid: {}; but validate after the others: {}", i, truth[i], got);
    }
    Ok(Obs::new(truth.iter().any(|v| *v != truth[0])))
}

fn gen_c17(t: &mut Tape) -> C17 {
    let mut s = match t.below(4) {
        0 => Shape::Line(any_line(t)),
        1 => Shape::Lines(any_multiline(t)),
        2 => Shape::Poly(any_polygon(t)),
        _ => Shape::MPoly(any_multipolygon(t)),
    };
    let emb = Emb::gen(t, &mut s.lines_mut());
    let ops = (0..3 + t.below(3)).map(|_| (t.below(8) as u8, t.word())).collect();
    C17 { emb, s, ops }
}

fn gen_c17_recti(t: &mut Tape) -> C17 {
    let mut s = match t.below(4) {
        0 => Shape::Line(recti_line(t)),
        1 => Shape::Lines(recti_multiline(t)),
        2 => Shape::Poly(recti_polygon(t)),
        _ => Shape::MPoly(recti_multipolygon(t)),
    };
    let emb = Emb::warp(t, &mut s.lines_mut());
    let ops = (0..3 + t.below(3)).map(|_| (t.below(8) as u8, t.word())).collect();
    C17 { emb, s, ops }
}
fn gen_c17_large(t: &mut Tape) -> C17 {
    let mut s = match t.below(4) {
        0 => Shape::Line(large_line(t)),
        1 => Shape::Lines(large_multiline(t)),
        2 => Shape::Poly(large_polygon(t)),
        _ => Shape::MPoly(large_multipolygon(t)),
    };
    let emb = Emb::Lat(lat(t, &mut s.lines_mut()));
    let ops = (0..3 + t.below(3)).map(|_| (t.below(8) as u8, t.word())).collect();
    C17 { emb, s, ops }
}

/// An order drawn from one number.
struct Lcg(u64);
impl Lcg {
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            self.0 = self.0.wrapping_add(i as u64).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (self.0 >> 33) as usize % (i + 1));
        }
    }
}

/// Two to sixteen parts (holes, members) in cells of their own, one of them made to
/// meet another one or to be none at all: what is wrong lies between any two.
pub(super) fn parts(t: &mut Tape) -> Shape {
    let side = 2 + t.below(3) as i64;
    let mut cells: Vec<P> = (0..side * side).map(|i| (i % side, i / side)).collect();
    t.shuffle(&mut cells);
    let n = 2 + t.below(cells.len() - 1);
    let small = t.chance(1, 2);
    let mut ps: Rings = (0..n).map(|_| if small { rect(0, 0, 1 + t.range(0, 3), 1 + t.range(0, 3)) } else { ring(t) }).collect();
    let size = ps.iter().map(|r| { let b = bbox(r); (b.2 - b.0).max(b.3 - b.1) }).max().unwrap();
    // (next to each other, they may touch)
    let pitch = size + *t.pick(&[0, 1, 4]);
    for (r, c) in ps.iter_mut().zip(&cells) {
        let b = bbox(r);
        *r = shift(r, (c.0 * pitch - b.0, c.1 * pitch - b.1));
    }
    if t.chance(3, 4) {
        let (i, j) = (t.below(n), t.below(n));
        match t.below(5) {
            0 => ps[i] = shift(&ps[j], (t.range(-2, 2), t.range(-2, 2))),
            1 | 2 => {
                if let Some(r) = contact_ring(t, &ps[j]) {
                    ps[i] = r;
                }
            }
            3 => {
                let (a, b) = (bbox(&ps[i]), bbox(&ps[j]));
                ps[i] = rect(a.0.min(b.0), a.1.min(b.1), a.2.max(b.2), a.3.max(b.3));
            }
            _ => mutate_line(t, &mut ps[i], pitch * side),
        }
    }
    match t.below(3) {
        0 => {
            let frame = rect(-1 - t.range(0, 1), -1, pitch * side + 1, pitch * side + 1);
            ps.insert(0, frame);
            Shape::Poly(ps)
        }
        1 => Shape::MPoly(ps.into_iter().map(|r| vec![r]).collect()),
        _ => {
            for l in ps.iter_mut() {
                if l.len() > 3 && t.chance(3, 4) {
                    l.pop();
                }
            }
            Shape::Lines(ps)
        }
    }
}
fn gen_c17_parts(t: &mut Tape) -> C17 {
    let mut s = parts(t);
    let emb = Emb::Lat(lat(t, &mut s.lines_mut()));
    // most of all in other orders
    let ops = (0..3 + t.below(3)).map(|_| (*t.pick(&[0, 1, 2, 2, 2, 3, 5]), t.word())).collect();
    C17 { emb, s, ops }
}

pub(super) fn apply(s: &mut Shape, e: &mut Emb, op: u8, arg: u32) {
    let a = arg as usize;
    match op {
        // reverse some lines
        0 => {
            for (i, l) in s.lines_mut().into_iter().enumerate() {
                if (arg >> (i % 30)) & 1 == 1 || i == 0 {
                    l.reverse();
                }
            }
        }
        // start closed lines elsewhere
        1 => {
            for (i, l) in s.lines_mut().into_iter().enumerate() {
                if exact::closed(l) {
                    *l = rotate_ring(l, a.wrapping_mul(2 * i + 1) >> (i % 5));
                }
            }
        }
        // reorder members and holes
        2 => {
            let mut r = Lcg(arg as u64);
            match s {
                Shape::Line(_) => {}
                Shape::Lines(m) => r.shuffle(m),
                Shape::Poly(p) if p.is_empty() => {}
                Shape::Poly(p) => r.shuffle(&mut p[1..]),
                Shape::MPoly(m) => {
                    r.shuffle(m);
                    m.iter_mut().filter(|p| !p.is_empty()).for_each(|p| r.shuffle(&mut p[1..]));
                }
            }
        }
        // mirror
        3 | 4 => {
            for p in s.lines_mut().into_iter().flatten() {
                if op == 3 {
                    p.0 = -p.0;
                } else {
                    p.1 = -p.1;
                }
            }
            if let Emb::Lat(l) = e {
                if op == 3 {
                    l.ox = -l.ox;
                } else {
                    l.oy = -l.oy;
                }
            }
        }
        // swap the axes
        5 => {
            for p in s.lines_mut().into_iter().flatten() {
                *p = (p.1, p.0);
            }
            if let Emb::Lat(l) = e {
                std::mem::swap(&mut l.ox, &mut l.oy);
            }
        }
        // power of two
        6 => match e {
            Emb::Lat(l) => l.k = if l.f32 { (a % 101) as i32 - 55 } else { (a % 901) as i32 - 450 },
            Emb::Fine { s, .. } | Emb::Warp { s, .. } => *s = F::of(s.v() * (2f64).powi((a % 21) as i32 - 10)),
        },
        // translate, on exact lattices
        _ => {
            if let Emb::Lat(l) = e {
                let (dx, dy) = ((a % 101) as i64 - 50, (a / 101 % 101) as i64 - 50);
                l.ox += dx;
                l.oy += dy;
                let far = if l.f32 { Lat::FAR_32 } else { Lat::FAR_64 };
                if a % 7 == 0 {
                    let m = if a % 2 == 0 { far } else { far >> 8 };
                    l.ox += (a / 7 % 3) as i64 * m - m;
                    l.oy += (a / 21 % 3) as i64 * m - m;
                }
                l.ox = l.ox.clamp(-far, far);
                l.oy = l.oy.clamp(-far, far);
            }
        }
    }
}

fn t_c17(c: &C17) -> R {
    by_type!(c.emb.is32(), c17(c))
}
fn c17<C: Flt>(c: &C17) -> R {
    if !c.emb.decides(&c.s.lines()) {
        return Ok(Obs::new(false).tag("near-contact in floats"));
    }
    let v = c.s.valid::<C>(&c.emb);
    let (mut all, mut all_e) = (c.s.clone(), c.emb);
    for (op, arg) in &c.ops {
        let (mut s, mut e) = (c.s.clone(), c.emb);
        apply(&mut s, &mut e, *op, *arg);
        apply(&mut all, &mut all_e, *op, *arg);
        let w = s.valid::<C>(&e);
        ensure!(w == v, "{:?} {:?} valid = {}, but rewritten (op {}) {:?} {:?} valid = {}", c.emb, c.s, v, op, e, s, w);
    }
    let w = all.valid::<C>(&all_e);
    ensure!(w == v, "{:?} {:?} valid = {}, but rewritten {:?} {:?} valid = {}", c.emb, c.s, v, all_e, all, w);
    // the same single component in the wider types
    for l in c.s.lines().into_iter().take(6) {
        let ls: LineString<C> = c.emb.line(l);
        let x = ls.validate().is_ok();
        let m = c.emb.mls::<C>(&[l.clone()]).validate().is_ok();
        ensure!(m == x, "{:?} {:?}: LineString valid = {}, alone in a MultiLineString {}", c.emb, l, x, m);
        let p = c.emb.poly::<C>(&[l.clone()]).validate().is_ok();
        let want = x && (ls.is_closed() || l.is_empty());
        ensure!(p == want, "{:?} {:?}: as Polygon exterior valid = {}, as LineString {}", c.emb, l, p, x);
    }
    let polys: Vec<&Rings> = match &c.s {
        Shape::Poly(r) => vec![r],
        Shape::MPoly(m) => m.iter().take(4).collect(),
        _ => vec![],
    };
    for r in polys {
        let x = c.emb.poly::<C>(r).validate().is_ok();
        let m = c.emb.mpoly::<C>(&[r.clone()]).validate().is_ok();
        ensure!(m == x, "{:?} {:?}: Polygon valid = {}, alone in a MultiPolygon {}", c.emb, r, x, m);
    }
    let n: usize = c.s.lines().iter().map(|l| l.len()).sum();
    Ok(Obs::new(n >= 3)
        .tag(match (&c.s, v) {
            (Shape::Line(_), true) => "line, valid",
            (Shape::Line(_), false) => "line, invalid",
            (Shape::Lines(_), true) => "lines, valid",
            (Shape::Lines(_), false) => "lines, invalid",
            (Shape::Poly(_), true) => "polygon, valid",
            (Shape::Poly(_), false) => "polygon, invalid",
            (Shape::MPoly(_), true) => "multipolygon, valid",
            (Shape::MPoly(_), false) => "multipolygon, invalid",
        })
        .tag_if(c.emb.fine(), "rounding coordinates"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PointsC {
    lat: Lat,
    pts: Vec<P>,
    bad: bool,
    order: Vec<usize>,
    k: i32,
}
fn gen_c17_many(t: &mut Tape) -> PointsC {
    let w = *t.pick(&[8i64, 60, 400]);
    let most = *t.pick(&[50, 400, 3000]);
    let n = 20 + t.below(most);
    let off = t.below(w as usize);
    let mut pts: Vec<P> = if t.chance(2, 3) {
        // distinct, unless there are more than the grid holds
        (0..n as i64).map(|i| { let i = i + off as i64; (i % w, i / w) }).collect()
    } else {
        (0..n).map(|_| grid_point(t, w)).collect()
    };
    if t.chance(1, 3) {
        let (i, j) = (t.below(n), t.below(n));
        pts[i] = pts[j];
    }
    let mut order: Vec<usize> = (0..n).collect();
    t.shuffle(&mut order);
    let side = pts.iter().map(|p| p.0.max(p.1)).max().unwrap();
    PointsC { lat: Lat::gen(t, side), pts, bad: t.chance(1, 6), order, k: t.range(-9, 9) as i32 }
}
fn gen_c17_points(t: &mut Tape) -> PointsC {
    let w = *t.pick(&[2i64, 5, 30]);
    let n = t.below(9);
    let pts: Vec<P> = (0..n).map(|_| grid_point(t, w)).collect();
    let mut order: Vec<usize> = (0..n).collect();
    t.shuffle(&mut order);
    PointsC { lat: Lat::gen(t, w), pts, bad: t.chance(1, 6), order, k: t.range(-9, 9) as i32 }
}
fn t_c17_points(c: &PointsC) -> R {
    by_type!(c.lat.f32, c17_points(c))
}
fn c17_points<C: Flt>(c: &PointsC) -> R {
    let two: C = C::of64(2.0);
    let mut base: Vec<Position<C>> = c.pts.iter().map(|p| c.lat.p(*p)).collect();
    if c.bad && !base.is_empty() {
        base[0].y = C::nan();
    }
    let valid = |v: Vec<Position<C>>| MultiPoint::from(v).validate().is_ok();
    let v = valid(base.clone());
    let rw: Vec<(&str, Vec<Position<C>>)> = vec![
        ("reordered", c.order.iter().map(|i| base[*i]).collect()),
        ("mirrored in x", base.iter().map(|p| Position::new(-p.x, p.y)).collect()),
        ("mirrored in y", base.iter().map(|p| Position::new(p.x, -p.y)).collect()),
        ("axes swapped", base.iter().map(|p| Position::new(p.y, p.x)).collect()),
        ("scaled", base.iter().map(|p| *p * two.powi(c.k)).collect()),
    ];
    for (n, w) in rw {
        let d = format!("{:?}", w);
        ensure!(valid(w) == v, "{:?} valid = {}, but {} {}", base, v, n, d);
    }
    if base.len() == 1 {
        ensure!(Point::new(base[0]).validate().is_ok() == v, "point and multipoint disagree on {:?}", base);
    }
    Ok(Obs::new(base.len() >= 2).tag(if v { "points, valid" } else { "points, invalid" }))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "Every position sequence up to length 6 on a 3x3 grid (and length 4 on 4x4, 5 on 5x2), and random lines from nonsense to long simple curves, rings, near-miss edits of them, on exact lattices and with rounding coordinates, axis-parallel lines on axes stretched arbitrarily (sub rectilinear), with occasional NaN/infinity, and (sub large) lines and rings of hundreds to thousands of positions, half of them damaged at one place; against pairwise exact integer intersection. Sub alike: two to four shapes of one make differing in a place, validated one after the other and back (non-trivial: not all equally valid). Non-trivial: at least three positions.",
            assumptions: &["rounding coordinates only for shapes without near-contacts (1e-6 of the size in f64, 2e-3 in f32)"],
            subs: vec![super::vast::sub("C11"), 
                exhaustive("grid", all_lines, t_c11),
                random("lines", 400_000, 12_000_000, || tape(420, gen_c11), t_c11),
                random("long", 40_000, 1_000_000, || tape(420, gen_c11_long), t_c11),
                random("large", 12_000, 300_000, || tape(5000, gen_c11_large), t_c11),
                random("rectilinear", 100_000, 3_000_000, || tape(420, gen_c11_recti), t_c11),
                random("alike", 60_000, 2_000_000, || tape(500, |t| { let s = Shape::Line(any_line(t)); gen_alike(t, s) }), t_alike),
            ],
        },
        Prop {
            id: "C12",
            rule: "Every pair of lines of up to three positions (and two rings) on a 3x3 grid, and random collections: networks sharing end nodes, lines hanging off points of others, rings with lines touching them, up to 100 members, and (sub large) members or lines of hundreds; axis-parallel collections on stretched axes (sub rectilinear); both as listed and reversed; against pairwise exact integer intersection. Sub alike: two to four shapes of one make differing in a place, validated one after the other and back (non-trivial: not all equally valid). Non-trivial: all members valid and two of them have boxes that meet.",
            assumptions: &["rounding coordinates only for shapes without near-contacts (1e-6 of the size in f64, 2e-3 in f32)"],
            subs: vec![super::vast::sub("C12"), 
                exhaustive("grid", all_pairs_of_lines, t_c12),
                random("lines", 160_000, 5_000_000, || tape(700, gen_c12), t_c12),
                random("networks", 40_000, 1_000_000, || tape(700, gen_c12_grid), t_c12),
                random("large", 3_000, 80_000, || tape(5000, gen_c12_large), t_c12),
                random("rectilinear", 60_000, 2_000_000, || tape(700, gen_c12_recti), t_c12),
                random("alike", 40_000, 1_500_000, || tape(800, |t| { let s = Shape::Lines(any_multiline(t)); gen_alike(t, s) }), t_alike),
            ],
        },
        Prop {
            id: "C13",
            rule: "Twelve fixed exteriors with every triangle on a 5x5 grid as hole, every pair of small rings as holes of a square, and random polygons (traced cell sets, rings in contact at vertices and edges, crossings through vertices only, grids of up to 36 holes, rings of up to ~150 vertices, damaged structure; sub large: hundreds of holes, rings of hundreds of vertices; sub rectilinear: axis-parallel rings on arbitrarily stretched axes), against exact integer ring relations by midpoint classification. Sub alike: two to four shapes of one make differing in a place, validated one after the other and back (non-trivial: not all equally valid). Non-trivial: all rings are simple closed rings and there is a hole.",
            assumptions: &["rounding coordinates only for shapes without near-contacts (1e-6 of the size in f64, 2e-3 in f32)"],
            subs: vec![super::vast::sub("C13"), 
                exhaustive("holes", all_holes, t_c13),
                exhaustive("hole_pairs", all_hole_pairs, t_c13),
                random("polygons", 120_000, 4_000_000, || tape(900, gen_c13), t_c13),
                random("large", 4_000, 120_000, || tape(5000, gen_c13_large), t_c13),
                random("rectilinear", 60_000, 2_000_000, || tape(700, gen_c13_recti), t_c13),
                random("alike", 40_000, 1_500_000, || tape(1000, |t| { let s = Shape::Poly(any_polygon(t)); gen_alike(t, s) }), t_alike),
            ],
        },
        Prop {
            id: "C14",
            rule: "Every pair of small polygons from a fixed family (triangles and quadrilaterals on a 3x3 grid, fixed rings, polygons with holes), and random multipolygons (tilings touching at corners, islands in holes in islands, rings in contact, crossings through vertices only, components of cell sets, up to 25 members; sub large: hundreds; sub rectilinear: axis-parallel members on stretched axes), as listed and reversed, against exact integer ring relations. Sub alike: two to four shapes of one make differing in a place, validated one after the other and back (non-trivial: not all equally valid). Non-trivial: all members valid, at least two not empty.",
            assumptions: &["rounding coordinates only for shapes without near-contacts (1e-6 of the size in f64, 2e-3 in f32)"],
            subs: vec![super::vast::sub("C14"), 
                exhaustive("pairs", all_poly_pairs, t_c14),
                random("multipolygons", 100_000, 3_000_000, || tape(1400, gen_c14), t_c14),
                random("large", 4_000, 120_000, || tape(5000, gen_c14_large), t_c14),
                random("rectilinear", 60_000, 2_000_000, || tape(700, gen_c14_recti), t_c14),
                random("alike", 25_000, 1_000_000, || tape(1500, |t| { let s = Shape::MPoly(any_multipolygon(t)); gen_alike(t, s) }), t_alike),
            ],
        },
        Prop {
            id: "C16",
            rule: "Polygons, lines and points built from one list of lists of positions with arbitrary bit patterns, and well-formed shapes whose axes are stretched onto extreme magnitudes (up to the largest and down to subnormal), with and without a non-finite coordinate, up to thousands of positions (sub large). Every type's validation, simplicity, envelope, boundary must return; non-finite is never valid; empty is valid; simple equals valid. Non-trivial: there is a position.",
            assumptions: &[],
            subs: vec![
                super::vast::sub("C16"),
                random("bits", 200_000, 6_000_000, || tape(160, gen_c16), t_c16),
                random("stretched", 100_000, 3_000_000, || tape(1000, gen_c16_shape), t_c16),
                random("large", 1_500, 40_000, || tape(5000, gen_c16_large), t_c16),
            ],
        },
        Prop {
            id: "C17",
            rule: "Random lines, multilines, polygons, multipolygons of every validity class, each rewritten by 3-5 operations (reverse, rotate start, reorder, mirror, swap axes, scale by a power of two, translate) singly and all together; multipoints likewise; subs large and many_points: up to thousands of positions; sub rectilinear: axis-parallel shapes on stretched axes; sub parts: up to sixteen holes or members of which two meet, mostly reordered; single components compared across types. Non-trivial: at least three positions (multipoints: two).",
            assumptions: &["rounding coordinates only for shapes without near-contacts (1e-6 of the size in f64, 2e-3 in f32)"],
            subs: vec![
                super::vast::sub("C17"),
                random("shapes", 120_000, 4_000_000, || tape(1000, gen_c17), t_c17),
                random("points", 100_000, 2_000_000, || tape(60, gen_c17_points), t_c17_points),
                random("large", 1_500, 40_000, || tape(5000, gen_c17_large), t_c17),
                random("rectilinear", 40_000, 1_200_000, || tape(700, gen_c17_recti), t_c17),
                random("parts", 40_000, 1_500_000, || tape(1200, gen_c17_parts), t_c17),
                random("many_points", 4_000, 120_000, || tape(5000, gen_c17_many), t_c17_points),
            ],
        },
    ]
}
