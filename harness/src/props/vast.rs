//! Objects too large for a tape, described by a few numbers: tens of thousands of
//! positions or members, around the powers of two where counters and sizes change.
//! What is right follows from the construction.
use crate::engine::*;
use crate::exact::{self, P};
use crate::gens::{Emb, Flt, Lat};
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use super::valid::{apply, Shape};
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment, SegmentIntersection};
use magog::planar::types::{Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use magog::serde::wkt::parse_wkt;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vast {
    f32: bool,
    n: usize,
    /// Layout, and what is done to it at `i` (and `j`).
    kind: u8,
    what: u8,
    i: usize,
    j: usize,
}

fn gen_vast(t: &mut Tape) -> Vast {
    let near = *t.pick(&[255i64, 4096, 32768, 65536, 65536, 65536, 70_000, 100_000, 131_072]);
    let n = (near + t.range(-2, 3)) as usize;
    let at = |t: &mut Tape| match t.below(4) {
        0 => t.below(n),
        1 => n - 1 - t.below(9),
        2 => (near as usize - 3 + t.below(6)).min(n - 1),
        _ => [0, 1, 2, 7, 8, 255, 256][t.below(7)].min(n - 1),
    };
    let (i, mut j) = (at(t), at(t));
    if t.chance(1, 3) {
        // side by side
        j = (i + t.below(3)).clamp(1, n) - 1;
    }
    Vast { f32: t.chance(1, 3), n, kind: t.below(4) as u8, what: t.below(12) as u8, i, j }
}

pub fn sub(id: &str) -> Sub {
    // cases per quick run (before the property's multiplier)
    let (quick, test): (u32, fn(&Vast) -> R) = match id {
        "C07" => (8, |c| by_type!(c.f32, c07(c))),
        "C08" => (8, |c| by_type!(c.f32, c08(c))),
        "C11" => (60, |c| by_type!(c.f32, c11(c))),
        "C12" => (100, |c| by_type!(c.f32, c12(c))),
        "C13" => (100, |c| by_type!(c.f32, c13(c))),
        "C14" => (160, |c| by_type!(c.f32, c14(c))),
        "C15" => (60, |c| by_type!(c.f32, c15(c))),
        "C16" => (60, |c| by_type!(c.f32, c16(c))),
        "C17" => (40, |c| by_type!(c.f32, c17(c))),
        "C18" => (60, |c| by_type!(c.f32, c18(c))),
        "C19" => (20, |c| by_type!(c.f32, c19(c))),
        "C20" => (60, |c| by_type!(c.f32, c20(c))),
        "C21" => (60, |c| by_type!(c.f32, c21(c))),
        "C22" => (60, |c| by_type!(c.f32, c22(c))),
        "C23" => (60, c23),
        "C26" => (12, |c| by_type!(c.f32, c26(c))),
        "C27" => (20, |c| by_type!(c.f32, c27(c))),
        "C28" => (20, |c| by_type!(c.f32, c28(c))),
        "C30" => (8, c30),
        _ => panic!("no vast cases for {}", id),
    };
    random("vast", quick, 1_500, || tape(16, gen_vast), test)
}

fn obs(c: &Vast, tag: &'static str) -> R {
    Ok(Obs::new(c.n > 1000).tag(tag).tag_if(c.n > 65_535, "over 65535"))
}
fn lat<C: Flt>() -> Lat {
    Lat { f32: C::IS32, ..Lat::PLAIN }
}

/// A simple open line of n positions, all within one step of an even lattice.
fn base_line(kind: u8, n: usize) -> Vec<P> {
    let n = n as i64;
    match kind {
        // up and down along the x axis
        0 | 1 => (0..n).map(|i| (2 * i, (i % 2) * 2)).collect(),
        // row by row, four apart
        2 => {
            let s = side(n as usize);
            (0..n)
                .map(|i| {
                    let (r, c) = (i / s, i % s);
                    (2 * if r % 2 == 0 { c } else { s - 1 - c }, 4 * r)
                })
                .collect()
        }
        // a spiral of unit steps, scaled
        _ => {
            let (mut x, mut y, mut left, mut run, mut d) = (0i64, 0i64, 1i64, 1i64, 0usize);
            let mut v = Vec::with_capacity(n as usize);
            for _ in 0..n {
                v.push((2 * x, 2 * y));
                let (dx, dy) = [(1, 0), (0, 1), (-1, 0), (0, -1)][d % 4];
                x += dx;
                y += dy;
                left -= 1;
                if left == 0 {
                    d += 1;
                    run += (d % 2 == 0) as i64;
                    left = run;
                }
            }
            v
        }
    }
}
fn side(n: usize) -> i64 {
    ((n as f64).sqrt().ceil() as i64).max(4)
}

/// A line of many positions; is it valid?
fn line_case(c: &Vast) -> (Vec<P>, bool, &'static str) {
    let mut l = base_line(c.kind, c.n);
    let n = l.len();
    let (i, j) = (c.i.clamp(1, n - 3), c.j.clamp(1, n - 3));
    let (last, top) = (l[n - 1], 2 * n as i64);
    let s = side(n);
    let (valid, tag) = match (c.what, c.kind) {
        (0, _) => (true, "plain"),
        (1, _) => {
            l.insert(i, l[i]);
            (false, "repeated position")
        }
        (2, _) => {
            let (a, b) = (l[i - 1], l[i]);
            l.splice(i + 1..i + 1, [a, b]);
            (false, "there and back")
        }
        (3, _) => {
            let q = l[j];
            l.insert(i + 1, q);
            (false, "position met again")
        }
        // A tail that comes down on the middle of segment i, short of it, or through it
        (4..=6, 0 | 1) => {
            let x = 2 * i as i64 + 1;
            let y = 6 - c.what as i64;
            l.extend([(last.0 + 2, 8), (x, 8), (x, y)]);
            (c.what == 4, ["tail short of a segment", "tail touches a segment", "tail through a segment"][c.what as usize - 4])
        }
        (7, 0 | 1) => {
            l.extend([(top + 8, 8), (-2, 8), l[0]]);
            (true, "closed")
        }
        (8, 0 | 1) => {
            // as 7, but the way back starts inside
            l.extend([(top + 8, 8), (-2, 8), (-2, 0), l[1]]);
            (false, "closed onto the second position")
        }
        // A bump towards the next row
        (4..=9, 2) => {
            let r = (i as i64 / s).min((n as i64 / s - 2).max(0));
            let k = i as i64 % (s - 3) + 1;
            let at = (r * s + k) as usize;
            let h = [3, 4, 5][c.what as usize % 3];
            if (r + 2) * s > n as i64 {
                (true, "plain")
            } else {
                let (a, b) = (l[at], l[at + 1]);
                l.splice(at + 1..at + 1, [(a.0, a.1 + h), (b.0, b.1 + h)]);
                (h == 3, ["bump short of the next row", "bump onto the next row", "bump through the next row"][h as usize - 3])
            }
        }
        (10, _) => {
            // the last segment lies on the one before
            let a = l[n - 2];
            l.push(((a.0 + last.0) / 2, (a.1 + last.1) / 2));
            (false, "end folded back")
        }
        _ => (true, "plain"),
    };
    if c.j % 2 == 1 {
        l.reverse();
    }
    (l, valid, tag)
}
fn c11<C: Flt>(c: &Vast) -> R {
    let (l, valid, tag) = line_case(c);
    let line: LineString<C> = lat::<C>().line(&l);
    let got = line.validate();
    ensure!(got.is_ok() == valid, "{}: line of {} positions, {:?}: {:?}", tag, l.len(), c, got);
    ensure!(line.is_simple() == valid, "{}: is_simple of {:?}", tag, c);
    if c.what == 7 && c.kind < 2 {
        ensure!(line.is_ring(), "{}: not a ring: {:?}", tag, c);
    }
    obs(c, tag)
}

fn cell(k: usize, s: i64) -> P {
    (8 * (k as i64 % s), 8 * (k as i64 / s))
}
/// A square in every cell; in some layouts with a spike that touches the next one.
fn in_cell(c: &Vast, k: usize, s: i64) -> Vec<P> {
    let (x, y) = cell(k, s);
    if c.kind == 3 {
        vec![(x, y), (x + 8, y), (x + 4, y + 1), (x + 4, y + 4), (x, y + 4), (x, y)]
    } else {
        square((x, y), 4)
    }
}
fn square((x, y): P, w: i64) -> Vec<P> {
    vec![(x, y), (x + w, y), (x + w, y + w), (x, y + w), (x, y)]
}

/// One line of many positions and another one, with the same ends or both closed.
fn two_lines(c: &Vast) -> (Vec<Vec<P>>, bool, &'static str) {
    let mut a = base_line(0, c.n);
    let n = a.len();
    let (first, last, w) = (a[0], a[n - 1], 2 * n as i64);
    let x = a[c.i.clamp(2, n - 3) / 2 * 2].0;
    let y = c.what as i64 % 3 - 1;
    let b = if c.what == 5 {
        vec![first, last]
    } else if c.what < 6 {
        vec![first, (1, -4), (x, y), (last.0 - 1, -4), last]
    } else {
        a.extend([(w, 0), (w, 12), (-2, 12), first]);
        vec![(x, y), (x + 1, -8), (x - 1, -8), (x, y)]
    };
    // what is 5 for the straight one: crossing too
    let tag = ["another close by", "another touches", "another crosses"][c.what as usize % 3];
    let mut ls = vec![a, b];
    if c.j % 2 == 1 {
        ls.swap(0, 1);
    }
    if c.j % 4 > 1 {
        ls[0].reverse();
    }
    (ls, y < 0, tag)
}
fn lines_case(c: &Vast) -> (Vec<Vec<P>>, bool, &'static str) {
    if c.kind == 2 {
        return two_lines(c);
    }
    let s = side(c.n);
    let mut ls: Vec<Vec<P>> = (0..c.n)
        .map(|k| {
            let (x, y) = cell(k, s);
            let mut l = vec![(x, y), (x + 2, y + 1), (x + 4, y)];
            if c.kind == 3 {
                // to the next one
                l.push((x + 8, y));
            }
            l
        })
        .collect();
    let (x, y) = cell(c.i, s);
    let (extra, valid, tag) = match c.what {
        0 => (vec![], true, "empty member"),
        1 => (vec![(x + 3, y - 1), (x + 3, y + 2)], false, "crossing"),
        2 => (vec![(x + 4, y), (x + 4, y + 3)], c.kind != 3, if c.kind != 3 { "end meets end" } else { "end meets a late bend" }),
        3 => (vec![(x + 2, y + 1), (x + 2, y + 3)], false, "end meets a bend"),
        4 => (vec![(x + 1, y + 3), (x, y), (x + 1, y + 2)], false, "bend meets an end"),
        5 => (ls[c.i].clone(), false, "member twice"),
        6 => (vec![(x + 4, y + 2), (x + 4, y), (x + 6, y + 2), (x + 4, y + 2)], false, "closed member through an end"),
        7 => (vec![(x + 2, y + 2), (x + 4, y + 2)], true, "apart"),
        _ if c.kind == 3 => (vec![(x + 8, y), (x + 8, y + 3)], true, "end meets ends"),
        _ => (vec![(x + 4, y), (x + 4, y + 2), (x, y + 2), (x, y)], true, "ends meet ends"),
    };
    ls.insert(c.j, extra);
    (ls, valid, tag)
}
fn c12<C: Flt>(c: &Vast) -> R {
    let (ls, valid, tag) = lines_case(c);
    let m: MultiLineString<C> = lat::<C>().mls(&ls);
    let got = m.validate();
    ensure!(got.is_ok() == valid, "{}: {} lines, {:?}: {:?}", tag, ls.len(), c, got);
    ensure!(m.is_simple() == valid, "{}: is_simple of {:?}", tag, c);
    obs(c, tag)
}

fn polygon_case(c: &Vast) -> (Vec<Vec<P>>, bool, &'static str) {
    let s = side(c.n);
    if c.kind == 0 {
        // an exterior of many positions, one hole
        let mut e = base_line(0, c.n);
        let w = 2 * c.n as i64;
        e.extend([(w, 0), (w, 12), (-2, 12), e[0]]);
        let (i, top) = (c.i.clamp(1, c.n - 2) as i64, 2);
        let low = i - (i % 2 == 0) as i64; // an upper vertex
        let y = [3, top, 1][c.what as usize % 3];
        if c.what >= 9 {
            // down through one upper vertex and up through the next
            let low = if low + 2 < c.n as i64 { low } else { low - 2 };
            let x = 2 * low;
            let hole = vec![(x, 2), (x, -1), (x + 4, -1), (x + 4, 2), (x + 2, 8), (x, 2)];
            return (vec![e, hole], false, "hole through two vertices");
        }
        let hole = vec![(2 * low, y), (2 * low + 1, 8), (2 * low - 1, 8), (2 * low, y)];
        let tag = ["hole near a vertex", "hole touches a vertex", "hole through a vertex"][c.what as usize % 3];
        (vec![e, hole], y >= top, tag)
    } else {
        let mut r = vec![square((-8, -8), 8 * s + 16)];
        r.extend((0..c.n).map(|k| in_cell(c, k, s)));
        let (x, y) = cell(c.i, s);
        let (extra, valid, tag) = match c.what {
            0 => (square((x + 5, y + 5), 2), true, "apart"),
            1 => (square((x + 1, y + 1), 2), false, "hole in a hole"),
            2 => (square((x + 4, y + 4), 2), true, "corner meets corner"),
            3 => (square((x + 3, y + 3), 3), false, "holes overlap"),
            4 => (square((x + 4, y + 1), 2), false, "shared side"),
            5 => (square((-6, y), 3), true, "at the rim"),
            6 => (square((-10, y), 4), false, "through the exterior"),
            7 => (vec![(x + 4, y + 2), (x + 6, y + 1), (x + 6, y + 3), (x + 4, y + 2)], true, "corner meets side"),
            8 => (vec![(x + 3, y + 2), (x + 6, y + 1), (x + 6, y + 3), (x + 3, y + 2)], false, "corner through side"),
            9 => (square((x, y), 4), false, "hole twice"),
            10 => (square((-9, -9), 8 * s + 18), false, "hole around everything"),
            _ => (vec![(-8, y), (-6, y - 1), (-6, y + 1), (-8, y)], true, "corner meets exterior"),
        };
        r.insert(1 + c.j, extra);
        (r, valid, tag)
    }
}
fn c13<C: Flt>(c: &Vast) -> R {
    let (rings, valid, tag) = polygon_case(c);
    let p: Polygon<C> = lat::<C>().poly(&rings);
    let got = p.validate();
    ensure!(got.is_ok() == valid, "{}: {} rings, {:?}: {:?}", tag, rings.len(), c, got);
    ensure!(p.is_simple() == valid, "{}: is_simple of {:?}", tag, c);
    obs(c, tag)
}

/// A polygon of many positions and a small one: outside, inside, in its hole.
fn two_polygons(c: &Vast) -> (Vec<Vec<Vec<P>>>, bool, &'static str) {
    let mut e = base_line(0, c.n);
    let w = 2 * c.n as i64;
    e.extend([(w, 0), (w, 12), (-2, 12), e[0]]);
    let (i, what) = (c.i.clamp(2, c.n - 3) as i64 / 2 * 2, c.what as i64);
    let (low, high) = (2 * i, 2 * i + 2); // x of a lower, of an upper vertex
    let hole = vec![(low - 1, 5), (low + 3, 5), (low + 3, 9), (low - 1, 9), (low - 1, 5)];
    let down = |y: i64| vec![vec![(low, y), (low + 1, -8), (low - 1, -8), (low, y)]];
    let mut big = vec![e];
    let (mut small, valid, tag) = match what {
        0..=2 => (down(what - 1), what < 2, ["close by", "touching a vertex", "through a vertex"][what as usize]),
        3 => (vec![square((low - 1, -8), 9)], false, "over a vertex"),
        4 => (vec![vec![(high, 3), (high + 1, 8), (high - 1, 8), (high, 3)]], false, "inside"),
        5 => (vec![vec![(high, 2), (high + 1, 8), (high - 1, 8), (high, 2)]], false, "inside, touching a vertex"),
        6 => (vec![square((-20, -20), w + 40)], false, "around"),
        7 => (vec![square((-20, -20), w + 40), square((-10, -10), w + 20)], true, "a frame around"),
        _ => {
            big.push(hole);
            match what {
                8 => (vec![vec![(low, 6), (low + 2, 6), (low, 8), (low, 6)]], true, "in the hole"),
                9 => (vec![vec![(low - 1, 5), (low + 2, 6), (low, 8), (low - 1, 5)]], true, "in the hole, touching it"),
                10 => (vec![vec![(low, 6), (low + 4, 6), (low, 8), (low, 6)]], false, "out of the hole"),
                _ => (vec![vec![(low - 2, 4), (low + 4, 4), (low + 4, 10), (low - 2, 10), (low - 2, 4)]], false, "around the hole"),
            }
        }
    };
    if c.j % 4 > 1 {
        small[0].reverse();
    }
    let mut ps = vec![big, small];
    if c.j % 2 == 1 {
        ps.swap(0, 1);
    }
    (ps, valid, tag)
}
fn multipolygon_case(c: &Vast) -> (Vec<Vec<Vec<P>>>, bool, &'static str) {
    if c.kind == 2 {
        return two_polygons(c);
    }
    let s = side(c.n);
    let frame = c.kind == 0 && c.what != 10;
    let mut ps: Vec<Vec<Vec<P>>> = (0..c.n).map(|k| vec![in_cell(c, k, s)]).collect();
    let (x, y) = cell(c.i, s);
    let chained = c.kind == 3;
    let (extra, valid, tag) = match c.what {
        0 => (vec![square((x + 5, y + 5), 2)], true, "apart"),
        1 => (vec![square((x + 1, y + 1), 2)], false, "one in another"),
        2 => (vec![square((x + 4, y + 4), 2)], true, "corner meets corner"),
        3 => (vec![square((x + 3, y + 3), 3)], false, "overlap"),
        4 => (vec![square((x + 4, y + 1), 2)], false, "shared side"),
        5 if chained => (vec![square((x - 2, y - 2), 8), square((x - 1, y - 1), 6)], false, "a spike through one around another"),
        5 => (vec![square((x - 2, y - 2), 8), square((x - 1, y - 1), 6)], true, "one around another"),
        6 => (vec![square((x - 2, y - 2), 8), square((x, y), 2)], false, "another not in the hole"),
        7 => (vec![vec![(x + 4, y + 2), (x + 6, y + 1), (x + 6, y + 3), (x + 4, y + 2)]], true, "corner meets side"),
        8 => (vec![vec![(x + 3, y + 2), (x + 6, y + 1), (x + 6, y + 3), (x + 3, y + 2)]], false, "corner through side"),
        9 => (vec![square((x, y), 4)], false, "member twice"),
        10 => (vec![square((-9, -9), 8 * s + 18)], false, "one around everything"),
        _ => (vec![square((x - 2, y - 2), 8), square((x - 1, y - 1), 2), square((x + 1, y - 1), 1)], false, "over the holes"),
    };
    ps.insert(c.j, extra);
    if frame {
        ps.push(vec![square((-12, -12), 8 * s + 24), square((-10, -10), 8 * s + 20)]);
    }
    (ps, valid, tag)
}
fn c14<C: Flt>(c: &Vast) -> R {
    let (ps, valid, tag) = multipolygon_case(c);
    let m: MultiPolygon<C> = lat::<C>().mpoly(&ps);
    let got = m.validate();
    ensure!(got.is_ok() == valid, "{}: {} polygons, {:?}: {:?}", tag, ps.len(), c, got);
    ensure!(m.is_simple() == valid, "{}: is_simple of {:?}", tag, c);
    obs(c, tag)
}

fn c15<C: Flt>(c: &Vast) -> R {
    let mut ps = base_line(c.kind, c.n);
    let at = ps[c.i];
    let (i, j) = (c.i, c.j);
    if c.what % 2 == 1 {
        ps.insert(j, at);
    }
    // a fixed shuffle
    let n = ps.len();
    for k in 0..n {
        ps.swap(k, (k * 7919 + i) % n);
    }
    let points: Vec<Position<C>> = ps.iter().map(|p| lat::<C>().p(*p)).collect();
    let m: MultiPoint<C> = MultiPoint::from(points.clone());
    ensure!(m.num_points() == n && !m.is_empty(), "{} points counted as {}", n, m.num_points());
    ensure!(m.is_simple() == (c.what % 2 == 0), "{:?}: is_simple {}", c, m.is_simple());
    ensure!(m.validate().is_ok() == (c.what % 2 == 0), "{:?}: validate {:?}", c, m.validate());
    for p in [points[0], points[n - 1], points[i], points[j], points[n / 2]] {
        ensure!(m.contains_point(&Point::new(p)), "{:?}: {:?} is not contained", c, p);
    }
    ensure!(!m.contains_point(&Point::new(lat::<C>().p((1, -7)))), "{:?}: contains a point it has not", c);
    let Geometry::MultiPoint(s) = m.make_simple() else { return Err(format!("{:?}: make_simple", c)) };
    let mut want = ps.clone();
    want.sort_unstable();
    want.dedup();
    ensure!(s.points.len() == want.len(), "{:?}: {} simple points, want {}", c, s.points.len(), want.len());
    let same = s.points.iter().zip(&want).all(|(a, b)| a.0 == lat::<C>().p(*b));
    ensure!(same && s.envelope() == m.envelope(), "{:?}: make_simple gives other points", c);
    obs(c, if c.what % 2 == 0 { "distinct" } else { "one point twice" })
}

fn c18<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let ends = |g: Geometry<C>| -> Result<Vec<Position<C>>, String> {
        match g {
            Geometry::Empty(_) => Ok(vec![]),
            Geometry::MultiPoint(m) => Ok(m.points.iter().map(|p| p.0).collect()),
            g => Err(format!("{:?}: boundary is a {}", c, g.geometry_type())),
        }
    };
    let n = c.n as i64;
    let (mut ls, mut want): (Vec<Vec<P>>, Vec<P>) = match c.kind {
        // a chain
        0 => ((0..n).map(|k| vec![(k, 0), (k + 1, 0)]).collect(), vec![(0, 0), (n, 0)]),
        // rays from one centre
        1 => {
            let mut w: Vec<P> = (0..n).map(|k| (k + 1, 1)).collect();
            if n % 2 == 1 {
                w.push((0, 0));
            }
            ((0..n).map(|k| vec![(0, 0), (k + 1, 1)]).collect(), w)
        }
        // rings
        2 => ((0..n).map(|k| square((2 * k, 0), 1)).collect(), vec![]),
        // one line of many positions
        _ => {
            let l = base_line(2, c.n);
            let w = vec![l[0], l[c.n - 1]];
            (vec![l], w)
        }
    };
    let tag = if c.what % 2 == 1 && c.kind < 3 {
        // one member less
        let gone = ls.remove(c.i);
        if c.kind < 2 {
            for p in gone {
                match want.iter().position(|q| *q == p) {
                    Some(k) => drop(want.remove(k)),
                    None => want.push(p),
                }
            }
        }
        "one member less"
    } else {
        "whole"
    };
    want.sort_unstable();
    let m: MultiLineString<C> = e.mls(&ls);
    let b = m.boundary();
    ensure!(b.boundary().is_empty(), "{:?}: the boundary has a boundary", c);
    let got = ends(b)?;
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| *a == e.p(*b));
    ensure!(same, "{:?}: {} boundary points, want {}", c, got.len(), want.len());
    ensure!(m.is_closed() == (c.kind == 2), "{:?}: is_closed {}", c, m.is_closed());
    let first = ends(m.line_strings[0].boundary())?;
    ensure!(first.len() == if c.kind == 2 { 0 } else { 2 }, "{:?}: boundary of the first member {:?}", c, first);
    // areas: the rings themselves
    let s = side(c.n);
    let holes: Vec<LineString<C>> = (0..c.n).map(|k| e.line(&square(cell(k, s), 4))).collect();
    let outer: LineString<C> = e.line(&square((-8, -8), 8 * s + 16));
    let mut rings = vec![outer.clone()];
    rings.extend(holes.iter().cloned());
    let got = if c.what % 3 == 0 {
        Polygon::new(outer, holes).boundary()
    } else {
        MultiPolygon::new(rings.iter().map(|r| Polygon::from(r.clone())).collect()).boundary()
    };
    ensure!(got.boundary().is_empty(), "{:?}: the boundary has a boundary", c);
    match got {
        Geometry::MultiLineString(b) => {
            ensure!(b.line_strings == rings, "{:?}: {} rings in the boundary, want {}", c, b.line_strings.len(), rings.len());
            ensure!(b.is_closed(), "{:?}: the boundary is open", c);
        }
        g => return Err(format!("{:?}: boundary is a {}", c, g.geometry_type())),
    }
    obs(c, tag)
}

fn c20<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let n = c.n as i64;
    let mut ps: Vec<P> = (0..n).map(|k| (k % 1000, (k * 7) % 1000)).collect();
    let far: [P; 6] = [(-5, 3), (1005, 3), (3, -5), (3, 1005), (-7, 1007), (3, 3)];
    ps[c.i] = far[c.what as usize % 6];
    ps[c.j] = far[c.kind as usize];
    let axis = |v: Vec<i64>| (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    let check = |what: &str, got: Envelope<C>, ps: &mut dyn Iterator<Item = &P>| -> Result<(), String> {
        let v: Vec<&P> = ps.collect();
        let (x, y) = (axis(v.iter().map(|p| p.0).collect()), axis(v.iter().map(|p| p.1).collect()));
        let want = Envelope::new(e.p((x.0, y.0)), e.p((x.1, y.1)));
        ensure!(got == want, "{} {:?}: envelope {:?}, want {:?}", what, c, got, want);
        Ok(())
    };
    let pos: Vec<Position<C>> = ps.iter().map(|p| e.p(*p)).collect();
    check("positions", Envelope::of(pos.iter()), &mut ps.iter())?;
    let line: LineString<C> = e.line(&ps);
    check("line", line.envelope(), &mut ps.iter())?;
    check("polygon", Polygon::from(line.clone()).envelope(), &mut ps.iter())?;
    check("multipoint", MultiPoint::from(pos.clone()).envelope(), &mut ps.iter())?;
    let tree = line.build_rtree();
    check("index", tree.envelope(), &mut ps.iter())?;
    let ls: Vec<Vec<P>> = ps.chunks(3).map(|l| l.to_vec()).collect();
    let m: MultiLineString<C> = e.mls(&ls);
    check("multiline", m.envelope(), &mut ps.iter())?;
    check("member", m.line_strings[c.i / 3].envelope(), &mut ls[c.i / 3].iter())?;
    let areas: Vec<Vec<Vec<P>>> = ls.iter().map(|l| vec![l.clone()]).collect();
    check("multipolygon", e.mpoly::<C>(&areas).envelope(), &mut ps.iter())?;
    check("multipolygon, wrapped", Geometry::from(e.mpoly::<C>(&areas)).envelope(), &mut ps.iter())?;
    obs(c, "extremes")
}

fn c21<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    // steps of three and four, two apart and back, or along a square
    let n = c.n as i64;
    let ps: Vec<P> = match c.kind {
        0 => (0..n).map(|k| (3 * k, (k % 2) * 4)).collect(),
        1 => (0..n).map(|k| (k, 0)).collect(),
        2 => (0..n).map(|k| [(0, 0), (2, 0), (2, 2), (0, 2)][(k % 4) as usize]).collect(),
        _ => base_line(3, c.n),
    };
    let step = [5.0, 1.0, 2.0, 2.0][c.kind as usize];
    let l: LineString<C> = e.line(&ps);
    ensure!(l.num_points() == c.n, "{:?}: num_points {}", c, l.num_points());
    for k in [0, 1, c.i, c.j, c.n - 1] {
        ensure!(l.get_point(k).map(|p| p.0) == Some(e.p(ps[k])), "{:?}: get_point({}) = {:?}", c, k, l.get_point(k));
    }
    ensure!(l.get_point(c.n).is_none(), "{:?}: get_point({})", c, c.n);
    ensure!(l.end_point().map(|p| p.0) == Some(e.p(ps[c.n - 1])), "{:?}: end {:?}", c, l.end_point());
    let closed = c.kind == 2 && n % 4 == 1;
    ensure!(l.is_closed() == closed, "{:?}: is_closed {}", c, l.is_closed());
    let segs: Vec<Segment<C>> = l.segments_iter().collect();
    ensure!(segs.len() == c.n - 1, "{:?}: {} segments", c, segs.len());
    let right = segs.iter().zip(ps.windows(2)).all(|(s, w)| s.start == e.p(w[0]) && s.end == e.p(w[1]));
    ensure!(right, "{:?}: segments", c);
    for k in [0, 1, c.i, c.j, c.n - 2] {
        let k = k.min(c.n - 2);
        ensure!(l.get_segment(k) == segs[k], "{:?}: get_segment({}) = {:?}", c, k, l.get_segment(k));
    }
    let (len, want) = (l.length().up(), step * (n - 1) as f64);
    // single precision adds up its own rounding
    let tol = if C::IS32 { 1e-2 } else { 1e-9 };
    ensure!((len - want).abs() <= tol * want, "{:?}: length {}, want {}", c, len, want);
    if c.kind != 2 {
        let tree = l.build_rtree();
        for k in [0, c.i, c.j, c.n - 2] {
            let k = k.min(c.n - 2);
            let (a, b) = (ps[k], ps[k + 1]);
            let mut got = tree.find_intersection_candidates(Envelope::new(e.p(a), e.p(b)));
            got.sort_unstable();
            ensure!(got.contains(&k), "{:?}: segment {} is not found by its box: {:?}", c, k, got);
            let near = |i: usize| {
                let (p, q) = (ps[i], ps[i + 1]);
                p.0.min(q.0) <= a.0.max(b.0) && a.0.min(b.0) <= p.0.max(q.0) && p.1.min(q.1) <= a.1.max(b.1) && a.1.min(b.1) <= p.1.max(q.1)
            };
            let want: Vec<usize> = (0..c.n - 1).filter(|i| near(*i)).collect();
            ensure!(got == want, "{:?}: box of segment {} finds {:?}, want {:?}", c, k, got, want);
        }
    }
    obs(c, "sequence")
}

fn c22<C: Flt>(c: &Vast) -> R {
    let mut r: Vec<P> = match c.kind {
        // a comb, closed around the other side
        0 => base_line(0, c.n),
        // along a parabola: every position is a corner
        1 => {
            let m = (c.n as i64).min(if C::IS32 { 150 } else { 1500 });
            (0..m).map(|k| (k, k * k)).collect()
        }
        // one deep dent
        2 => (0..c.n as i64).map(|k| (k, if k == c.i as i64 { 1 } else { 0 })).collect(),
        // a floor of many collinear positions
        _ => (0..c.n as i64).map(|k| (k, 0)).collect(),
    };
    let (w, m) = (r[r.len() - 1].0, r.len());
    if c.kind != 1 {
        r.extend([(w, 40), (0, 40)]);
    }
    let by = [0, c.i % r.len(), c.j % r.len(), m][c.what as usize % 4] % r.len();
    r.rotate_left(by);
    let f = r[0];
    r.push(f);
    if c.what % 3 == 0 {
        r.reverse();
    }
    let hull = Polygon::from(lat::<C>().line::<C>(&r)).convex_hull();
    let mut want: Vec<Position<C>> = exact::hull(&r).iter().map(|p| lat::<C>().p(*p)).collect();
    let mut got = hull.positions.clone();
    ensure!(got.len() >= 4 && got[0] == got[got.len() - 1], "{:?}: hull of {} positions", c, got.len());
    got.pop();
    let key = |a: &Position<C>, b: &Position<C>| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap();
    got.sort_by(key);
    want.sort_by(key);
    ensure!(got == want, "{:?}: hull has {} corners, want {}", c, got.len(), want.len());
    obs(c, "hull")
}

fn c23(c: &Vast) -> R {
    use std::fmt::Write;
    let ps = base_line(c.kind, c.n);
    let mut s = String::new();
    let list = |s: &mut String, l: &[P]| {
        s.push('(');
        for (k, p) in l.iter().enumerate() {
            write!(s, "{}{}.5 {}e-1", if k > 0 { ", " } else { "" }, p.0, p.1).unwrap();
        }
        s.push(')');
    };
    let value = |p: &P| {
        let x: f64 = format!("{}.5", p.0).parse().unwrap();
        let y: f64 = format!("{}e-1", p.1).parse().unwrap();
        Position::new(x, y)
    };
    let parts: Vec<&[P]> = ps.chunks(4).collect();
    let many = |s: &mut String, open: &str, close: &str| {
        s.push('(');
        for (k, l) in parts.iter().enumerate() {
            s.push_str(if k > 0 { ", " } else { "" });
            s.push_str(open);
            list(s, l);
            s.push_str(close);
        }
        s.push(')');
    };
    let kinds = ["LINESTRING", "POLYGON", "MULTILINESTRING", "MULTIPOLYGON", "MULTIPOINT"];
    let kind = kinds[c.what as usize % 5];
    s.push_str(kind);
    s.push(' ');
    match kind {
        "LINESTRING" => list(&mut s, &ps),
        "POLYGON" | "MULTILINESTRING" => many(&mut s, "", ""),
        "MULTIPOLYGON" => many(&mut s, "(", ")"),
        _ => {
            s.push('(');
            for (k, p) in ps.iter().enumerate() {
                s.push_str(if k > 0 { ", " } else { "" });
                list(&mut s, std::slice::from_ref(p));
            }
            s.push(')');
        }
    }
    let v = parse_wkt(&s).map_err(|e| format!("{:?}: {}", c, e))?;
    ensure!(v.len() == 1 && v[0].geometry_type().to_uppercase() == kind, "{:?}: {} geometries", c, v.len());
    let line = |l: &[Position<f64>], w: &[P]| l.len() == w.len() && l.iter().zip(w).all(|(a, b)| *a == value(b));
    let lines = |l: &mut dyn Iterator<Item = &LineString<f64>>| {
        let v: Vec<&LineString<f64>> = l.collect();
        v.len() == parts.len() && v.iter().zip(&parts).all(|(a, b)| line(&a.positions, b))
    };
    let same = match &v[0] {
        Geometry::LineString(l) => line(&l.positions, &ps),
        Geometry::Polygon(p) => lines(&mut std::iter::once(&p.exterior).chain(&p.interiors)),
        Geometry::MultiLineString(m) => lines(&mut m.line_strings.iter()),
        Geometry::MultiPolygon(m) => {
            m.polygons.iter().all(|p| p.interiors.is_empty()) && lines(&mut m.polygons.iter().map(|p| &p.exterior))
        }
        Geometry::MultiPoint(m) => line(&m.points.iter().map(|p| p.0).collect::<Vec<_>>(), &ps),
        _ => false,
    };
    ensure!(same, "{:?}: {} is read with other positions", c, kind);
    obs(c, kind)
}

// ------------------------------------------------------------ the whole, in other ways

/// One of the four kinds of shape with a structure.
fn any_shape(c: &Vast) -> (Shape, bool, &'static str) {
    match (c.i + c.j + c.n) % 4 {
        0 => {
            let (l, v, t) = line_case(c);
            (Shape::Line(l), v, t)
        }
        1 => {
            let (l, v, t) = lines_case(c);
            (Shape::Lines(l), v, t)
        }
        2 => {
            let (l, v, t) = polygon_case(c);
            (Shape::Poly(l), v, t)
        }
        _ => {
            let (l, v, t) = multipolygon_case(c);
            (Shape::MPoly(l), v, t)
        }
    }
}

/// A box each: mostly small ones in rows, some empty, two that stick out.
fn c07<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let s = side(c.n);
    let mut b: Vec<Option<(P, P)>> = (0..c.n)
        .map(|k| {
            let (x, y) = cell(k, s);
            (k % 7 != c.kind as usize).then_some(((x, y), (x + 3, y + (k % 3) as i64)))
        })
        .collect();
    let far = [(-90, 5), (8 * s + 90, 5), (5, -90), (5, 8 * s + 90), (-70, -60), (0, 0)][c.what as usize % 6];
    b[c.i] = Some((far, far));
    if c.what > 5 {
        b[c.j] = Some(((-100, -100), (-95, -80)));
    }
    let boxes: Vec<Envelope<C>> =
        b.iter().map(|v| v.map_or(Envelope::empty(), |(p, q)| Envelope::new(e.p(p), e.p(q)))).collect();
    let live = || b.iter().flatten();
    let lo = (live().map(|v| v.0 .0).min().unwrap(), live().map(|v| v.0 .1).min().unwrap());
    let hi = (live().map(|v| v.1 .0).max().unwrap(), live().map(|v| v.1 .1).max().unwrap());
    let want: Envelope<C> = Envelope::new(e.p(lo), e.p(hi));
    ensure!(Envelope::of(boxes.iter()) == want, "{:?}: joint box {:?}, want {:?}", c, Envelope::of(boxes.iter()), want);
    let mut grown: Envelope<C> = Envelope::empty();
    let mut merged: Envelope<C> = Envelope::empty();
    for x in &boxes {
        grown.expand(*x);
        merged = merged.merge(*x);
    }
    ensure!(grown == want && merged == want, "{:?}: grown {:?}, merged {:?}, want {:?}", c, grown, merged, want);
    ensure!(boxes.iter().all(|x| x.is_empty() || want.contains(*x)), "{:?}: a box is not in the joint box", c);
    obs(c, "joint box")
}

/// Intervals, and positions on a line.
fn c08<C: Flt>(c: &Vast) -> R {
    use magog::linear::primitives as lp;
    use magog::linear::primitives::HasEnvelope as _;
    use magog::linear::types as lt;
    let v = |k: i64| lp::Position::new(C::of64(k as f64));
    let n = c.n as i64;
    let mut iv: Vec<(i64, i64)> = (0..n).map(|k| (k * 7919) % n).map(|k| (4 * k, 4 * k + 1 + k % 2)).collect();
    let far = [(-9, -5), (4 * n + 9, 4 * n + 10), (-9, 4 * n + 9), (3, 3), (4 * n + 10, -7)][c.what as usize % 5];
    iv[c.i] = far;
    iv[c.j].1 = [iv[c.j].1, -12, 4 * n + 12][c.kind as usize % 3];
    let segs: Vec<lp::Segment<C>> = iv.iter().map(|(a, b)| lp::Segment::new(v(*a), v(*b))).collect();
    let lo = iv.iter().map(|k| k.0.min(k.1)).min().unwrap();
    let hi = iv.iter().map(|k| k.0.max(k.1)).max().unwrap();
    let want = lp::Envelope::new(v(lo), v(hi));
    let got = lp::Envelope::of(segs.iter());
    ensure!(got == want, "{:?}: joint envelope {:?}, want {:?}", c, got, want);
    let mut e = lp::Envelope::empty();
    for s in &segs {
        e.expand(*s);
    }
    ensure!(e == want, "{:?}: expanded to {:?}, want {:?}", c, e, want);
    let m = lt::MultiLine::new(segs.clone());
    ensure!(m.envelope() == want, "{:?}: multiline envelope {:?}, want {:?}", c, m.envelope(), want);
    for k in [0, 1, c.i, c.j, c.n - 1] {
        let want = Some(lt::Line::new(segs[k].start, segs[k].end));
        ensure!(m.get_line(k) == want, "{:?}: get_line({}) = {:?}, want {:?}", c, k, m.get_line(k), want);
    }
    ensure!(m.get_line(c.n).is_none() && !m.is_empty(), "{:?}: a line too many", c);
    let p = lt::MultiPoint::new(iv.iter().map(|k| v(k.0)).collect());
    let want = lp::Envelope::new(v(iv.iter().map(|k| k.0).min().unwrap()), v(iv.iter().map(|k| k.0).max().unwrap()));
    ensure!(p.envelope() == want && p.num_points() == c.n, "{:?}: multipoint {:?}, want {:?}", c, p.envelope(), want);
    for k in [0, 1, c.i, c.j, c.n - 1] {
        ensure!(p.get_point(k) == Some(lt::Point::new(v(iv[k].0))), "{:?}: get_point({}) = {:?}", c, k, p.get_point(k));
    }
    ensure!(p.get_point(c.n).is_none(), "{:?}: a point too many", c);
    obs(c, "intervals")
}

/// One coordinate that is no number, anywhere.
fn c16<C: Flt>(c: &Vast) -> R {
    let (s, valid, tag) = any_shape(c);
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][c.n % 3];
    let e = lat::<C>();
    let lines: Vec<LineString<C>> = s.lines().iter().map(|l| e.line(l)).collect();
    let total: usize = lines.iter().map(|l| l.num_points()).sum();
    // A position early, late or in between; every fourth case none.
    let at = match c.what % 4 {
        0 => None,
        1 => Some(c.j.min(total - 1)),
        2 => Some(total - 1 - c.j.min(total - 1)),
        _ => Some((c.i * 4 + c.j) % total),
    };
    let mut k = 0;
    let lines: Vec<LineString<C>> = lines
        .into_iter()
        .map(|l| {
            let from = k;
            k += l.num_points();
            match at {
                Some(x) if x >= from && x < k => {
                    let mut v = l.positions.clone();
                    let p = &mut v[x - from];
                    if c.kind % 2 == 0 {
                        p.x = C::of64(bad);
                    } else {
                        p.y = C::of64(bad);
                    }
                    LineString::new(v)
                }
                _ => l,
            }
        })
        .collect();
    let want = if at.is_some() { Some(false) } else { Some(valid) };
    macro_rules! go {
        ($g:expr, $want:expr) => {{
            let g = $g;
            let want: Option<bool> = $want;
            let (v, s) = (g.validate().is_ok(), g.is_simple());
            ensure!(v == s, "{}: {:?}: valid {} but simple {}", tag, c, v, s);
            ensure!(want.map_or(true, |w| w == v), "{}: {:?}: valid {} with position {:?} replaced", tag, c, v, at);
            let _ = (g.envelope(), g.is_empty(), g.dimension(), g.boundary().is_simple());
            let g: Geometry<C> = g.into();
            ensure!(g.is_simple() == s, "{}: {:?}: wrapped, simple {}", tag, c, !s);
        }};
    }
    let all = || MultiPoint::new(lines.iter().flat_map(|l| l.positions.iter().map(|p| Point::new(*p))).collect());
    go!(all(), if at.is_some() { Some(false) } else { None });
    match &s {
        Shape::Line(_) => go!(lines[0].clone(), want),
        Shape::Lines(_) => go!(MultiLineString::new(lines.clone()), want),
        Shape::Poly(_) => go!(Polygon::new(lines[0].clone(), lines[1..].to_vec()), want),
        Shape::MPoly(m) => {
            let mut it = lines.iter().cloned();
            let mut ps = vec![];
            for r in m {
                let v: Vec<LineString<C>> = it.by_ref().take(r.len()).collect();
                let Some((e, h)) = v.split_first() else {
                    ps.push(Polygon::new(LineString::new(vec![]), vec![]));
                    continue;
                };
                ps.push(Polygon::new(e.clone(), h.to_vec()));
            }
            go!(MultiPolygon::new(ps), want)
        }
    }
    obs(c, if at.is_some() { "non-finite" } else { "finite" })
}

/// Written down in another way.
fn c17<C: Flt>(c: &Vast) -> R {
    let (mut s, valid, tag) = any_shape(c);
    let mut e = Emb::Lat(lat::<C>());
    for (k, op) in [(1u32, c.kind), (7919, (c.i % 8) as u8), (104_729, (c.j % 8) as u8)] {
        let arg = k.wrapping_mul(1 + c.i as u32) % 1_000_000;
        match (op, &mut e) {
            // no farther than single precision bears
            (7, Emb::Lat(l)) => {
                l.ox += (arg % 999) as i64;
                l.oy -= (arg / 7 % 999) as i64;
            }
            (6, Emb::Lat(l)) => l.k = (arg % 41) as i32 - 20,
            (op, e) => apply(&mut s, e, op, arg),
        }
        let got = s.valid::<C>(&e);
        ensure!(got == valid, "{}: {:?}: valid {} after rewriting {}", tag, c, got, op);
    }
    obs(c, tag)
}

fn c19<C: Flt>(c: &Vast) -> R {
    let (s, valid, tag) = any_shape(c);
    let e = lat::<C>();
    macro_rules! go {
        ($mk:expr, $name:expr, $dim:expr, $as:ident, $simple:expr) => {{
            let x = $mk;
            let wrap = || -> Geometry<C> { $mk.into() };
            let g = wrap();
            ensure!(g.geometry_type() == $name && x.geometry_type() == $name, "{:?}: {}", c, g.geometry_type());
            ensure!(g.dimension() == $dim && x.dimension() == $dim, "{:?}: dimension {}", c, g.dimension());
            ensure!(!g.is_empty() && !x.is_empty(), "{:?}: empty", c);
            ensure!(g.is_simple() == $simple && x.is_simple() == $simple, "{}: {:?}: simple {}", tag, c, g.is_simple());
            ensure!(g.envelope() == x.envelope(), "{:?}: envelope {:?} / {:?}", c, g.envelope(), x.envelope());
            ensure!(g.boundary() == x.boundary(), "{:?}: boundary", c);
            // It converts to its own type only, one other conversion at a time.
            let other = match c.what % 7 {
                0 => wrap().as_empty().is_some(),
                1 => $name != "Point" && wrap().as_point().is_some(),
                2 => $name != "LineString" && wrap().as_linestring().is_some(),
                3 => $name != "Polygon" && wrap().as_polygon().is_some(),
                4 => $name != "MultiPoint" && wrap().as_multipoint().is_some(),
                5 => $name != "MultiLineString" && wrap().as_multilinestring().is_some(),
                _ => $name != "MultiPolygon" && wrap().as_multipolygon().is_some(),
            };
            ensure!(!other, "{:?}: converts to another type", c);
            ensure!(g.$as().as_ref() == Some(&x), "{:?}: not the same when taken back", c);
        }};
    }
    match &s {
        Shape::Line(l) => {
            go!(e.line::<C>(l), "LineString", 1, as_linestring, valid);
            let mut d = l.clone();
            d.sort_unstable();
            d.dedup();
            let ps: Vec<Position<C>> = l.iter().map(|p| e.p(*p)).collect();
            go!(MultiPoint::from(ps.clone()), "MultiPoint", 0, as_multipoint, d.len() == l.len());
        }
        Shape::Lines(l) => go!(e.mls::<C>(l), "MultiLineString", 1, as_multilinestring, valid),
        Shape::Poly(r) => go!(e.poly::<C>(r), "Polygon", 2, as_polygon, valid),
        Shape::MPoly(m) => go!(e.mpoly::<C>(m), "MultiPolygon", 2, as_multipolygon, valid),
    }
    obs(c, tag)
}

/// The whole of many members, and only the few around the one that decides.
fn c26<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let s = side(c.n);
    // the members next to the deciding one, by their place in the rows
    let near = |k: usize| {
        let (x, y) = (k as i64 % s, k as i64 / s);
        let (a, b) = (c.i as i64 % s, c.i as i64 / s);
        (x - a).abs() <= 1 && (y - b).abs() <= 1
    };
    let pick = |k: usize| k == c.j || near(if k > c.j { k - 1 } else { k });
    let (whole, part, tag) = match c.n % 3 {
        0 => {
            let c = &Vast { kind: c.kind % 2 * 2 + 1, ..c.clone() };
            let (ls, _, tag) = lines_case(c);
            let few: Vec<Vec<P>> = ls.iter().enumerate().filter(|(k, _)| pick(*k)).map(|v| v.1.clone()).collect();
            (e.mls::<C>(&ls).validate().is_ok(), e.mls::<C>(&few).validate().is_ok(), tag)
        }
        1 => {
            let c = &Vast { kind: 1, ..c.clone() };
            let (r, _, tag) = polygon_case(c);
            let few: Vec<Vec<P>> =
                r.iter().enumerate().filter(|(k, _)| *k == 0 || pick(*k - 1)).map(|v| v.1.clone()).collect();
            (e.poly::<C>(&r).validate().is_ok(), e.poly::<C>(&few).validate().is_ok(), tag)
        }
        _ => {
            let c = &Vast { kind: 1, ..c.clone() };
            let (m, _, tag) = multipolygon_case(c);
            let few: Vec<Vec<Vec<P>>> = m.iter().enumerate().filter(|(k, _)| pick(*k)).map(|v| v.1.clone()).collect();
            (e.mpoly::<C>(&m).validate().is_ok(), e.mpoly::<C>(&few).validate().is_ok(), tag)
        }
    };
    ensure!(whole == part, "{}: {:?}: whole {}, the members around the deciding one {}", tag, c, whole, part);
    obs(c, tag)
}

/// A point of a polygon of many holes, of a ring of many positions, of the first
/// of many members that is not empty.
fn c27<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let s = side(c.n);
    let inside = |p: Position<C>, r: &[Vec<P>]| {
        // to sixteenths
        let q = ((p.x.up() * 16.0).round() as i64, (p.y.up() * 16.0).round() as i64);
        let up = |l: &Vec<P>| l.iter().map(|p| (16 * p.0, 16 * p.1)).collect::<Vec<P>>();
        exact::locate(&up(&r[0]), q) >= 0 && r[1..].iter().all(|h| exact::locate(&up(h), q) <= 0)
    };
    let tag = match c.kind {
        0 | 1 => {
            let (r, valid, tag) = polygon_case(c);
            let p = e.poly::<C>(&r).point_on_surface();
            let Some(p) = p else { return Err(format!("{:?}: no point", c)) };
            ensure!(!valid || inside(p.0, &r), "{}: {:?}: {:?} is not on it", tag, c, p);
            tag
        }
        2 => {
            let mut r = base_line(0, c.n);
            let w = 2 * c.n as i64;
            r.extend([(w, 0), (w, 12), (-2, 12), r[0]]);
            let r = vec![rotate(&r, c.i)];
            let Some(p) = e.poly::<C>(&r).point_on_surface() else { return Err(format!("{:?}: no point", c)) };
            ensure!(inside(p.0, &r), "{:?}: {:?} is not on it", c, p);
            "ring"
        }
        _ => {
            let mut ps: Vec<Vec<Vec<P>>> = vec![vec![]; c.n];
            let some = c.what % 3 != 0;
            if some {
                ps[c.i] = vec![square(cell(c.i, s), 4)];
                ps[c.j] = vec![square(cell(c.j, s), 4)];
            }
            let p = e.mpoly::<C>(&ps).point_on_surface();
            ensure!(p.is_some() == some, "{:?}: {:?}", c, p);
            if let Some(p) = p {
                ensure!(inside(p.0, &ps[c.i]) || inside(p.0, &ps[c.j]), "{:?}: {:?} is not on it", c, p);
            }
            "members with no position"
        }
    };
    obs(c, tag)
}
fn rotate(r: &[P], by: usize) -> Vec<P> {
    let mut v = r[..r.len() - 1].to_vec();
    let n = v.len();
    v.rotate_left(by % n);
    v.push(v[0]);
    v
}

/// Where a long line is met by another: join of the two segment indexes, then the
/// exact test.
fn c28<C: Flt>(c: &Vast) -> R {
    let e = lat::<C>();
    let c = &Vast { kind: [0, 0, 3, 2][c.kind as usize], ..c.clone() };
    let l = base_line(c.kind, c.n);
    let i = c.i.clamp(1, c.n - 3);
    let (a, b) = (l[i], l[i + 1]);
    // a short line over, onto, along or beside segment i
    let other: Vec<P> = match c.what % 5 {
        0 => vec![(a.0, a.1 - 1), (a.0 + 1, a.1 + 1), b],
        1 => vec![a, b],
        2 => vec![(a.0 + b.0 - a.0.min(b.0), a.1 - 7), (a.0, a.1 + 7)],
        3 => vec![b, (b.0 + 1, b.1), (b.0 + 1, b.1 + 1)],
        _ => vec![(a.0 - 1, a.1 - 1), (a.0 - 1, a.1 + 1), (b.0 + 1, b.1 + 1)],
    };
    let (u, v): (LineString<C>, LineString<C>) = (e.line(&l), e.line(&other));
    let mut want = vec![];
    for (p, s) in l.windows(2).enumerate() {
        for (q, r) in other.windows(2).enumerate() {
            let (s, r) = ((s[0], s[1]), (r[0], r[1]));
            if exact::near(s, r) && exact::inter(s, r) != exact::Inter::None {
                want.push((p, q));
            }
        }
    }
    let meets = |p: usize, q: usize| u.get_segment(p).intersect_segment(v.get_segment(q)) != SegmentIntersection::None;
    let (fu, fv) = (u.build_rtree(), v.build_rtree());
    let mut got = fu.find_other_rtree_intersection_candidates(&fv);
    got.retain(|(p, q)| meets(*p, *q));
    got.sort_unstable();
    ensure!(got == want, "{:?}: joined {:?}, want {:?}", c, got, want);
    let mut back = fv.find_other_rtree_intersection_candidates(&fu);
    back.retain(|(q, p)| meets(*p, *q));
    let mut back: Vec<(usize, usize)> = back.into_iter().map(|(q, p)| (p, q)).collect();
    back.sort_unstable();
    ensure!(back == want, "{:?}: joined the other way {:?}, want {:?}", c, back, want);
    // Neighbours meet, and a simple line's other segments do not.
    let mut own = fu.find_self_intersection_candidates();
    own.retain(|(p, q)| u.get_segment(*p).intersect_segment(u.get_segment(*q)) != SegmentIntersection::None);
    own.sort_unstable();
    let right = own.len() == c.n - 2 && own.iter().enumerate().all(|(k, w)| *w == (k, k + 1));
    ensure!(right, "{:?}: {} pairs of segments meet, want {}", c, own.len(), c.n - 2);
    obs(c, if want.is_empty() { "apart" } else { "meet" })
}

fn c30(c: &Vast) -> R {
    // asked six times over, so somewhat smaller; in rows, so that the coordinates
    // are small enough for exact products in single precision
    let n = c.n.min(65_560);
    let mut c = Vast { n, kind: 2 + c.kind % 2, i: c.i.min(n - 1), j: c.j.min(n - 1), ..c.clone() };
    if (c.i + c.j + c.n) % 2 == 1 && c.kind == 2 {
        c.kind = 1; // many members, not a long one
    }
    let c = &c;
    let (s, _, tag) = any_shape(c);
    super::whole::same_answers(&Lat { f32: true, ..Lat::PLAIN }, &s)?;
    obs(c, tag)
}
