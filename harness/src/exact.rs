//! Exact planar geometry on integers: the reference the geometric checks
//! compare magog with. Written from the definitions, quadratic, no tolerance.
pub type P = (i64, i64);

/// > 0 when c is left of a->b. (Twice the area, where that fits.)
pub fn orient(a: P, b: P, c: P) -> i64 {
    let d = |p: i64, q: i64| p as i128 - q as i128;
    let v = d(b.0, a.0) * d(c.1, a.1) - d(b.1, a.1) * d(c.0, a.0);
    v.clamp(-(i64::MAX as i128), i64::MAX as i128) as i64
}

/// Is p on the closed segment a-b (which may be a single point)?
pub fn on_seg(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && a.0.min(b.0) <= p.0
        && p.0 <= a.0.max(b.0)
        && a.1.min(b.1) <= p.1
        && p.1 <= a.1.max(b.1)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Inter {
    None,
    /// Exactly one shared point, an end point of at least one of the two.
    Touch(P),
    /// Exactly one shared point, inside both.
    Cross,
    /// A shared stretch between these two points.
    Overlap(P, P),
}

pub fn inter(a: (P, P), b: (P, P)) -> Inter {
    // All shared end points.
    let mut ends: Vec<P> = Vec::new();
    for p in [a.0, a.1] {
        if on_seg(b.0, b.1, p) && !ends.contains(&p) {
            ends.push(p);
        }
    }
    for p in [b.0, b.1] {
        if on_seg(a.0, a.1, p) && !ends.contains(&p) {
            ends.push(p);
        }
    }
    match ends.len() {
        0 => {
            let s = |x: i64| x.signum();
            if s(orient(a.0, a.1, b.0)) * s(orient(a.0, a.1, b.1)) < 0
                && s(orient(b.0, b.1, a.0)) * s(orient(b.0, b.1, a.1)) < 0
            {
                Inter::Cross
            } else {
                Inter::None
            }
        }
        1 => Inter::Touch(ends[0]),
        2 => {
            let (p, q) = (ends[0].min(ends[1]), ends[0].max(ends[1]));
            Inter::Overlap(p, q)
        }
        // Convex sets meet in a convex set: three distinct shared end points
        // are collinear; take the extremes.
        _ => Inter::Overlap(*ends.iter().min().unwrap(), *ends.iter().max().unwrap()),
    }
}

/// The crossing point of two properly crossing segments, as numerator/denominator.
pub fn cross_point(a: (P, P), b: (P, P)) -> (f64, f64) {
    let d = |p: P, q: P| ((q.0 - p.0) as i128, (q.1 - p.1) as i128);
    let (da, db, off) = (d(a.0, a.1), d(b.0, b.1), d(a.0, b.0));
    let den = da.0 * db.1 - da.1 * db.0;
    let num = off.0 * db.1 - off.1 * db.0;
    let f = |s: i64, d: i128| {
        // s + d*num/den with the integer part split off
        let n = d * num;
        let (q, r) = (n.div_euclid(den), n.rem_euclid(den));
        (s as i128 + q) as f64 + r as f64 / den as f64
    };
    (f(a.0 .0, da.0), f(a.0 .1, da.1))
}

/// Do the boxes of two segments meet? (If not, neither do the segments.)
pub fn near(a: (P, P), b: (P, P)) -> bool {
    a.0 .0.min(a.1 .0) <= b.0 .0.max(b.1 .0)
        && b.0 .0.min(b.1 .0) <= a.0 .0.max(a.1 .0)
        && a.0 .1.min(a.1 .1) <= b.0 .1.max(b.1 .1)
        && b.0 .1.min(b.1 .1) <= a.0 .1.max(a.1 .1)
}

/// Box of a line as a segment between opposite corners.
fn hull_box(l: &[P]) -> (P, P) {
    let f = |g: fn(&P) -> i64| (l.iter().map(g).min().unwrap(), l.iter().map(g).max().unwrap());
    let ((x0, x1), (y0, y1)) = (f(|p| p.0), f(|p| p.1));
    ((x0, y0), (x1, y1))
}

pub fn segs(l: &[P]) -> Vec<(P, P)> {
    l.windows(2).map(|w| (w[0], w[1])).collect()
}

/// Simple curve, by the statement of C11.
pub fn line_valid(l: &[P]) -> bool {
    if l.is_empty() {
        return true;
    }
    if l.len() < 2 || l.windows(2).any(|w| w[0] == w[1]) {
        return false;
    }
    let s = segs(l);
    let n = s.len();
    for i in 0..n {
        for j in i + 1..n {
            if !near(s[i], s[j]) {
                continue;
            }
            match inter(s[i], s[j]) {
                Inter::None => {}
                Inter::Cross | Inter::Overlap(..) => return false,
                Inter::Touch(p) => {
                    let next = j == i + 1 && p == s[i].1;
                    let wrap = i == 0 && j == n - 1 && p == l[0] && p == l[n];
                    if !(next || wrap) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

pub fn closed(l: &[P]) -> bool {
    l.len() >= 4 && l[0] == l[l.len() - 1]
}

pub fn is_ring(l: &[P]) -> bool {
    closed(l) && line_valid(l)
}

pub fn area2(l: &[P]) -> i64 {
    let (ox, oy) = l[0];
    segs(l)
        .iter()
        .map(|(a, b)| (a.0 - ox) * (b.1 - oy) - (a.1 - oy) * (b.0 - ox))
        .sum()
}

/// Even-odd test of a point given in doubled coordinates, not on the ring.
pub fn inside2(ring: &[P], p: P) -> bool {
    let mut odd = false;
    for (a, b) in segs(ring) {
        let (a, b) = ((2 * a.0, 2 * a.1), (2 * b.0, 2 * b.1));
        if (a.1 > p.1) != (b.1 > p.1) {
            let up = b.1 > a.1;
            let o = orient(a, b, p);
            if (up && o > 0) || (!up && o < 0) {
                odd = !odd;
            }
        }
    }
    odd
}

/// Strictly inside (1), on (0), outside (-1).
pub fn locate(ring: &[P], p: P) -> i32 {
    if segs(ring).iter().any(|s| on_seg(s.0, s.1, p)) {
        0
    } else if inside2(ring, (2 * p.0, 2 * p.1)) {
        1
    } else {
        -1
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rel {
    Separate,
    /// The second lies inside the first.
    Contains,
    Within,
    Crosses,
}

pub struct RelInfo {
    pub rel: Rel,
    pub touches: usize,
    /// Every vertex of one of the rings lies on the other ring.
    pub all_on: bool,
}

/// Relation of two simple rings.
pub fn rel(a: &[P], b: &[P]) -> RelInfo {
    let (sa, sb) = (segs(a), segs(b));
    let mut cut_a: Vec<Vec<P>> = sa.iter().map(|s| vec![s.0, s.1]).collect();
    let mut cut_b: Vec<Vec<P>> = sb.iter().map(|s| vec![s.0, s.1]).collect();
    let mut touch: Vec<P> = Vec::new();
    let mut out = RelInfo { rel: Rel::Crosses, touches: 0, all_on: false };
    if !near(hull_box(a), hull_box(b)) {
        out.rel = Rel::Separate;
        return out;
    }
    for (i, x) in sa.iter().enumerate() {
        for (j, y) in sb.iter().enumerate() {
            if !near(*x, *y) {
                continue;
            }
            match inter(*x, *y) {
                Inter::None => {}
                Inter::Cross | Inter::Overlap(..) => return out,
                Inter::Touch(p) => {
                    cut_a[i].push(p);
                    cut_b[j].push(p);
                    if !touch.contains(&p) {
                        touch.push(p);
                    }
                }
            }
        }
    }
    out.touches = touch.len();
    out.all_on = a.iter().all(|p| touch.contains(p)) || b.iter().all(|p| touch.contains(p));
    // No shared stretch and no crossing of edge interiors: every piece of an
    // edge between two cuts is on one side; its midpoint says which.
    let sides = |cuts: &mut Vec<Vec<P>>, other: &[P]| {
        let (mut inn, mut outt) = (false, false);
        for c in cuts.iter_mut() {
            c.sort();
            c.dedup();
            for w in c.windows(2) {
                let m2 = (w[0].0 + w[1].0, w[0].1 + w[1].1);
                if inside2(other, m2) {
                    inn = true
                } else {
                    outt = true
                }
            }
        }
        (inn, outt)
    };
    let (a_in, a_out) = sides(&mut cut_a, b);
    let (b_in, b_out) = sides(&mut cut_b, a);
    out.rel = match (a_in, a_out, b_in, b_out) {
        (true, false, false, true) => Rel::Within,
        (false, true, true, false) => Rel::Contains,
        (false, true, false, true) => Rel::Separate,
        _ => Rel::Crosses,
    };
    out
}

pub type Rings = Vec<Vec<P>>;

/// rings[0] is the exterior. By the statement of C13.
pub fn polygon_valid(rings: &Rings) -> bool {
    if rings.iter().all(|r| r.is_empty()) && rings.len() <= 1 {
        return true;
    }
    if !rings.iter().all(|r| is_ring(r)) {
        return false;
    }
    let ext = &rings[0];
    if !rings[1..].iter().all(|h| rel(ext, h).rel == Rel::Contains) {
        return false;
    }
    for i in 1..rings.len() {
        for j in i + 1..rings.len() {
            if rel(&rings[i], &rings[j]).rel != Rel::Separate {
                return false;
            }
        }
    }
    true
}

pub fn multipolygon_valid(polys: &[Rings]) -> bool {
    if !polys.iter().all(polygon_valid) {
        return false;
    }
    let live: Vec<&Rings> = polys.iter().filter(|p| !p.is_empty() && !p[0].is_empty()).collect();
    for i in 0..live.len() {
        for j in i + 1..live.len() {
            let (mut inner, mut outer) = (live[i], live[j]);
            match rel(&inner[0], &outer[0]).rel {
                Rel::Separate => continue,
                Rel::Crosses => return false,
                Rel::Contains => std::mem::swap(&mut inner, &mut outer),
                Rel::Within => {}
            }
            let within = outer[1..].iter().filter(|h| rel(&inner[0], h).rel == Rel::Within).count();
            let bad = outer[1..]
                .iter()
                .any(|h| matches!(rel(&inner[0], h).rel, Rel::Crosses | Rel::Contains));
            if within != 1 || bad {
                return false;
            }
        }
    }
    true
}

/// By the statement of C12.
pub fn multiline_valid(lines: &[Vec<P>]) -> bool {
    if !lines.iter().all(|l| line_valid(l)) {
        return false;
    }
    for i in 0..lines.len() {
        for j in i + 1..lines.len() {
            if lines[i].is_empty() || lines[j].is_empty() || !near(hull_box(&lines[i]), hull_box(&lines[j])) {
                continue;
            }
            for x in segs(&lines[i]) {
                for y in segs(&lines[j]) {
                    if !near(x, y) {
                        continue;
                    }
                    match inter(x, y) {
                        Inter::None => {}
                        Inter::Cross | Inter::Overlap(..) => return false,
                        Inter::Touch(p) => {
                            let end = |l: &[P]| !closed(l) && (l[0] == p || l[l.len() - 1] == p);
                            if !(end(&lines[i]) && end(&lines[j])) {
                                return false;
                            }
                        }
                    }
                }
            }
        }
    }
    true
}

/// Corners of the convex hull, counter-clockwise from the lowest-leftmost.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = Vec::new();
        for p in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut v.iter().copied());
    lo.extend(half(&mut v.iter().rev().copied()));
    lo
}
