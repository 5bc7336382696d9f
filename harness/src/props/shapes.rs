//! C22: convex hulls.
use crate::engine::*;
use crate::exact::{self, orient, Rings, P};
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::planar::types::LineString;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HullC {
    emb: Emb,
    /// A polygon: exterior, then holes.
    p: Rings,
}

/// Every point is either a corner of the hull or clear of the hull's edges.
fn hull_clear(pts: &[P], tol: f64) -> bool {
    let h = exact::hull(pts);
    let size = extent(&pts.to_vec()) as f64;
    (0..h.len()).all(|i| {
        let (a, b) = (h[i], h[(i + 1) % h.len()]);
        let len = ((b.0 - a.0) as f64).hypot((b.1 - a.1) as f64);
        pts.iter().all(|p| *p == a || *p == b || orient(a, b, *p) as f64 / len > tol * size)
    })
}

fn hull_of<C: Flt>(emb: &Emb, p: &Rings) -> LineString<C> {
    emb.poly::<C>(p).convex_hull()
}

fn judge<C: Flt>(what: &str, emb: &Emb, p: &Rings, want: &[P]) -> Result<(), String> {
    let got = hull_of::<C>(emb, p);
    let q = &got.positions;
    let say = || format!("{} {:?} {:?}: hull {:?}, want corners {:?}", what, emb, p, q, want);
    ensure!(q.len() == want.len() + 1, "{}", say());
    ensure!(q[0] == q[q.len() - 1], "not closed: {}", say());
    let w: Vec<_> = want.iter().map(|p| emb.p::<C>(*p)).collect();
    let Some(s) = w.iter().position(|x| *x == q[0]) else { return Err(say()) };
    for i in 0..w.len() {
        ensure!(q[i] == w[(s + i) % w.len()], "{}", say());
    }
    Ok(())
}

fn t_c22(c: &HullC) -> R {
    by_type!(c.emb.is32(), c22(c))
}
fn c22<C: Flt>(c: &HullC) -> R {
    if c.p.is_empty() || c.p[0].is_empty() || !exact::polygon_valid(&c.p) {
        return Ok(Obs::new(false).tag("not a valid polygon"));
    }
    let lines: Vec<&Vec<P>> = c.p.iter().collect();
    if let Emb::Fine { f32, .. } = c.emb {
        let tol = if f32 { 2e-3 } else { 1e-6 };
        if !clear(&lines, tol) || !hull_clear(&c.p[0], tol) {
            return Ok(Obs::new(false).tag("near-contact in floats"));
        }
    }
    let want = exact::hull(&c.p[0]);
    judge::<C>("as given", &c.emb, &c.p, &want)?;
    let mut bare = vec![c.p[0].clone()];
    judge::<C>("without holes", &c.emb, &bare, &want)?;
    let n = c.p[0].len() - 1;
    for by in [1, n / 3, n / 2, n - 1] {
        bare[0] = rotate_ring(&c.p[0], by);
        judge::<C>("started elsewhere", &c.emb, &bare, &want)?;
        bare[0].reverse();
        judge::<C>("reversed", &c.emb, &bare, &want)?;
    }
    let reflex = n > want.len();
    Ok(Obs::new(reflex)
        .tag_if(!reflex, "convex, no spare vertex")
        .tag_if(c.p.len() > 1, "with holes")
        .tag_if(n > 30, "more than 30 vertices")
        .tag_if(want.len() > 8, "hull of more than 8 corners")
        .tag_if(orient(c.p[0][1 % n], c.p[0][2 % n], c.p[0][3 % n]) == 0, "starts with collinear vertices")
        .tag_if(c.emb.fine(), "rounding coordinates"))
}

fn gen_c22(t: &mut Tape) -> HullC {
    let mut p = match t.below(8) {
        0 | 1 => any_polygon(t),
        2 => vec![big_ring(t)],
        3 => vec![round(t)],
        4 => vec![spiral(t)],
        _ => vec![ring(t)],
    };
    if t.chance(1, 2) && !p.is_empty() {
        // extra vertices inside edges
        subdivide(t, &mut p[0]);
    }
    if !p.is_empty() && !p[0].is_empty() {
        if t.chance(1, 2) {
            p[0].reverse();
        }
        let by = t.below(p[0].len());
        if exact::closed(&p[0]) {
            p[0] = rotate_ring(&p[0], by);
        }
    }
    let emb = Emb::gen(t, &mut p.iter_mut().collect::<Vec<_>>());
    HullC { emb, p }
}

/// Rings of hundreds to thousands of vertices.
fn gen_c22_large(t: &mut Tape) -> HullC {
    let mut p = match t.below(6) {
        0 => large_polygon(t),
        1 => {
            let n = 100 + t.below(900);
            let w = 1500;
            let s = star(t, n, w);
            vec![s]
        }
        2 => {
            // convex, with vertices inside the edges
            let n = 30 + t.below(300);
            let r = 3000.0;
            let pts: Vec<P> = (0..n)
                .map(|_| {
                    let a = t.unit() * std::f64::consts::TAU;
                    ((r * a.cos()).round() as i64 * 4, (r * a.sin()).round() as i64 * 4)
                })
                .collect();
            let h = exact::hull(&pts);
            let mut v = Vec::new();
            for i in 0..h.len() {
                let (a, b) = (h[i], h[(i + 1) % h.len()]);
                v.push(a);
                let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
                if orient(a, b, m) == 0 && m != a && m != b && t.chance(1, 2) {
                    v.push(m);
                }
            }
            v.push(h[0]);
            vec![v]
        }
        _ => {
            let mut l = large_simple(t);
            if !exact::closed(&l) {
                // back around the outside
                let (x0, y0, x1, y1) = bbox(&l);
                let _ = (x1, y1);
                let (a, b) = (l[0], *l.last().unwrap());
                if b.1 == y0 || a.1 == y0 || b.0 == x1 {
                    l.extend([(b.0, y0 - 2), (x0 - 2, y0 - 2), (x0 - 2, a.1)]);
                }
                l.push(a);
            }
            vec![l]
        }
    };
    if exact::closed(&p[0]) {
        p[0] = { let by = t.below(p[0].len()); rotate_ring(&p[0], by) };
    }
    if t.chance(1, 2) {
        p[0].reverse();
    }
    let w = normalize(&mut p.iter_mut().collect::<Vec<_>>());
    HullC { emb: Emb::Lat(Lat::gen(t, w)), p }
}

/// Star-shaped around a centre, most vertices near a circle: hulls with many corners.
fn round(t: &mut Tape) -> Vec<P> {
    let n = 4 + t.below(60);
    let r = *t.pick(&[8.0, 30.0, 150.0]);
    let dent = t.chance(1, 2);
    let mut v: Vec<P> = Vec::new();
    for i in 0..n {
        let a = (i as f64 + 0.5 * t.unit()) / n as f64 * std::f64::consts::TAU;
        let q = if dent && t.chance(1, 3) { r * (0.3 + 0.6 * t.unit()) } else { r };
        let p = ((q * a.cos()).round() as i64, (q * a.sin()).round() as i64);
        if v.last() != Some(&p) {
            v.push(p);
        }
    }
    while v.len() > 1 && v[0] == v[v.len() - 1] {
        v.pop();
    }
    let f = v[0];
    v.push(f);
    v
}

/// A square spiral corridor: the walk keeps leaving its hull so far, or keeps staying inside.
fn spiral(t: &mut Tape) -> Vec<P> {
    let k = 2 + t.below(10) as i64;
    let dirs = [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)];
    let mut c: Cells = Default::default();
    let (mut x, mut y) = (0i64, 0i64);
    c.insert((x, y));
    for i in 0..k {
        let d = dirs[(i % 4) as usize];
        for _ in 0..2 * (1 + i / 2) {
            x += d.0;
            y += d.1;
            c.insert((x, y));
        }
    }
    let keep = t.chance(1, 3);
    trace(&c, false, keep).into_iter().max_by_key(|r| exact::area2(r).abs()).unwrap()
}

/// Every simple ring through points of a small grid, every start and direction.
fn all_rings(tier: Tier) -> CaseIter<HullC> {
    fn seqs(w: i64, h: i64, n: usize) -> Box<dyn Iterator<Item = Vec<P>>> {
        let m = (w * h) as usize;
        let total = (m as u64).pow(n as u32);
        Box::new((0..total).filter_map(move |mut c| {
            let mut v: Vec<P> = Vec::with_capacity(n + 1);
            for _ in 0..n {
                let i = (c % m as u64) as i64;
                c /= m as u64;
                let p = (i % w, i / w);
                if v.contains(&p) {
                    return None;
                }
                v.push(p);
            }
            let f = v[0];
            v.push(f);
            exact::is_ring(&v).then_some(v)
        }))
    }
    let mut it: Box<dyn Iterator<Item = Vec<P>>> =
        Box::new((3..=6).flat_map(|n| seqs(3, 3, n)).chain(seqs(4, 4, 3)).chain(seqs(4, 4, 4)).chain(seqs(5, 2, 5)));
    if tier == Tier::Thorough {
        it = Box::new(it.chain(seqs(3, 3, 7)).chain(seqs(3, 3, 8)).chain(seqs(4, 4, 5)).chain(seqs(5, 2, 7)));
    }
    Box::new(it.map(|r| HullC { emb: Emb::Lat(Lat::PLAIN), p: vec![r] }))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "Every simple ring of 3 to 6 vertices on a 3x3 grid (3-4 on 4x4, 5 on 5x2), each start and direction, and random valid polygons (traced cell sets, spirals, stars, circle-like, subdivided edges, with holes, to thousands of vertices), as given, without holes, from other start vertices, reversed; against a monotone-chain hull in integers. Non-trivial: the exterior has a vertex that is not a hull corner.",
        assumptions: &["rounding coordinates only for shapes without near-contacts and near-collinear hull corners (1e-6 of the size in f64, 2e-3 in f32)"],
        subs: vec![super::vast::sub("C22"), 
            exhaustive("grid", all_rings, t_c22),
            random("polygons", 150_000, 5_000_000, || tape(900, gen_c22), t_c22),
            random("large", 4_000, 120_000, || tape(5_000, gen_c22_large), t_c22),
        ],
    }]
}
