//! Input formats and generators shared by the checks.
use crate::exact::{self, Rings, P};
use crate::tape::Tape;
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, MultiLineString, MultiPolygon, Polygon};
use magog::Coordinate;
use serde::{Deserialize, Serialize};

/// A float kept as its bits, so that NaN, infinities and -0 survive JSON.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct F(pub u64);

impl F {
    pub fn of(x: f64) -> F {
        F(x.to_bits())
    }
    pub fn v(self) -> f64 {
        f64::from_bits(self.0)
    }
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:e}", self.v())
    }
}

pub type FP = (F, F);
pub fn fp(x: f64, y: f64) -> FP {
    (F::of(x), F::of(y))
}

/// The two coordinate types magog is used with.
pub trait Flt: Coordinate + 'static {
    const IS32: bool;
    fn of64(x: f64) -> Self;
    fn up(self) -> f64;
    /// Equality that holds between NaNs and between zeros of either sign.
    fn same(self, o: Self) -> bool {
        self == o || (self.is_nan() && o.is_nan())
    }
}
impl Flt for f32 {
    const IS32: bool = true;
    fn of64(x: f64) -> f32 {
        x as f32
    }
    fn up(self) -> f64 {
        self as f64
    }
}
impl Flt for f64 {
    const IS32: bool = false;
    fn of64(x: f64) -> f64 {
        x
    }
    fn up(self) -> f64 {
        self
    }
}

#[macro_export]
macro_rules! by_type {
    ($is32:expr, $f:ident ( $($a:expr),* )) => {
        if $is32 { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) }
    };
}

/// How lattice points become floats: (c + off) * 2^k, always exact.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Lat {
    pub f32: bool,
    pub k: i32,
    pub ox: i64,
    pub oy: i64,
    /// Write every other zero coordinate as -0.
    #[serde(default)]
    pub nz: bool,
}

impl Lat {
    pub const FAR_32: i64 = 1 << 21;
    pub const FAR_64: i64 = 1 << 40;
    pub const PLAIN: Lat = Lat { f32: false, k: 0, ox: 0, oy: 0, nz: false };
    /// For shapes whose coordinates stay within 0..=w.
    pub fn gen(t: &mut Tape, w: i64) -> Lat {
        let is32 = w <= 400 && t.chance(1, 3);
        let k = match t.below(4) {
            0 | 1 => 0,
            2 => t.range(-3, 3) as i32,
            _ => match (is32, t.chance(1, 3)) {
                (true, false) => t.range(-20, 20) as i32,
                (false, false) => t.range(-100, 100) as i32,
                // products of two differences neither overflow nor underflow
                (true, true) => t.range(-60, 50) as i32,
                (false, true) => t.range(-500, 480) as i32,
            },
        };
        // Products of differences of coordinates stay below 2^24 resp. 2^53, and the
        // coordinates (and the midpoints of two) are exact themselves.
        let m = match (is32, t.chance(1, 6)) {
            (true, false) => 800 - w,
            (false, false) => ((1 << 20) - w).max(w),
            (true, true) => Lat::FAR_32,
            (false, true) => Lat::FAR_64,
        };
        let off = |t: &mut Tape| match t.below(4) {
            0 | 1 => 0,
            2 => -t.range(0, w),
            _ => t.range(-m, m - w).clamp(-m, m),
        };
        Lat { f32: is32, k, ox: off(t), oy: off(t), nz: t.chance(1, 4) }
    }
    /// Lattices where the points come next to each other's segments, far from zero,
    /// where coordinates only just tell them apart: positions computed by magog are
    /// rounded to lattice points that lie elsewhere, while all answers about the
    /// given points stay exact.
    pub fn near(t: &mut Tape, lines: &mut [&mut Vec<P>]) -> Lat {
        let w = normalize(lines);
        let is32 = w <= 400 && t.chance(1, 2);
        Lat::near_in(t, lines, is32)
    }
    /// Single precision is for shapes within 0..=400.
    pub fn near_in(t: &mut Tape, lines: &mut [&mut Vec<P>], is32: bool) -> Lat {
        if t.chance(1, 3) {
            Lat::sheared(t, lines, is32)
        } else {
            Lat::nudged(t, lines, is32)
        }
    }
    /// Scale the points up and move some by one step: contacts become near misses.
    pub fn nudged(t: &mut Tape, lines: &mut [&mut Vec<P>], is32: bool) -> Lat {
        let w = normalize(lines).max(1);
        let top: i64 = if is32 { 2800 } else { 1 << 25 };
        let s = ((top - 4) / w).min(*t.pick(&[4, 7, 30, 200, 3000])).max(1);
        let salt = t.word() as u64;
        let odds = *t.pick(&[20, 80, 255]);
        for p in lines.iter_mut().flat_map(|l| l.iter_mut()) {
            // equal points move equally
            let h = mix(mix(p.0 as u64, p.1 as u64), salt);
            let d = if (h & 255) <= odds { ((h >> 8) % 3) as i64 - 1 } else { 0 };
            let e = if (h & 255) <= odds { ((h >> 16) % 3) as i64 - 1 } else { 0 };
            *p = (s * p.0 + d, s * p.1 + e);
        }
        // closed lines that just fail to close
        if t.chance(1, 8) {
            for l in lines.iter_mut() {
                if l.len() > 3 && l[0] == l[l.len() - 1] && t.chance(1, 2) {
                    let k = l.len() - 1;
                    if t.chance(1, 2) {
                        l[k].0 += 1;
                    } else {
                        l[k].1 += 1;
                    }
                }
            }
        }
        Lat::far(t, lines, is32)
    }
    /// Offsets so far that the lattice step is two units in the last place.
    fn far(t: &mut Tape, lines: &mut [&mut Vec<P>], is32: bool) -> Lat {
        let w = normalize(lines);
        let far: i64 = match (is32, w < 1 << 12) {
            (true, _) => 1 << (21 + t.below(2)),
            (false, true) => 1 << (40 + t.below(12)),
            (false, false) => 1 << (40 + t.below(4)),
        };
        let off = |t: &mut Tape| match t.below(6) {
            0 => 0,
            1 => t.range(-far, far - w),
            2 => -far - t.range(w, far / 2),
            _ => far + t.range(0, far / 2),
        };
        let k = if t.chance(2, 3) { 0 } else { t.range(-20, 20) as i32 };
        Lat { f32: is32, k, ox: off(t), oy: off(t), nz: t.chance(1, 8) }
    }
    /// Map the points by an integer matrix of determinant 1 or -1, which keeps every
    /// relation between them.
    pub fn sheared(t: &mut Tape, lines: &mut [&mut Vec<P>], is32: bool) -> Lat {
        let w = normalize(lines).max(1);
        let top: i64 = if is32 { 2800 } else { 1 << 25 };
        let k = (top / (2 * w)).max(1).min(*t.pick(&[12, 40, 300, 20_000]));
        let (mut a, mut b) = (t.range(1, k), t.range(0, k));
        let g = gcd(a, b);
        a /= g;
        b /= g;
        // a*d - b*c = 1 by the extended Euclidean algorithm
        let (mut r0, mut r1, mut s0, mut s1, mut t0, mut t1) = (a, b, 1, 0, 0, 1);
        while r1 != 0 {
            let q = r0 / r1;
            (r0, r1) = (r1, r0 - q * r1);
            (s0, s1) = (s1, s0 - q * s1);
            (t0, t1) = (t1, t0 - q * t1);
        }
        let (d, c) = (s0, -t0);
        let flip = t.below(8);
        for p in lines.iter_mut().flat_map(|l| l.iter_mut()) {
            let (mut x, mut y) = (a * p.0 + c * p.1, b * p.0 + d * p.1);
            if flip & 1 != 0 {
                x = -x;
            }
            if flip & 2 != 0 {
                (x, y) = (y, x);
            }
            *p = (x, if flip & 4 != 0 { -y } else { y });
        }
        Lat::far(t, lines, is32)
    }
    pub fn x<C: Flt>(&self, v: i64) -> C {
        C::of64((v + self.ox) as f64 * (2f64).powi(self.k))
    }
    pub fn y<C: Flt>(&self, v: i64) -> C {
        C::of64((v + self.oy) as f64 * (2f64).powi(self.k))
    }
    pub fn len<C: Flt>(&self, v: i64) -> C {
        C::of64(v as f64 * (2f64).powi(self.k))
    }
    pub fn p<C: Flt>(&self, p: P) -> Position<C> {
        Position::new(self.x(p.0), self.y(p.1))
    }
    pub fn line<C: Flt>(&self, l: &[P]) -> LineString<C> {
        let neg = |v: C| if v == C::zero() { -C::zero() } else { v };
        LineString::new(
            l.iter()
                .enumerate()
                .map(|(i, p)| {
                    let q: Position<C> = self.p(*p);
                    match (self.nz, i % 3) {
                        (true, 1) => Position::new(neg(q.x), q.y),
                        (true, 2) => Position::new(q.x, neg(q.y)),
                        _ => q,
                    }
                })
                .collect(),
        )
    }
    pub fn poly<C: Flt>(&self, r: &[Vec<P>]) -> Polygon<C> {
        if r.is_empty() {
            return Polygon::new(LineString::new(vec![]), vec![]);
        }
        Polygon::new(self.line(&r[0]), r[1..].iter().map(|h| self.line(h)).collect())
    }
    pub fn mls<C: Flt>(&self, ls: &[Vec<P>]) -> MultiLineString<C> {
        MultiLineString::new(ls.iter().map(|l| self.line(l)).collect())
    }
    pub fn mpoly<C: Flt>(&self, ps: &[Rings]) -> MultiPolygon<C> {
        MultiPolygon::new(ps.iter().map(|p| self.poly(p)).collect())
    }
}

/// How the integer points of a shape become coordinates.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Emb {
    /// On a lattice where magog's arithmetic is exact.
    Lat(Lat),
    /// Wide integers times a factor: magog's arithmetic rounds. Only for shapes
    /// without near-contacts (see `clear`).
    Fine { f32: bool, s: F },
    /// Each axis mapped by its own strictly increasing rounding function: only
    /// for shapes whose segments are all parallel to an axis.
    Warp { f32: bool, seed: u32, s: F, off: F, mode: u8, r: F },
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b.wrapping_mul(0xC2B2AE3D27D4EB4F));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Emb {
    pub fn is32(&self) -> bool {
        match self {
            Emb::Lat(l) => l.f32,
            Emb::Fine { f32, .. } | Emb::Warp { f32, .. } => *f32,
        }
    }
    pub fn fine(&self) -> bool {
        !matches!(self, Emb::Lat(_))
    }
    pub fn p<C: Flt>(&self, p: P) -> Position<C> {
        match self {
            Emb::Lat(l) => l.p(p),
            Emb::Fine { s, .. } => Position::new(C::of64(p.0 as f64 * s.v()), C::of64(p.1 as f64 * s.v())),
            Emb::Warp { seed, s, off, mode, r, .. } => {
                let f = |axis: u64, i: i64| {
                    let jit = mix((i as u64) << 1 | axis, *seed as u64) as f64 / u64::MAX as f64;
                    let u = i as f64 + 0.75 * jit;
                    let v = match (*mode >> (2 * axis)) & 3 {
                        0 => i as f64,
                        1 => u,
                        2 => u * u * u,
                        _ => (u * r.v()).sinh(),
                    };
                    let o = if mode & (16 << axis) != 0 { off.v() } else { 0.0 };
                    C::of64((v + o) * s.v())
                };
                Position::new(f(0, p.0), f(1, p.1))
            }
        }
    }
    pub fn line<C: Flt>(&self, l: &[P]) -> LineString<C> {
        match self {
            Emb::Lat(e) => e.line(l),
            _ => LineString::new(l.iter().map(|p| self.p(*p)).collect()),
        }
    }
    pub fn poly<C: Flt>(&self, r: &[Vec<P>]) -> Polygon<C> {
        if r.is_empty() {
            return Polygon::new(LineString::new(vec![]), vec![]);
        }
        Polygon::new(self.line(&r[0]), r[1..].iter().map(|h| self.line(h)).collect())
    }
    pub fn mls<C: Flt>(&self, ls: &[Vec<P>]) -> MultiLineString<C> {
        MultiLineString::new(ls.iter().map(|l| self.line(l)).collect())
    }
    pub fn mpoly<C: Flt>(&self, ps: &[Rings]) -> MultiPolygon<C> {
        MultiPolygon::new(ps.iter().map(|p| self.poly(p)).collect())
    }
    /// May the answer for this shape be compared with the exact one?
    pub fn decides(&self, lines: &[&Vec<P>]) -> bool {
        match self {
            Emb::Lat(_) => true,
            Emb::Fine { f32, .. } => clear(lines, if *f32 { 2e-3 } else { 1e-6 }),
            Emb::Warp { .. } => {
                lines.iter().all(|l| l.windows(2).all(|w| w[0].0 == w[1].0 || w[0].1 == w[1].1))
            }
        }
    }
    pub fn warp(t: &mut Tape, lines: &mut [&mut Vec<P>]) -> Emb {
        let w = normalize(lines);
        if t.chance(1, 2) {
            let d = t.range(0, w);
            lines.iter_mut().flat_map(|l| l.iter_mut()).for_each(|p| *p = (p.0 - d, p.1 - d));
        }
        let is32 = w <= 1000 && t.chance(1, 3);
        let e = if is32 { t.range(-12, 12) } else { t.range(-60, 60) } as i32;
        let s = *t.pick(&[1.0, 0.1, 1.0 / 3.0, 0.7]) * (2f64).powi(e);
        let off = t.unit() * *t.pick(&[10.0, 1e3, 1e6]) * if t.chance(1, 2) { 1.0 } else { -1.0 };
        let off = if is32 { off.clamp(-1e3, 1e3) } else { off };
        let r = *t.pick(&[1.0, 6.0]) / (w + 1) as f64;
        Emb::Warp { f32: is32, seed: t.word(), s: F::of(s), off: F::of(off), mode: t.below(64) as u8, r: F::of(r) }
    }
    /// Choose an embedding for a shape and move the shape accordingly.
    pub fn gen(t: &mut Tape, lines: &mut [&mut Vec<P>]) -> Emb {
        let w = normalize(lines);
        match t.below(6) {
            0..=2 => return Emb::Lat(Lat::gen(t, w)),
            3 => return Emb::Lat(Lat::near(t, lines)),
            _ => {}
        }
        // Rotate, scale up, jitter (equal points move equally) and translate.
        let u = (1i64 << 26) / (w + 1);
        let ang = t.unit() * std::f64::consts::TAU;
        let (a, b) = ((ang.cos() * u as f64) as i64, (ang.sin() * u as f64) as i64);
        let j = (*t.pick(&[0.0, 0.02, 0.2]) * u as f64) as i64;
        let is32 = t.chance(1, 3);
        let (tx, ty) = (t.range(-(1 << 27), 1 << 27), t.range(-(1 << 27), 1 << 27));
        let (tx, ty) = if t.chance(1, 2) { (0, 0) } else { (tx, ty) };
        let salt = t.word() as u64;
        let h = |p: P, n: u64| {
            let mut z = (p.0 as u64)
                .wrapping_mul(0x9E3779B97F4A7C15)
                .wrapping_add((p.1 as u64).wrapping_mul(0xC2B2AE3D27D4EB4F))
                .wrapping_add(salt.wrapping_mul(0x165667B19E3779F9))
                .wrapping_add(n);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            (z ^ (z >> 31)) as i64
        };
        let jit = |p: P, n: u64| if j == 0 { 0 } else { h(p, n).rem_euclid(2 * j + 1) - j };
        for p in lines.iter_mut().flat_map(|l| l.iter_mut()) {
            let q = *p;
            *p = (a * q.0 - b * q.1 + jit(q, 1) + tx, b * q.0 + a * q.1 + jit(q, 2) + ty);
        }
        let e = t.range(-40, 20) as i32;
        let s = *t.pick(&[1.0, 0.1, 1.0 / 3.0, 0.7]) * (2f64).powi(e);
        Emb::Fine { f32: is32, s: F::of(s) }
    }
}

/// No near-contacts: any two segments of the lines either share an end point
/// and leave it in clearly different directions, or keep every end point clear
/// of the other segment, all relative to the size of the coordinates.
pub fn clear(lines: &[&Vec<P>], tol: f64) -> bool {
    let size = lines.iter().map(|l| extent(l)).max().unwrap_or(1) as f64;
    let segs: Vec<(P, P)> = lines.iter().flat_map(|l| exact::segs(l)).collect();
    let far = tol * size;
    let f = |p: P| (p.0 as f64, p.1 as f64);
    let dist = |p: P, s: (P, P)| {
        let (p, a, b) = (f(p), f(s.0), f(s.1));
        let d = (b.0 - a.0, b.1 - a.1);
        let l2 = d.0 * d.0 + d.1 * d.1;
        let t = if l2 == 0.0 { 0.0 } else { ((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / l2 };
        let t = t.clamp(0.0, 1.0);
        (a.0 + t * d.0 - p.0).hypot(a.1 + t * d.1 - p.1)
    };
    for (i, x) in segs.iter().enumerate() {
        if x.0 == x.1 {
            continue; // a repeated position: decided by equality
        }
        if dist(x.1, (x.0, x.0)) < far {
            return false;
        }
        for y in &segs[..i] {
            if y.0 == y.1 {
                continue;
            }
            let shared: Vec<P> = [x.0, x.1].into_iter().filter(|p| *p == y.0 || *p == y.1).collect();
            if shared.len() == 2 {
                continue; // the same segment, possibly reversed: exact in any arithmetic
            }
            let (u, v) = (
                ((x.1 .0 - x.0 .0) as f64, (x.1 .1 - x.0 .1) as f64),
                ((y.1 .0 - y.0 .0) as f64, (y.1 .1 - y.0 .1) as f64),
            );
            if shared.len() == 1 {
                let sin = (u.0 * v.1 - u.1 * v.0).abs() / (u.0.hypot(u.1) * v.0.hypot(v.1));
                if sin < 4.0 * tol {
                    return false;
                }
            }
            for (p, s) in [(x.0, y), (x.1, y), (y.0, x), (y.1, x)] {
                if !shared.contains(&p) && dist(p, *s) < far {
                    return false;
                }
            }
        }
    }
    true
}

/// Extent of a set of points, to choose a lattice for it: shift to 0 and width.
pub fn normalize(lines: &mut [&mut Vec<P>]) -> i64 {
    let (mut x0, mut y0, mut x1, mut y1) = (i64::MAX, i64::MAX, 0, 0);
    for p in lines.iter().flat_map(|l| l.iter()) {
        x0 = x0.min(p.0);
        y0 = y0.min(p.1);
    }
    for l in lines.iter_mut() {
        for p in l.iter_mut() {
            p.0 -= x0;
            p.1 -= y0;
            x1 = x1.max(p.0);
            y1 = y1.max(p.1);
        }
    }
    x1.max(y1)
}

// ---------------------------------------------------------------- lines

pub fn grid_point(t: &mut Tape, w: i64) -> P {
    (t.range(0, w), t.range(0, w))
}

/// Keep adding points while the line stays simple.
pub fn avoiding_line(t: &mut Tape, n: usize, w: i64, step: i64) -> Vec<P> {
    let mut l = vec![grid_point(t, w)];
    let mut tries = 0;
    while l.len() < n && tries < 4 * n {
        tries += 1;
        let last = *l.last().unwrap();
        let p = if step > 0 {
            (
                (last.0 + t.range(-step, step)).clamp(0, w),
                (last.1 + t.range(-step, step)).clamp(0, w),
            )
        } else {
            grid_point(t, w)
        };
        if p == last {
            continue;
        }
        l.push(p);
        if !extends_ok(&l) {
            l.pop();
        }
    }
    l
}

/// Given that all but the last segment form a simple open line: is it still one?
fn extends_ok(l: &[P]) -> bool {
    let n = l.len() - 1;
    let last = (l[n - 1], l[n]);
    (0..n - 1).all(|i| match exact::inter((l[i], l[i + 1]), last) {
        exact::Inter::None => true,
        exact::Inter::Touch(p) => i == n - 2 && p == l[n - 1],
        _ => false,
    })
}

/// Long shapes with many segments: boxes of neighbouring segments overlap a lot.
pub fn long_line(t: &mut Tape, n: usize) -> Vec<P> {
    let n = n as i64;
    match t.below(5) {
        // zigzag
        0 => (0..n).map(|i| (i, if i % 2 == 0 { 0 } else { 1 + t.range(0, 6) })).collect(),
        // comb: teeth up and down
        1 => {
            let h = 2 + t.range(0, 5);
            let mut v = Vec::new();
            for i in 0..(n / 4).max(1) {
                v.extend([(4 * i, 0), (4 * i, h), (4 * i + 2, h), (4 * i + 2, 0)]);
            }
            v
        }
        // square spiral outwards
        2 => {
            let mut v = vec![(0i64, 0i64)];
            let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            let (mut x, mut y) = (0, 0);
            for i in 0..n.min(120) {
                let d = dirs[(i % 4) as usize];
                let len = 1 + i / 2;
                x += d.0 * len;
                y += d.1 * len;
                v.push((x, y));
            }
            v
        }
        // staircase
        3 => (0..n.min(300)).map(|i| ((i + 1) / 2, i / 2)).collect(),
        // x-monotone noise
        _ => {
            let mut x = 0;
            (0..n)
                .map(|_| {
                    x += 1 + t.range(0, 1);
                    (x, t.range(0, 12))
                })
                .collect()
        }
    }
}

fn lattice_points_on(a: P, b: P) -> Vec<P> {
    let g = gcd((b.0 - a.0).abs(), (b.1 - a.1).abs());
    if g == 0 {
        return vec![a];
    }
    (0..=g).map(|i| (a.0 + (b.0 - a.0) / g * i, a.1 + (b.1 - a.1) / g * i)).collect()
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// A lattice point on the curve: a vertex or inside an edge.
pub fn point_on(t: &mut Tape, l: &[P]) -> P {
    if l.len() < 2 || t.chance(1, 3) {
        return *t.pick(l);
    }
    let i = t.below(l.len() - 1);
    let pts = lattice_points_on(l[i], l[i + 1]);
    *t.pick(&pts)
}

/// One local edit, usually keeping most of the line intact.
pub fn mutate_line(t: &mut Tape, l: &mut Vec<P>, w: i64) {
    if l.is_empty() {
        l.push(grid_point(t, w));
        return;
    }
    match t.below(11) {
        0 => {
            let i = t.below(l.len());
            l[i] = grid_point(t, w);
        }
        1 => {
            let i = t.below(l.len());
            l[i].0 += t.range(-1, 1);
            l[i].1 += t.range(-1, 1);
        }
        2 => {
            let p = point_on(t, l);
            l.push(p);
        }
        3 => {
            let p = point_on(t, l);
            l.insert(0, p);
        }
        4 => {
            let p = point_on(t, l);
            let i = t.below(l.len() + 1);
            l.insert(i, p);
        }
        5 => {
            let i = t.below(l.len());
            let p = l[i];
            l.insert(i, p);
        }
        6 => {
            let p = l[0];
            l.push(p);
        }
        7 => {
            let i = t.below(l.len());
            l[i] = point_on(t, l);
        }
        8 => {
            let i = t.below(l.len());
            l.remove(i);
        }
        9 => {
            // Pass through the first (or last) position with the last (first) segment.
            if l.len() >= 2 {
                let (first, last) = (l[0], l[l.len() - 1]);
                let p = (2 * first.0 - last.0, 2 * first.1 - last.1);
                l.push(p);
            }
        }
        _ => {
            let (i, j) = (t.below(l.len()), t.below(l.len()));
            l.swap(i, j);
        }
    }
}

/// Any line, over the whole range from nonsense to simple.
pub fn any_line(t: &mut Tape) -> Vec<P> {
    match t.weighted(&[4, 3, 5, 3, 2, 2]) {
        0 => {
            let w = t.range(1, 4);
            let n = t.below(8);
            (0..n).map(|_| grid_point(t, w)).collect()
        }
        1 => {
            let w = t.range(3, 60);
            let n = t.below(9);
            (0..n).map(|_| grid_point(t, w)).collect()
        }
        2 => {
            let w = *t.pick(&[3, 4, 6, 10, 20, 50]);
            let n = 2 + t.below(18);
            let step = *t.pick(&[0, 1, 2, 3, 8]);
            let mut l = avoiding_line(t, n, w, step);
            if t.chance(1, 3) {
                let f = l[0];
                l.push(f);
            }
            if t.chance(1, 2) {
                mutate_line(t, &mut l, w);
            }
            if t.chance(1, 3) {
                subdivide(t, &mut l);
            }
            if t.chance(1, 2) {
                l.reverse();
            }
            l
        }
        3 => {
            let mut l = ring(t);
            if t.chance(2, 3) {
                let w = extent(&l);
                mutate_line(t, &mut l, w);
            }
            l
        }
        4 => {
            let n = 9 + t.below(150);
            let mut l = long_line(t, n);
            if t.chance(1, 2) {
                l.iter_mut().for_each(|p| *p = (p.1, p.0));
            }
            if t.chance(1, 2) {
                l.reverse();
            }
            if t.chance(1, 2) {
                let w = extent(&l);
                mutate_line(t, &mut l, w);
            }
            l
        }
        _ => {
            let mut l = big_ring(t);
            if t.chance(1, 2) {
                let w = extent(&l);
                mutate_line(t, &mut l, w);
            }
            l
        }
    }
}

pub fn extent(l: &[P]) -> i64 {
    l.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1)
}

/// Insert lattice points of some edges as extra (collinear) vertices.
pub fn subdivide(t: &mut Tape, l: &mut Vec<P>) {
    let mode = t.below(3);
    let mut out = Vec::new();
    for i in 0..l.len() {
        out.push(l[i]);
        if i + 1 < l.len() && l[i] != l[i + 1] {
            let pts = lattice_points_on(l[i], l[i + 1]);
            for p in &pts[1..pts.len() - 1] {
                if mode == 0 || t.chance(1, 3) {
                    out.push(*p);
                }
            }
        }
    }
    *l = out;
}

// ---------------------------------------------------------------- rings

fn close(mut v: Vec<P>) -> Vec<P> {
    if let Some(f) = v.first().copied() {
        v.push(f);
    }
    v
}

pub fn rect(x0: i64, y0: i64, x1: i64, y1: i64) -> Vec<P> {
    close(vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)])
}

/// Untangle a random tour (2-opt); usually simple afterwards.
fn two_opt(t: &mut Tape, n: usize, w: i64) -> Vec<P> {
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let p = grid_point(t, w);
        if !v.contains(&p) {
            v.push(p);
        }
    }
    let n = v.len();
    if n < 3 {
        return rect(0, 0, w.max(1), w.max(1));
    }
    for _ in 0..60 {
        let mut changed = false;
        for i in 0..n {
            for j in i + 1..n {
                let (a, b) = (v[i], v[(i + 1) % n]);
                let (c, d) = (v[j], v[(j + 1) % n]);
                let adj = b == c || d == a;
                let hit = match exact::inter((a, b), (c, d)) {
                    exact::Inter::None => false,
                    exact::Inter::Touch(_) => !adj,
                    _ => true,
                };
                if hit && !adj {
                    v[i + 1..=j].reverse();
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    close(v)
}

/// Sort points around a centre by exact angle: always simple.
pub fn star(t: &mut Tape, n: usize, w: i64) -> Vec<P> {
    let c = (w / 2, w / 2);
    let mut v: Vec<P> = (0..n).map(|_| grid_point(t, w)).filter(|p| *p != c).collect();
    let half = |p: &P| {
        let d = (p.0 - c.0, p.1 - c.1);
        !(d.1 > 0 || (d.1 == 0 && d.0 > 0))
    };
    v.sort_by(|a, b| {
        half(a).cmp(&half(b)).then_with(|| {
            let o = exact::orient(c, *a, *b);
            0.cmp(&o).then((a.0 - c.0).abs().cmp(&(b.0 - c.0).abs()))
        })
    });
    v.dedup_by(|a, b| half(a) == half(b) && exact::orient(c, *a, *b) == 0);
    close(v)
}

pub type Cells = std::collections::BTreeSet<(i64, i64)>;

/// A connected random blob of unit cells.
pub fn blob(t: &mut Tape, n: usize, w: i64) -> Cells {
    let mut cells: Cells = Default::default();
    let mut list = vec![(w / 2, w / 2)];
    cells.insert(list[0]);
    let mut tries = 0;
    while cells.len() < n && tries < 4 * n {
        tries += 1;
        let c = *t.pick(&list);
        let d = *t.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1)]);
        let q = (c.0 + d.0, c.1 + d.1);
        if q.0 < 0 || q.1 < 0 || q.0 >= w || q.1 >= w || !cells.insert(q) {
            continue;
        }
        list.push(q);
    }
    cells
}

/// Trace all boundary rings of a set of cells (interior on the left). At a
/// pinch point turn left (`left`) or right, giving different decompositions
/// into rings. Collinear vertices are merged unless `keep`.
pub fn trace(cells: &Cells, left: bool, keep: bool) -> Rings {
    use std::collections::BTreeMap;
    let mut next: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for &(x, y) in cells {
        let mut e = |a: P, b: P| next.entry(a).or_default().push(b);
        if !cells.contains(&(x, y - 1)) {
            e((x, y), (x + 1, y));
        }
        if !cells.contains(&(x + 1, y)) {
            e((x + 1, y), (x + 1, y + 1));
        }
        if !cells.contains(&(x, y + 1)) {
            e((x + 1, y + 1), (x, y + 1));
        }
        if !cells.contains(&(x - 1, y)) {
            e((x, y + 1), (x, y));
        }
    }
    let mut rings = Vec::new();
    while let Some((&start, _)) = next.iter().find(|(_, v)| !v.is_empty()) {
        let mut ring = vec![start];
        let mut cur = next.get_mut(&start).unwrap().remove(0);
        let mut prev = start;
        while cur != start {
            ring.push(cur);
            let outs = next.get_mut(&cur).unwrap();
            let i = if outs.len() == 1 {
                0
            } else {
                let o0 = exact::orient(prev, cur, outs[0]);
                if (o0 > 0) == left {
                    0
                } else {
                    1
                }
            };
            let nx = outs.remove(i);
            prev = cur;
            cur = nx;
        }
        ring.push(start);
        if !keep {
            ring = merge_collinear(&ring);
        }
        rings.push(ring);
    }
    rings
}

pub fn merge_collinear(ring: &[P]) -> Vec<P> {
    let n = ring.len() - 1;
    let v: Vec<P> = (0..n)
        .filter(|&i| exact::orient(ring[(i + n - 1) % n], ring[i], ring[(i + 1) % n]) != 0)
        .map(|i| ring[i])
        .collect();
    close(v)
}

/// Same ring, another start vertex.
pub fn rotate_ring(r: &[P], by: usize) -> Vec<P> {
    if r.len() < 2 {
        return r.to_vec();
    }
    let mut v = r[..r.len() - 1].to_vec();
    let n = v.len();
    v.rotate_left(by % n);
    close(v)
}

/// A simple lattice ring (checked exactly; falls back to a rectangle).
pub fn ring(t: &mut Tape) -> Vec<P> {
    let r = match t.weighted(&[3, 4, 3, 4, 2]) {
        0 => {
            let (w, h) = (1 + t.range(0, 7), 1 + t.range(0, 7));
            if t.chance(1, 2) {
                close(vec![(0, 0), (w, t.range(0, h)), (t.range(0, w), h)])
            } else {
                rect(0, 0, w, h)
            }
        }
        1 => {
            let (n, w) = (3 + t.below(8), *t.pick(&[2, 3, 4, 5, 8, 16]));
            two_opt(t, n, w)
        }
        2 => {
            let (n, w) = (3 + t.below(12), *t.pick(&[4, 6, 8, 12, 30]));
            star(t, n, w)
        }
        3 => {
            let (n, w) = (1 + t.below(14), *t.pick(&[3, 4, 5, 6]));
            let c = blob(t, n, w);
            let keep = t.chance(1, 3);
            let mut rs = trace(&c, t.chance(1, 2), keep);
            rs.sort_by_key(|r| -exact::area2(r));
            rs.remove(0)
        }
        _ => notched(t),
    };
    finish_ring(t, r)
}

/// Subdivide, rotate, reverse, shear; make sure it is simple.
fn finish_ring(t: &mut Tape, mut r: Vec<P>) -> Vec<P> {
    if !exact::is_ring(&r) {
        let k = 2 + r.len() as i64 % 4;
        r = rect(0, 0, k, k);
    }
    match t.below(8) {
        0 => r.iter_mut().for_each(|p| p.0 += p.1),
        1 => r.iter_mut().for_each(|p| p.1 -= p.0),
        2 => r.iter_mut().for_each(|p| *p = (p.1, p.0)),
        _ => {}
    }
    if t.chance(1, 3) {
        let s = *t.pick(&[2, 3]);
        r.iter_mut().for_each(|p| *p = (p.0 * s, p.1 * s));
    }
    if t.chance(1, 4) {
        subdivide(t, &mut r);
    }
    r = rotate_ring(&r, t.below(r.len()));
    if t.chance(1, 2) {
        r.reverse();
    }
    r
}

/// Shapes with notches, teeth, arms: whose convex hull or inside is far from the ring.
fn notched(t: &mut Tape) -> Vec<P> {
    match t.below(4) {
        // comb
        0 => {
            let (k, h) = (2 + t.range(0, 3), 2 + t.range(0, 3));
            let mut v = vec![(0, 0), (4 * (k - 1) + 2, 0)];
            for i in (0..k).rev() {
                v.extend([(4 * i + 2, h), (4 * i, h)]);
                if i > 0 {
                    v.extend([(4 * i, 1), (4 * i - 2, 1)]);
                }
            }
            close(v)
        }
        // C shape
        1 => {
            let (w, h, g) = (3 + t.range(0, 3), 3 + t.range(0, 3), 1 + t.range(0, 1));
            close(vec![(0, 0), (w, 0), (w, g), (1, g), (1, h - 1), (w, h - 1), (w, h), (0, h)])
        }
        // plus
        2 => {
            let s = 1 + t.range(0, 2);
            close(vec![
                (s, 0),
                (2 * s, 0),
                (2 * s, s),
                (3 * s, s),
                (3 * s, 2 * s),
                (2 * s, 2 * s),
                (2 * s, 3 * s),
                (s, 3 * s),
                (s, 2 * s),
                (0, 2 * s),
                (0, s),
                (s, s),
            ])
        }
        // spiral arm
        _ => close(vec![
            (0, 0),
            (7, 0),
            (7, 7),
            (2, 7),
            (2, 3),
            (4, 3),
            (4, 5),
            (3, 5),
            (3, 6),
            (6, 6),
            (6, 1),
            (1, 1),
            (1, 8),
            (0, 8),
        ]),
    }
}

/// A ring with many vertices.
pub fn big_ring(t: &mut Tape) -> Vec<P> {
    let r = match t.below(4) {
        0 => {
            let n = 20 + t.below(100);
            star(t, n, 200)
        }
        1 => {
            let (n, w) = (30 + t.below(120), 16);
            let c = blob(t, n, w);
            let mut rs = trace(&c, t.chance(1, 2), t.chance(1, 2));
            rs.sort_by_key(|r| -exact::area2(r));
            rs.remove(0)
        }
        2 => {
            // x-monotone top over a flat or jagged bottom
            let n = 10 + t.range(0, 80);
            let mut v: Vec<P> = (0..n).map(|i| (2 * i, -t.range(0, 5))).collect();
            v.extend((0..n).rev().map(|i| (2 * i + t.range(0, 1), 1 + t.range(0, 9))));
            close(v)
        }
        _ => {
            let (n, w) = (15 + t.below(25), 60);
            two_opt(t, n, w)
        }
    };
    finish_ring(t, r)
}

pub fn shift(r: &[P], d: P) -> Vec<P> {
    r.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect()
}
pub fn scale(r: &[P], s: i64) -> Vec<P> {
    r.iter().map(|p| (p.0 * s, p.1 * s)).collect()
}

pub fn bbox(r: &[P]) -> (i64, i64, i64, i64) {
    (
        r.iter().map(|p| p.0).min().unwrap_or(0),
        r.iter().map(|p| p.1).min().unwrap_or(0),
        r.iter().map(|p| p.0).max().unwrap_or(0),
        r.iter().map(|p| p.1).max().unwrap_or(0),
    )
}

/// Lattice points strictly inside a ring (bounded search).
pub fn interior_points(r: &[P]) -> Vec<P> {
    let (x0, y0, x1, y1) = bbox(r);
    let step = (((x1 - x0) * (y1 - y0)) / 400).max(1);
    let sx = (step as f64).sqrt().ceil() as i64;
    let mut v = Vec::new();
    let mut x = x0 + 1;
    while x < x1 {
        let mut y = y0 + 1;
        while y < y1 {
            if exact::locate(r, (x, y)) == 1 {
                v.push((x, y));
            }
            y += sx;
        }
        x += sx;
    }
    v
}

/// Lattice points on a ring.
pub fn boundary_points(r: &[P]) -> Vec<P> {
    let mut v: Vec<P> = exact::segs(r).iter().flat_map(|s| lattice_points_on(s.0, s.1)).collect();
    v.sort();
    v.dedup();
    v
}

/// A simple ring using points from the given pools.
fn ring_from(t: &mut Tape, pool: &[P], n: usize) -> Option<Vec<P>> {
    if pool.len() < 3 {
        return None;
    }
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let p = *t.pick(pool);
        if !v.contains(&p) {
            v.push(p);
        }
    }
    if v.len() < 3 {
        return None;
    }
    // sort by angle around the centroid, in scaled coordinates
    let m = v.len() as i64;
    let c = (v.iter().map(|p| p.0).sum::<i64>(), v.iter().map(|p| p.1).sum::<i64>());
    if t.chance(3, 4) {
        v.sort_by(|a, b| {
            let (a, b) = ((a.0 * m - c.0, a.1 * m - c.1), (b.0 * m - c.0, b.1 * m - c.1));
            let h = |d: P| !(d.1 > 0 || (d.1 == 0 && d.0 > 0));
            h(a).cmp(&h(b)).then_with(|| 0.cmp(&(a.0 * b.1 - a.1 * b.0)))
        });
    }
    let mut r = close(v);
    if !exact::is_ring(&r) {
        return None;
    }
    r = rotate_ring(&r, t.below(r.len()));
    if t.chance(1, 2) {
        r.reverse();
    }
    Some(r)
}

/// A ring related to `r` in a way that stresses contacts: vertices on r's
/// boundary (vertices or edge interiors), inside or outside.
pub fn contact_ring(t: &mut Tape, r: &[P]) -> Option<Vec<P>> {
    let b = boundary_points(r);
    let (x0, y0, x1, y1) = bbox(r);
    let ins = interior_points(r);
    let mut pool: Vec<P> = Vec::new();
    let mode = t.below(5);
    // mode 0: boundary only; 1: boundary + interior; 2: boundary + outside;
    // 3: everything; 4: mostly interior
    pool.extend(&b);
    if mode == 1 || mode == 3 || mode == 4 {
        let k = if mode == 4 { 3 } else { 1 };
        for _ in 0..k {
            pool.extend(&ins);
        }
    }
    if mode == 2 || mode == 3 {
        for _ in 0..b.len() {
            pool.push((t.range(x0 - 2, x1 + 2), t.range(y0 - 2, y1 + 2)));
        }
    }
    let n = 3 + t.below(6);
    let mut c = ring_from(t, &pool, n)?;
    if t.chance(1, 4) {
        subdivide(t, &mut c);
    }
    Some(c)
}

/// Two rings crossing each other only through shared vertices: overlay two
/// shapes and insert every (lattice) crossing point into both.
pub fn vertex_crossing_pair(t: &mut Tape) -> (Vec<P>, Vec<P>) {
    let (mut a, mut b) = match t.below(3) {
        // plus sign: long horizontal and vertical bars
        0 => {
            let (w, x, l) = (1 + t.range(0, 3), t.range(1, 4), 6 + t.range(0, 4));
            (rect(0, 3, l, 3 + w), rect(x, 0, x + 1, 3 + w + 2))
        }
        // square and diamond
        1 => {
            let s = 2 * (1 + t.range(0, 2));
            let sq = rect(-s, -s, s, s);
            let k = s + s / 2;
            (sq, close(vec![(k, 0), (0, k), (-k, 0), (0, -k)]))
        }
        // two random rings
        _ => {
            let a = ring(t);
            let b = ring(t);
            let d = (t.range(-4, 4), t.range(-4, 4));
            (scale(&a, 2), shift(&scale(&b, 2), d))
        }
    };
    if t.chance(1, 2) {
        a = scale(&a, 3);
        b = scale(&b, 3);
    }
    insert_contacts(&mut a, &mut b);
    let (i, j) = (t.below(a.len()), t.below(b.len()));
    (rotate_ring(&a, i), rotate_ring(&b, j))
}

/// Insert into both rings every lattice point where they meet.
pub fn insert_contacts(a: &mut Vec<P>, b: &mut Vec<P>) {
    let on = |x: &[P], y: &[P]| {
        let (sx, sy) = (exact::segs(x), exact::segs(y));
        let mut out = Vec::new();
        for s in sx {
            let mut cuts = vec![s.0];
            for q in &sy {
                match exact::inter(s, *q) {
                    exact::Inter::Touch(p) => cuts.push(p),
                    exact::Inter::Overlap(p, r) => cuts.extend([p, r]),
                    exact::Inter::Cross => {
                        let c = exact::cross_point(s, *q);
                        let p = (c.0.round() as i64, c.1.round() as i64);
                        if exact::on_seg(s.0, s.1, p) && exact::on_seg(q.0, q.1, p) {
                            cuts.push(p);
                        }
                    }
                    exact::Inter::None => {}
                }
            }
            let d = |p: &P| (p.0 - s.0 .0).abs() + (p.1 - s.0 .1).abs();
            cuts.sort_by_key(d);
            cuts.dedup();
            cuts.retain(|p| *p != s.1);
            out.extend(cuts);
        }
        close(out)
    };
    let (na, nb) = (on(a, b), on(b, a));
    *a = na;
    *b = nb;
}

// ---------------------------------------------------------------- polygons

/// Any polygon as rings (first the exterior), over the whole range of validity.
pub fn any_polygon(t: &mut Tape) -> Rings {
    let mut p = match t.weighted(&[3, 3, 6, 3, 3, 3, 2, 2]) {
        // cells with holes
        0 => {
            let (n, w) = (4 + t.below(22), *t.pick(&[4, 5, 6]));
            let c = blob(t, n, w);
            let mut rs = trace(&c, t.chance(1, 2), t.chance(1, 3));
            rs.sort_by_key(|r| -exact::area2(r));
            rs
        }
        // full block minus cells: holes touching one another and the border at corners
        1 => {
            let w = 3 + t.range(0, 3);
            let mut c: Cells = (0..w).flat_map(|x| (0..w).map(move |y| (x, y))).collect();
            for _ in 0..1 + t.below(6) {
                let lo = if t.chance(1, 4) { 0 } else { 1 };
                c.remove(&(t.range(lo, w - 1 - lo), t.range(lo, w - 1 - lo)));
            }
            if c.is_empty() {
                c.insert((0, 0));
            }
            let mut rs = trace(&c, t.chance(1, 2), t.chance(1, 3));
            rs.sort_by_key(|r| -exact::area2(r));
            rs
        }
        // exterior and rings in contact with it
        2 => {
            let ext = ring(t);
            let ext = scale(&ext, 1 + t.range(0, 2));
            let mut rs = vec![ext.clone()];
            for _ in 0..1 + t.weighted(&[4, 2, 1]) {
                if let Some(h) = contact_ring(t, &ext) {
                    rs.push(h);
                }
            }
            rs
        }
        // scaled-up exterior with small rings dropped inside
        3 => {
            let ext = scale(&ring(t), 3 + t.range(0, 3));
            let pts = interior_points(&ext);
            let mut rs = vec![ext];
            if !pts.is_empty() {
                for _ in 0..1 + t.below(4) {
                    let r = ring(t);
                    let p = *t.pick(&pts);
                    let o = *t.pick(&r);
                    rs.push(shift(&r, (p.0 - o.0, p.1 - o.1)));
                }
            }
            rs
        }
        // grid of holes
        4 => many_holes(t),
        // crossing through vertices
        5 => {
            let (a, b) = vertex_crossing_pair(t);
            match t.below(4) {
                0 => vec![a, b],
                1 => vec![b, a],
                _ => {
                    let all: Vec<P> = a.iter().chain(&b).copied().collect();
                    let (x0, y0, x1, y1) = bbox(&all);
                    let m = t.range(0, 2);
                    vec![rect(x0 - m, y0 - m, x1 + m, y1 + m), a, b]
                }
            }
        }
        // large rings
        6 => {
            let ext = big_ring(t);
            let mut rs = vec![ext.clone()];
            for _ in 0..t.below(3) {
                if t.chance(1, 2) {
                    if let Some(h) = contact_ring(t, &ext) {
                        rs.push(h);
                    }
                } else {
                    let pts = interior_points(&ext);
                    if !pts.is_empty() {
                        let p = *t.pick(&pts);
                        rs.push(rect(p.0, p.1, p.0 + 1, p.1 + 1));
                    }
                }
            }
            rs
        }
        // hole equal or nearly equal to the exterior
        _ => {
            let ext = ring(t);
            let mut h = ext.clone();
            match t.below(3) {
                0 => {
                    let w = extent(&h);
                    mutate_line(t, &mut h, w);
                }
                1 => h = rotate_ring(&h, 1),
                _ => h = shift(&h, (t.range(-1, 1), t.range(-1, 1))),
            }
            vec![scale(&ext, 1 + t.range(0, 1)), h]
        }
    };
    if t.chance(1, 8) {
        break_polygon(t, &mut p);
    }
    dress(t, &mut p);
    p
}

/// Reverse and rotate rings, reorder holes.
pub fn dress(t: &mut Tape, p: &mut Rings) {
    for r in p.iter_mut() {
        if t.chance(1, 2) {
            r.reverse();
        }
        if exact::closed(r) {
            *r = rotate_ring(r, t.below(r.len()));
        }
    }
    if p.len() > 2 && t.chance(1, 2) {
        t.shuffle(&mut p[1..]);
    }
}

fn many_holes(t: &mut Tape) -> Rings {
    let g = 2 + t.range(0, 4);
    holes_grid(t, g)
}

fn holes_grid(t: &mut Tape, g: i64) -> Rings {
    let s = 4;
    let mut rs = vec![rect(0, 0, g * s, g * s)];
    let skip = t.below(4) as u32;
    for i in 0..g {
        for j in 0..g {
            if t.chance(skip, 4) {
                continue;
            }
            let (x, y) = (i * s, j * s);
            rs.push(match t.below(4) {
                0 => rect(x + 1, y + 1, x + 3, y + 3),
                1 => close(vec![(x + 2, y), (x + 4, y + 2), (x + 2, y + 4), (x, y + 2)]),
                2 => close(vec![(x + 1, y + 1), (x + 3, y + 1), (x + 2, y + 4)]),
                _ => rect(x + 1, y + 1, x + 2, y + 3),
            });
        }
    }
    if rs.len() > 1 && t.chance(1, 2) {
        let i = 1 + t.below(rs.len() - 1);
        match t.below(4) {
            0 => rs[i] = shift(&rs[i].clone(), (t.range(-4, 4), t.range(-4, 4))),
            1 => {
                let d = rs[i].clone();
                rs.push(d);
            }
            2 => {
                let w = g * s;
                mutate_line(t, &mut rs[i], w);
            }
            _ => {
                let (x0, y0, _, _) = bbox(&rs[i]);
                rs.push(rect(x0, y0, x0 + t.range(1, 6), y0 + t.range(1, 6)));
            }
        }
    }
    rs
}

/// Structural damage: open rings, short rings, empty rings, holes outside.
fn break_polygon(t: &mut Tape, p: &mut Rings) {
    let i = t.below(p.len());
    match t.below(6) {
        0 => {
            p[i].pop();
        }
        1 => p[i].truncate(3),
        2 => p[i].clear(),
        3 => {
            let w = extent(&p[i]);
            mutate_line(t, &mut p[i], w);
        }
        4 => p.push(vec![]),
        _ => {
            let r = p[i].clone();
            let (x0, _, x1, _) = bbox(&r);
            p.push(shift(&r, (x1 - x0 + t.range(0, 2), 0)));
        }
    }
}

/// Any multipolygon.
pub fn any_multipolygon(t: &mut Tape) -> Vec<Rings> {
    let mut m: Vec<Rings> = match t.weighted(&[3, 3, 3, 3, 2, 2, 2, 3]) {
        // tiling with gaps and touching corners
        0 => {
            let g = 1 + t.range(0, 4);
            let mut v = Vec::new();
            for i in 0..g {
                for j in 0..g {
                    let (x, y) = (4 * i, 4 * j);
                    match t.below(5) {
                        0 => v.push(vec![rect(x, y, x + 3, y + 3)]),
                        1 => v.push(vec![close(vec![(x + 2, y), (x + 4, y + 2), (x + 2, y + 4), (x, y + 2)])]),
                        2 => v.push(vec![rect(x, y, x + 4, y + 4), rect(x + 1, y + 1, x + 3, y + 3)]),
                        3 => v.push(vec![close(vec![(x, y), (x + 3, y), (x, y + 3)])]),
                        _ => {}
                    }
                }
            }
            v
        }
        // islands in holes, nested several levels
        1 => {
            let depth = 1 + t.below(4) as i64;
            let s = 4 * depth + 2;
            let mut v = Vec::new();
            for d in 0..depth {
                let a = 2 * d;
                let gap = 1 + t.below(4) as i64 / 3;
                v.push(vec![rect(a, a, s - a, s - a), rect(a + gap, a + 1, s - a - 1, s - a - 1)]);
            }
            let a = 2 * depth;
            v.push(vec![rect(a, a, s - a, s - a)]);
            if t.chance(1, 3) {
                let i = t.below(v.len());
                let d = (t.range(-2, 2), t.range(-2, 2));
                v[i] = v[i].iter().map(|r| shift(r, d)).collect();
            }
            v
        }
        // a polygon with holes and something dropped into a hole
        2 => {
            let p = if t.chance(1, 2) { many_holes(t) } else { any_polygon(t) };
            let mut v = vec![p.clone()];
            for _ in 0..1 + t.below(2) {
                let host = t.pick(&p).clone();
                if host.len() >= 4 {
                    if t.chance(2, 3) {
                        if let Some(r) = contact_ring(t, &host) {
                            v.push(vec![r]);
                        }
                    } else {
                        v.push(vec![host]);
                    }
                }
            }
            v
        }
        // two rings in contact
        3 => {
            let a = scale(&ring(t), 1 + t.range(0, 2));
            let mut v = vec![vec![a.clone()]];
            for _ in 0..1 + t.below(2) {
                if let Some(b) = contact_ring(t, &a) {
                    v.push(vec![b]);
                }
            }
            v
        }
        // random pair, moved
        4 => {
            let (a, b) = (ring(t), ring(t));
            let d = (t.range(-8, 8), t.range(-8, 8));
            vec![vec![a], vec![shift(&b, d)]]
        }
        // crossing through vertices
        5 => {
            let (a, b) = vertex_crossing_pair(t);
            vec![vec![a], vec![b]]
        }
        // components of a cell set: disjoint pieces touching at corners
        6 => {
            let w = 3 + t.range(0, 4);
            let mut c: Cells = Default::default();
            for x in 0..w {
                for y in 0..w {
                    if t.chance(1, 2) {
                        c.insert((x, y));
                    }
                }
            }
            cell_polygons(&c, t.chance(1, 3))
        }
        // two polygons with holes
        _ => {
            let a = any_polygon(t);
            let b = any_polygon(t);
            let d = (t.range(-20, 20), t.range(-20, 20));
            vec![a, b.iter().map(|r| shift(r, d)).collect()]
        }
    };
    if t.chance(1, 6) {
        m.push(vec![vec![]]);
    }
    if !m.is_empty() && t.chance(1, 6) {
        let i = t.below(m.len());
        match t.below(4) {
            0 => {
                let d = m[i].clone();
                m.push(d);
            }
            1 => {
                if !m[i].is_empty() {
                    break_polygon(t, &mut m[i]);
                }
            }
            2 => {
                let d = (t.range(-3, 3), t.range(-3, 3));
                m[i] = m[i].iter().map(|r| shift(r, d)).collect();
            }
            _ => {
                if m[i].len() > 1 {
                    let j = 1 + t.below(m[i].len() - 1);
                    m[i].remove(j);
                }
            }
        }
    }
    for p in m.iter_mut() {
        dress(t, p);
    }
    if t.chance(1, 2) {
        t.shuffle(&mut m);
    }
    m
}

/// Polygons (with holes) of the 4-connected components of a cell set; valid by construction.
pub fn cell_polygons(c: &Cells, keep: bool) -> Vec<Rings> {
    let mut left = c.clone();
    let mut out = Vec::new();
    while let Some(&s) = left.iter().next() {
        let mut comp: Cells = Default::default();
        let mut todo = vec![s];
        left.remove(&s);
        while let Some(p) = todo.pop() {
            comp.insert(p);
            for d in [(1, 0), (0, 1), (-1, 0), (0, -1)] {
                let q = (p.0 + d.0, p.1 + d.1);
                if left.remove(&q) {
                    todo.push(q);
                }
            }
        }
        // Interior on the left: turn right at pinches to keep pieces apart.
        let mut rs = trace(&comp, false, keep);
        if rs.iter().any(|r| !exact::is_ring(r)) {
            rs = trace(&comp, true, keep);
        }
        rs.sort_by_key(|r| -exact::area2(r));
        out.push(rs);
    }
    out
}

/// Any multi-line.
pub fn any_multiline(t: &mut Tape) -> Vec<Vec<P>> {
    let mut ls: Vec<Vec<P>> = match t.weighted(&[3, 6, 2, 3, 2, 2]) {
        0 => {
            let n = 1 + t.below(4);
            let w = t.range(1, 6);
            (0..n)
                .map(|_| {
                    let k = 2 + t.below(3);
                    (0..k).map(|_| grid_point(t, w)).collect()
                })
                .collect()
        }
        // a network: paths that meet at shared end nodes
        1 => network(t),
        // two lines from the single-line generator
        2 => {
            let a = any_line(t);
            let b = any_line(t);
            vec![a, b]
        }
        // a line and lines hanging off its points
        3 => {
            let w = *t.pick(&[4, 8, 20]);
            let n = 2 + t.below(6);
            let a = avoiding_line(t, n, w, 0);
            let mut v = vec![a.clone()];
            for _ in 0..1 + t.below(3) {
                let s = match t.below(3) {
                    0 => a[0],
                    1 => *a.last().unwrap(),
                    _ => point_on(t, &a),
                };
                let mut b = vec![s];
                for _ in 0..1 + t.below(3) {
                    b.push(grid_point(t, w));
                }
                v.push(b);
            }
            v
        }
        // rings and things touching them
        4 => {
            let r = ring(t);
            let mut v = vec![r.clone()];
            for _ in 0..1 + t.below(2) {
                if t.chance(1, 2) {
                    let p = point_on(t, &r);
                    let w = extent(&r) + 2;
                    v.push(vec![p, grid_point(t, w)]);
                } else {
                    let d = (t.range(-6, 6), t.range(-6, 6));
                    v.push(shift(&ring(t), d));
                }
            }
            v
        }
        // many short members spread out
        _ => {
            let n = 9 + t.below(90);
            (0..n)
                .map(|i| {
                    let (x, y) = (3 * (i as i64 % 12), 3 * (i as i64 / 12));
                    match t.below(8) {
                        0 => vec![(x, y), (x + 3, y)],
                        1 => vec![(x, y), (x, y + 3)],
                        2 | 3 => vec![(x, y), (x + 2, y + 1), (x + 1, y + 2)],
                        _ => vec![(x, y), (x + 1, y + t.range(0, 1) + 1)],
                    }
                })
                .collect()
        }
    };
    if t.chance(1, 8) {
        let i = t.below(ls.len() + 1);
        ls.insert(i, vec![]);
    }
    if !ls.is_empty() && t.chance(1, 4) {
        let i = t.below(ls.len());
        let w = extent(&ls[i]);
        match t.below(3) {
            0 => {
                let d = ls[i].clone();
                ls.push(d);
            }
            _ => mutate_line(t, &mut ls[i], w),
        }
    }
    for l in ls.iter_mut() {
        if t.chance(1, 3) {
            l.reverse();
        }
    }
    if t.chance(1, 2) {
        t.shuffle(&mut ls);
    }
    ls
}

/// Grow simple paths one after the other; each starts (and often ends) at an
/// existing end node and otherwise avoids everything: valid by construction.
pub fn network(t: &mut Tape) -> Vec<Vec<P>> {
    let w = *t.pick(&[4, 6, 10, 25]);
    let mut ls: Vec<Vec<P>> = Vec::new();
    let k = 2 + t.below(7);
    for _ in 0..k {
        let mut best: Option<Vec<P>> = None;
        for _ in 0..6 {
            let n = 1 + t.below(3);
            let mut l: Vec<P> = Vec::new();
            if !ls.is_empty() && t.chance(3, 4) {
                let m = t.pick(&ls).clone();
                l.push(if t.chance(1, 2) { m[0] } else { m[m.len() - 1] });
            }
            while l.len() < n + 1 {
                l.push(grid_point(t, w));
            }
            if !ls.is_empty() && t.chance(1, 3) {
                let m = t.pick(&ls).clone();
                let last = l.len() - 1;
                l[last] = m[0];
            }
            let mut all = ls.clone();
            all.push(l.clone());
            if exact::multiline_valid(&all) {
                best = Some(l);
                break;
            }
        }
        if let Some(l) = best {
            ls.push(l);
        }
    }
    if ls.is_empty() {
        ls.push(vec![(0, 0), (1, 1)]);
    }
    ls
}

// ---------------------------------------------------------------- large shapes

/// Through all points of a 2^k by 2^k grid, each step to a neighbour.
fn grid_filling(k: u32) -> Vec<P> {
    // Each level: transposed copy, two plain copies, anti-transposed copy.
    let mut v: Vec<P> = vec![(0, 0)];
    for i in 0..k {
        let h = 1i64 << i;
        let mut w: Vec<P> = v.iter().map(|p| (p.1, p.0)).collect();
        w.extend(v.iter().map(|p| (p.0, p.1 + h)));
        w.extend(v.iter().map(|p| (p.0 + h, p.1 + h)));
        w.extend(v.iter().map(|p| (2 * h - 1 - p.1, h - 1 - p.0)));
        v = w;
    }
    v
}

/// A long simple line or ring.
pub fn large_simple(t: &mut Tape) -> Vec<P> {
    let most = *t.pick(&[300, 1000, 2500]);
    let n = 100 + t.below(most) as i64;
    match t.below(7) {
        0 => {
            let mut v: Vec<P> = (0..n).map(|i| (2 * i, t.range(0, 40))).collect();
            if t.chance(1, 2) {
                v.extend([(2 * n, -3), (-1, -3)]);
                v.push(v[0]);
            }
            v
        }
        1 => {
            let h = 2 + t.range(0, 9);
            let mut v: Vec<P> = (0..n / 4).flat_map(|i| [(4 * i, 0), (4 * i, h), (4 * i + 2, h), (4 * i + 2, 0)]).collect();
            if t.chance(1, 2) {
                v.extend([(n + 4, 0), (n + 4, -2), (0, -2), (0, 0)]);
            }
            v
        }
        2 => {
            let v = scale(&grid_filling(4 + t.below(3) as u32), 2);
            // start and end somewhere
            let m = v.len();
            let a = t.below(m / 2);
            v[a..m - t.below(m / 2)].to_vec()
        }
        3 => {
            // there on the even rows, back on the odd ones
            let v = scale(&grid_filling(4 + t.below(2) as u32), 2);
            let m = v.len() as i64;
            let last = *v.last().unwrap();
            let mut r = v;
            r.extend([(last.0, -2 - m % 3), (0, -2 - m % 3), (0, 0)]);
            r
        }
        4 => {
            let (m, w) = (200 + t.below(1500), 50);
            let c = blob(t, m, w);
            let mut rs = trace(&c, false, t.chance(1, 2));
            if rs.iter().any(|r| !exact::is_ring(r)) {
                rs = trace(&c, true, false);
            }
            rs.sort_by_key(|r| -exact::area2(r));
            rs.remove(0)
        }
        5 => {
            let w = *t.pick(&[300, 3000]);
            star(t, n as usize, w)
        }
        _ => {
            // spiral
            let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            let (mut x, mut y) = (0, 0);
            let mut v = vec![(x, y)];
            for i in 0..50 + t.range(0, 250) {
                let d = dirs[(i % 4) as usize];
                x += d.0 * 2 * (1 + i / 2);
                y += d.1 * 2 * (1 + i / 2);
                v.push((x, y));
            }
            v
        }
    }
}

/// One local change to a long line: about half of them break it.
fn large_damage(t: &mut Tape, l: &mut Vec<P>) {
    let n = l.len();
    if n < 6 {
        return;
    }
    let i = t.below(n);
    match t.below(8) {
        0 => l[i] = l[t.below(n)],
        1 => l[i] = point_on(t, &l.clone()),
        2 => l.insert(i, l[i]),
        3 => {
            // out and back
            let (a, b) = (l[i], (l[i].0 + t.range(-3, 3), l[i].1 + t.range(-3, 3)));
            l.insert(i + 1, b);
            l.insert(i + 2, a);
        }
        4 => {
            let p = point_on(t, &l.clone());
            l.push(p);
        }
        5 => {
            let p = point_on(t, &l.clone());
            l.insert(0, p);
        }
        6 => {
            l.remove(i);
        }
        _ => l[i] = (l[i].0 + t.range(-2, 2), l[i].1 + t.range(-2, 2)),
    }
}

pub fn large_line(t: &mut Tape) -> Vec<P> {
    let mut l = large_simple(t);
    if exact::closed(&l) && t.chance(1, 2) {
        l = rotate_ring(&l, t.below(l.len()));
    }
    if t.chance(1, 2) {
        large_damage(t, &mut l);
    } else if t.chance(1, 8) && l.len() > 2 {
        // the end, folded back onto the last segment
        l = scale(&l, 2);
        let (a, b) = (l[l.len() - 2], l[l.len() - 1]);
        l.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
    }
    if t.chance(1, 2) {
        l.reverse();
    }
    if t.chance(1, 2) {
        l.iter_mut().for_each(|p| *p = (p.1, p.0));
    }
    l
}

fn random_cells(t: &mut Tape, w: i64) -> Cells {
    let p = 45 + t.below(35) as u32;
    let mut c: Cells = Default::default();
    for x in 0..w {
        for y in 0..w {
            if t.chance(p, 100) {
                c.insert((x, y));
            }
        }
    }
    if c.is_empty() {
        c.insert((0, 0));
    }
    c
}

/// Many rings or long rings.
pub fn large_polygon(t: &mut Tape) -> Rings {
    let mut r: Rings = match t.below(4) {
        0 => {
            let w = 8 + t.range(0, 26);
            let c = random_cells(t, w);
            let mut ps = cell_polygons(&c, t.chance(1, 3));
            ps.sort_by_key(|p| std::cmp::Reverse(p.len()));
            ps.remove(0).iter().map(|r| scale(r, 4)).collect()
        }
        1 => {
            // a ring around a smaller copy of itself
            let w = 600;
            let n = 50 + t.below(600);
            let s = star(t, n, w);
            let about = |k: i64| -> Vec<P> { s.iter().map(|p| (k * (p.0 - w / 2), k * (p.1 - w / 2))).collect() };
            let mut r = vec![about(3), about(2)];
            if t.chance(1, 2) {
                r.swap(0, 1);
            }
            r
        }
        2 => {
            // a comb with a hole in every tooth
            let n = 10 + t.range(0, 60);
            let mut e: Vec<P> = (0..n).flat_map(|i| [(8 * i, 0), (8 * i, 10), (8 * i + 6, 10), (8 * i + 6, 0)]).collect();
            e.extend([(8 * n, -4), (-4, -4)]);
            let mut r = vec![close(e)];
            for i in 0..n {
                let (x, y) = (8 * i, t.range(-3, 4));
                r.push(match t.below(3) {
                    0 => rect(x + 1, y, x + 5, y + 5),
                    1 => close(vec![(x, 2), (x + 3, 1), (x + 6, 2 + t.range(0, 7)), (x + 2, 9)]),
                    _ => close(vec![(x + 1, 1), (x + 5, 1), (x + 3, 10)]),
                });
            }
            r
        }
        _ => {
            let g = 6 + t.range(0, 20);
            holes_grid(t, g)
        }
    };
    if t.chance(1, 2) {
        let i = t.below(r.len());
        let j = t.below(r.len());
        match t.below(5) {
            0 => r[i] = shift(&r[i].clone(), (t.range(-4, 4), t.range(-4, 4))),
            1 => {
                let d = r[i].clone();
                r.push(d);
            }
            2 => large_damage(t, &mut r[i]),
            3 => {
                // a vertex of one onto another ring
                let p = point_on(t, &r[j].clone());
                let k = t.below(r[i].len());
                r[i][k] = p;
                if k == 0 {
                    *r[i].last_mut().unwrap() = p;
                }
            }
            _ => {
                let p = point_on(t, &r[j].clone());
                let k = 1 + t.below(r[i].len().max(2) - 1);
                r[i].insert(k, p);
            }
        }
    }
    dress(t, &mut r);
    r
}

/// Many members, nested and touching.
pub fn large_multipolygon(t: &mut Tape) -> Vec<Rings> {
    let mut m: Vec<Rings> = match t.below(3) {
        0 | 1 => {
            let w = 6 + t.range(0, 30);
            let c = random_cells(t, w);
            cell_polygons(&c, t.chance(1, 4)).into_iter().map(|p| p.iter().map(|r| scale(r, 4)).collect()).collect()
        }
        _ => {
            // one inside the hole of the other, many times
            let n = 2 + t.range(0, 30);
            (0..n)
                .map(|i| {
                    let (o, h) = (8 * i, 8 * i + 4);
                    let b = 8 * n + 8;
                    let mut p = vec![rect(o, o, 2 * b - o, 2 * b - o)];
                    if i + 1 < n || t.chance(1, 2) {
                        p.push(rect(h, h, 2 * b - h, 2 * b - h));
                    }
                    p
                })
                .collect()
        }
    };
    t.shuffle(&mut m);
    if t.chance(1, 2) {
        let i = t.below(m.len());
        let d = (4 * t.range(-2, 2), 4 * t.range(-2, 2));
        match t.below(5) {
            0 => m[i].iter_mut().for_each(|r| *r = shift(r, d)),
            1 => {
                let p = m[i].clone();
                m.push(p);
            }
            2 => {
                // lose a hole
                if m[i].len() > 1 {
                    m[i].pop();
                } else if let Some(p) = m.iter_mut().find(|p| p.len() > 1) {
                    p.pop();
                }
            }
            3 => {
                let e = (t.range(-1, 1), t.range(-1, 1));
                m[i].iter_mut().for_each(|r| *r = shift(r, e));
            }
            _ => m.push(vec![rect(d.0 + 1, d.1 + 1, d.0 + 3, d.1 + 3)]),
        }
    }
    for p in m.iter_mut() {
        dress(t, p);
    }
    m
}

/// Many members or long members.
pub fn large_multiline(t: &mut Tape) -> Vec<Vec<P>> {
    let mut ls: Vec<Vec<P>> = match t.below(4) {
        3 => vec![large_simple(t)],
        // one above the other, some joined at the ends
        0 => {
            let k = 2 + t.range(0, 12);
            let n = 20 + t.range(0, 150);
            (0..k)
                .map(|i| {
                    let y = 10 * i;
                    let mut l: Vec<P> = (0..n).map(|x| (2 * x, y + t.range(0, 8))).collect();
                    if t.chance(1, 2) {
                        l.insert(0, (-5, 0));
                    }
                    if t.chance(1, 2) {
                        l.push((2 * n + 5, 0));
                    }
                    l
                })
                .collect()
        }
        // pieces of one long line
        1 => {
            let l = large_simple(t);
            let mut v = Vec::new();
            let mut at = 0;
            while at + 1 < l.len() {
                let to = (at + 1 + t.below(60)).min(l.len() - 1);
                v.push(l[at..=to].to_vec());
                at = to;
            }
            v
        }
        // spokes
        _ => {
            let n = 10 + t.below(300);
            let s = star(t, n, 400);
            let c = (200, 200);
            s[..s.len() - 1].iter().map(|p| vec![c, *p]).collect()
        }
    };
    if t.chance(1, 2) {
        let (i, j) = (t.below(ls.len()), t.below(ls.len()));
        match t.below(6) {
            4 | 5 if ls[i].len() > 1 => {
                // one with the same ends, or closed
                let k = t.below(ls[i].len());
                let (a, b, mut c) = (ls[i][0], ls[i][ls[i].len() - 1], ls[i][k]);
                if t.chance(1, 2) {
                    c = (c.0 + t.range(-3, 3), c.1 + t.range(-3, 3));
                }
                let e = (t.range(-9, 9), t.range(-9, 9));
                ls.push(if t.chance(1, 3) { vec![a, b] } else if t.chance(1, 2) { vec![a, c, b] } else { close(vec![c, (c.0 + e.0, c.1 + e.1), (c.0 - e.1, c.1 + e.0)]) });
            }
            0 => large_damage(t, &mut ls[i]),
            1 => {
                let p = point_on(t, &ls[i].clone());
                ls[j].push(p);
            }
            2 => {
                let d = ls[i].clone();
                ls.push(d);
            }
            _ => {
                let (p, q) = (point_on(t, &ls[i].clone()), point_on(t, &ls[j].clone()));
                ls.push(vec![p, q]);
            }
        }
    }
    for l in ls.iter_mut() {
        if t.chance(1, 3) {
            l.reverse();
        }
    }
    if t.chance(1, 2) {
        t.shuffle(&mut ls);
    }
    ls
}

// ---------------------------------------------------------------- rectilinear

/// Steps along the axes only.
fn axis_walk(t: &mut Tape, n: usize, w: i64) -> Vec<P> {
    let mut l = vec![grid_point(t, w)];
    let mut turn = t.chance(1, 2);
    for _ in 0..n {
        let p = *l.last().unwrap();
        turn ^= t.chance(7, 8);
        let q = if turn { (t.range(0, w), p.1) } else { (p.0, t.range(0, w)) };
        l.push(q);
        // mostly avoid contacts
        if (q == p || !extends_ok(&l)) && t.chance(15, 16) {
            l.pop();
        }
    }
    l
}

pub fn recti_line(t: &mut Tape) -> Vec<P> {
    let mut l: Vec<P> = match t.below(5) {
        0 => {
            let (n, w) = (2 + t.below(30), *t.pick(&[2, 4, 8, 20]));
            axis_walk(t, n, w)
        }
        1 => {
            let (n, w) = (1 + t.below(40), *t.pick(&[3, 5, 9]));
            let c = blob(t, n, w);
            let keep = t.chance(1, 3);
            let mut rs = trace(&c, t.chance(1, 2), keep);
            rs.sort_by_key(|r| -exact::area2(r));
            let r = rs.remove(0);
            let r = rotate_ring(&r, t.below(30));
            if t.chance(1, 3) { r[..2 + t.below(r.len() - 1)].to_vec() } else { r }
        }
        2 => {
            let v = grid_filling(2 + t.below(3) as u32);
            let a = t.below(v.len() / 2);
            v[a..v.len() - t.below(v.len() / 2)].to_vec()
        }
        3 => {
            // staircase
            let (mut x, mut y) = (0, 0);
            let mut v = vec![(0, 0)];
            for i in 0..2 + t.range(0, 40) {
                if i % 2 == 0 { x += t.range(1, 3) } else { y += t.range(1, 3) }
                v.push((x, y));
            }
            v
        }
        _ => {
            let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            let (mut x, mut y) = (0, 0);
            let mut v = vec![(x, y)];
            for i in 0..3 + t.range(0, 30) {
                let d = dirs[(i % 4) as usize];
                x += d.0 * 2 * (1 + i / 2);
                y += d.1 * 2 * (1 + i / 2);
                v.push((x, y));
            }
            v
        }
    };
    if t.chance(1, 2) {
        recti_damage(t, &mut l);
    }
    if t.chance(1, 2) {
        l.reverse();
    }
    l
}

/// A change that keeps every segment parallel to an axis.
fn recti_damage(t: &mut Tape, l: &mut Vec<P>) {
    let n = l.len();
    if n < 2 {
        return;
    }
    let i = t.below(n - 1);
    let (a, b) = (l[i], l[i + 1]);
    match t.below(6) {
        0 => {
            // a position inside a segment, or again
            let p = point_on(t, &[a, b]);
            l.insert(i + 1, p);
        }
        1 => {
            // a bump
            let d = t.range(1, 3) * if t.chance(1, 2) { 1 } else { -1 };
            let e = if a.1 == b.1 { (0, d) } else { (d, 0) };
            l.splice(i + 1..i + 1, [(a.0 + e.0, a.1 + e.1), (b.0 + e.0, b.1 + e.1)]);
        }
        2 => {
            // on from the end, to touch or cross another segment
            let p = l[n - 1];
            let q = point_on(t, l);
            l.push((p.0, q.1));
            if t.chance(1, 2) {
                l.push(q);
            }
        }
        3 => {
            let p = l[0];
            let q = point_on(t, l);
            l.insert(0, (q.0, p.1));
        }
        4 => {
            // a spike
            let d = t.range(-3, 3);
            let p = if t.chance(1, 2) { (a.0 + d, a.1) } else { (a.0, a.1 + d) };
            l.splice(i + 1..i + 1, [p, a]);
        }
        _ => {
            // move a segment sideways
            if i > 0 && i + 2 < n {
                let d = t.range(-2, 2);
                let e = if a.1 == b.1 { (0, d) } else { (d, 0) };
                if (l[i - 1].0 == a.0) != (a.1 == b.1) {
                    return;
                }
                if (l[i + 2].0 == b.0) != (a.1 == b.1) {
                    return;
                }
                l[i] = (a.0 + e.0, a.1 + e.1);
                l[i + 1] = (b.0 + e.0, b.1 + e.1);
            }
        }
    }
}

pub fn recti_multipolygon(t: &mut Tape) -> Vec<Rings> {
    let f = *t.pick(&[1, 2, 3]);
    let mut m: Vec<Rings> = match t.below(3) {
        0 => {
            let w = 3 + t.range(0, 6);
            let c = random_cells(t, w);
            cell_polygons(&c, t.chance(1, 3))
        }
        1 => {
            let (n, w) = (1 + t.below(40), *t.pick(&[4, 6, 9]));
            let c = blob(t, n, w);
            cell_polygons(&c, t.chance(1, 3))
        }
        _ => {
            // rectangles with rectangular holes
            (0..1 + t.below(4))
                .map(|_| {
                    let (x, y, w, h) = (t.range(0, 12), t.range(0, 12), t.range(1, 9), t.range(1, 9));
                    let mut r = vec![rect(x, y, x + w, y + h)];
                    for _ in 0..t.below(4) {
                        let (hx, hy) = (x + t.range(0, w), y + t.range(0, h));
                        r.push(rect(hx, hy, hx + t.range(1, 3), hy + t.range(1, 3)));
                    }
                    r
                })
                .collect()
        }
    };
    m.iter_mut().flatten().for_each(|r| *r = scale(r, f));
    if t.chance(1, 2) {
        let i = t.below(m.len());
        let j = t.below(m[i].len());
        let d = (t.range(-2, 2), t.range(-2, 2));
        match t.below(5) {
            0 => m[i].iter_mut().for_each(|r| *r = shift(r, d)),
            1 => m[i][j] = shift(&m[i][j].clone(), d),
            2 => {
                let x = t.range(0, 10) * f;
                m.push(vec![rect(x, d.1, x + f, d.1 + 2)]);
            }
            3 => {
                let r = m[i][0].clone();
                let p = point_on(t, &r);
                m[i].push(rect(p.0, p.1, p.0 + t.range(1, 2), p.1 + t.range(1, 2)));
            }
            _ => recti_damage(t, &mut m[i][j]),
        }
    }
    t.shuffle(&mut m);
    for p in m.iter_mut() {
        dress(t, p);
    }
    m
}

pub fn recti_polygon(t: &mut Tape) -> Rings {
    let mut m = recti_multipolygon(t);
    m.sort_by_key(|p| std::cmp::Reverse(p.iter().map(|r| r.len()).sum::<usize>()));
    m.remove(0)
}

pub fn recti_multiline(t: &mut Tape) -> Vec<Vec<P>> {
    let mut ls: Vec<Vec<P>> = match t.below(3) {
        0 => (0..1 + t.below(5)).map(|_| recti_line(t)).collect(),
        1 => {
            // cut up
            let l = recti_line(t);
            let mut v = Vec::new();
            let mut at = 0;
            while at + 1 < l.len() {
                let to = (at + 1 + t.below(6)).min(l.len() - 1);
                v.push(l[at..=to].to_vec());
                at = to;
            }
            v
        }
        _ => {
            let m = recti_multipolygon(t);
            m.into_iter().flatten().collect()
        }
    };
    if !ls.is_empty() && t.chance(1, 2) {
        let i = t.below(ls.len());
        let p = point_on(t, &ls[i].clone());
        let d = t.range(-4, 4);
        ls.push(if t.chance(1, 2) { vec![p, (p.0 + d, p.1)] } else { vec![(p.0, p.1 + d), p] });
    }
    for l in ls.iter_mut() {
        if t.chance(1, 3) {
            l.reverse();
        }
    }
    ls
}

// ---------------------------------------------------------------- floats

/// Any bit pattern, biased towards special and ordinary values.
pub fn wild(t: &mut Tape, is32: bool) -> f64 {
    let x = match t.below(8) {
        0 => 0.0,
        1 => t.range(-4, 4) as f64,
        2 => *t.pick(&[
            -0.0,
            1.0,
            -1.0,
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            -5e-324,
            1e-45,
            3.4e38,
            -3.4e38,
            1e300,
            -1e-300,
            0.1,
        ]),
        3 | 4 => t.unit() * 20.0 - 10.0,
        5 => {
            let e = t.range(-60, 60) as i32;
            (t.unit() + 0.5) * (2f64).powi(e) * if t.chance(1, 2) { -1.0 } else { 1.0 }
        }
        6 => f64::from_bits(t.u64()),
        _ => f32::from_bits(t.word()) as f64,
    };
    if is32 {
        x as f32 as f64
    } else {
        x
    }
}

/// Finite wild value of moderate magnitude.
pub fn tame(t: &mut Tape, is32: bool) -> f64 {
    let x = match t.below(3) {
        0 => t.range(-20, 20) as f64 * 0.1,
        1 => t.unit() * 200.0 - 100.0,
        _ => {
            let e = t.range(-20, 20) as i32;
            (t.unit() + 0.5) * (2f64).powi(e) * if t.chance(1, 2) { -1.0 } else { 1.0 }
        }
    };
    if is32 {
        x as f32 as f64
    } else {
        x
    }
}

/// The same position with one coordinate moved to the next float.
pub fn next_to(t: &mut Tape, is32: bool, p: FP) -> FP {
    let up = |v: F| {
        let v = v.v();
        if !v.is_finite() {
            return F::of(v);
        }
        F::of(if is32 {
            let v = v as f32;
            let b = v.to_bits();
            f32::from_bits(if v == 0.0 { 1 } else { b ^ 1 }) as f64
        } else {
            f64::from_bits(if v == 0.0 { 1 } else { v.to_bits() ^ 1 })
        })
    };
    if t.chance(1, 2) {
        (up(p.0), p.1)
    } else {
        (p.0, up(p.1))
    }
}
pub fn pos<C: Flt>(p: FP) -> Position<C> {
    Position::new(C::of64(p.0.v()), C::of64(p.1.v()))
}
pub fn fline<C: Flt>(l: &[FP]) -> LineString<C> {
    LineString::new(l.iter().map(|p| pos(*p)).collect())
}
