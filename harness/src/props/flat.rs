//! C01-C06: the static R-tree.
use crate::engine::*;
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::planar::types::{LineString, MultiPoint, Point, Polygon};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum It {
    Empty,
    Box(FP, FP),
    Pos(FP),
    Point(FP),
    Seg(FP, FP),
    Line(Vec<FP>),
    MPoint(Vec<FP>),
    Poly(Vec<FP>),
}

enum Item<C: Flt> {
    Env(Envelope<C>),
    Pos(Position<C>),
    Point(Point<C>),
    Seg(Segment<C>),
    Line(LineString<C>),
    MPoint(MultiPoint<C>),
    Poly(Polygon<C>),
}

impl<C: Flt> HasEnvelope<C> for Item<C> {
    fn envelope(&self) -> Envelope<C> {
        match self {
            Item::Env(x) => x.envelope(),
            Item::Pos(x) => x.envelope(),
            Item::Point(x) => x.envelope(),
            Item::Seg(x) => x.envelope(),
            Item::Line(x) => x.envelope(),
            Item::MPoint(x) => x.envelope(),
            Item::Poly(x) => x.envelope(),
        }
    }
}

fn item<C: Flt>(i: &It) -> Item<C> {
    match i {
        It::Empty => Item::Env(Envelope::empty()),
        It::Box(a, b) => Item::Env(Envelope::new(pos(*a), pos(*b))),
        It::Pos(a) => Item::Pos(pos(*a)),
        It::Point(a) => Item::Point(Point::new(pos(*a))),
        It::Seg(a, b) => Item::Seg(Segment::new(pos(*a), pos(*b))),
        It::Line(v) => Item::Line(fline(v)),
        It::MPoint(v) => Item::MPoint(MultiPoint::new(v.iter().map(|p| Point::new(pos(*p))).collect())),
        It::Poly(v) => Item::Poly(Polygon::new(fline(v), vec![])),
    }
}

/// Own model of a box: (min x, min y, max x, max y); None is empty.
type Bx<C> = Option<[C; 4]>;

/// min/max that keep the other operand when one is NaN.
fn mn<C: Flt>(a: C, b: C) -> C {
    if a.is_nan() || b < a {
        b
    } else {
        a
    }
}
fn mx<C: Flt>(a: C, b: C) -> C {
    if a.is_nan() || b > a {
        b
    } else {
        a
    }
}

fn bx_of<C: Flt>(pts: &[FP]) -> Bx<C> {
    pts.iter().fold(None, |b: Bx<C>, p| {
        let q: Position<C> = pos(*p);
        bx_merge(b, Some([q.x, q.y, q.x, q.y]))
    })
}
fn bx_merge<C: Flt>(a: Bx<C>, b: Bx<C>) -> Bx<C> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some([mn(a[0], b[0]), mn(a[1], b[1]), mx(a[2], b[2]), mx(a[3], b[3])]),
    }
}
fn bx<C: Flt>(i: &It) -> Bx<C> {
    match i {
        It::Empty => None,
        It::Box(a, b) | It::Seg(a, b) => bx_of(&[*a, *b]),
        It::Pos(a) | It::Point(a) => bx_of(&[*a]),
        It::Line(v) | It::MPoint(v) | It::Poly(v) => bx_of(v),
    }
}
fn meets<C: Flt>(a: &Bx<C>, b: &Bx<C>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
        _ => false,
    }
}
fn env_bx<C: Flt>(e: Envelope<C>) -> Bx<C> {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some([min.x, min.y, max.x, max.y]),
    }
}
fn same_bx<C: Flt>(a: &Bx<C>, b: &Bx<C>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => (0..4).all(|i| a[i].same(b[i])),
        _ => false,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Items {
    f32: bool,
    degree: usize,
    sorted: bool,
    items: Vec<It>,
}

fn build<C: Flt>(items: &[It], degree: usize, sorted: bool) -> Flatbush<C> {
    let v: Vec<Item<C>> = items.iter().map(item).collect();
    if sorted {
        Flatbush::new(&v, degree)
    } else {
        Flatbush::new_unsorted(&v, degree)
    }
}

// ------------------------------------------------------------ generation

/// How the coordinates of one case are laid out.
#[derive(Clone, Copy)]
enum Layout {
    Grid(i64),
    Uniform,
    Cluster,
    ColX,
    ColY,
    Far,
}

fn coord(t: &mut Tape, l: Layout, is32: bool, axis: usize) -> f64 {
    let x = match l {
        Layout::Grid(w) => t.range(0, w) as f64,
        Layout::Uniform => t.unit() * 100.0,
        Layout::Cluster => t.range(0, 3) as f64 * 1000.0 + t.unit(),
        Layout::ColX if axis == 0 => 7.0,
        Layout::ColY if axis == 1 => -3.5,
        Layout::ColX | Layout::ColY => t.range(-30, 30) as f64 * 0.25,
        Layout::Far => {
            let v = wild(t, is32);
            if v.is_nan() {
                1.0
            } else {
                v
            }
        }
    };
    if is32 {
        x as f32 as f64
    } else {
        x
    }
}
fn pt(t: &mut Tape, l: Layout, is32: bool) -> FP {
    fp(coord(t, l, is32, 0), coord(t, l, is32, 1))
}

fn layout(t: &mut Tape) -> Layout {
    match t.weighted(&[4, 3, 3, 3, 1, 1, 2]) {
        0 => Layout::Grid(t.range(1, 8)),
        1 => Layout::Grid(t.range(20, 200)),
        2 => Layout::Uniform,
        3 => Layout::Cluster,
        4 => Layout::ColX,
        5 => Layout::ColY,
        _ => Layout::Far,
    }
}

fn one(t: &mut Tape, l: Layout, is32: bool, empties: bool) -> It {
    let near = |t: &mut Tape, a: FP| {
        // A second corner close to the first, for layouts where that makes sense.
        let d = match l {
            Layout::Uniform => 6.0,
            Layout::Cluster => 0.2,
            Layout::Grid(w) if w > 10 => 5.0,
            _ => return pt(t, l, is32),
        };
        let x = a.0.v() + (t.range(-8, 8) as f64 / 8.0 * d).round();
        let y = a.1.v() + (t.range(-8, 8) as f64 / 8.0 * d).round();
        if is32 {
            fp(x as f32 as f64, y as f32 as f64)
        } else {
            fp(x, y)
        }
    };
    if empties && t.chance(1, 6) {
        return match t.below(3) {
            0 => It::Empty,
            1 => It::Line(vec![]),
            _ => It::Poly(vec![]),
        };
    }
    let a = pt(t, l, is32);
    match t.weighted(&[10, 2, 2, 3, 1, 1, 1]) {
        0 => It::Box(a, near(t, a)),
        1 => It::Pos(a),
        2 => It::Point(a),
        3 => It::Seg(a, near(t, a)),
        4 => It::Line((0..1 + t.below(4)).map(|_| near(t, a)).collect()),
        5 => It::MPoint((0..1 + t.below(4)).map(|_| near(t, a)).collect()),
        _ => It::Poly((0..1 + t.below(4)).map(|_| near(t, a)).collect()),
    }
}

fn count(t: &mut Tape, max: usize) -> usize {
    let n = match t.weighted(&[3, 4, 4, 3]) {
        0 => t.below(5),
        1 => 5 + t.below(40),
        2 => 40 + t.below(200),
        _ => {
            // around powers of the degrees: exact fits and one off
            let p = *t.pick(&[2usize, 4, 8, 16, 32, 64, 128, 256, 512]);
            (p as i64 + t.range(-1, 1)) as usize
        }
    };
    n.min(max)
}

const DEGREES: [usize; 9] = [2, 4, 8, 16, 32, 64, 128, 1024, 4];

fn some_items(t: &mut Tape, max: usize) -> Items {
    let is32 = t.chance(1, 3);
    let l = layout(t);
    let n = count(t, max);
    let empties = t.chance(1, 3);
    let dup = t.chance(1, 5);
    let mut items: Vec<It> = Vec::with_capacity(n);
    for _ in 0..n {
        if dup && !items.is_empty() && t.chance(1, 2) {
            let i = t.pick(&items).clone();
            items.push(i);
        } else {
            items.push(one(t, l, is32, empties));
        }
    }
    Items { f32: is32, degree: *t.pick(&DEGREES), sorted: !t.chance(1, 2), items }
}

fn describe(n: usize, degree: usize, sorted: bool, o: Obs) -> Obs {
    let mut levels = 0;
    let mut k = n;
    while k > 1 {
        k = (k + degree - 1) / degree;
        levels += 1;
    }
    o.tag(match levels {
        0 => "tree height 0",
        1 => "tree height 1",
        2 => "tree height 2",
        3..=5 => "tree height 3-5",
        _ => "tree height 6+",
    })
    .tag(if sorted { "sorted" } else { "input order" })
}

// ------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C01 {
    base: Items,
    queries: Vec<It>,
}

fn nudge<C: Flt>(x: f64, up: bool) -> f64 {
    // Neighbouring value in the coordinate type.
    if C::IS32 {
        let b = (x as f32).to_bits();
        f32::from_bits(if (x > 0.0) == up { b + 1 } else { b.wrapping_sub(1) }) as f64
    } else {
        let b = x.to_bits();
        f64::from_bits(if (x > 0.0) == up { b + 1 } else { b.wrapping_sub(1) })
    }
}

fn query_for(t: &mut Tape, b: &Items, l: Layout) -> It {
    match t.weighted(&[4, 4, 1, 1]) {
        0 => {
            let (x, y) = (pt(t, l, b.f32), pt(t, l, b.f32));
            It::Box(x, y)
        }
        1 if !b.items.is_empty() => {
            // Touch an item exactly, or miss it by one step.
            let i = t.pick(&b.items);
            let c = match by_type!(b.f32, corners(i)) {
                None => return It::Empty,
                Some(c) => c,
            };
            let k = t.below(4);
            let (mut x, mut y) = (c[2 * (k % 2)], c[1 + 2 * (k / 2)]);
            if t.chance(1, 2) && x.is_finite() && x != 0.0 {
                x = by_type!(b.f32, nudge(x, k % 2 == 1));
            } else if t.chance(1, 2) && y.is_finite() && y != 0.0 {
                y = by_type!(b.f32, nudge(y, k / 2 == 1));
            }
            // extend away from the item
            let (sx, sy) = (if k % 2 == 1 { 1.0 } else { -1.0 }, if k / 2 == 1 { 1.0 } else { -1.0 });
            let far = t.range(0, 5) as f64;
            let g = |v: f64| if b.f32 { v as f32 as f64 } else { v };
            let (x2, y2) = (g(x + sx * far), g(y + sy * far));
            if x.is_nan() || y.is_nan() || x2.is_nan() || y2.is_nan() {
                return It::Empty;
            }
            It::Box(fp(x, y), fp(x2, y2))
        }
        2 => It::Empty,
        _ => It::Pos(pt(t, l, b.f32)),
    }
}
fn corners<C: Flt>(i: &It) -> Option<[f64; 4]> {
    bx::<C>(i).map(|b| [b[0].up(), b[1].up(), b[2].up(), b[3].up()])
}

fn gen_c01(t: &mut Tape) -> C01 {
    let base = some_items(t, 600);
    let l = layout(t);
    let n = 1 + t.below(4);
    let queries = (0..n).map(|_| query_for(t, &base, l)).collect();
    C01 { base, queries }
}
fn gen_c01_small(t: &mut Tape) -> C01 {
    let is32 = t.chance(1, 3);
    let l = Layout::Grid(t.range(1, 4));
    let n = t.below(12);
    let items: Vec<It> = (0..n).map(|_| one(t, l, is32, true)).collect();
    let base = Items { f32: is32, degree: *t.pick(&[2, 4, 8]), sorted: !t.chance(1, 2), items };
    let n = 1 + t.below(3);
    let queries = (0..n).map(|_| query_for(t, &base, l)).collect();
    C01 { base, queries }
}
fn gen_c01_big(t: &mut Tape) -> C01 {
    let is32 = t.chance(1, 3);
    let l = *t.pick(&[Layout::Uniform, Layout::Cluster, Layout::Grid(300), Layout::Grid(40)]);
    let n = 600 + t.below(1500);
    let items = (0..n).map(|_| one(t, l, is32, true)).collect();
    let base = Items { f32: is32, degree: *t.pick(&DEGREES), sorted: !t.chance(1, 2), items };
    let queries = (0..6).map(|_| query_for(t, &base, l)).collect();
    C01 { base, queries }
}

fn t_c01(c: &C01) -> R {
    by_type!(c.base.f32, c01(c))
}
fn c01<C: Flt>(c: &C01) -> R {
    let b = &c.base;
    let f = build::<C>(&b.items, b.degree, b.sorted);
    let boxes: Vec<Bx<C>> = b.items.iter().map(bx).collect();
    let mut some = false;
    let mut none = false;
    for q in &c.queries {
        let qb = bx::<C>(q);
        let want: Vec<usize> = (0..boxes.len()).filter(|&i| meets(&boxes[i], &qb)).collect();
        let mut got = f.find_intersection_candidates(item::<C>(q).envelope());
        got.sort_unstable();
        ensure!(got == want, "query {:?}: got {:?}, expected {:?}", q, got, want);
        some |= !want.is_empty();
        none |= want.len() < boxes.len();
    }
    Ok(describe(b.items.len(), b.degree, b.sorted, Obs::new(some && none)))
}

// ------------------------------------------------------------ C02

fn gen_c02(t: &mut Tape) -> Items {
    some_items(t, 600)
}
fn gen_c02_small(t: &mut Tape) -> Items {
    let is32 = t.chance(1, 3);
    let l = Layout::Grid(t.range(1, 5));
    let n = t.below(14);
    let items: Vec<It> = (0..n).map(|_| one(t, l, is32, true)).collect();
    Items { f32: is32, degree: *t.pick(&[2, 4, 8]), sorted: !t.chance(1, 2), items }
}
fn gen_c02_big(t: &mut Tape) -> Items {
    let is32 = t.chance(1, 3);
    let l = *t.pick(&[Layout::Uniform, Layout::Cluster, Layout::Grid(200)]);
    let n = 600 + t.below(1500);
    let items = (0..n).map(|_| one(t, l, is32, true)).collect();
    Items { f32: is32, degree: *t.pick(&DEGREES), sorted: !t.chance(1, 2), items }
}

fn t_c02(c: &Items) -> R {
    by_type!(c.f32, c02(c))
}
fn c02<C: Flt>(b: &Items) -> R {
    let f = build::<C>(&b.items, b.degree, b.sorted);
    let boxes: Vec<Bx<C>> = b.items.iter().map(bx).collect();
    let mut want = Vec::new();
    for i in 0..boxes.len() {
        for j in i + 1..boxes.len() {
            if meets(&boxes[i], &boxes[j]) {
                want.push((i, j));
            }
        }
    }
    let mut got = f.find_self_intersection_candidates();
    got.sort_unstable();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|p| want.binary_search(p).is_err()).take(5).collect();
        let lost: Vec<_> = want.iter().filter(|p| got.binary_search(p).is_err()).take(5).collect();
        return Err(format!(
            "self-join: {} pairs, expected {}; wrong or repeated {:?}; missing {:?}",
            got.len(),
            want.len(),
            extra,
            lost
        ));
    }
    let n = boxes.len();
    let nt = !want.is_empty() && want.len() < n * (n - 1) / 2;
    Ok(describe(n, b.degree, b.sorted, Obs::new(nt)))
}

// ------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C03 {
    f32: bool,
    a: (Vec<It>, usize, bool),
    b: (Vec<It>, usize, bool),
}

fn gen_c03(t: &mut Tape) -> C03 {
    let is32 = t.chance(1, 3);
    let l = layout(t);
    let side = |t: &mut Tape| {
        let n = count(t, 520);
        let e = t.chance(1, 4);
        let items: Vec<It> = (0..n).map(|_| one(t, l, is32, e)).collect();
        (items, *t.pick(&DEGREES), !t.chance(1, 2))
    };
    let a = side(t);
    let b = side(t);
    C03 { f32: is32, a, b }
}
fn gen_c03_small(t: &mut Tape) -> C03 {
    let is32 = t.chance(1, 3);
    let l = Layout::Grid(t.range(1, 5));
    let side = |t: &mut Tape| {
        let n = t.below(12);
        let items: Vec<It> = (0..n).map(|_| one(t, l, is32, true)).collect();
        (items, *t.pick(&[2, 4, 8]), !t.chance(1, 2))
    };
    let a = side(t);
    let b = side(t);
    C03 { f32: is32, a, b }
}

fn t_c03(c: &C03) -> R {
    by_type!(c.f32, c03(c))
}
fn c03<C: Flt>(c: &C03) -> R {
    let fa = build::<C>(&c.a.0, c.a.1, c.a.2);
    let fb = build::<C>(&c.b.0, c.b.1, c.b.2);
    let ba: Vec<Bx<C>> = c.a.0.iter().map(bx).collect();
    let bb: Vec<Bx<C>> = c.b.0.iter().map(bx).collect();
    let mut want = Vec::new();
    for i in 0..ba.len() {
        for j in 0..bb.len() {
            if meets(&ba[i], &bb[j]) {
                want.push((i, j));
            }
        }
    }
    let mut got = fa.find_other_rtree_intersection_candidates(&fb);
    got.sort_unstable();
    ensure!(got == want, "join: got {} pairs, expected {}: {:?} vs {:?}", got.len(), want.len(), head(&got), head(&want));
    let mut back: Vec<(usize, usize)> =
        fb.find_other_rtree_intersection_candidates(&fa).into_iter().map(|(i, j)| (j, i)).collect();
    back.sort_unstable();
    ensure!(back == want, "swapped join is not the transpose: {:?} vs {:?}", head(&back), head(&want));
    let empty = Flatbush::<C>::new_empty();
    ensure!(
        fa.find_other_rtree_intersection_candidates(&empty).is_empty()
            && empty.find_other_rtree_intersection_candidates(&fa).is_empty(),
        "join with an empty index returned pairs"
    );
    // The index with itself, and with one over the same items
    if ba.len() <= 80 || c.a.1 <= c.b.1 {
        let mut own = Vec::new();
        for i in 0..ba.len() {
            for j in 0..ba.len() {
                if meets(&ba[i], &ba[j]) {
                    own.push((i, j));
                }
            }
        }
        let twin = build::<C>(&c.a.0, c.b.1, c.b.2);
        for (other, what) in [(&fa, "itself"), (&twin, "an index over the same items")] {
            let mut got = fa.find_other_rtree_intersection_candidates(other);
            got.sort_unstable();
            ensure!(got == own, "join with {}: got {} pairs, expected {}: {:?} vs {:?}", what, got.len(), own.len(), head(&got), head(&own));
        }
    }
    let nt = !want.is_empty() && want.len() < ba.len() * bb.len();
    let h = |n: usize, d: usize| {
        let (mut k, mut l) = (n, 0);
        while k > 1 {
            k = (k + d - 1) / d;
            l += 1;
        }
        l
    };
    let (ha, hb) = (h(c.a.0.len(), c.a.1), h(c.b.0.len(), c.b.1));
    Ok(Obs::new(nt).tag(if ha == hb {
        "equal heights"
    } else if ha > hb {
        "first higher"
    } else {
        "second higher"
    }))
}
fn head(v: &[(usize, usize)]) -> Vec<(usize, usize)> {
    v.iter().take(8).copied().collect()
}

// ------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C04 {
    lat: Lat,
    degree: usize,
    sorted: bool,
    /// Boxes by two corners; None is empty.
    items: Vec<Option<((i64, i64), (i64, i64))>>,
    probes: Vec<((i64, i64), i64)>,
}

fn gen_c04(t: &mut Tape) -> C04 {
    let w = *t.pick(&[3, 8, 40, 300]);
    let mut lat = Lat::gen(t, w);
    lat.ox = lat.ox.clamp(-2000, 2000);
    lat.oy = lat.oy.clamp(-2000, 2000);
    if t.chance(1, 4) {
        // nothing is multiplied
        lat.k = if lat.f32 { t.range(-149, 108) } else { t.range(-1022, 1000) } as i32;
    }
    let n = count(t, 300);
    let s = *t.pick(&[1, 3, w]);
    let items = (0..n)
        .map(|_| {
            if t.chance(1, 12) {
                return None;
            }
            let a = grid_point(t, w);
            Some((a, (a.0 + t.range(0, s), a.1 + t.range(0, s))))
        })
        .collect();
    let k = 1 + t.below(4);
    let probes = (0..k)
        .map(|_| {
            let p = (t.range(-w, 2 * w), t.range(-w, 2 * w));
            let d = match t.below(4) {
                0 => 0,
                1 => t.range(0, 3),
                2 => t.range(0, w),
                _ => t.range(0, 4 * w),
            };
            (p, d)
        })
        .collect();
    C04 { lat, degree: *t.pick(&DEGREES), sorted: !t.chance(1, 2), items, probes }
}
fn t_c04(c: &C04) -> R {
    by_type!(c.lat.f32, c04(c))
}
fn c04<C: Flt>(c: &C04) -> R {
    let envs: Vec<Envelope<C>> = c
        .items
        .iter()
        .map(|i| match i {
            None => Envelope::empty(),
            Some((a, b)) => Envelope::new(c.lat.p(*a), c.lat.p(*b)),
        })
        .collect();
    let f = if c.sorted { Flatbush::new(&envs, c.degree) } else { Flatbush::new_unsorted(&envs, c.degree) };
    let (mut some, mut corner) = (false, false);
    for &(p, d) in &c.probes {
        let mut want = Vec::new();
        for (i, it) in c.items.iter().enumerate() {
            let Some((a, b)) = it else { continue };
            // distance from p to the box along each axis
            let g = |v: i64, lo: i64, hi: i64| (lo - v).max(v - hi).max(0);
            let (dx, dy) = (g(p.0, a.0, b.0), g(p.1, a.1, b.1));
            if dx <= d && dy <= d {
                want.push(i);
                corner |= dx * dx + dy * dy > d * d;
            }
            some |= dx.max(dy) == d && d > 0;
        }
        let mut got = f.find_candidates_within(c.lat.p(p), c.lat.len(d));
        got.sort_unstable();
        ensure!(got == want, "within {} of {:?}: got {:?}, expected {:?}", d, p, got, want);
        some |= !want.is_empty() && want.len() < envs.len();
    }
    Ok(describe(envs.len(), c.degree, c.sorted, Obs::new(some)).tag_if(corner, "item only in a corner of the square"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C04f {
    f32: bool,
    degree: usize,
    sorted: bool,
    items: Vec<It>,
    p: FP,
    d: F,
}
fn gen_c04f(t: &mut Tape) -> C04f {
    let is32 = t.chance(1, 3);
    let n = t.below(120);
    let l = *t.pick(&[Layout::Uniform, Layout::Cluster, Layout::Grid(50)]);
    let items = (0..n).map(|_| one(t, l, is32, true)).collect();
    let d = match t.below(8) {
        0 | 1 => t.unit(),
        2 | 3 => t.unit() * 30.0,
        4 => *t.pick(&[1e6, 1e30, 3e38]),
        5 => *t.pick(&[f64::INFINITY, f64::MAX, 1e-30]),
        6 => t.unit() * (2f64).powi(t.range(if is32 { -140 } else { -1020 }, 0) as i32),
        _ => 0.0,
    };
    let mut items: Vec<It> = items;
    let tiny = d != 0.0 && d < 1e-3 && t.chance(1, 2);
    let d = if is32 { d as f32 as f64 } else { d };
    let mut p = pt(t, l, is32);
    if t.chance(1, 4) {
        // well away from all items
        p = fp(p.0.v() * 8.0 - 300.0, p.1.v() * 5.0);
    }
    if tiny {
        // around the origin, at a few times that distance
        p = fp(0.0, 0.0);
        for it in items.iter_mut().take(6) {
            let mut v = || {
                let x = d * t.range(-5, 5) as f64 / 2.0;
                if is32 { x as f32 as f64 } else { x }
            };
            *it = It::Pos(fp(v(), v()));
        }
    }
    C04f { f32: is32, degree: *t.pick(&DEGREES), sorted: !t.chance(1, 2), items, p, d: F::of(d) }
}
fn t_c04f(c: &C04f) -> R {
    by_type!(c.f32, c04f(c))
}
fn c04f<C: Flt>(c: &C04f) -> R {
    let f = build::<C>(&c.items, c.degree, c.sorted);
    let (px, py, d) = (c.p.0.v(), c.p.1.v(), c.d.v());
    // An infinite (or overflowing) distance reaches everything.
    let d = if C::of64(d).is_finite() { d } else { f64::MAX };
    let eps = if C::IS32 { 1e-5 } else { 1e-12 } * (px.abs() + py.abs() + d)
        + if C::IS32 { 1e-43 } else { 1e-320 };
    let mut got = f.find_candidates_within(pos(c.p), C::of64(c.d.v()));
    got.sort_unstable();
    let n = got.len();
    got.dedup();
    ensure!(n == got.len(), "an item was returned twice");
    let mut nt = false;
    for (i, it) in c.items.iter().enumerate() {
        let has = got.binary_search(&i).is_ok();
        let Some(b) = corners::<C>(it) else {
            ensure!(!has, "empty item {} returned", i);
            continue;
        };
        let dx = (b[0] - px).max(px - b[2]).max(0.0);
        let dy = (b[1] - py).max(py - b[3]).max(0.0);
        // every item is inside its box, so an item within d has its box within d
        if dx <= d - eps && dy <= d - eps {
            ensure!(has, "item {} at ({}, {}) is within {} but missing", i, dx, dy, d);
            nt = true;
        }
        if dx > d + eps || dy > d + eps {
            ensure!(!has, "item {} at ({}, {}) is not within {} but returned", i, dx, dy, d);
        }
    }
    // Zero distance from a point of an item always finds the item (no rounding involved).
    if d == 0.0 {
        for (i, it) in c.items.iter().enumerate() {
            if let Some(b) = bx::<C>(it) {
                let g = f.find_candidates_within(Position::new(b[0], b[1]), C::zero());
                ensure!(g.contains(&i), "item {} not found at its own corner", i);
                nt = true;
            }
        }
    }
    Ok(Obs::new(nt))
}

// ------------------------------------------------------------ C05

fn walk<C: Flt>(f: &Flatbush<C>, boxes: &[Bx<C>]) -> Result<usize, String> {
    let root = f.root_node();
    let mut seen = vec![false; boxes.len()];
    let mut todo: Vec<FlatbushNode<C>> = vec![root];
    let mut visited = 0usize;
    while let Some(n) = todo.pop() {
        visited += 1;
        ensure!(visited <= 40 * (boxes.len() + f.degree), "walk does not end");
        if n.envelope == Envelope::Empty {
            continue;
        }
        if n.level == 0 {
            let i = n.sibling_index;
            ensure!(i < boxes.len(), "leaf for position {} of {}", i, boxes.len());
            ensure!(!seen[i], "position {} reached twice", i);
            seen[i] = true;
            ensure!(same_bx(&env_bx(n.envelope), &boxes[i]), "leaf {} has box {:?}, item {:?}", i, n.envelope, boxes[i]);
            continue;
        }
        let kids = f.get_children(n);
        let mut u: Bx<C> = None;
        for k in &kids {
            ensure!(k.level + 1 == n.level, "child level {} under {}", k.level, n.level);
            u = bx_merge(u, env_bx(k.envelope));
        }
        ensure!(same_bx(&u, &env_bx(n.envelope)), "node box {:?} is not the union {:?} of its children", n.envelope, u);
        todo.extend(kids);
    }
    for (i, s) in seen.iter().enumerate() {
        ensure!(*s == boxes[i].is_some(), "item {} {:?} reached: {}", i, boxes[i], s);
    }
    Ok(visited)
}

fn t_c05(c: &Items) -> R {
    by_type!(c.f32, c05(c))
}
fn c05<C: Flt>(c: &Items) -> R {
    let f = build::<C>(&c.items, c.degree, c.sorted);
    let boxes: Vec<Bx<C>> = c.items.iter().map(bx).collect();
    let total = boxes.iter().fold(None, |a, b| bx_merge(a, *b));
    ensure!(
        same_bx(&env_bx(f.envelope()), &total),
        "index envelope {:?}, items cover {:?}",
        f.envelope(),
        total
    );
    let visited = walk(&f, &boxes)?;
    if c.items.is_empty() {
        let e = Flatbush::<C>::new_empty();
        ensure!(e.envelope() == Envelope::Empty, "new_empty has envelope {:?}", e.envelope());
        walk(&e, &[])?;
    }
    // Queries on it must also end normally and find every item without NaN.
    for (i, b) in boxes.iter().enumerate().step_by(1 + boxes.len() / 8) {
        if let Some(b) = b {
            if b.iter().all(|v| !v.is_nan()) {
                let got = f.find_intersection_candidates(item::<C>(&c.items[i]).envelope());
                ensure!(got.contains(&i), "item {} not found by its own box", i);
            }
        }
    }
    let special = boxes.iter().flatten().any(|b| b.iter().any(|v| !v.is_finite()));
    let flat = total.map_or(false, |b| b[0] == b[2] || b[1] == b[3]);
    Ok(describe(c.items.len(), c.degree, c.sorted, Obs::new(visited > 1))
        .tag_if(special, "non-finite")
        .tag_if(flat, "zero width or height")
        .tag_if(boxes.iter().all(|b| b.is_none()), "nothing but empties"))
}

fn gen_c05(t: &mut Tape) -> Items {
    let mut c = some_items(t, 300);
    if t.chance(2, 3) {
        // extreme layouts
        let is32 = c.f32;
        let n = match t.below(4) {
            0 => t.below(4),
            1 | 2 => 2 + t.below(12),
            _ => t.below(120),
        };
        let mode = t.below(6);
        let base = (wild(t, is32), wild(t, is32));
        c.items = (0..n)
            .map(|_| {
                let x = |t: &mut Tape| wild(t, is32);
                match mode {
                    0 => It::Pos(fp(base.0, x(t))),
                    1 => It::Pos(fp(x(t), base.1)),
                    2 => It::Box(fp(base.0, base.1), fp(base.0, base.1)),
                    3 => It::Seg(fp(x(t), x(t)), fp(x(t), x(t))),
                    4 => {
                        if t.chance(1, 2) {
                            It::Empty
                        } else {
                            It::Box(fp(x(t), base.1), fp(base.0, x(t)))
                        }
                    }
                    _ => It::Line((0..t.below(4)).map(|_| fp(x(t), x(t))).collect()),
                }
            })
            .collect();
    }
    c
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadDegree {
    degree: usize,
    n: usize,
    sorted: bool,
    empties: bool,
}
fn bad_degrees(_: Tier) -> CaseIter<BadDegree> {
    let mut v = Vec::new();
    for degree in (0usize..200).chain([255, 257, 1000, 1023, 1025, 4095, 6144]) {
        if degree >= 2 && degree.is_power_of_two() {
            continue;
        }
        for n in [1usize, 2, 3, 9, 40] {
            for sorted in [true, false] {
                for empties in [false, true] {
                    v.push(BadDegree { degree, n, sorted, empties });
                }
            }
        }
    }
    Box::new(v.into_iter())
}
fn t_bad_degree(c: &BadDegree) -> R {
    let items: Vec<Envelope<f64>> = (0..c.n)
        .map(|i| {
            if c.empties {
                Envelope::empty()
            } else {
                Envelope::new((i as f64, 0.0).into(), (i as f64 + 1.5, 1.0).into())
            }
        })
        .collect();
    let r = guarded(|| {
        if c.sorted {
            Flatbush::new(&items, c.degree)
        } else {
            Flatbush::new_unsorted(&items, c.degree)
        }
    });
    ensure!(r.is_err(), "degree {} accepted for {} items", c.degree, c.n);
    Ok(Obs::new(true))
}

/// Every count of items around the level sizes, for every small degree.
fn all_sizes(tier: Tier) -> CaseIter<Items> {
    let max = if tier == Tier::Quick { 140 } else { 600 };
    Box::new([2usize, 4, 8, 16, 32, 64, 256].into_iter().flat_map(move |degree| {
        (0..=max).flat_map(move |n: i64| {
            [true, false].into_iter().map(move |sorted| Items {
                f32: n % 3 == 0,
                degree,
                sorted,
                items: (0..n)
                    .map(|i| {
                        let (x, y) = ((i * 37 % 101) as f64, (i * 53 % 89) as f64);
                        if i % 11 == 10 {
                            It::Empty
                        } else {
                            It::Box(fp(x, y), fp(x + (i % 7) as f64, y + (i % 5) as f64))
                        }
                    })
                    .collect(),
            })
        })
    }))
}
fn t_sizes_tree(c: &Items) -> R {
    t_c05(c)
}
fn t_sizes_join(c: &Items) -> R {
    t_c02(c)
}
fn t_sizes_query(c: &Items) -> R {
    let q = |x: f64, y: f64, s: f64| It::Box(fp(x, y), fp(x + s, y + s));
    t_c01(&C01 {
        base: c.clone(),
        queries: vec![q(0., 0., 8.), q(40., 40., 20.), q(-5., -5., 300.), q(90., 3., 0.), It::Empty],
    })
}
fn t_sizes_cross(c: &Items) -> R {
    let d = *[2usize, 4, 8, 16].iter().find(|d| **d != c.degree).unwrap();
    let n = c.items.len();
    let b: Vec<It> = c.items[..n / 3].to_vec();
    t_c03(&C03 { f32: c.f32, a: (c.items.clone(), c.degree, c.sorted), b: (b, d, !c.sorted) })
}

// ------------------------------------------------------------ large indexes

/// Items too many for a tape: drawn from a generator of their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    seed: u64,
    n: usize,
    m: usize,
    degree: usize,
    degree2: usize,
    sorted: bool,
    sorted2: bool,
    /// Side of the square the items lie in, and their largest size.
    w: i64,
    size: i64,
    /// One in so many is empty (0: none).
    empty: usize,
    #[serde(default)]
    f32: bool,
}
fn gen_huge(t: &mut Tape, lo: usize, hi: usize) -> Huge {
    let n = match t.below(3) {
        0 => lo + t.below(hi - lo),
        1 => {
            // just around a power of two
            let p = 1usize << (63 - (lo as u64).leading_zeros() as usize + 1 + t.below(3));
            (p as i64 + t.range(-1, 1)) as usize
        }
        _ => lo + t.below(lo),
    }
    .min(hi);
    let d = [2usize, 4, 8, 16, 32, 64, 256];
    Huge {
        seed: t.u64(),
        n,
        m: if t.chance(1, 2) { t.below(40) } else { t.below(n + 1) },
        degree: *t.pick(&d),
        degree2: *t.pick(&d),
        sorted: !t.chance(1, 2),
        sorted2: t.chance(1, 2),
        w: *t.pick(&[2000i64, 300, 20_000]),
        size: *t.pick(&[0i64, 2, 10]),
        empty: *t.pick(&[0usize, 9, 2]),
        f32: t.chance(1, 3),
    }
}
fn gen_huge_query(t: &mut Tape) -> Huge {
    gen_huge(t, 5_000, 140_000)
}
fn gen_huge_join(t: &mut Tape) -> Huge {
    if !t.chance(1, 8) {
        return gen_huge(t, 1_000, 12_000);
    }
    // sparser the more there are, so that the pairs can be listed
    let mut h = gen_huge(t, 20_000, 140_000);
    h.w = (3.0 * (h.n as f64).sqrt()) as i64 * (1 + h.size);
    // in no order, every node would meet every other
    (h.sorted, h.sorted2) = (true, true);
    h
}
fn huge_items<C: Flt>(c: &Huge, n: usize, salt: u64) -> Vec<Envelope<C>> {
    let mut s = c.seed ^ salt;
    let mut next = move || {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    (0..n)
        .map(|_| {
            let r = next();
            if c.empty > 0 && (r >> 40) % c.empty as u64 == 0 {
                return Envelope::empty();
            }
            let (x, y) = (next() % (c.w as u64 + 1), next() % (c.w as u64 + 1));
            let (dx, dy) = (r % (c.size as u64 + 1), (r >> 20) % (c.size as u64 + 1));
            let f = |v: u64| C::of64(v as f64);
            Envelope::new(Position::new(f(x), f(y)), Position::new(f(x + dx), f(y + dy)))
        })
        .collect()
}
fn huge_build<C: Flt>(items: &[Envelope<C>], degree: usize, sorted: bool) -> Flatbush<C> {
    if sorted {
        Flatbush::new(items, degree)
    } else {
        Flatbush::new_unsorted(items, degree)
    }
}
fn t_huge_query(c: &Huge) -> R {
    by_type!(c.f32, huge_query(c))
}
fn huge_query<C: Flt>(c: &Huge) -> R {
    let items = huge_items::<C>(c, c.n, 0);
    let boxes: Vec<Bx<C>> = items.iter().map(|e| env_bx(*e)).collect();
    let f = huge_build(&items, c.degree, c.sorted);
    let mut nt = false;
    for (i, q) in huge_items::<C>(c, 6, 77).into_iter().enumerate() {
        let q = if i % 2 == 0 { q.buffer(C::of64((c.w / 20) as f64)) } else { q };
        let qb = env_bx(q);
        let want: Vec<usize> = (0..boxes.len()).filter(|&i| meets(&boxes[i], &qb)).collect();
        let mut got = f.find_intersection_candidates(q);
        got.sort_unstable();
        ensure!(got == want, "query {:?}: got {} items, expected {}", q, got.len(), want.len());
        nt |= !want.is_empty();
    }
    for i in (0..items.len()).step_by(1 + items.len() / 300) {
        let got = f.find_intersection_candidates(items[i]);
        ensure!(got.contains(&i) != items[i].is_empty(), "item {} found by its own box: {}", i, got.contains(&i));
    }
    Ok(describe(c.n, c.degree, c.sorted, Obs::new(nt)))
}
fn t_huge_tree(c: &Huge) -> R {
    by_type!(c.f32, huge_tree(c))
}
fn huge_tree<C: Flt>(c: &Huge) -> R {
    let items = huge_items::<C>(c, c.n, 0);
    let boxes: Vec<Bx<C>> = items.iter().map(|e| env_bx(*e)).collect();
    let f = huge_build(&items, c.degree, c.sorted);
    let v = walk(&f, &boxes)?;
    Ok(describe(c.n, c.degree, c.sorted, Obs::new(v > 1)))
}
/// All pairs that meet, by a sweep along x.
fn sweep(a: &[Bx<f64>], b: &[Bx<f64>]) -> Vec<(usize, usize)> {
    let live = |v: &[Bx<f64>]| {
        let mut ix: Vec<usize> = (0..v.len()).filter(|&i| v[i].is_some()).collect();
        ix.sort_by(|i, j| v[*i].unwrap()[0].partial_cmp(&v[*j].unwrap()[0]).unwrap());
        ix
    };
    let (ia, ib) = (live(a), live(b));
    let widest = |v: &[Bx<f64>]| v.iter().flatten().map(|b| b[2] - b[0]).fold(0.0, f64::max);
    let wb = widest(b);
    let mut out = Vec::new();
    // Left ends of `a` ascend, so what is too far left once stays so.
    let mut from = 0;
    for i in ia {
        let x = a[i].unwrap();
        while from < ib.len() && b[ib[from]].unwrap()[0] + wb < x[0] {
            from += 1;
        }
        for &j in &ib[from..] {
            if b[j].unwrap()[0] > x[2] {
                break;
            }
            if meets(&a[i], &b[j]) {
                out.push((i, j));
            }
        }
    }
    out.sort_unstable();
    out
}
fn boxes64<C: Flt>(v: &[Envelope<C>]) -> Vec<Bx<f64>> {
    v.iter().map(|e| env_bx(*e).map(|b| b.map(|x| x.up()))).collect()
}
fn t_huge_self(c: &Huge) -> R {
    by_type!(c.f32, huge_self(c))
}
fn huge_self<C: Flt>(c: &Huge) -> R {
    let items = huge_items::<C>(c, c.n, 0);
    let boxes = boxes64(&items);
    let want: Vec<(usize, usize)> = sweep(&boxes, &boxes).into_iter().filter(|(i, j)| i < j).collect();
    let mut got = huge_build(&items, c.degree, c.sorted).find_self_intersection_candidates();
    got.sort_unstable();
    ensure!(got == want, "self-join of {}: {} pairs, expected {}", c.n, got.len(), want.len());
    Ok(describe(c.n, c.degree, c.sorted, Obs::new(!want.is_empty()).tag_if(c.n > 65_535, "over 65535 items")))
}
fn t_huge_cross(c: &Huge) -> R {
    by_type!(c.f32, huge_cross(c))
}
fn huge_cross<C: Flt>(c: &Huge) -> R {
    let (a, b) = (huge_items::<C>(c, c.n, 0), huge_items::<C>(c, c.m, 99));
    let want = sweep(&boxes64(&a), &boxes64(&b));
    let (fa, fb) = (huge_build(&a, c.degree, c.sorted), huge_build(&b, c.degree2, c.sorted2));
    let mut got = fa.find_other_rtree_intersection_candidates(&fb);
    got.sort_unstable();
    ensure!(got == want, "join of {} and {}: {} pairs, expected {}", c.n, c.m, got.len(), want.len());
    let mut back: Vec<(usize, usize)> =
        fb.find_other_rtree_intersection_candidates(&fa).into_iter().map(|(i, j)| (j, i)).collect();
    back.sort_unstable();
    ensure!(back == want, "swapped join is not the transpose: {} pairs, expected {}", back.len(), want.len());
    Ok(describe(c.n, c.degree, c.sorted, Obs::new(!want.is_empty()).tag_if(c.n > 65_535, "over 65535 items")))
}
/// Proximity: whole coordinates and distances, so every comparison is exact.
fn t_huge_within(c: &Huge) -> R {
    by_type!(c.f32, huge_within(c))
}
fn huge_within<C: Flt>(c: &Huge) -> R {
    let items = huge_items::<C>(c, c.n, 0);
    let boxes = boxes64(&items);
    let f = huge_build(&items, c.degree, c.sorted);
    let mut nt = false;
    for (i, q) in huge_items::<C>(&Huge { empty: 0, ..c.clone() }, 6, 77).into_iter().enumerate() {
        let p = q.min().unwrap_or(Position::new(C::zero(), C::zero()));
        let d = [0, 1, c.size, c.w / 30, c.w / 4, 3 * c.w][i];
        let (x, y, r) = (p.x.up(), p.y.up(), d as f64);
        let near = |b: &Bx<f64>| {
            b.map_or(false, |b| b[0] <= x + r && x - r <= b[2] && b[1] <= y + r && y - r <= b[3])
        };
        let want: Vec<usize> = (0..boxes.len()).filter(|&i| near(&boxes[i])).collect();
        let mut got = f.find_candidates_within(p, C::of64(r));
        got.sort_unstable();
        ensure!(got == want, "within {} of {:?}: got {} items, expected {}", d, p, got.len(), want.len());
        nt |= !want.is_empty() && want.len() < c.n;
    }
    Ok(describe(c.n, c.degree, c.sorted, Obs::new(nt).tag_if(c.n > 65_535, "over 65535 items")))
}
/// The order along the curve of many items in the middles of cells.
fn t_huge_order(c: &Huge) -> R {
    let w = c.w as u64;
    let cells = huge_items::<f64>(c, c.n, 5)
        .into_iter()
        .map(|e| {
            let p = e.min()?;
            // spread over the grid; some in a corner of it, some on its far edges
            let at = |v: f64| match w {
                300 => v as u32 * 218,
                2000 => v as u32,
                _ => v as u32 * 3,
            };
            Some((at(p.x).min(65_535), at(p.y).min(65_535), 0))
        })
        .collect();
    t_c06(&C06 {
        f32: c.f32,
        degree: c.degree,
        kx: 0,
        ky: 1,
        ox: 0,
        oy: 0,
        cells,
        corners: c.sorted2,
        sorted: c.sorted || c.n % 2 == 0,
        flat: 0,
    })
}

// ------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C06 {
    f32: bool,
    degree: usize,
    /// Powers of two scaling x and y, and the lower-left corner in units.
    kx: i32,
    ky: i32,
    ox: i64,
    oy: i64,
    /// Cells of the box centres; None is an empty item. Half size of each box.
    cells: Vec<Option<(u32, u32, u32)>>,
    corners: bool,
    sorted: bool,
    /// 1: all items have the same x; 2: the same y.
    flat: u8,
}

/// Index along the Hilbert curve from lower-left to lower-right, by quadrants.
fn hilbert_ref(x: u32, y: u32) -> u64 {
    // At each level the curve visits lower-left, upper-left, upper-right,
    // lower-right; the first quadrant is transposed, the last anti-transposed.
    fn go(x: u32, y: u32, bits: u32) -> u64 {
        if bits == 0 {
            return 0;
        }
        let h = 1u32 << (bits - 1);
        let area = (h as u64) * (h as u64);
        let (right, up) = (x >= h, y >= h);
        let (lx, ly) = (x & (h - 1), y & (h - 1));
        match (right, up) {
            (false, false) => go(ly, lx, bits - 1),
            (false, true) => area + go(lx, ly, bits - 1),
            (true, true) => 2 * area + go(lx, ly, bits - 1),
            (true, false) => 3 * area + go(h - 1 - ly, h - 1 - lx, bits - 1),
        }
    }
    go(x, y, 16)
}

fn gen_c06(t: &mut Tape) -> C06 {
    let is32 = t.chance(1, 3);
    let n = match t.below(4) {
        0 => t.below(6),
        1 => t.below(30),
        2 => t.below(150),
        _ => t.below(400),
    };
    let mode = t.below(5);
    let (bx, by) = (t.range(0, 65534) as u32, t.range(0, 65534) as u32);
    let empties = t.chance(1, 3);
    let cells = (0..n)
        .map(|_| {
            if empties && t.chance(1, 5) {
                return None;
            }
            if t.chance(1, 12) {
                // on the right or upper edge of the joint box, or in a corner of it
                let v = if t.chance(1, 2) { t.range(0, 65535) as u32 } else { *t.pick(&[0, 65535]) };
                return Some(if t.chance(1, 2) { (65535, v, 0) } else { (v, 65535, 0) });
            }
            let any = |t: &mut Tape| t.range(0, 65534) as u32;
            let bits = |t: &mut Tape| {
                // values with few set bits or all-ones tails: every level's bit matters
                let b = 1u32 << t.below(16);
                match t.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b ^ (1u32 << t.below(16)),
                }
                .min(65534)
            };
            let (x, y) = match mode {
                0 => (any(t), any(t)),
                1 => (bits(t), bits(t)),
                2 => (bx, any(t)),
                3 => (any(t), by),
                // close together
                _ => ((bx & !63) + t.below(63) as u32, (by & !63) + t.below(63) as u32),
            };
            let (x, y) = (x.min(65534), y.min(65534));
            let m = x.min(y).min(65534 - x).min(65534 - y);
            let r = if t.chance(1, 3) { (t.range(0, 2000) as u32).min(m) } else { 0 };
            Some((x, y, r))
        })
        .collect();
    let small = |t: &mut Tape| if is32 { 0 } else { t.range(-100000, 100000) };
    let k = |t: &mut Tape| {
        let m = if t.chance(2, 3) { 20 } else if is32 { 90 } else { 900 };
        t.range(-m, m) as i32
    };
    C06 {
        f32: is32,
        degree: *t.pick(&DEGREES),
        kx: k(t),
        ky: k(t),
        ox: small(t),
        oy: small(t),
        cells,
        corners: t.chance(1, 2),
        sorted: !t.chance(1, 6),
        flat: if t.chance(3, 4) { 0 } else { 1 + t.below(2) as u8 },
    }
}

fn t_c06(c: &C06) -> R {
    by_type!(c.f32, c06(c))
}
fn c06<C: Flt>(c: &C06) -> R {
    let (sx, sy) = ((2f64).powi(c.kx), (2f64).powi(c.ky));
    // Along an axis of no extent everything is in cell 0.
    let (fx, fy) = (c.flat == 1, c.flat == 2);
    let x = |v: f64| C::of64((if fx { 0.0 } else { v } + c.ox as f64) * sx);
    let y = |v: f64| C::of64((if fy { 0.0 } else { v } + c.oy as f64) * sy);
    let key = |cx: u32, cy: u32| hilbert_ref(if fx { 0 } else { cx }, if fy { 0 } else { cy });
    let mut items: Vec<Envelope<C>> = Vec::new();
    let mut keys: Vec<u64> = Vec::new();
    for k in &c.cells {
        match k {
            None => {
                items.push(Envelope::empty());
                keys.push(u32::MAX as u64);
            }
            Some((cx, cy, r)) => {
                // The last row and column of the grid are just the edge of the box.
                let mid = |c: u32| c as f64 + if c == 65535 { 0.0 } else { 0.5 };
                let (px, py, r) = (mid(*cx), mid(*cy), *r as f64);
                items.push(Envelope::new(
                    Position::new(x(px - r), y(py - r)),
                    Position::new(x(px + r), y(py + r)),
                ));
                keys.push(key(*cx, *cy));
            }
        }
    }
    // Something that spans the whole square: its centre is the middle of cell 32767.
    let whole = |items: &mut Vec<Envelope<C>>| {
        items.push(Envelope::new(Position::new(x(0.0), y(0.0)), Position::new(x(65535.0), y(65535.0))))
    };
    if c.corners {
        // Opposite corners instead.
        for v in [0u32, 65535] {
            let p = Position::new(x(v as f64), y(v as f64));
            items.push(Envelope::new(p, p));
            keys.push(key(v, v));
        }
    } else {
        whole(&mut items);
        keys.push(key(32767, 32767));
    }
    let f = if c.sorted { Flatbush::new(&items, c.degree) } else { Flatbush::new_unsorted(&items, c.degree) };
    // The empties share the curve's last cell, in any order, with items that are in it.
    let last = (0..items.len()).any(|i| keys[i] == u32::MAX as u64 && !items[i].is_empty());
    // Leaves from first to last: walk down level by level in sibling order.
    let mut level = vec![f.root_node()];
    while level[0].level > 0 {
        if c.sorted && !last {
            let gap = level.windows(2).any(|w| w[0].envelope.is_empty() && !w[1].envelope.is_empty());
            ensure!(!gap, "a node of nothing but empty items precedes a non-empty one");
        }
        // A node of nothing but empties may have no real children: only padding.
        level = level.into_iter().flat_map(|n| if n.envelope == Envelope::Empty { vec![] } else { f.get_children(n) }).collect();
        ensure!(!level.is_empty(), "no leaves");
    }
    let order: Vec<usize> =
        level.iter().filter(|n| n.envelope != Envelope::Empty).map(|n| n.sibling_index).collect();
    // Non-empty items all appear.
    let live = items.iter().filter(|e| !e.is_empty()).count();
    ensure!(order.len() == live, "{} leaves for {} non-empty items", order.len(), live);
    ensure!(order.iter().all(|i| *i < items.len()), "leaf for a position that does not exist");
    if c.sorted {
        let seq: Vec<u64> = order.iter().map(|&i| keys[i]).collect();
        for w in 0..seq.len().saturating_sub(1) {
            ensure!(seq[w] <= seq[w + 1], "leaf {} has curve index {} before {}", w, seq[w], seq[w + 1]);
        }
        // Empty items come last: among the leaves in order, no empty one before a non-empty one.
        let mut seen_empty = false;
        for n in &level {
            let e = n.envelope == Envelope::Empty;
            let end = !e && keys[n.sibling_index] == u32::MAX as u64;
            ensure!(e || end || !seen_empty, "an empty item precedes a non-empty one");
            seen_empty |= e;
        }
    } else {
        ensure!(order.windows(2).all(|w| w[0] < w[1]), "input order not kept: {:?}", order);
    }
    let distinct: std::collections::HashSet<_> = keys.iter().collect();
    let edge = c.cells.iter().flatten().any(|k| k.0 == 65535 || k.1 == 65535);
    Ok(Obs::new(c.sorted && distinct.len() > 3)
        .tag(if c.sorted { "sorted" } else { "input order" })
        .tag_if(c.flat > 0, "zero width or height")
        .tag_if(edge, "on the upper or right edge"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Random item lists (boxes, positions, points, segments, lines, multipoints, polygons, empties; grid, uniform, clustered, collinear and extreme layouts; f32/f64; degrees 2..1024; both build modes) and 1-6 query boxes, many touching an item exactly or missing it by one representable step; the result is compared with brute force over an own box model; also every item count up to 140 for seven degrees, and indexes of up to 140,000 items. Non-trivial: some query matches some but not all items.",
            assumptions: &["items without NaN coordinates"],
            subs: vec![
                exhaustive("sizes", all_sizes, t_sizes_query),
                random("small", 160_000, 4_000_000, || tape(160, gen_c01_small), t_c01),
                random("mixed", 40_000, 1_000_000, || tape(2500, gen_c01), t_c01),
                random("big", 2_500, 60_000, || tape(14000, gen_c01_big), t_c01),
                random("huge", 160, 6_000, || tape(16, gen_huge_query), t_huge_query),
            ],
        },
        Prop {
            id: "C02",
            rule: "As C01 (up to 140,000 items, expected pairs by a sweep) without queries: the self-join is compared as a sorted list (so repeats show) with all pairs i<j of boxes that share a point. Non-trivial: some but not all pairs overlap.",
            assumptions: &["items without NaN coordinates"],
            subs: vec![
                exhaustive("sizes", all_sizes, t_sizes_join),
                random("small", 200_000, 5_000_000, || tape(140, gen_c02_small), t_c02),
                random("mixed", 24_000, 600_000, || tape(2500, gen_c02), t_c02),
                random("big", 1_200, 30_000, || tape(14000, gen_c02_big), t_c02),
                random("huge", 400, 10_000, || tape(16, gen_huge_join), t_huge_self),
            ],
        },
        Prop {
            id: "C03",
            rule: "Two independent item lists (to 140,000 items), degrees and build modes; join compared with brute force, swapped join with its transpose, joins of an index with itself and with another one over its items, and joins with the empty index with nothing. Non-trivial: some but not all cross pairs overlap.",
            assumptions: &["items without NaN coordinates"],
            subs: vec![
                exhaustive("sizes", all_sizes, t_sizes_cross),
                random("small", 160_000, 4_000_000, || tape(200, gen_c03_small), t_c03),
                random("mixed", 20_000, 500_000, || tape(4000, gen_c03), t_c03),
                random("huge", 400, 10_000, || tape(16, gen_huge_join), t_huge_cross),
            ],
        },
        Prop {
            id: "C04",
            rule: "Boxes on an integer lattice scaled by powers of two with integer positions and distances, compared exactly with the square of that half-width; and arbitrary floats compared outside a rounding margin; to 140,000 items. Non-trivial: some item is found and some is not, or an item sits exactly at the distance.",
            assumptions: &["distances >= 0", "float cases: items within 1e-12 (f64) / 1e-5 (f32) relative of the threshold may go either way"],
            subs: vec![
                random("huge", 40, 4_000, || tape(16, gen_huge_query), t_huge_within),
                random("lattice", 80_000, 2_000_000, || tape(1600, gen_c04), t_c04),
                random("floats", 60_000, 1_500_000, || tape(800, gen_c04f), t_c04f),
            ],
        },
        Prop {
            id: "C05",
            rule: "Index built over arbitrary items, up to 140,000 of them, most with extreme layouts (one line, coincident, infinities, NaN, huge, subnormal, nothing but empties), then walked from the root; degrees that are not powers of two >= 2 must be refused. Non-trivial: the tree has more than its root.",
            assumptions: &["degrees up to 4096 (larger powers of two pad levels to that size)"],
            subs: vec![
                exhaustive("sizes", all_sizes, t_sizes_tree),
                exhaustive("bad_degrees", bad_degrees, t_bad_degree),
                random("items", 120_000, 3_000_000, || tape(1600, gen_c05), t_c05),
                random("huge", 120, 4_000, || tape(16, gen_huge_query), t_huge_tree),
            ],
        },
        Prop {
            id: "C06",
            rule: "Items whose centres are the middles of grid cells of the joint box (random cells, cells of few bits, one column or row, close together) or lie on its upper and right edges, joint boxes of zero width or height, scales from 2^-900 to 2^900, up to 140,000 items; the order of the leaves compared with an independent recursive Hilbert index. Non-trivial: sorted mode with more than three distinct cells.",
            assumptions: &["centres in the middle of a cell or on the far edges, so that rounding cannot move them to another cell; joint boxes whose sides are finite and not subnormal"],
            subs: vec![
                random("huge", 16, 4_000, || tape(16, gen_huge_query), t_huge_order),
                random("order", 60_000, 1_500_000, || tape(1800, gen_c06), t_c06),
            ],
        },
    ]
}
