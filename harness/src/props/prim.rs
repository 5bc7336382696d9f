//! C07 (planar envelopes), C08 (the linear module), C09, C10 (segments), C25 (arithmetic).
use crate::engine::*;
use crate::exact::{self, Inter, P};
use crate::gens::*;
use crate::tape::{tape, Tape};
use crate::{by_type, ensure};
use magog::linear::primitives as l1;
use magog::linear::types as lt;
use magog::planar::primitives::{
    Envelope, HasEnvelope, Position, PositionLocation, Segment, SegmentIntersection, Triangle,
};
use magog::Coordinate;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C07 {
    f32: bool,
    /// Two corners each; None is empty.
    boxes: Vec<Option<(FP, FP)>>,
    order: Vec<usize>,
    pt: FP,
    dist: F,
    /// Arithmetic on these values is exact.
    exact: bool,
}

fn gen_c07(t: &mut Tape) -> C07 {
    let is32 = t.chance(1, 3);
    let exact = t.chance(2, 3);
    let w = *t.pick(&[2i64, 4, 50, 400]);
    let k = match (exact, t.below(4)) {
        (true, 0) => t.range(-10, 10) as i32,
        // sums and halves are exact as long as they are in range
        (true, 1) if is32 => t.range(-130, 110) as i32,
        (true, 1) => t.range(-1000, 1000) as i32,
        _ => 0,
    };
    let v = |t: &mut Tape| -> f64 {
        if exact {
            t.range(-w, w) as f64 * (2f64).powi(k)
        } else {
            let x = wild(t, is32);
            if x.is_nan() {
                2.5
            } else {
                x
            }
        }
    };
    let n = t.below(6);
    let boxes: Vec<Option<(FP, FP)>> = (0..n)
        .map(|_| {
            if t.chance(1, 5) {
                return None;
            }
            let a = fp(v(t), v(t));
            Some(match t.below(4) {
                0 => (a, a),
                1 => (a, (a.0, F::of(v(t)))),
                _ => (a, fp(v(t), v(t))),
            })
        })
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    t.shuffle(&mut order);
    let lo = if t.chance(1, 3) { -w } else { 0 };
    let d = if exact { t.range(lo, w) as f64 * (2f64).powi(k) } else { t.unit() };
    C07 { f32: is32, boxes, order, pt: fp(v(t), v(t)), dist: F::of(d), exact }
}

type B4<C> = Option<[C; 4]>; // x0 y0 x1 y1

fn b4<C: Flt>(b: &Option<(FP, FP)>) -> B4<C> {
    b.as_ref().map(|(p, q)| {
        let (p, q): (Position<C>, Position<C>) = (pos(*p), pos(*q));
        let lo = |a: C, b: C| if b < a { b } else { a };
        let hi = |a: C, b: C| if b > a { b } else { a };
        [lo(p.x, q.x), lo(p.y, q.y), hi(p.x, q.x), hi(p.y, q.y)]
    })
}
fn cover<C: Flt>(a: B4<C>, b: B4<C>) -> B4<C> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => {
            let lo = |a: C, b: C| if b < a { b } else { a };
            let hi = |a: C, b: C| if b > a { b } else { a };
            Some([lo(a[0], b[0]), lo(a[1], b[1]), hi(a[2], b[2]), hi(a[3], b[3])])
        }
    }
}
fn is<C: Flt>(e: Envelope<C>, b: &B4<C>) -> bool {
    match (e, b) {
        (Envelope::Empty, None) => true,
        (Envelope::Bounds { min, max }, Some(b)) => {
            min.x == b[0] && min.y == b[1] && max.x == b[2] && max.y == b[3]
        }
        _ => false,
    }
}
fn env_of<C: Flt>(b: &Option<(FP, FP)>) -> Envelope<C> {
    match b {
        None => Envelope::empty(),
        Some((p, q)) => Envelope::new(pos(*p), pos(*q)),
    }
}

fn t_c07(c: &C07) -> R {
    by_type!(c.f32, c07(c))
}
fn c07<C: Flt>(c: &C07) -> R {
    let envs: Vec<Envelope<C>> = c.boxes.iter().map(env_of).collect();
    let models: Vec<B4<C>> = c.boxes.iter().map(b4).collect();
    let dist: C = C::of64(c.dist.v());
    for (i, (e, m)) in envs.iter().zip(&models).enumerate() {
        ensure!(is(*e, m), "box {}: {:?} from corners {:?}", i, e, c.boxes[i]);
        if let Some((p, q)) = c.boxes[i] {
            // any two opposite corners, in any order
            for (a, b) in [((p.0, p.1), (q.0, q.1)), ((q.0, q.1), (p.0, p.1)), ((p.0, q.1), (q.0, p.1)), ((q.0, p.1), (p.0, q.1))] {
                let f = Envelope::<C>::new(pos(a), pos(b));
                ensure!(is(f, m), "corners {:?} {:?} give {:?}", a, b, f);
            }
            let s = Segment::<C>::new(pos(p), pos(q)).envelope();
            ensure!(is(s, m), "segment envelope {:?}", s);
            let pe = HasEnvelope::<C>::envelope(&pos::<C>(p));
            let pp: Position<C> = pos(p);
            ensure!(is(pe, &Some([pp.x, pp.y, pp.x, pp.y])), "position envelope {:?}", pe);
        }
        ensure!(e.is_empty() == m.is_none(), "is_empty of {:?}", e);
        ensure!(is(HasEnvelope::envelope(e), m), "envelope of envelope {:?}", e);
        ensure!(e.min() == m.map(|b| Position::new(b[0], b[1])), "min of {:?}", e);
        ensure!(e.max() == m.map(|b| Position::new(b[2], b[3])), "max of {:?}", e);
        let finite = m.map_or(true, |b| b.iter().all(|v| v.is_finite()));
        ensure!(e.validate().is_ok() == finite, "validate {:?}: {:?}", e, e.validate());
        // buffer and centre
        let bf = e.buffer(dist);
        let cen = e.center();
        match m {
            None => ensure!(bf.is_empty() && cen.is_none(), "buffer/centre of empty: {:?} {:?}", bf, cen),
            Some(b) => {
                if c.exact {
                    let want = Some([b[0] - dist, b[1] - dist, b[2] + dist, b[3] + dist]);
                    // Shrinking a box past its own middle is not specified.
                    let w = want.unwrap();
                    if w[0] <= w[2] && w[1] <= w[3] {
                        ensure!(is(bf, &want), "buffer {:?} by {:?} = {:?}", e, dist, bf);
                    }
                    let two = C::one() + C::one();
                    let w = Position::new((b[0] + b[2]) / two, (b[1] + b[3]) / two);
                    ensure!(cen == Some(w), "centre of {:?} = {:?}", e, cen);
                    // the centre is in the box, as a point set
                    ensure!(e.contains(cen.unwrap()), "centre outside {:?}", e);
                } else if b.iter().all(|v| v.up().abs() < 1e30) {
                    let eps = if C::IS32 { 1e-5 } else { 1e-13 };
                    let cen = match cen {
                        Some(x) => x,
                        None => return Err("no centre".into()),
                    };
                    for (got, lo, hi) in [(cen.x, b[0], b[2]), (cen.y, b[1], b[3])] {
                        let (lo, hi) = (lo.up(), hi.up());
                        let want = lo / 2.0 + hi / 2.0;
                        ensure!(
                            (got.up() - want).abs() <= eps * (lo.abs() + hi.abs()) + 1e-44,
                            "centre {:?} of {:?}",
                            got,
                            e
                        );
                    }
                }
            }
        }
        // points
        let p: Position<C> = pos(c.pt);
        let inside = m.map_or(false, |b| b[0] <= p.x && p.x <= b[2] && b[1] <= p.y && p.y <= b[3]);
        ensure!(e.contains(p) == inside, "{:?} contains {:?} = {}", e, p, e.contains(p));
    }
    let mut touch = false;
    for i in 0..envs.len() {
        for j in 0..envs.len() {
            let (a, b) = (envs[i], envs[j]);
            let (inter, cont) = match (&models[i], &models[j]) {
                (Some(a), Some(b)) => (
                    a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
                    a[0] <= b[0] && b[2] <= a[2] && a[1] <= b[1] && b[3] <= a[3],
                ),
                _ => (false, false),
            };
            ensure!(a.intersects(b) == inter, "{:?} intersects {:?} = {}", a, b, a.intersects(b));
            ensure!(a.contains(b) == cont, "{:?} contains {:?} = {}", a, b, a.contains(b));
            touch |= inter && i != j;
            let m = cover(models[i], models[j]);
            ensure!(is(a.merge(b), &m), "{:?} merge {:?} = {:?}", a, b, a.merge(b));
            let mut x = a;
            x.expand(b);
            ensure!(is(x, &m), "{:?} expanded by {:?} = {:?}", a, b, x);
        }
        // with a position
        let p: Position<C> = pos(c.pt);
        let m = cover(models[i], Some([p.x, p.y, p.x, p.y]));
        let mut x = envs[i];
        x.expand(p);
        ensure!(is(envs[i].merge(p), &m) && is(x, &m), "{:?} with {:?}", envs[i], p);
    }
    // any order, any grouping
    let all = models.iter().fold(None, |a, b| cover(a, *b));
    let of = Envelope::of(envs.iter());
    ensure!(is(of, &all), "of(..) = {:?}", of);
    let mut x = Envelope::empty();
    for &i in &c.order {
        x.expand(envs[i]);
    }
    ensure!(is(x, &all), "expand in order {:?} = {:?}", c.order, x);
    let permuted: Vec<Envelope<C>> = c.order.iter().map(|&i| envs[i]).collect();
    let k = permuted.len() / 2;
    let g = Envelope::of(permuted[..k].iter()).merge(Envelope::of(permuted[k..].iter()));
    ensure!(is(g, &all), "grouped merge = {:?}", g);
    Ok(Obs::new(touch).tag(if c.exact { "lattice" } else { "floats" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    f32: bool,
    v: [F; 4],
}
fn gen_raw(t: &mut Tape) -> Raw {
    let is32 = t.chance(1, 3);
    let mut v = [F(0); 4];
    let tame_case = t.chance(1, 2);
    for x in v.iter_mut() {
        *x = F::of(if tame_case { t.range(-2, 2) as f64 } else { wild(t, is32) });
    }
    if tame_case && t.chance(1, 3) {
        v[t.below(4)] = F::of(*t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    }
    Raw { f32: is32, v }
}
fn t_raw(c: &Raw) -> R {
    by_type!(c.f32, raw(c))
}
fn raw<C: Flt>(c: &Raw) -> R {
    let v: Vec<C> = c.v.iter().map(|x| C::of64(x.v())).collect();
    let e = Envelope::Bounds { min: Position::new(v[0], v[1]), max: Position::new(v[2], v[3]) };
    let finite = v.iter().all(|x| x.is_finite());
    let ok = finite && v[0] <= v[2] && v[1] <= v[3];
    ensure!(e.validate().is_ok() == ok, "validate {:?} = {:?}", e, e.validate());
    Ok(Obs::new(true).tag(if ok {
        "valid"
    } else if finite {
        "min above max"
    } else {
        "non-finite"
    }))
}

fn small_boxes(_: Tier) -> CaseIter<C07> {
    // All pairs of boxes with corners on a 3x3 grid.
    let mut bs: Vec<Option<(FP, FP)>> = vec![None];
    for x0 in 0..3 {
        for x1 in x0..3 {
            for y0 in 0..3 {
                for y1 in y0..3 {
                    bs.push(Some((fp(x0 as f64, y0 as f64), fp(x1 as f64, y1 as f64))));
                }
            }
        }
    }
    let n = bs.len();
    Box::new((0..n * n * 9).map(move |i| C07 {
        f32: i % 2 == 1,
        boxes: vec![bs[i / 9 % n], bs[i / 9 / n]],
        order: vec![1, 0],
        pt: fp((i % 3) as f64, (i / 3 % 3) as f64),
        dist: F::of(1.0),
        exact: true,
    }))
}

// ------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C08 {
    f32: bool,
    /// Intervals by two end points; None is empty.
    iv: Vec<Option<(F, F)>>,
    order: Vec<usize>,
    pt: F,
    wild: [F; 4],
}
fn gen_c08(t: &mut Tape) -> C08 {
    let is32 = t.chance(1, 3);
    let grid = t.chance(2, 3);
    let w = *t.pick(&[2i64, 5, 100]);
    let v = |t: &mut Tape| {
        if grid {
            t.range(-w, w) as f64 * 0.5
        } else {
            let x = wild(t, is32);
            if x.is_nan() {
                2.5
            } else {
                x
            }
        }
    };
    let n = t.below(7);
    let iv: Vec<Option<(F, F)>> = (0..n)
        .map(|_| {
            if t.chance(1, 5) {
                return None;
            }
            let a = v(t);
            let b = if t.chance(1, 4) { a } else { v(t) };
            Some((F::of(a), F::of(b)))
        })
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    t.shuffle(&mut order);
    let mut wl = [F(0); 4];
    for x in wl.iter_mut() {
        *x = F::of(if t.chance(1, 2) { wild(t, is32) } else { t.range(-2, 2) as f64 });
    }
    C08 { f32: is32, iv, order, pt: F::of(v(t)), wild: wl }
}

fn t_c08(c: &C08) -> R {
    by_type!(c.f32, c08(c))
}
fn c08<C: Flt>(c: &C08) -> R {
    use l1::HasEnvelope as H1;
    type I<C> = Option<(C, C)>;
    let cv = |f: F| C::of64(f.v());
    let lp = |f: F| l1::Position::<C>::new(C::of64(f.v()));
    let model: Vec<I<C>> = c
        .iv
        .iter()
        .map(|o| o.map(|(a, b)| if cv(b) < cv(a) { (cv(b), cv(a)) } else { (cv(a), cv(b)) }))
        .collect();
    let cover = |a: I<C>, b: I<C>| match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => {
            Some((if b.0 < a.0 { b.0 } else { a.0 }, if b.1 > a.1 { b.1 } else { a.1 }))
        }
    };
    let is = |e: l1::Envelope<C>, m: &I<C>| match (e, m) {
        (l1::Envelope::Empty, None) => true,
        (l1::Envelope::Bounds { min, max }, Some(m)) => min.x == m.0 && max.x == m.1,
        _ => false,
    };
    let envs: Vec<l1::Envelope<C>> = c
        .iv
        .iter()
        .map(|o| match o {
            None => l1::Envelope::empty(),
            Some((a, b)) => l1::Envelope::new(lp(*a), lp(*b)),
        })
        .collect();
    for (i, e) in envs.iter().enumerate() {
        let m = &model[i];
        ensure!(is(*e, m), "envelope {:?} of {:?}", e, c.iv[i]);
        ensure!(e.is_empty() == m.is_none(), "is_empty {:?}", e);
        let finite = m.map_or(true, |m| m.0.is_finite() && m.1.is_finite());
        ensure!(e.validate().is_ok() == finite, "validate {:?}", e);
        let inside = m.map_or(false, |m| m.0 <= cv(c.pt) && cv(c.pt) <= m.1);
        ensure!(e.contains(lp(c.pt)) == inside, "{:?} contains {:?}", e, c.pt);
        if let Some((a, b)) = c.iv[i] {
            ensure!(is(l1::Envelope::new(lp(b), lp(a)), m), "corners swapped");
            ensure!(is(l1::Envelope::from((cv(a), cv(b))), m), "envelope from a tuple");
            let s = l1::Segment::new(lp(a), lp(b));
            ensure!(is(s.envelope(), m), "segment envelope {:?}", s.envelope());
            ensure!(s.min().x == m.unwrap().0 && s.max().x == m.unwrap().1, "segment min/max {:?}", s);
            ensure!(s.start.x == cv(a) && s.end.x == cv(b), "segment ends {:?}", s);
            let st = l1::Segment::from((cv(a), cv(b)));
            ensure!(st == s, "segment from a tuple");
            ensure!(s.validate().is_ok() == finite, "segment validate {:?}", s);
            let line = lt::Line::new(lp(a), lp(b));
            ensure!(!line.is_empty() && is(line.envelope(), m), "line {:?}", line);
            ensure!(line.start() == Some(lt::Point::new(lp(a))), "line start {:?}", line.start());
            ensure!(line.end() == Some(lt::Point::new(lp(b))), "line end {:?}", line.end());
            ensure!(lt::Line::from((cv(a), cv(b))) == line, "line from a tuple");
            ensure!(is(lp(a).envelope(), &Some((cv(a), cv(a)))), "position envelope");
        }
    }
    let mut touch = false;
    for i in 0..envs.len() {
        for j in 0..envs.len() {
            let (a, b) = (envs[i], envs[j]);
            let (x, k) = match (model[i], model[j]) {
                (Some(a), Some(b)) => (a.0 <= b.1 && b.0 <= a.1, a.0 <= b.0 && b.1 <= a.1),
                _ => (false, false),
            };
            ensure!(a.intersects(b) == x, "{:?} intersects {:?} = {}", a, b, !x);
            ensure!(a.contains(b) == k, "{:?} contains {:?} = {}", a, b, !k);
            touch |= i != j && x;
            let m = cover(model[i], model[j]);
            let mut e = a;
            e.expand(b);
            ensure!(is(a.merge(b), &m) && is(e, &m), "{:?} with {:?}: {:?} {:?}", a, b, a.merge(b), e);
        }
        let m = cover(model[i], Some((cv(c.pt), cv(c.pt))));
        let mut e = envs[i];
        e.expand(lp(c.pt));
        ensure!(is(envs[i].merge(lp(c.pt)), &m) && is(e, &m), "{:?} with {:?}", envs[i], c.pt);
    }
    let all = model.iter().fold(None, |a, b| cover(a, *b));
    ensure!(is(l1::Envelope::of(envs.iter()), &all), "of(..)");
    let mut e = l1::Envelope::empty();
    for &i in &c.order {
        e.expand(envs[i]);
    }
    ensure!(is(e, &all), "expand in order {:?}: {:?}", c.order, e);

    // Collections of the non-empty intervals.
    let some: Vec<(F, F)> = c.iv.iter().flatten().copied().collect();
    let segs: Vec<l1::Segment<C>> = some.iter().map(|(a, b)| l1::Segment::new(lp(*a), lp(*b))).collect();
    let ml = lt::MultiLine::new(segs.clone());
    ensure!(lt::MultiLine::from(segs.clone()) == ml, "multiline from a vec");
    ensure!(is(ml.envelope(), &all), "multiline envelope {:?}", ml.envelope());
    ensure!(ml.is_empty() == some.is_empty(), "multiline is_empty");
    for n in 0..segs.len() + 3 {
        let want = segs.get(n).map(|s| lt::Line::new(s.start, s.end));
        ensure!(ml.get_line(n) == want, "line {} = {:?}", n, ml.get_line(n));
    }
    let ps: Vec<l1::Position<C>> = some.iter().flat_map(|(a, b)| [lp(*a), lp(*b)]).collect();
    let mp = lt::MultiPoint::new(ps.clone());
    ensure!(lt::MultiPoint::from(ps.clone()) == mp, "multipoint from a vec");
    ensure!(is(mp.envelope(), &all), "multipoint envelope {:?}", mp.envelope());
    ensure!(mp.num_points() == ps.len() && mp.positions == ps, "multipoint contents {:?}", mp);
    for n in 0..ps.len() + 3 {
        ensure!(mp.get_point(n) == ps.get(n).map(|p| lt::Point::new(*p)), "point {}", n);
    }
    // Empty forms.
    let (em, el, ep) = (lt::MultiLine::<C>::empty(), lt::Line::<C>::empty(), lt::MultiPoint::<C>::empty());
    ensure!(em.is_empty() && em.envelope().is_empty() && em.get_line(0).is_none(), "empty multiline");
    ensure!(el.is_empty() && el.envelope().is_empty(), "empty line");
    ensure!(el.start().is_none() && el.end().is_none(), "empty line has ends");
    ensure!(ep.num_points() == 0 && ep.envelope().is_empty() && ep.get_point(0).is_none(), "empty multipoint");
    let e0 = lt::Point::<C>::empty();
    ensure!(e0.is_empty() && e0.x().is_none() && e0.envelope().is_empty(), "empty point {:?}", e0);

    // Points, positions and raw envelopes with any bits.
    for f in &c.wild {
        let x = cv(*f);
        let p = lt::Point::new(lp(*f));
        ensure!(p.is_empty() == x.is_nan(), "point {:?} empty", p);
        ensure!(p.x() == if x.is_nan() { None } else { Some(x) }, "x of {:?} = {:?}", p, p.x());
        ensure!(is(p.envelope(), &if x.is_nan() { None } else { Some((x, x)) }), "envelope of {:?}", p);
        ensure!(lp(*f).validate().is_ok() == x.is_finite(), "validate {:?}", f);
        ensure!(lp(*f).to_hashable().is_ok() == !x.is_nan(), "hashable {:?}", f);
        if let Ok(h) = lp(*f).to_hashable() {
            ensure!(l1::Position::from(h).x.up().to_bits() == x.up().to_bits(), "hash round trip {:?}", f);
        }
        let pf = lt::Point::<C>::from(x);
        ensure!(pf.0.x.same(x), "point from a coordinate");
    }
    let (a, b) = (cv(c.wild[0]), cv(c.wild[1]));
    let (pa, pb) = (lp(c.wild[0]), lp(c.wild[1]));
    let lo = if a.is_nan() || b < a { b } else { a };
    let hi = if a.is_nan() || b > a { b } else { a };
    ensure!(pa.min(pb).x.same(lo) && pa.max(pb).x.same(hi), "min/max of {:?} {:?}", a, b);
    let (m, n) = l1::Position::min_max(pa, pb);
    ensure!(m.x.same(lo) && n.x.same(hi), "min_max of {:?} {:?}", a, b);
    ensure!((pa + pb).x.same(a + b) && (pa - pb).x.same(a - b), "sum/difference of {:?} {:?}", a, b);
    ensure!((pa * b).x.same(a * b) && (pa / b).x.same(a / b), "scaling {:?} {:?}", a, b);
    let r = l1::Envelope::Bounds { min: pa, max: pb };
    let ok = a.is_finite() && b.is_finite() && a <= b;
    ensure!(r.validate().is_ok() == ok, "validate {:?} = {:?}", r, r.validate());
    let s = l1::Segment::new(pa, pb);
    ensure!(s.validate().is_ok() == (a.is_finite() && b.is_finite()), "segment validate {:?}", s);
    Ok(Obs::new(touch))
}

// ------------------------------------------------------------ C09

/// Are sums of two products of the coordinates themselves exact?
fn products_exact(l: &Lat, ps: &[P]) -> bool {
    let m = ps.iter().map(|p| (p.0 + l.ox).abs().max((p.1 + l.oy).abs())).max().unwrap_or(0);
    m <= if l.f32 { 2895 } else { 1 << 26 }
}
/// A lattice on which the products of differences within 0..=w, w <= 2^25
/// (f32: 1400), and their sums are exact, wherever it is.
fn wide_lat(t: &mut Tape, w: i64) -> Lat {
    if w <= 1000 {
        return Lat::gen(t, w);
    }
    let is32 = w <= 1400 && t.chance(1, 3);
    let k = if is32 { t.range(-40, 30) } else { t.range(-400, 400) } as i32;
    let far = if is32 { Lat::FAR_32 } else { Lat::FAR_64 };
    let off = |t: &mut Tape| match t.below(4) {
        0 | 1 => 0,
        2 => -t.range(0, w),
        _ => t.range(-far, far),
    };
    Lat { f32: is32, k: if t.chance(1, 2) { 0 } else { k }, ox: off(t), oy: off(t), nz: false }
}
/// A vector (x, y) of less than d's length with d x (x, y) = 1, for d of coprime coordinates.
fn bezout(d: P) -> P {
    let (mut r, mut s) = ((d.0, 1i64, 0i64), (d.1, 0i64, 1i64));
    while s.0 != 0 {
        let q = r.0.div_euclid(s.0);
        let n = (r.0 - q * s.0, r.1 - q * s.1, r.2 - q * s.2);
        r = s;
        s = n;
    }
    let g = if r.0 < 0 { -1 } else { 1 };
    (-r.2 * g, r.1 * g)
}
/// Two vectors, both in (0..=w)^2, that span an area of 1.
fn narrow(t: &mut Tape, w: i64) -> (P, P) {
    let mut d = (t.range(w / 2, w), t.range(1, w));
    let g = gcd(d.0, d.1).max(1);
    d = (d.0 / g, d.1 / g);
    let mut e = bezout(d);
    while e.0 < 0 || e.1 < 0 {
        e = (e.0 + d.0, e.1 + d.1);
    }
    if t.chance(1, 2) && e.0 + d.0 <= w && e.1 + d.1 <= w {
        e = (e.0 + d.0, e.1 + d.1);
    }
    if t.chance(1, 2) {
        (d, e)
    } else {
        (e, d)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C09 {
    lat: Lat,
    a: P,
    b: P,
    p: P,
}
fn wide_point(t: &mut Tape, w: i64) -> P {
    (t.range(0, w), t.range(0, w))
}
fn gen_c09(t: &mut Tape) -> C09 {
    if t.chance(1, 20) {
        let (lat, w) = widest_lat(t);
        let ((a, b), p) = beside(t, w);
        return C09 { lat, a, b, p };
    }
    let w = *t.pick(&[2i64, 4, 30, 400, 1400, 5000, 500_000, 1 << 25]);
    let lat = wide_lat(t, w);
    if w > 400 && t.chance(1, 4) {
        // as close to the line as it gets
        let (d, e) = narrow(t, w / 2);
        let o = (t.range(0, w / 4), t.range(0, w / 4));
        let at = |v: P| ((o.0 + v.0).clamp(0, w), (o.1 + v.1).clamp(0, w));
        let p = if t.chance(1, 2) { at((d.0 - e.0, d.1 - e.1)) } else { at(e) };
        return C09 { lat, a: o, b: at(d), p };
    }
    let a = wide_point(t, w);
    let b = if t.chance(1, 10) { a } else { wide_point(t, w) };
    let p = match t.below(5) {
        0 => wide_point(t, w),
        1 => *t.pick(&[a, b]),
        2 => {
            // on the segment's line
            let g = gcd((b.0 - a.0).abs(), (b.1 - a.1).abs()).max(1);
            let s = t.range(-g, 2 * g);
            ((a.0 + (b.0 - a.0) / g * s).clamp(0, w), (a.1 + (b.1 - a.1) / g * s).clamp(0, w))
        }
        3 => {
            // next to it
            let g = gcd((b.0 - a.0).abs(), (b.1 - a.1).abs()).max(1);
            let s = t.range(0, g);
            (
                (a.0 + (b.0 - a.0) / g * s + t.range(-1, 1)).clamp(0, w),
                (a.1 + (b.1 - a.1) / g * s + t.range(-1, 1)).clamp(0, w),
            )
        }
        _ => (if t.chance(1, 2) { a.0 } else { b.0 }, t.range(0, w)),
    };
    C09 { lat, a, b, p }
}
fn all_c09(tier: Tier) -> CaseIter<C09> {
    let lats: Vec<Lat> = lats(tier);
    Box::new((0..4096 * lats.len()).map(move |i| {
        let (l, i) = (lats[i / 4096], (i % 4096) as i64);
        let p = |k: i64| (k % 4, k / 4 % 4);
        C09 { lat: l, a: p(i), b: p(i / 16), p: p(i / 256) }
    }))
}
fn lats(tier: Tier) -> Vec<Lat> {
    let mut v = vec![
        Lat::PLAIN,
        Lat { f32: true, k: 0, ox: -2, oy: -1, nz: false },
        Lat { f32: false, k: -3, ox: 1001, oy: -77, nz: false },
    ];
    if tier == Tier::Thorough {
        v.push(Lat { f32: true, k: 5, ox: 333, oy: -3, nz: false });
        v.push(Lat { f32: false, k: 90, ox: -1, oy: 500_000, nz: false });
        v.push(Lat { f32: false, k: -90, ox: -500_000, oy: 3, nz: false });
    }
    v
}
fn t_c09(c: &C09) -> R {
    by_type!(c.lat.f32, c09(c))
}
fn c09<C: Flt>(c: &C09) -> R {
    let (a, b, p): (Position<C>, Position<C>, Position<C>) = (c.lat.p(c.a), c.lat.p(c.b), c.lat.p(c.p));
    let s = Segment::new(a, b);
    let o = exact::orient(c.a, c.b, c.p);
    let side = |o: i64| match o.signum() {
        1 => PositionLocation::Left,
        0 => PositionLocation::On,
        _ => PositionLocation::Right,
    };
    ensure!(s.position_location(p) == side(o), "{:?} of {:?}: {:?}, determinant {}", p, s, s.position_location(p), o);
    let r = Segment::new(b, a);
    ensure!(r.position_location(p) == side(-o), "reversed: {:?}", r.position_location(p));
    let on = exact::on_seg(c.a, c.b, c.p);
    ensure!(s.contains(p) == on && r.contains(p) == on, "{:?} contains {:?}: {}, {}", s, p, s.contains(p), r.contains(p));
    ensure!(s.contains(a) && s.contains(b), "{:?} does not contain its ends", s);
    let unit = (2f64).powi(c.lat.k);
    let (dx, dy) = ((c.b.0 - c.a.0) as f64, (c.b.1 - c.a.1) as f64);
    let l2 = dx * dx + dy * dy;
    let eps = if C::IS32 { 1e-6 } else { 1e-14 };
    let sum_exact = l2 <= (if C::IS32 { 1i64 << 24 } else { 1i64 << 53 }) as f64;
    let d2 = (s.length_squared().up() / unit / unit - l2).abs();
    ensure!(d2 <= if sum_exact { 0.0 } else { eps * l2 }, "length_squared {:?}", s.length_squared());
    let (l, want) = (s.length().up(), l2.sqrt() * unit);
    ensure!((l - want).abs() <= eps * want, "length {} of {:?}", l, s);
    ensure!(r.length() == s.length(), "length changes when reversed");
    let (xa, ya) = (c.a.0 + c.lat.ox, c.a.1 + c.lat.oy);
    let (xb, yb) = (c.b.0 + c.lat.ox, c.b.1 + c.lat.oy);
    if products_exact(&c.lat, &[c.a, c.b]) {
        let det = (xa * yb - ya * xb) as f64 * unit * unit;
        ensure!(s.determinant().up() == det, "determinant {:?}, expected {}", s.determinant(), det);
    }
    ensure!(s.validate().is_ok(), "validate {:?}", s);
    Ok(Obs::new(c.a != c.b)
        .tag(match (c.a == c.b, o == 0, on) {
            (true, _, true) => "point segment, on",
            (true, _, false) => "point segment, off",
            (_, true, true) => "on the segment",
            (_, true, false) => "on the line only",
            _ => "off the line",
        }))
}

// ------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C10 {
    lat: Lat,
    a: (P, P),
    b: (P, P),
}
/// A lattice as wide as products of differences stay exact, and its width.
fn widest_lat(t: &mut Tape) -> (Lat, i64) {
    let is32 = t.chance(1, 2);
    let w = if is32 { 4095 } else { 94_906_265 };
    let mut lat = wide_lat(t, if is32 { 1400 } else { 1 << 25 });
    lat.f32 = is32;
    if is32 {
        let off = |t: &mut Tape| *t.pick(&[0, -w / 2, -w, 1 << 21]);
        (lat.ox, lat.oy, lat.k) = (off(t), off(t), t.range(-20, 20) as i32);
    }
    (lat, w)
}
/// A long segment and the lattice point closest to it, somewhere along it (or
/// beyond its ends), to the left or right.
fn beside(t: &mut Tape, w: i64) -> ((P, P), P) {
    let o = (t.range(0, w / 8), t.range(0, w / 8));
    let mut d = (t.range(w / 2, w - o.0), t.range(1, w - o.1));
    let g = gcd(d.0, d.1).max(1);
    d = (d.0 / g, d.1 / g);
    let e = bezout(d);
    let e = *t.pick(&[e, (-e.0, -e.1), (e.0 + d.0, e.1 + d.1), (d.0 - e.0, d.1 - e.1)]);
    let n = t.range(1, g);
    let m = t.range(0, n - 1);
    let p = (o.0 + m * d.0 + e.0, o.1 + m * d.1 + e.1);
    let (mut s, mut p) = ((o, (o.0 + n * d.0, o.1 + n * d.1)), (p.0.clamp(0, w), p.1.clamp(0, w)));
    let flip = t.below(4);
    for q in [&mut s.0, &mut s.1, &mut p] {
        if flip & 1 != 0 {
            q.0 = w - q.0;
        }
        if flip & 2 != 0 {
            *q = (q.1, q.0);
        }
    }
    (s, p)
}
fn gen_c10(t: &mut Tape) -> C10 {
    if t.chance(1, 30) {
        // an end just beside the other segment, or just through it
        let (lat, w) = widest_lat(t);
        let (a, p) = beside(t, w);
        let q = if t.chance(1, 2) { wide_point(t, w) } else { *t.pick(&[(0, 0), (w, 0), (0, w), (w, w)]) };
        return C10 { lat, a, b: (p, q) };
    }
    if t.chance(1, 30) {
        // from one corner, as long as products are exact
        let is32 = t.chance(1, 3);
        let w = if is32 { 4095 } else { 94_906_265 };
        let mut lat = wide_lat(t, if is32 { 1400 } else { 1 << 25 });
        lat.f32 = is32;
        if is32 {
            (lat.ox, lat.oy, lat.k) = (-w / 2, 0, 0);
        }
        let (d, e) = narrow(t, w);
        let m = |p: P| (w - p.0, w - p.1);
        let (o, d, e) = if t.chance(1, 2) { ((0, 0), d, e) } else { ((w, w), m(d), m(e)) };
        return if t.chance(1, 2) { C10 { lat, a: (o, d), b: (e, o) } } else { C10 { lat, a: (d, o), b: (e, o) } };
    }
    let w = *t.pick(&[3i64, 4, 6, 12, 49, 60, 400, 1400, 3000, 1 << 20, 1 << 25]);
    let lat = wide_lat(t, w);
    if w > 400 && t.chance(1, 3) {
        return narrow_c10(t, lat, w);
    }
    let a = (grid_point(t, w), grid_point(t, w));
    let cl = |p: P| (p.0.clamp(0, w), p.1.clamp(0, w));
    let line_pt = |t: &mut Tape, lo: i64, hi: i64| {
        let (dx, dy) = (a.1 .0 - a.0 .0, a.1 .1 - a.0 .1);
        let g = gcd(dx.abs(), dy.abs()).max(1);
        let s = t.range(lo * g, hi * g);
        cl((a.0 .0 + dx / g * s, a.0 .1 + dy / g * s))
    };
    let b = match t.below(6) {
        0 => (grid_point(t, w), grid_point(t, w)),
        1 => (line_pt(t, -1, 2), line_pt(t, -1, 2)),
        2 => (line_pt(t, 0, 1), grid_point(t, w)),
        3 => {
            let p = *t.pick(&[a.0, a.1]);
            let q = if t.chance(1, 3) { line_pt(t, -1, 2) } else { grid_point(t, w) };
            (p, q)
        }
        4 => {
            // a zero-length operand
            let p = if t.chance(1, 2) { line_pt(t, -1, 2) } else { grid_point(t, w) };
            (p, p)
        }
        _ => {
            // parallel, near
            let d = (t.range(-1, 1), t.range(-1, 1));
            (cl((a.0 .0 + d.0, a.0 .1 + d.1)), cl((a.1 .0 + d.0, a.1 .1 + d.1)))
        }
    };
    let (a, b) = if t.chance(1, 2) { (b, a) } else { (a, b) };
    C10 { lat, a, b: if t.chance(1, 2) { (b.1, b.0) } else { b } }
}
/// Two almost parallel segments.
fn narrow_c10(t: &mut Tape, lat: Lat, w: i64) -> C10 {
    let (d, e) = narrow(t, w / 4);
    let o = (w / 2, w / 2);
    let at = |i: i64, j: i64| (o.0 + i * d.0 + j * e.0, o.1 + i * d.1 + j * e.1);
    let (a, b) = match t.below(4) {
        // a common end
        0 => ((at(0, 0), at(1, 0)), (at(0, 0), at(0, *t.pick(&[1, -1])))),
        // one ends at the other's middle or beside it
        1 => ((at(-1, 0), at(1, 0)), (at(0, 0), at(0, 1))),
        // crossing
        2 => {
            let (u, v) = (t.range(0, 1), t.range(0, 1));
            ((at(-1, 0), at(1, 0)), (at(u, -1), at(v, 1)))
        }
        // anything of that lattice near the middle
        _ => {
            let mut p = || at(t.range(-1, 1), t.range(-1, 1));
            ((p(), p()), (p(), p()))
        }
    };
    C10 { lat, a, b: if t.chance(1, 2) { (b.1, b.0) } else { b } }
}
fn all_c10(tier: Tier) -> CaseIter<C10> {
    let lats = lats(tier);
    let lats = if tier == Tier::Quick { lats[..2].to_vec() } else { lats };
    // Two grids: 4x4 and, sparser, 7x3.
    let g1: Vec<P> = (0..16).map(|k| (k % 4, k / 4)).collect();
    let g2: Vec<P> = (0..21).map(|k| (k % 7, k / 7)).collect();
    let mk = |g: Vec<P>, l: Lat| {
        let n = g.len();
        (0..n * n * n * n).map(move |i| C10 {
            lat: l,
            a: (g[i % n], g[i / n % n]),
            b: (g[i / n / n % n], g[i / n / n / n]),
        })
    };
    let mut it: CaseIter<C10> = Box::new(std::iter::empty());
    for l in lats {
        it = Box::new(it.chain(mk(g1.clone(), l)).chain(mk(g2.clone(), l)));
    }
    it
}
fn t_c10(c: &C10) -> R {
    by_type!(c.lat.f32, c10(c))
}
fn c10<C: Flt>(c: &C10) -> R {
    let want = exact::inter(c.a, c.b);
    let mk = |s: (P, P)| Segment::<C>::new(c.lat.p(s.0), c.lat.p(s.1));
    let rv = |s: (P, P)| (s.1, s.0);
    for (a, b) in [
        (c.a, c.b),
        (rv(c.a), c.b),
        (c.a, rv(c.b)),
        (rv(c.a), rv(c.b)),
        (c.b, c.a),
        (rv(c.b), c.a),
        (c.b, rv(c.a)),
        (rv(c.b), rv(c.a)),
    ] {
        let got = mk(a).intersect_segment(mk(b));
        let ok = match (&got, want) {
            (SegmentIntersection::None, Inter::None) => true,
            (SegmentIntersection::Position(p), Inter::Touch(q)) => *p == c.lat.p(q),
            (SegmentIntersection::Position(p), Inter::Cross) => {
                let q = exact::cross_point(c.a, c.b);
                let u = (2f64).powi(c.lat.k);
                let eps = if C::IS32 { 4e-6 } else { 1e-14 };
                let m = [c.a.0, c.a.1, c.b.0, c.b.1]
                    .iter()
                    .map(|p| (p.0 + c.lat.ox).abs().max((p.1 + c.lat.oy).abs()))
                    .max()
                    .unwrap() as f64;
                let near = |g: C, w: f64, o: i64| (g.up() / u - (w + o as f64)).abs() <= eps * m;
                near(p.x, q.0, c.lat.ox) && near(p.y, q.1, c.lat.oy)
            }
            (SegmentIntersection::Segment(s), Inter::Overlap(p, q)) => {
                let (p, q): (Position<C>, Position<C>) = (c.lat.p(p), c.lat.p(q));
                (s.start == p && s.end == q) || (s.start == q && s.end == p)
            }
            _ => false,
        };
        ensure!(ok, "{:?} with {:?}: {:?}, expected {:?}", mk(a), mk(b), got, want);
    }
    let deg = c.a.0 == c.a.1 || c.b.0 == c.b.1;
    Ok(Obs::new(want != Inter::None)
        .tag(match want {
            Inter::None => "disjoint",
            Inter::Touch(_) => "one point, an end",
            Inter::Cross => "crossing",
            Inter::Overlap(..) => "overlap",
        })
        .tag_if(deg, "zero length"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C10f {
    f32: bool,
    p: FP,
    q: FP,
    r: FP,
    /// Crossing: position along p-q and q' ... see the test.
    mode: u8,
}
fn gen_c10f(t: &mut Tape) -> C10f {
    let is32 = t.chance(1, 3);
    let (sx, e) = (t.range(-8, 8) as i32, t.range(-2, 2) as i32);
    let v = |t: &mut Tape| {
        let x = match t.below(3) {
            0 => t.range(-20, 20) as f64 * 0.1,
            1 => t.unit() * 20.0 - 10.0,
            _ => t.range(-50, 50) as f64 / 7.0 + 30.0 * e as f64,
        } * (2f64).powi(sx);
        if is32 {
            x as f32 as f64
        } else {
            x
        }
    };
    let mut pt = || fp(v(t), v(t));
    let (p, q, r) = (pt(), pt(), pt());
    C10f { f32: is32, p, q, r, mode: t.below(3) as u8 }
}
/// A segment along an axis, at plane coordinate `at`, from lo to hi; and
/// another along the same line, or ending on it at `on`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AxisC {
    f32: bool,
    vertical: bool,
    at: F,
    lo: F,
    hi: F,
    /// The second segment: along the line from..to, or from the point (far, out) to `on`.
    along: Option<(F, F)>,
    on: F,
    far: F,
    out: F,
}
fn gen_c10_axis(t: &mut Tape) -> AxisC {
    let is32 = t.chance(1, 3);
    let s = (2f64).powi(t.range(-20, 20) as i32);
    let o = if t.chance(1, 2) { 0.0 } else { t.range(-30, 30) as f64 / 3.0 };
    let v = |t: &mut Tape| {
        let x = match t.below(3) {
            0 => t.range(-20, 20) as f64 * 0.1,
            1 => t.unit() * 4.0 - 2.0,
            _ => t.range(-50, 50) as f64 / 7.0,
        };
        let x = (x + o) * s;
        F::of(if is32 { x as f32 as f64 } else { x })
    };
    let (at, lo, hi, far, out) = (v(t), v(t), v(t), v(t), v(t));
    let q = |t: &mut Tape| match t.below(4) {
        0 => lo,
        1 => hi,
        _ => v(t),
    };
    let (on, u, w) = (q(t), q(t), q(t));
    AxisC { f32: is32, vertical: t.chance(1, 2), at, lo, hi, along: if t.chance(1, 3) { Some((u, w)) } else { None }, on, far, out }
}
fn t_c10_axis(c: &AxisC) -> R {
    by_type!(c.f32, c10_axis(c))
}
fn c10_axis<C: Flt>(c: &AxisC) -> R {
    // (along the axis, across)
    let p = |along: F, across: F| -> Position<C> {
        let (a, b) = (C::of64(along.v()), C::of64(across.v()));
        if c.vertical { Position::new(b, a) } else { Position::new(a, b) }
    };
    let (lo, hi) = (c.lo.v().min(c.hi.v()), c.lo.v().max(c.hi.v()));
    let mag = [c.at, c.lo, c.hi, c.far, c.out, c.on].iter().map(|v| v.v().abs()).fold(0.0, f64::max);
    let apart = |a: f64, b: f64| a == b || (a - b).abs() > mag * 1e-2;
    let first = (p(c.lo, c.at), p(c.hi, c.at));
    if lo == hi || !apart(lo, hi) {
        return Ok(Obs::new(false).tag("too short"));
    }
    let (second, want, what) = match c.along {
        Some((u, w)) => {
            let (a, b) = (u.v().min(w.v()), u.v().max(w.v()));
            if a == b || ![a, b].iter().all(|x| apart(*x, lo) && apart(*x, hi)) || !apart(a, b) {
                return Ok(Obs::new(false).tag("too short"));
            }
            let (s, e) = (F::of(lo.max(a)), F::of(hi.min(b)));
            let want = if s.v() > e.v() {
                None
            } else {
                Some((p(s, c.at), p(e, c.at)))
            };
            ((p(u, c.at), p(w, c.at)), want, "along")
        }
        None => {
            let on = c.on.v();
            if !apart(on, lo) || !apart(on, hi) || c.out == c.at || !apart(c.out.v(), c.at.v()) {
                return Ok(Obs::new(false).tag("too short"));
            }
            let e = p(c.on, c.at);
            ((e, p(c.far, c.out)), if on < lo || on > hi { None } else { Some((e, e)) }, "ending on it")
        }
    };
    for (a, b) in [(first, second), (second, first)] {
        for (a, b) in [(a, b), ((a.1, a.0), b), (a, (b.1, b.0)), ((a.1, a.0), (b.1, b.0))] {
            let (s, o) = (Segment::new(a.0, a.1), Segment::new(b.0, b.1));
            let got = s.intersect_segment(o);
            let ok = match (&got, want) {
                (SegmentIntersection::None, None) => true,
                (SegmentIntersection::Position(g), Some((x, y))) => x == y && *g == x,
                (SegmentIntersection::Segment(g), Some((x, y))) => {
                    x != y && ((g.start == x && g.end == y) || (g.start == y && g.end == x))
                }
                _ => false,
            };
            ensure!(ok, "{:?} and {:?}: {:?}, want {:?}", s, o, got, want);
        }
    }
    Ok(Obs::new(true).tag(what).tag_if(want.is_some(), "meet"))
}
fn t_c10f(c: &C10f) -> R {
    by_type!(c.f32, c10f(c))
}
fn c10f<C: Flt>(c: &C10f) -> R {
    let (p, q, r): (Position<C>, Position<C>, Position<C>) = (pos(c.p), pos(c.q), pos(c.r));
    let u = |p: Position<C>| (p.x.up(), p.y.up());
    let d = |a: (f64, f64), b: (f64, f64)| (b.0 - a.0, b.1 - a.1);
    let (a, b) = (d(u(p), u(q)), d(u(p), u(r)));
    let (la, lb) = (a.0.hypot(a.1), b.0.hypot(b.1));
    let sin = (a.0 * b.1 - a.1 * b.0) / (la * lb);
    let mag = [p.x, p.y, q.x, q.y, r.x, r.y].iter().map(|v| v.up().abs()).fold(0.0, f64::max);
    let lim = if C::IS32 { 0.05 } else { 1e-3 };
    // Clearly non-parallel, and neither segment tiny next to the coordinates.
    if !(sin.abs() >= lim && la > 0.01 * mag && lb > 0.01 * mag) {
        return Ok(Obs::new(false).tag("too close to parallel"));
    }
    let seg = |a, b| Segment::<C>::new(a, b);
    match c.mode {
        0 => {
            // p is a shared end point
            for (s, o) in [
                (seg(p, q), seg(p, r)),
                (seg(q, p), seg(p, r)),
                (seg(p, q), seg(r, p)),
                (seg(q, p), seg(r, p)),
            ] {
                for (s, o) in [(s, o), (o, s)] {
                    let got = s.intersect_segment(o);
                    ensure!(
                        got == SegmentIntersection::Position(p),
                        "{:?} and {:?} share {:?} only, got {:?}",
                        s,
                        o,
                        p,
                        got
                    );
                }
            }
        }
        1 => {
            // p is the middle of both segments
            let two = C::one() + C::one();
            let mirror = |x: Position<C>| Position::new(p.x * two - x.x, p.y * two - x.y);
            let (s, o) = (seg(q, mirror(q)), seg(r, mirror(r)));
            for (s, o) in [(s, o), (o, s)] {
                match s.intersect_segment(o) {
                    SegmentIntersection::Position(g) => {
                        let e = if C::IS32 { 1e-3 } else { 1e-9 } * mag;
                        let (gx, gy) = u(g);
                        ensure!(
                            (gx - p.x.up()).abs() <= e && (gy - p.y.up()).abs() <= e,
                            "{:?} and {:?} cross at {:?}, got {:?}",
                            s,
                            o,
                            p,
                            g
                        );
                    }
                    g => return Err(format!("{:?} and {:?} cross at {:?}, got {:?}", s, o, p, g)),
                }
            }
        }
        _ => {
            // stop the second segment well short of the first
            let half = C::of64(0.5);
            let m = p + (r - p) * half;
            let (s, o) = (seg(p, q), seg(m, r));
            for (s, o) in [(s, o), (o, s), (seg(q, p), seg(r, m))] {
                let got = s.intersect_segment(o);
                ensure!(got == SegmentIntersection::None, "{:?} and {:?} are apart, got {:?}", s, o, got);
            }
        }
    }
    Ok(Obs::new(true).tag(match c.mode {
        0 => "shared end",
        1 => "crossing",
        _ => "apart",
    }))
}

// ------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C25 {
    f32: bool,
    a: FP,
    b: FP,
    s: F,
}
fn gen_c25(t: &mut Tape) -> C25 {
    let is32 = t.chance(1, 3);
    let same = t.chance(1, 4);
    let a = fp(wild(t, is32), wild(t, is32));
    let b = if same { fp(a.0.v(), wild(t, is32)) } else { fp(wild(t, is32), wild(t, is32)) };
    C25 { f32: is32, a, b, s: F::of(wild(t, is32)) }
}
fn t_c25(c: &C25) -> R {
    by_type!(c.f32, c25(c))
}
fn c25<C: Flt>(c: &C25) -> R {
    let (a, b, s): (Position<C>, Position<C>, C) = (pos(c.a), pos(c.b), C::of64(c.s.v()));
    let pick = |x: C, y: C, lo: bool| {
        if x.is_nan() {
            y
        } else if y.is_nan() {
            x
        } else if (y < x) == lo {
            y
        } else {
            x
        }
    };
    let psame = |p: Position<C>, x: C, y: C| p.x.same(x) && p.y.same(y);
    let (lx, ly) = (pick(a.x, b.x, true), pick(a.y, b.y, true));
    let (hx, hy) = (pick(a.x, b.x, false), pick(a.y, b.y, false));
    // pick() may return either of two equal values
    ensure!(psame(a.min(b), lx, ly), "min of {:?} {:?} = {:?}", a, b, a.min(b));
    ensure!(psame(a.max(b), hx, hy), "max of {:?} {:?} = {:?}", a, b, a.max(b));
    let (m, n) = Position::min_max(a, b);
    ensure!(psame(m, lx, ly) && psame(n, hx, hy), "min_max of {:?} {:?} = {:?} {:?}", a, b, m, n);
    let (m, n) = Coordinate::min_max(&a.x, b.x);
    ensure!(m.same(lx) && n.same(hx), "coordinate min_max of {:?} {:?} = {:?} {:?}", a.x, b.x, m, n);
    for p in [a, b] {
        ensure!(
            p.validate().is_ok() == (p.x.is_finite() && p.y.is_finite()),
            "validate {:?} = {:?}",
            p,
            p.validate()
        );
        match p.to_hashable() {
            Ok(h) => {
                ensure!(!p.x.is_nan() && !p.y.is_nan(), "{:?} hashable", p);
                let q = Position::from(h);
                ensure!(
                    q.x.up().to_bits() == p.x.up().to_bits() && q.y.up().to_bits() == p.y.up().to_bits(),
                    "{:?} came back as {:?}",
                    p,
                    q
                );
            }
            Err(_) => ensure!(p.x.is_nan() || p.y.is_nan(), "{:?} not hashable", p),
        }
        ensure!(psame(Position::from((p.x, p.y)), p.x, p.y), "from a tuple");
        ensure!(psame(Position::from([p.x, p.y]), p.x, p.y), "from an array");
        ensure!(psame(Position::new(p.x, p.y), p.x, p.y), "new");
        let sv = Segment::new(p, a);
        ensure!(
            sv.validate().is_ok() == [p.x, p.y, a.x, a.y].iter().all(|v| v.is_finite()),
            "segment validate {:?}",
            sv
        );
    }
    ensure!(psame(a + b, a.x + b.x, a.y + b.y), "sum {:?}", a + b);
    ensure!(psame(a - b, a.x - b.x, a.y - b.y), "difference {:?}", a - b);
    ensure!(psame(a * s, a.x * s, a.y * s), "product {:?}", a * s);
    ensure!(psame(a / s, a.x / s, a.y / s), "quotient {:?}", a / s);
    let nan = a.x.is_nan() || a.y.is_nan() || b.x.is_nan() || b.y.is_nan();
    Ok(Obs::new(true).tag(if nan { "NaN" } else { "numbers" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tri {
    lat: Lat,
    p: [P; 3],
}
fn gen_tri(t: &mut Tape) -> Tri {
    let w = *t.pick(&[2i64, 5, 40, 400, 1400, 100_000, 1 << 25]);
    let mut lat = wide_lat(t, w);
    if w > 400 && t.chance(1, 4) {
        let (d, e) = narrow(t, w);
        return Tri { lat, p: [(0, 0), d, e] };
    }
    if t.chance(1, 2) {
        lat.ox = 0;
        lat.oy = 0;
    }
    Tri { lat, p: [grid_point(t, w), grid_point(t, w), grid_point(t, w)] }
}
fn all_tri(tier: Tier) -> CaseIter<Tri> {
    let lats = lats(tier);
    Box::new((0..4096 * lats.len()).map(move |i| {
        let (l, i) = (lats[i / 4096], (i % 4096) as i64);
        let p = |k: i64| (k % 4, k / 4 % 4);
        Tri { lat: l, p: [p(i), p(i / 16), p(i / 256)] }
    }))
}
fn t_tri(c: &Tri) -> R {
    by_type!(c.lat.f32, tri(c))
}
fn tri<C: Flt>(c: &Tri) -> R {
    let u = (2f64).powi(c.lat.k);
    let p: Vec<Position<C>> = c.p.iter().map(|p| c.lat.p(*p)).collect();
    let o = exact::orient(c.p[0], c.p[1], c.p[2]) as f64 * u * u;
    let mk = |i: usize, j: usize, k: usize| Triangle::new(p[i], p[j], p[k]);
    for (i, j, k, s) in [(0, 1, 2, 1.0), (1, 2, 0, 1.0), (2, 0, 1, 1.0), (0, 2, 1, -1.0), (1, 0, 2, -1.0), (2, 1, 0, -1.0)] {
        let t = mk(i, j, k);
        ensure!(t.signed_area().up() == s * o / 2.0, "signed area {:?} of {:?}", t.signed_area(), t);
        ensure!(t.area().up() == o.abs() / 2.0, "area {:?} of {:?}", t.area(), t);
        ensure!(t.to_array() == [p[i], p[j], p[k]], "vertices of {:?}", t);
    }
    let t = Triangle::from((p[0], p[1], p[2]));
    ensure!(t.to_array() == [p[0], p[1], p[2]], "from a tuple");
    if !products_exact(&c.lat, &c.p) {
        return Ok(Obs::new(o != 0.0).tag("far from the origin"));
    }
    // Products of the coordinates as vectors.
    let v = |i: usize| (c.p[i].0 + c.lat.ox, c.p[i].1 + c.lat.oy);
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (v(i), v(j));
            let cross = (a.0 * b.1 - a.1 * b.0) as f64 * u * u;
            let dot = (a.0 * b.0 + a.1 * b.1) as f64 * u * u;
            ensure!(Position::cross(p[i], p[j]).up() == cross, "cross {:?} {:?}", p[i], p[j]);
            ensure!(Position::dot(p[i], p[j]).up() == dot, "dot {:?} {:?}", p[i], p[j]);
        }
    }
    Ok(Obs::new(o != 0.0))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "Up to five boxes (empty, point, segment, box) on lattices or with arbitrary non-NaN bits, all pairs of boxes on a 3x3 grid, and raw bounds with any bits for validation, against an own min/max box model. Non-trivial: two of the boxes share a point (raw: every case).",
            assumptions: &["buffer is checked exactly on lattices; the centre of general floats within rounding", "no NaN except for validation"],
            subs: vec![
                super::vast::sub("C07"),
                exhaustive("pairs", small_boxes, t_c07),
                random("boxes", 400_000, 10_000_000, || tape(80, gen_c07), t_c07),
                random("raw", 200_000, 4_000_000, || tape(24, gen_raw), t_raw),
            ],
        },
        Prop {
            id: "C08",
            rule: "Up to six intervals (empty, point, proper, either orientation) and four arbitrary bit patterns, against an own interval model, covering every type of the linear module. Non-trivial: two intervals share a point.",
            assumptions: &["no NaN in intervals (NaN is covered for points, positions and validation)"],
            subs: vec![super::vast::sub("C08"), random("intervals", 500_000, 10_000_000, || tape(80, gen_c08), t_c08)],
        },
        Prop {
            id: "C09",
            rule: "All segments and positions on a 4x4 grid in several number formats, and random ones up to width 500000 biased to points on or next to the line, against the integer determinant. Non-trivial: the segment has a length.",
            assumptions: &["coordinates on which the products are exact (f64 up to 2^20, f32 up to 800, times a power of two)"],
            subs: vec![
                exhaustive("grid", all_c09, t_c09),
                random("lattice", 1_500_000, 30_000_000, || tape(24, gen_c09), t_c09),
            ],
        },
        Prop {
            id: "C10",
            rule: "All pairs of segments (zero length included) on a 4x4 and a 7x3 grid, random lattice pairs biased to contact and collinearity, each in all 8 operand orders and directions, against exact integer classification; float pairs with a shared end, a crossing or a gap by a margin; axis-parallel float segments against collinear ones and ones ending on them. Non-trivial: the segments meet (floats: clearly non-parallel).",
            assumptions: &["crossing points compared within 1e-14 (f64) / 4e-6 (f32) of the coordinates' size", "float cases: sine of the angle at least 1e-3 (f64) / 0.05 (f32)"],
            subs: vec![
                exhaustive("grids", all_c10, t_c10),
                random("lattice", 1_000_000, 25_000_000, || tape(32, gen_c10), t_c10),
                random("floats", 400_000, 10_000_000, || tape(24, gen_c10f), t_c10f),
                random("axis", 200_000, 6_000_000, || tape(40, gen_c10_axis), t_c10_axis),
            ],
        },
        Prop {
            id: "C25",
            rule: "Pairs of positions with arbitrary bits against component-wise definitions; all triangles on a 4x4 grid and random lattice triangles in all six vertex orders against the integer determinant. Non-trivial: every bit-pattern case, triangles of non-zero area.",
            assumptions: &["areas and products checked where the arithmetic is exact"],
            subs: vec![
                exhaustive("triangles", all_tri, t_tri),
                random("bits", 600_000, 12_000_000, || tape(24, gen_c25), t_c25),
                random("lattice", 600_000, 12_000_000, || tape(16, gen_tri), t_tri),
            ],
        },
    ]
}
