//! C23, C24: reading WKT.
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::tape::{tape, Tape};
use magog::planar::types::{Geometry, LineString, Polygon};
use magog::serde::wkt::parse_wkt;
use serde::{Deserialize, Serialize};

/// What a text says. Rings and lines are lists of positions; a missing value is EMPTY.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum W {
    Point(Option<FP>),
    Line(Vec<FP>),
    Poly(Vec<Vec<FP>>),
    MPoint(Vec<Option<FP>>),
    MLine(Vec<Vec<FP>>),
    MPoly(Vec<Vec<Vec<FP>>>),
}

fn bits(a: &[magog::planar::primitives::Position<f64>], b: &[FP]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(p, q)| {
            let same = |x: f64, y: F| x.to_bits() == y.0 || (x.is_nan() && y.v().is_nan());
            same(p.x, q.0) && same(p.y, q.1)
        })
}
fn line_is(a: &LineString<f64>, b: &[FP]) -> bool {
    bits(&a.positions, b)
}
fn poly_is(a: &Polygon<f64>, b: &[Vec<FP>]) -> bool {
    !b.is_empty()
        && line_is(&a.exterior, &b[0])
        && a.interiors.len() == b.len() - 1
        && a.interiors.iter().zip(&b[1..]).all(|(x, y)| line_is(x, y))
}
/// Does the geometry say exactly what the text does?
fn says(g: &Geometry<f64>, w: &W) -> bool {
    match (g, w) {
        (Geometry::Empty(_), W::Point(None)) => true,
        (Geometry::Empty(_), W::Poly(r)) => r.is_empty(),
        (Geometry::Point(p), W::Point(Some(q))) => bits(&[p.0], &[*q]),
        (Geometry::LineString(l), W::Line(m)) => line_is(l, m),
        (Geometry::Polygon(p), W::Poly(r)) => poly_is(p, r),
        (Geometry::MultiPoint(m), W::MPoint(v)) => {
            let ps: Vec<_> = m.points.iter().map(|p| p.0).collect();
            bits(&ps, &v.iter().flatten().copied().collect::<Vec<_>>())
        }
        (Geometry::MultiLineString(m), W::MLine(v)) => {
            m.line_strings.len() == v.len() && m.line_strings.iter().zip(v).all(|(a, b)| line_is(a, b))
        }
        (Geometry::MultiPolygon(m), W::MPoly(v)) => {
            let v: Vec<_> = v.iter().filter(|p| !p.is_empty()).collect();
            m.polygons.len() == v.len() && m.polygons.iter().zip(v).all(|(a, b)| poly_is(a, b))
        }
        _ => false,
    }
}

// ------------------------------------------------------------ writing

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Num(String),
    Open,
    Close,
    Comma,
}

/// A decimal notation of x that reads back as x.
fn notation(t: &mut Tape, x: f64) -> String {
    let plain = |x: f64| {
        let s = format!("{}", x);
        if s.len() > 60 {
            format!("{:e}", x)
        } else {
            s
        }
    };
    let mut s = match t.below(9) {
        0 | 1 => plain(x),
        2 => format!("{:e}", x),
        3 => format!("{:E}", x),
        4 => format!("{:?}", x),
        5 => format!("{:.20e}", x),
        6 => {
            if t.chance(1, 10) {
                // every digit there is
                return format!("{:.1074}", x);
            }
            // every digit, when that is not too long
            let s = format!("{:.60}", x);
            if x.abs() >= 1e-3 && x.abs() < 1e20 && s.parse::<f64>() == Ok(x) {
                s
            } else {
                plain(x)
            }
        }
        7 => {
            // exponent with sign and leading zero
            let s = format!("{:e}", x);
            let (m, e) = s.split_once('e').unwrap();
            let (sign, e) = match e.strip_prefix('-') {
                Some(e) => ("-", e),
                None => ("+", e),
            };
            format!("{}e{}{:0>3}", m, sign, e)
        }
        _ => {
            // no digit before, or after, the point
            let s = plain(x);
            if let Some(r) = s.strip_prefix("0.") {
                format!(".{}", r)
            } else if let Some(r) = s.strip_prefix("-0.") {
                format!("-.{}", r)
            } else if !s.contains(['.', 'e']) {
                format!("{}.", s)
            } else {
                s
            }
        }
    };
    if t.chance(1, 8) {
        // leading zeros
        let (sign, rest) = match s.strip_prefix('-') {
            Some(r) => ("-", r.to_string()),
            None => ("", s.clone()),
        };
        s = format!("{}{}{}", sign, "00", rest);
    }
    if t.chance(1, 8) && !s.contains(['e', 'E']) {
        s.push_str(if s.contains('.') { "000" } else { ".000" });
    }
    if !s.starts_with('-') && t.chance(1, 10) {
        s.insert(0, '+');
    }
    s
}

fn word(t: &mut Tape, s: &str) -> String {
    match t.below(4) {
        0 | 1 => s.to_string(),
        2 => s.to_lowercase(),
        _ => {
            let mut m = t.word();
            s.chars()
                .map(|c| {
                    m = m.rotate_left(1);
                    if m & 1 == 0 {
                        c
                    } else {
                        c.to_ascii_lowercase()
                    }
                })
                .collect()
        }
    }
}

struct Writer<'a, 'b> {
    t: &'a mut Tape<'b>,
    out: Vec<Tok>,
}
impl Writer<'_, '_> {
    fn empty(&mut self) {
        let w = word(self.t, "EMPTY");
        self.out.push(Tok::Word(w));
    }
    fn num(&mut self, x: F) {
        let s = notation(self.t, x.v());
        self.out.push(Tok::Num(s));
    }
    fn coord(&mut self, p: &FP) {
        self.num(p.0);
        self.num(p.1);
    }
    fn list<T>(&mut self, xs: &[T], f: fn(&mut Self, &T)) {
        if xs.is_empty() {
            return self.empty();
        }
        self.out.push(Tok::Open);
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.out.push(Tok::Comma);
            }
            f(self, x);
        }
        self.out.push(Tok::Close);
    }
    fn point(&mut self, p: &Option<FP>) {
        match p {
            None => self.empty(),
            Some(p) => {
                self.out.push(Tok::Open);
                self.coord(p);
                self.out.push(Tok::Close);
            }
        }
    }
    fn line(&mut self, l: &Vec<FP>) {
        self.list(l, |w, p| w.coord(p));
    }
    fn poly(&mut self, p: &Vec<Vec<FP>>) {
        self.list(p, |w, l| w.line(l));
    }
    fn all(&mut self, w: &W) {
        let name = match w {
            W::Point(_) => "POINT",
            W::Line(_) => "LINESTRING",
            W::Poly(_) => "POLYGON",
            W::MPoint(_) => "MULTIPOINT",
            W::MLine(_) => "MULTILINESTRING",
            W::MPoly(_) => "MULTIPOLYGON",
        };
        let n = word(self.t, name);
        self.out.push(Tok::Word(n));
        match w {
            W::Point(p) => self.point(p),
            W::Line(l) => self.line(l),
            W::Poly(p) => self.poly(p),
            W::MPoint(v) => self.list(v, |w, p| w.point(p)),
            W::MLine(v) => self.list(v, |w, l| w.line(l)),
            W::MPoly(v) => self.list(v, |w, p| w.poly(p)),
        }
    }
}

fn space(t: &mut Tape, need: bool) -> String {
    let n = match t.below(6) {
        0..=2 => 0,
        3 | 4 => 1,
        _ => 1 + t.below(3),
    };
    let n = if need { n.max(1) } else { n };
    (0..n).map(|_| *t.pick(&[' ', ' ', '\n', '\t', '\r'])).collect()
}

/// Lay the tokens out as text; tokens of letters and digits stay apart.
fn lay_out(t: &mut Tape, toks: &[Tok]) -> String {
    let tight = t.chance(1, 3);
    let mut s = if tight { String::new() } else { space(t, false) };
    for (i, k) in toks.iter().enumerate() {
        let solid = |k: &Tok| matches!(k, Tok::Word(_) | Tok::Num(_));
        if i > 0 {
            let need = solid(&toks[i - 1]) && solid(k);
            if tight {
                if need {
                    s.push(' ');
                }
            } else {
                s += &space(t, need);
            }
        }
        match k {
            Tok::Word(w) | Tok::Num(w) => s += w,
            Tok::Open => s.push('('),
            Tok::Close => s.push(')'),
            Tok::Comma => s.push(','),
        }
    }
    if !tight {
        s += &space(t, false);
    }
    s
}

fn number(t: &mut Tape) -> F {
    let x = match t.below(6) {
        0 | 1 => t.range(-20, 20) as f64,
        2 => t.range(-2000, 2000) as f64 / 16.0,
        3 => t.range(-200, 200) as f64 * 0.1,
        4 => {
            let x = f64::from_bits(t.u64());
            if x.is_finite() {
                x
            } else {
                0.5
            }
        }
        _ => *t.pick(&[
            -0.0,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            9007199254740993.0,
            1e22,
            1e23,
            0.1,
            1.0 / 3.0,
            123456789.123456789,
            -1e-7,
        ]),
    };
    F::of(x)
}

fn gen_w(t: &mut Tape) -> W {
    let many = t.chance(1, 12);
    let coord = |t: &mut Tape| -> FP { (number(t), number(t)) };
    let line = |t: &mut Tape| -> Vec<FP> {
        let n = if many { t.below(40) } else { t.below(5) };
        let mut l: Vec<FP> = (0..n).map(|_| coord(t)).collect();
        if n > 1 && t.chance(1, 3) {
            l[n - 1] = l[0];
        }
        l
    };
    let poly = |t: &mut Tape| -> Vec<Vec<FP>> { (0..t.below(4)).map(|_| line(t)).collect() };
    match t.below(6) {
        0 => W::Point(if t.chance(1, 6) { None } else { Some(coord(t)) }),
        1 => W::Line(line(t)),
        2 => W::Poly(poly(t)),
        3 => W::MPoint(
            (0..t.below(6)).map(|_| if t.chance(1, 5) { None } else { Some(coord(t)) }).collect(),
        ),
        4 => W::MLine(poly(t)),
        _ => W::MPoly((0..t.below(4)).map(|_| poly(t)).collect()),
    }
}

/// Hundreds of positions, rings or members.
fn gen_w_large(t: &mut Tape) -> W {
    let coord = |t: &mut Tape| -> FP {
        if t.chance(1, 8) {
            (number(t), number(t))
        } else {
            fp(t.range(-99, 99) as f64, t.range(-9999, 9999) as f64 / 64.0)
        }
    };
    let most = *t.pick(&[50, 300, 1200]);
    let n = 20 + t.below(most);
    let mean = *t.pick(&[1usize, 3, 10]);
    let hollow = t.chance(1, 2);
    let line = |t: &mut Tape, n: usize| -> Vec<FP> { (0..n).map(|_| coord(t)).collect() };
    let some = |t: &mut Tape| if hollow && t.chance(1, 20) { 0 } else { 1 + t.below(2 * mean) };
    match t.below(5) {
        0 => W::Line(line(t, n)),
        1 => {
            let k = n / (mean + 1) + 1;
            W::Poly((0..k).map(|_| { let s = some(t); line(t, s) }).collect())
        }
        2 => W::MPoint((0..n).map(|_| if hollow && t.chance(1, 20) { None } else { Some(coord(t)) }).collect()),
        3 => {
            let k = n / (mean + 1) + 1;
            W::MLine((0..k).map(|_| { let s = some(t); line(t, s) }).collect())
        }
        _ => {
            let k = n / (2 * mean + 1) + 1;
            W::MPoly(
                (0..k)
                    .map(|_| {
                        let r = if hollow && t.chance(1, 20) { 0 } else { 1 + t.below(3) };
                        (0..r).map(|_| { let s = some(t); line(t, s) }).collect()
                    })
                    .collect(),
            )
        }
    }
}

fn gen_c23_large(t: &mut Tape) -> Written {
    let w = gen_w_large(t);
    let mut wr = Writer { t, out: vec![] };
    wr.all(&w);
    let toks = wr.out;
    let text = lay_out(t, &toks);
    Written { w, text }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Written {
    w: W,
    text: String,
}

fn gen_c23(t: &mut Tape) -> Written {
    let w = gen_w(t);
    let mut wr = Writer { t, out: vec![] };
    wr.all(&w);
    let toks = wr.out;
    let text = lay_out(t, &toks);
    Written { w, text }
}

fn t_c23(c: &Written) -> R {
    let got = parse_wkt(&c.text);
    let Ok(gs) = got else { return Err(format!("{:?} gives {:?}, want {:?}", c.text, got, c.w)) };
    ensure!(gs.len() == 1, "{:?} gives {:?}", c.text, gs);
    ensure!(says(&gs[0], &c.w), "{:?} gives {:?}, want {:?}", c.text, gs[0], c.w);
    let (name, n, hole) = match &c.w {
        W::Point(p) => ("point", p.is_some() as usize, p.is_none()),
        W::Line(l) => ("linestring", l.len(), l.is_empty()),
        W::Poly(p) => ("polygon", p.iter().map(|l| l.len()).sum(), p.is_empty()),
        W::MPoint(v) => ("multipoint", v.iter().flatten().count(), v.iter().any(|p| p.is_none())),
        W::MLine(v) => ("multilinestring", v.iter().map(|l| l.len()).sum(), v.iter().any(|l| l.is_empty())),
        W::MPoly(v) => {
            ("multipolygon", v.iter().flatten().map(|l| l.len()).sum(), v.iter().any(|p| p.is_empty()))
        }
    };
    Ok(Obs::new(n > 0).tag(name).tag_if(hole, "an EMPTY part").tag_if(n > 20, "more than 20 positions"))
}

// ------------------------------------------------------------ C24

/// What the grammar says about the first geometry of a token list:
/// None if malformed (or a collection).
struct Reader<'a> {
    toks: &'a [Tok],
    at: usize,
}
impl Reader<'_> {
    fn next(&mut self) -> Option<&Tok> {
        self.at += 1;
        self.toks.get(self.at - 1)
    }
    fn num(&mut self) -> Option<F> {
        match self.next()? {
            Tok::Num(s) => s.trim_start_matches('+').parse().ok().map(F::of),
            _ => None,
        }
    }
    fn coord(&mut self) -> Option<FP> {
        let x = self.num()?;
        Some((x, self.num()?))
    }
    /// EMPTY, or a parenthesised list.
    fn list<T>(&mut self, f: fn(&mut Self) -> Option<T>, one: bool) -> Option<Vec<T>> {
        match self.next()? {
            Tok::Word(w) if w.eq_ignore_ascii_case("EMPTY") => return Some(vec![]),
            Tok::Open => {}
            _ => return None,
        }
        let mut v = vec![f(self)?];
        loop {
            match self.next()? {
                Tok::Close => return Some(v),
                Tok::Comma if !one => v.push(f(self)?),
                _ => return None,
            }
        }
    }
    fn point(&mut self) -> Option<Option<FP>> {
        Some(self.list(|r| r.coord(), true)?.first().copied())
    }
    fn line(&mut self) -> Option<Vec<FP>> {
        self.list(|r| r.coord(), false)
    }
    fn poly(&mut self) -> Option<Vec<Vec<FP>>> {
        self.list(|r| r.line(), false)
    }
    fn all(&mut self) -> Option<W> {
        let Tok::Word(w) = self.next()? else { return None };
        Some(match w.to_ascii_uppercase().as_str() {
            "POINT" => W::Point(self.point()?),
            "LINESTRING" => W::Line(self.line()?),
            "POLYGON" => W::Poly(self.poly()?),
            "MULTIPOINT" => W::MPoint(self.list(|r| r.point(), false)?),
            "MULTILINESTRING" => W::MLine(self.list(|r| r.line(), false)?),
            "MULTIPOLYGON" => W::MPoly(self.list(|r| r.poly(), false)?),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edited {
    text: String,
    /// What it says, or None if the first geometry is malformed.
    w: Option<W>,
}

fn gen_c24_edit(t: &mut Tape) -> Edited {
    let w = gen_w(t);
    let mut wr = Writer { t, out: vec![] };
    wr.all(&w);
    let mut k = wr.out;
    let stray = |t: &mut Tape| -> Tok {
        match t.below(9) {
            0 => Tok::Open,
            1 => Tok::Close,
            2 => Tok::Comma,
            3 => Tok::Num("7".into()),
            4 => Tok::Word("EMPTY".into()),
            5 => Tok::Word((*t.pick(&["POINT", "Z", "M", "ZM", "LINESTRING", "x", "nan", "inf", "é"])).into()),
            6 => Tok::Num((*t.pick(&["1x", "--1", "1.2.3", "1e", "+-", ".", "-", "0x1", "1_0", "+", "-inf", "½"])).into()),
            7 => Tok::Word(
                (*t.pick(&["POINTZ", "POLYGONE", "CIRCLE", "MULTI", "TRIANGLE", "EMPTYPOINT", "GEOMETRY", "LINEARRING"]))
                    .into(),
            ),
            _ => Tok::Num("-2.5e3".into()),
        }
    };
    // no edit at all now and then, or text after the end
    for _ in 0..t.below(3) {
        let i = t.below(k.len() + 1);
        match t.below(6) {
            0 | 1 if i < k.len() => {
                k.remove(i);
            }
            2 => {
                let s = stray(t);
                k.insert(i, s);
            }
            3 if i < k.len() => k[i] = stray(t),
            4 => k.truncate(i),
            5 if i < k.len() => {
                let j = t.below(k.len());
                k.swap(i, j);
            }
            _ => {
                let s = stray(t);
                k.push(s);
            }
        }
    }
    let w = Reader { toks: &k, at: 0 }.all();
    let mut text = lay_out(t, &k);
    if k.is_empty() {
        text = "POINT".into();
    }
    Edited { text, w }
}

fn t_c24_edit(c: &Edited) -> R {
    let got = parse_wkt(&c.text);
    match (&c.w, &got) {
        (Some(w), Ok(gs)) => ensure!(gs.len() == 1 && says(&gs[0], w), "{:?} gives {:?}, want {:?}", c.text, gs, w),
        (None, Err(_)) => {}
        (Some(w), Err(e)) => return Err(format!("{:?} gives error {:?}, want {:?}", c.text, e, w)),
        (None, Ok(gs)) => return Err(format!("{:?} is malformed, but gives {:?}", c.text, gs)),
    }
    Ok(Obs::new(c.w.is_none()).tag(if c.w.is_none() { "malformed" } else { "well-formed" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    text: String,
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| matches!(c, ' ' | '\n' | '\r' | '\t'))
}

fn gen_c24_soup(t: &mut Tape) -> Text {
    let cap = if t.chance(1, 4) { 40 } else { 12 };
    let n = t.below(cap);
    let mut s = String::new();
    let words = [
        "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION",
        "EMPTY", "Z", "(", ")", ",", " ", "1", "2.5", "-3", "(", ")", ",", " ", "1 2", "(1 2)", "(1 2, 3 4)", "((",
        "))", "), (", "EMPTY", "POINT(1 2)", "\0", "nan", "-inf", "inf", "1e999", "-", "+", ".", "é", "\u{a0}", "\u{feff}",
        "²", "½", "٣", "\"", "'", ";", "SRID=4326;", "\n", "\t", "\u{1F600}", "1e5", "0x10", "_",
    ];
    for i in 0..n {
        match t.below(12) {
            0 => s.push(char::from_u32(t.word() % 0x11_0000).unwrap_or('?')),
            1 => s.push((t.below(128) as u8) as char),
            2 if i == 0 => s.push_str(words[t.below(7)]),
            _ => s.push_str(words[t.below(words.len())]),
        }
        if t.chance(1, 3) {
            s.push(' ');
        }
    }
    Text { text: s }
}

/// Collections: well-formed or not, up to 50 deep.
fn gen_c24_collection(t: &mut Tape) -> Text {
    fn geom(t: &mut Tape, deep: usize, budget: &mut usize, s: &mut String) {
        *budget = budget.saturating_sub(1);
        if deep > 0 && *budget > 0 && t.chance(2, 3) {
            collection(t, deep - 1, budget, s);
        } else {
            let w = gen_w(t);
            let mut wr = Writer { t, out: vec![] };
            wr.all(&w);
            let k = wr.out;
            *s += &lay_out(t, &k);
        }
    }
    fn collection(t: &mut Tape, deep: usize, budget: &mut usize, s: &mut String) {
        *s += &word(t, "GEOMETRYCOLLECTION");
        *s += &space(t, false);
        if t.chance(1, 8) {
            *s += " EMPTY";
            return;
        }
        s.push('(');
        let n = 1 + t.below(2);
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            *s += &space(t, false);
            geom(t, deep, budget, s);
        }
        s.push(')');
    }
    let mut s = space(t, false);
    let deep = *t.pick(&[1usize, 2, 5, 50]);
    let mut budget = 20;
    collection(t, deep, &mut budget, &mut s);
    if t.chance(1, 4) {
        // damage it
        let cut = t.below(s.len());
        if s.is_char_boundary(cut) {
            s.truncate(cut);
        }
    }
    Text { text: s }
}

/// Very long and very deep texts.
fn gen_c24_big(t: &mut Tape) -> Text {
    let n = *t.pick(&[1usize, 100, 5_000, 200_000]);
    let part = *t.pick(&[
        "GEOMETRYCOLLECTION(", "geometrycollection (", "(", ")", ",", "1 ", " ", "\n", "x", "9", "EMPTY ", "POINT(",
        "POLYGON((1 2),", "1 2, ", "-", "+", "\0",
    ]);
    let head = *t.pick(&["", " ", "POINT", "LINESTRING(", "MULTIPOLYGON(((", "GEOMETRYCOLLECTION", "POINT(1 2)", "POINT(", "\n\t"]);
    let tail = *t.pick(&["", ")", "1 2)", "POINT(1 2)", " EMPTY", "1 2)))"]);
    Text { text: format!("{}{}{}", head, part.repeat(n), tail) }
}

/// Against the reading of the grammar by the wkt crate, for texts where it is safe to ask.
fn t_c24_text(c: &Text) -> R {
    let short = || c.text.chars().take(300).collect::<String>();
    // Decide from the outside first: these must not even reach a recursive reader.
    let got = parse_wkt(&c.text);
    let first = c.text.trim_start_matches(['\n', '\r', '\t', ' ']);
    if blank(&c.text) {
        ensure!(matches!(&got, Ok(v) if v.is_empty()), "blank text {:?} gives {:?}", short(), got);
        return Ok(Obs::new(true).tag("blank"));
    }
    let collection = first.get(..18).map_or(false, |w| w.eq_ignore_ascii_case("GEOMETRYCOLLECTION"));
    if collection {
        ensure!(got.is_err(), "collection {:?} gives {:?}", short(), got);
        return Ok(Obs::new(true).tag("collection"));
    }
    let want = wkt::Wkt::from_str(&c.text);
    match (&want, &got) {
        (Err(_), Err(_)) => Ok(Obs::new(true).tag("refused")),
        (Err(e), Ok(g)) => Err(format!("{:?} is malformed ({}), but gives {:?}", short(), e, g)),
        (Ok(w), _) if w.items.is_empty() => {
            // The reader stops before the first token: text that is neither blank nor a geometry.
            if first.starts_with('\0') {
                // A terminated, blank string or a malformed one? Not for us to say.
                return Ok(Obs::new(false).tag("starts with a terminator"));
            }
            ensure!(got.is_err(), "{:?} starts with no geometry, but gives {:?}", short(), got);
            Ok(Obs::new(true).tag("no first token"))
        }
        (Ok(_), Err(e)) => Err(format!("{:?} is well-formed, but gives {:?}", short(), e)),
        (Ok(w), Ok(gs)) => {
            let v = |l: &wkt::types::LineString| -> Vec<FP> { l.0.iter().map(|c| fp(c.x, c.y)).collect() };
            let p = |p: &wkt::types::Polygon| -> Vec<Vec<FP>> { p.0.iter().map(v).collect() };
            let pt = |p: &wkt::types::Point| -> Option<FP> { p.0.as_ref().map(|c| fp(c.x, c.y)) };
            ensure!(w.items.len() == 1, "reference reader gives {} geometries", w.items.len());
            let say = match &w.items[0] {
                wkt::Geometry::Point(x) => W::Point(pt(x)),
                wkt::Geometry::LineString(x) => W::Line(v(x)),
                wkt::Geometry::Polygon(x) => W::Poly(p(x)),
                wkt::Geometry::MultiPoint(x) => W::MPoint(x.0.iter().map(pt).collect()),
                wkt::Geometry::MultiLineString(x) => W::MLine(x.0.iter().map(v).collect()),
                wkt::Geometry::MultiPolygon(x) => W::MPoly(x.0.iter().map(p).collect()),
                wkt::Geometry::GeometryCollection(_) => {
                    return Err(format!("collection {:?} gives {:?}", short(), gs))
                }
            };
            ensure!(gs.len() == 1 && says(&gs[0], &say), "{:?} gives {:?}, want {:?}", short(), gs, say);
            Ok(Obs::new(true).tag("accepted"))
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            rule: "Random geometries of all six types with EMPTY forms and members, any finite coordinate values, written with random keyword case, whitespace and nine number notations (up to every one of a number's digits), up to hundreds of positions, rings or members (sub large); parsed and compared bit for bit. Non-trivial: the geometry has a position.",
            assumptions: &["multipoint members are written in parentheses, coordinates are two-dimensional (the supported dialect)"],
            subs: vec![super::vast::sub("C23"), random("written", 150_000, 5_000_000, || tape(900, gen_c23), t_c23),
                random("large", 5_000, 150_000, || tape(12_000, gen_c23_large), t_c23)],
        },
        Prop {
            id: "C24",
            rule: "Well-formed texts with 0-2 token edits (deleted, inserted, replaced, swapped, cut off, appended), against an own reader of the grammar; soups of keywords, numbers, punctuation and arbitrary characters, collections nested up to 50 deep, texts of up to 200000 repetitions, against the wkt crate's reader. Non-trivial: malformed, or any soup text.",
            assumptions: &["text after a complete first geometry is ignored, as documented by the reader"],
            subs: vec![
                random("edits", 200_000, 8_000_000, || tape(900, gen_c24_edit), t_c24_edit),
                random("soup", 200_000, 8_000_000, || tape(120, gen_c24_soup), t_c24_text),
                random("collections", 20_000, 400_000, || tape(900, gen_c24_collection), t_c24_text),
                random("big", 1_000, 20_000, || tape(8, gen_c24_big), t_c24_text),
            ],
        },
    ]
}
