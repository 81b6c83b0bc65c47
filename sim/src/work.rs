//! Workloads: the geometric inputs that the simulated clients submit.

use kurbo::{BezPath, CubicBez, ParamCurve, Point};

use crate::sim::Sim;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum El {
    L(Point),
    Q(Point, Point),
    C(Point, Point, Point),
}

impl El {
    pub fn end(&self) -> Point {
        match *self {
            El::L(p) | El::Q(_, p) | El::C(_, _, p) => p,
        }
    }
}

/// A closed subpath: the last element ends exactly at `start`.
#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub start: Point,
    pub els: Vec<El>,
}

impl Sub {
    pub fn polygon(ps: &[Point]) -> Self {
        let mut els: Vec<El> = ps[1..].iter().map(|p| El::L(*p)).collect();
        if *ps.last().unwrap() != ps[0] {
            els.push(El::L(ps[0]));
        }
        Sub { start: ps[0], els }
    }

    pub fn is_polygon(&self) -> bool {
        self.els.iter().all(|e| matches!(e, El::L(_)))
    }

    /// The distinct consecutive vertices.
    pub fn vertices(&self) -> Vec<Point> {
        let mut ret = vec![self.start];
        ret.extend(self.els.iter().map(|e| e.end()));
        ret.pop();
        ret
    }

    pub fn map(&self, f: impl Fn(Point) -> Point) -> Self {
        Sub {
            start: f(self.start),
            els: self
                .els
                .iter()
                .map(|e| match *e {
                    El::L(p) => El::L(f(p)),
                    El::Q(a, p) => El::Q(f(a), f(p)),
                    El::C(a, b, p) => El::C(f(a), f(b), f(p)),
                })
                .collect(),
        }
    }

    pub fn reversed(&self) -> Self {
        let mut els = Vec::new();
        let mut starts = vec![self.start];
        starts.extend(self.els.iter().map(|e| e.end()));
        for (i, e) in self.els.iter().enumerate().rev() {
            let to = starts[i];
            els.push(match *e {
                El::L(_) => El::L(to),
                El::Q(a, _) => El::Q(a, to),
                El::C(a, b, _) => El::C(b, a, to),
            });
        }
        Sub {
            start: self.start,
            els,
        }
    }

    /// The same closed curve, starting from its `k`th vertex.
    pub fn rotated(&self, k: usize) -> Self {
        let n = self.els.len();
        if n == 0 {
            return self.clone();
        }
        let k = k % n;
        if k == 0 {
            return self.clone();
        }
        let mut els = self.els[k..].to_vec();
        els.extend_from_slice(&self.els[..k]);
        Sub {
            start: self.els[k - 1].end(),
            els,
        }
    }

    /// `explicit` is whether the final line (if it is one) is written out before the `Z`.
    pub fn append_to(&self, path: &mut BezPath, explicit: bool) {
        path.move_to(self.start);
        for (i, e) in self.els.iter().enumerate() {
            match *e {
                El::L(p) => {
                    if i + 1 < self.els.len() || explicit {
                        path.line_to(p)
                    }
                }
                El::Q(a, p) => path.quad_to(a, p),
                El::C(a, b, p) => path.curve_to(a, b, p),
            }
        }
        path.close_path();
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub family: usize,
    pub sets: [Vec<Sub>; 2],
    /// `None` means the automatically chosen tolerance.
    pub eps: Option<f64>,
    pub explicit: bool,
}

pub const FAMILIES: [&str; 20] = [
    "grid_polygons",
    "rectangles",
    "float_polygons",
    "concurrent_stars",
    "horizontal_heavy",
    "circles",
    "random_curves",
    "rounded",
    "near_degenerate",
    "duplicates",
    "combs",
    "touching",
    "zigzags",
    "mixed",
    "slivers",
    "nested",
    "crowds",
    "pencils",
    "bundle",
    "corpus",
];

fn pt(x: f64, y: f64) -> Point {
    Point::new(x, y)
}

pub fn to_path(subs: &[Sub], explicit: bool) -> BezPath {
    let mut p = BezPath::new();
    for s in subs {
        s.append_to(&mut p, explicit);
    }
    p
}

/// Splits a path, whose subpaths must all be closed, into subpaths.
pub fn parse_subs(svg: &str) -> Vec<Sub> {
    let path = BezPath::from_svg(svg).expect("invalid path in the corpus");
    let mut ret: Vec<Sub> = Vec::new();
    for el in path.elements() {
        match *el {
            kurbo::PathEl::MoveTo(p) => ret.push(Sub {
                start: p,
                els: Vec::new(),
            }),
            kurbo::PathEl::LineTo(p) => ret.last_mut().unwrap().els.push(El::L(p)),
            kurbo::PathEl::QuadTo(a, p) => ret.last_mut().unwrap().els.push(El::Q(a, p)),
            kurbo::PathEl::CurveTo(a, b, p) => ret.last_mut().unwrap().els.push(El::C(a, b, p)),
            kurbo::PathEl::ClosePath => {
                let s = ret.last_mut().unwrap();
                if s.els.last().map_or(s.start, |e| e.end()) != s.start {
                    let start = s.start;
                    s.els.push(El::L(start));
                }
            }
        }
    }
    ret
}

impl Case {
    pub fn from_svg(a: &str, b: &str, eps: Option<f64>) -> Case {
        Case {
            family: FAMILIES.len() - 1,
            sets: [parse_subs(a), parse_subs(b)],
            eps,
            explicit: false,
        }
    }

    pub fn path(&self, i: usize) -> BezPath {
        to_path(&self.sets[i], self.explicit)
    }

    pub fn is_polygonal(&self) -> bool {
        self.sets.iter().flatten().all(|s| s.is_polygon())
    }

    pub fn n_els(&self) -> usize {
        self.sets.iter().flatten().map(|s| s.els.len()).sum()
    }

    /// The largest coordinate, in absolute value.
    pub fn magnitude(&self) -> f64 {
        let mut m = 0.0f64;
        for s in self.sets.iter().flatten() {
            let mut f = |p: Point| m = m.max(p.x.abs()).max(p.y.abs());
            f(s.start);
            for e in &s.els {
                match *e {
                    El::L(p) => f(p),
                    El::Q(a, p) => {
                        f(a);
                        f(p)
                    }
                    El::C(a, b, p) => {
                        f(a);
                        f(b);
                        f(p)
                    }
                }
            }
        }
        m
    }

    /// The slope of the flattest line that isn't horizontal (at most 1).
    pub fn min_slope(&self) -> f64 {
        let mut m = 1.0f64;
        for s in self.sets.iter().flatten() {
            let mut last = s.start;
            for e in &s.els {
                let d = e.end() - last;
                last = e.end();
                if d.y != 0.0 && matches!(e, El::L(_)) {
                    m = m.min(d.y.abs() / d.x.abs().max(d.y.abs()));
                }
            }
        }
        m
    }

    /// The largest dimension of the bounding box.
    pub fn size(&self) -> f64 {
        let mut lo = pt(f64::INFINITY, f64::INFINITY);
        let mut hi = pt(f64::NEG_INFINITY, f64::NEG_INFINITY);
        for s in self.sets.iter().flatten() {
            for p in std::iter::once(s.start).chain(s.els.iter().map(|e| e.end())) {
                lo = pt(lo.x.min(p.x), lo.y.min(p.y));
                hi = pt(hi.x.max(p.x), hi.y.max(p.y));
            }
        }
        (hi.x - lo.x).max(hi.y - lo.y).max(0.0)
    }

    /// The tolerance that will be used: mirrors the documented rule for the automatic one
    /// only to the extent of being an upper bound on it.
    pub fn eps(&self) -> f64 {
        self.eps
            .unwrap_or_else(|| (self.magnitude() * 2.0 * f64::EPSILON * 64.0).max(1e-6))
    }

    pub fn describe(&self) -> String {
        format!(
            "family={} eps={:?}\n  A: {}\n  B: {}",
            FAMILIES[self.family],
            self.eps,
            self.path(0).to_svg(),
            self.path(1).to_svg()
        )
    }

    pub fn map(&self, f: impl Fn(Point) -> Point) -> Case {
        Case {
            family: self.family,
            sets: [
                self.sets[0].iter().map(|s| s.map(&f)).collect(),
                self.sets[1].iter().map(|s| s.map(&f)).collect(),
            ],
            eps: self.eps,
            explicit: self.explicit,
        }
    }
}

/// Limits for a generated case.
#[derive(Clone, Copy)]
pub struct Opts {
    /// Allow curved families?
    pub curves: bool,
    /// Only use curved families?
    pub only_curves: bool,
    /// Roughly how many path elements are allowed.
    pub max_els: usize,
    /// Vary the scale, the offset and the tolerance?
    pub transforms: bool,
    /// How often to use the family of nested contours, in percent.
    pub nested: u64,
    /// Allow bundles of nearly tangent curves?
    pub bundles: bool,
    /// How often there's a big crowd of small shapes, out of 1000.
    pub crowds: u64,
    /// How big the crowds can be, in percent.
    pub crowd_size: i64,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            curves: true,
            only_curves: false,
            max_els: 60,
            transforms: true,
            nested: 4,
            bundles: true,
            crowds: 3,
            crowd_size: 100,
        }
    }
}

const POLY_FAMILIES: [usize; 11] = [0, 1, 2, 3, 4, 8, 9, 11, 12, 14, 17];
const CURVE_FAMILIES: [usize; 4] = [5, 6, 7, 13];

fn grid_point(sim: &Sim, g: i64) -> Point {
    pt(sim.int(0, g) as f64, sim.int(0, g) as f64)
}

fn grid_polygon(sim: &Sim, g: i64, max_pts: i64) -> Option<Sub> {
    let n = sim.int(3, max_pts);
    let mut ps: Vec<Point> = Vec::new();
    for _ in 0..n {
        let p = grid_point(sim, g);
        if ps.last() != Some(&p) {
            ps.push(p);
        }
    }
    if ps.len() > 1 && ps.first() == ps.last() {
        ps.pop();
    }
    (ps.len() >= 2).then(|| Sub::polygon(&ps))
}

fn rect(x0: f64, y0: f64, x1: f64, y1: f64, ccw: bool) -> Sub {
    let s = Sub::polygon(&[pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)]);
    if ccw {
        s.reversed()
    } else {
        s
    }
}

fn grid_rect(sim: &Sim, g: i64) -> Sub {
    let x0 = sim.int(0, g - 1);
    let y0 = sim.int(0, g - 1);
    let w = sim.int(1, (g - x0).max(1));
    let h = sim.int(1, (g - y0).max(1));
    rect(
        x0 as f64,
        y0 as f64,
        (x0 + w) as f64,
        (y0 + h) as f64,
        sim.chance(40),
    )
}

fn float_polygon(sim: &Sim, max_pts: i64) -> Sub {
    let n = sim.int(3, max_pts);
    let ps: Vec<Point> = (0..n)
        .map(|_| pt(sim.range(0.0, 10.0), sim.range(0.0, 10.0)))
        .collect();
    Sub::polygon(&ps)
}

/// Triangles and bow-ties whose edges all pass through (or near) a common point.
fn star(sim: &Sim, c: Point) -> Sub {
    let d = |sim: &Sim| pt(sim.int(-5, 5) as f64, sim.int(-5, 5) as f64);
    let mut u = d(sim);
    let mut v = d(sim);
    if u == pt(0.0, 0.0) {
        u = pt(1.0, 3.0);
    }
    if v == pt(0.0, 0.0) {
        v = pt(-2.0, 1.0);
    }
    let k = sim.int(1, 3) as f64;
    Sub::polygon(&[
        pt(c.x + u.x, c.y + u.y),
        pt(c.x - k * u.x, c.y - k * u.y),
        pt(c.x + v.x, c.y + v.y),
        pt(c.x - v.x, c.y - v.y),
    ])
}

fn dedup_polygon(ps: Vec<Point>) -> Option<Sub> {
    let mut qs: Vec<Point> = Vec::new();
    for p in ps {
        if qs.last() != Some(&p) {
            qs.push(p);
        }
    }
    while qs.len() > 1 && qs.first() == qs.last() {
        qs.pop();
    }
    (qs.len() >= 2).then(|| Sub::polygon(&qs))
}

fn horizontal_heavy(sim: &Sim, g: i64) -> Option<Sub> {
    let n = sim.int(2, 5);
    let mut ps = Vec::new();
    let mut y = sim.int(0, 3) as f64;
    for _ in 0..n {
        ps.push(pt(sim.int(0, g) as f64, y));
        ps.push(pt(sim.int(0, g) as f64, y));
        y = sim.int(0, 3) as f64;
    }
    dedup_polygon(ps)
}

const KAPPA: f64 = 0.5522847498307936;

fn ellipse(c: Point, rx: f64, ry: f64) -> Sub {
    let (x, y) = (c.x, c.y);
    let (kx, ky) = (rx * KAPPA, ry * KAPPA);
    let p0 = pt(x + rx, y);
    let p1 = pt(x, y + ry);
    let p2 = pt(x - rx, y);
    let p3 = pt(x, y - ry);
    Sub {
        start: p0,
        els: vec![
            El::C(pt(x + rx, y + ky), pt(x + kx, y + ry), p1),
            El::C(pt(x - kx, y + ry), pt(x - rx, y + ky), p2),
            El::C(pt(x - rx, y - ky), pt(x - kx, y - ry), p3),
            El::C(pt(x + kx, y - ry), pt(x + rx, y - ky), p0),
        ],
    }
}

fn circle_like(sim: &Sim) -> Sub {
    let c = pt(sim.int(0, 8) as f64, sim.int(0, 8) as f64);
    let rx = sim.int(1, 4) as f64;
    let ry = if sim.chance(40) {
        sim.int(1, 4) as f64
    } else {
        rx
    };
    let s = ellipse(c, rx, ry);
    let s = if sim.chance(30) { s.reversed() } else { s };
    if sim.chance(30) {
        s.rotated(sim.below(4))
    } else {
        s
    }
}

fn random_curve(sim: &Sim, grid: bool) -> Sub {
    let p = |sim: &Sim| {
        if grid {
            grid_point(sim, 10)
        } else {
            pt(sim.range(0.0, 10.0), sim.range(0.0, 10.0))
        }
    };
    let n = sim.int(2, 4);
    let start = p(sim);
    let mut els = Vec::new();
    for i in 0..n {
        let end = if i + 1 == n { start } else { p(sim) };
        els.push(match sim.choose(5) {
            0 | 1 => El::C(p(sim), p(sim), end),
            2 | 3 => El::Q(p(sim), end),
            _ => El::L(end),
        });
    }
    Sub { start, els }
}

fn rounded_rect(sim: &Sim) -> Sub {
    let x0 = sim.int(0, 8) as f64;
    let y0 = sim.int(0, 8) as f64;
    let w = sim.int(2, 8) as f64;
    let h = sim.int(2, 8) as f64;
    let r = *sim.pick(&[0.5, 1.0, 0.25]);
    let (x1, y1) = (x0 + w, y0 + h);
    let k = r * (1.0 - KAPPA);
    let s = Sub {
        start: pt(x0 + r, y0),
        els: vec![
            El::L(pt(x1 - r, y0)),
            El::C(pt(x1 - k, y0), pt(x1, y0 + k), pt(x1, y0 + r)),
            El::L(pt(x1, y1 - r)),
            El::C(pt(x1, y1 - k), pt(x1 - k, y1), pt(x1 - r, y1)),
            El::L(pt(x0 + r, y1)),
            El::C(pt(x0 + k, y1), pt(x0, y1 - k), pt(x0, y1 - r)),
            El::L(pt(x0, y0 + r)),
            El::C(pt(x0, y0 + k), pt(x0 + k, y0), pt(x0 + r, y0)),
        ],
    };
    if sim.chance(30) {
        s.reversed()
    } else {
        s
    }
}

fn jitter(sim: &Sim, s: &Sub) -> Sub {
    let amp = *sim.pick(&[0.0, 1e-15, 1e-12, 1e-9, 1e-7, 5e-7, 1e-6, 2e-6, 5e-6, 1e-4]);
    let p = |p: Point| {
        if amp == 0.0 {
            p
        } else {
            pt(
                p.x + amp * sim.int(-2, 2) as f64,
                p.y + amp * sim.int(-2, 2) as f64,
            )
        }
    };
    let start = p(s.start);
    let n = s.els.len();
    let els = s
        .els
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let end = if i + 1 == n { start } else { p(e.end()) };
            match *e {
                El::L(_) => El::L(end),
                El::Q(a, _) => El::Q(p(a), end),
                El::C(a, b, _) => El::C(p(a), p(b), end),
            }
        })
        .collect();
    Sub { start, els }
}

fn duplicate(sim: &Sim, s: &Sub) -> Sub {
    let s = if sim.chance(40) {
        s.reversed()
    } else {
        s.clone()
    };
    if sim.chance(50) {
        s.rotated(sim.below(8))
    } else {
        s
    }
}

/// Steep curves that follow one another, at distances of about the tolerance: crossing, touching,
/// and coming apart again.
pub fn gen_bundle(sim: &Sim) -> Case {
    let h = *sim.pick(&[10.0, 10.0, 3.0, 40.0]);
    let scale = *sim.pick(&[1.0, 1.0, 100.0, 0.37]);
    let (dx, dy) = match sim.choose(4) {
        0 => (0.0, 0.0),
        1 => (-3.0, -h / 2.0),
        2 => (sim.range(-50.0, 50.0), sim.range(-50.0, 50.0)),
        _ => (-20.0, -2.0 * h),
    };
    let eps = if sim.chance(40) { None } else { Some(h * scale * *sim.pick(&[1e-7, 1e-6, 1e-5, 1e-4])) };
    let mut case = Case {
        family: FAMILIES.len() - 2,
        sets: [Vec::new(), Vec::new()],
        eps,
        explicit: sim.chance(30),
    };
    let at = |x: f64, y: f64| pt((x + dx) * scale, (y + dy) * scale);
    let rel = case.eps.unwrap_or(1e-6) / scale;
    let straight = sim.chance(30);
    let bend = |sim: &Sim, y: f64| if straight { 0.0 } else { sim.range(-0.3, 0.3) * y };
    let (y1, y2) = (h * sim.range(0.2, 0.45), h * sim.range(0.55, 0.8));
    let base = [0.0, bend(sim, y1), bend(sim, y2), if straight { 0.0 } else { bend(sim, h) }];
    let ys = [0.0, y1, y2, h];
    for k in 0..sim.int(2, 5) {
        let mut x = base;
        let d = rel * *sim.pick(&[0.1, 0.3, 0.6, 1.0, 2.0, 20.0, 1e3]);
        match sim.choose(6) {
            // wobble
            0 => x.iter_mut().for_each(|x| *x += sim.range(-d, d)),
            // cross
            1 => {
                let s = if sim.chance(50) { d } else { -d };
                x[0] += s;
                x[3] -= s;
            }
            // bulge
            2 => {
                let s = if sim.chance(50) { d } else { -d };
                x[1] += s;
                x[2] += s;
            }
            // curve away, and touch (or almost) in the middle
            3 => {
                let s = if sim.chance(50) { 0.05 * h } else { -0.05 * h };
                let miss = sim.range(-2.0, 2.0) * rel;
                x[0] += s + miss;
                x[3] += s + miss;
                x[1] += miss - s / 3.0;
                x[2] += miss - s / 3.0;
            }
            // cross twice
            4 => {
                x[1] += d;
                x[2] -= d;
            }
            _ => {}
        }
        let mut c = CubicBez::new(at(x[0], ys[0]), at(x[1], ys[1]), at(x[2], ys[2]), at(x[3], ys[3]));
        if sim.chance(40) {
            let t0 = sim.range(0.0, 0.7);
            let t1 = if sim.chance(50) { 1.0 } else { sim.range(t0 + 0.2, 1.0) };
            c = c.subsegment(t0..t1);
        }
        let el = if straight && sim.chance(40) {
            El::L(c.p3)
        } else {
            El::C(c.p1, c.p2, c.p3)
        };
        let far = at(20.0 + 3.0 * k as f64, h * sim.range(0.3, 0.7));
        let s = Sub {
            start: c.p0,
            els: vec![el, El::L(far), El::L(c.p0)],
        };
        let s = if sim.chance(50) { s.reversed() } else { s };
        case.sets[sim.below(2)].push(s);
    }
    drop_almost_horizontal(&mut case);
    case
}

/// Lots of something, for what only breaks in numbers.
fn crowd(sim: &Sim, percent: i64, out: &mut Vec<Sub>) {
    let p = |x: i64, y: i64| pt(x as f64, y as f64);
    // Mostly small numbers.
    let many = |lo: i64, hi: i64| {
        let hi = lo + (hi - lo) * (1 + sim.choose(4) as i64) * percent / 400;
        sim.int(lo, hi)
    };
    let poly = |ps: &[Point]| {
        let s = Sub::polygon(ps);
        if sim.chance(30) {
            s.reversed()
        } else {
            s
        }
    };
    match sim.choose(8) {
        // squares or diamonds, side by side
        0 => {
            let n = many(2, 11);
            let (pitch, size) = *sim.pick(&[(4, 4), (4, 2), (4, 3), (4, 6)]);
            let off = sim.int(0, 3);
            let diamonds = sim.chance(40);
            for i in 0..n {
                for j in 0..n {
                    if sim.chance(10) {
                        continue;
                    }
                    let (x, y) = (off + pitch * i, off + pitch * j);
                    let h = size;
                    out.push(if diamonds {
                        poly(&[p(2 * x, 2 * y - h), p(2 * x + h, 2 * y), p(2 * x, 2 * y + h), p(2 * x - h, 2 * y)])
                    } else {
                        poly(&[p(2 * x, 2 * y), p(2 * x + 2 * h, 2 * y), p(2 * x + 2 * h, 2 * y + 2 * h), p(2 * x, 2 * y + 2 * h)])
                    });
                }
            }
        }
        // one inside of another
        1 => {
            let n = many(3, 90);
            let diamonds = sim.chance(40);
            let touch = sim.chance(20);
            for i in 0..n {
                let r = 2 * n - 2 * i;
                let c = if touch { 2 * i } else { 0 };
                let mut ps = if diamonds {
                    [p(c, -r), p(c + r, 0), p(c, r), p(c - r, 0)]
                } else {
                    [p(c - r, -r), p(c + r, -r), p(c + r, r), p(c - r, r)]
                };
                if sim.chance(20) {
                    ps.reverse();
                }
                out.push(poly(&ps));
            }
        }
        // bars across bars
        2 => {
            let n = many(2, 11);
            let w = sim.int(1, 5);
            let slant = sim.int(0, 9);
            let len = 6 * n + 8;
            for i in 0..n {
                let x = 6 * i;
                out.push(poly(&[p(x, -4), p(x + w, -4), p(x + w + slant, len), p(x + slant, len)]));
            }
            for i in 0..sim.int(0, n) {
                let y = 6 * i;
                out.push(poly(&[p(-4, y), p(len + 9, y + slant), p(len + 9, y + w + slant), p(-4, y + w)]));
            }
        }
        // two long chains
        3 => {
            let n = many(20, 500);
            let mut left = Vec::new();
            let mut right = Vec::new();
            for i in 0..n {
                left.push(p(sim.int(-8, 0), 2 * i));
                right.push(p(sim.int(1, 9), 2 * i + sim.int(0, 1)));
            }
            right.reverse();
            left.extend(right);
            out.extend(dedup_polygon(left));
        }
        4 => {
            let teeth = many(20, 220);
            out.push(comb(sim, teeth, sim.chance(20)));
        }
        // the same thing, over and over
        5 => {
            let n = many(5, 150);
            let base = sim.int(4, 12);
            let tri = [p(0, 0), p(base, sim.int(0, 3)), p(sim.int(-3, 9), 12)];
            let vary = sim.chance(40);
            for _ in 0..n {
                let mut ps = tri;
                if vary {
                    ps[sim.below(3)] += kurbo::Vec2::new(sim.int(-2, 2) as f64, 0.0);
                }
                out.push(poly(&ps));
            }
        }
        // a row of things that end or start at the same height
        6 => {
            let n = many(8, 150);
            for i in 0..n {
                let (a, b) = (sim.int(0, 9), sim.int(11, 20));
                let x = 4 * i;
                out.push(match sim.choose(3) {
                    0 => poly(&[p(x, 10), p(x + 4, 10), p(x + 2, b)]),
                    1 => poly(&[p(x, 10), p(x + 4, 10), p(x + 2, a)]),
                    _ => poly(&[p(x, 10), p(x + 2, a), p(x + 4, 10), p(x + 2, b)]),
                });
            }
        }
        // round things
        _ => {
            let n = many(2, 7);
            for i in 0..n {
                for j in 0..n {
                    let c = circle_like(sim);
                    let (dx, dy) = ((12 * i) as f64, (12 * j) as f64);
                    out.push(c.map(|p| pt(p.x + dx, p.y + dy)));
                }
            }
        }
    }
}

/// A comb with many thin teeth, to make long sweep lines.
fn comb(sim: &Sim, teeth: i64, horizontal: bool) -> Sub {
    let mut ps = Vec::new();
    let base = sim.int(20, 30) as f64;
    let slant = sim.int(-3, 3) as f64;
    for i in 0..teeth {
        let h = sim.int(0, 12) as f64;
        let x = 2.0 * i as f64;
        ps.push(pt(x + slant, h));
        ps.push(pt(x + 1.0, base - sim.int(0, 6) as f64));
    }
    ps.push(pt(2.0 * teeth as f64, 40.0));
    ps.push(pt(-1.0, 40.0));
    let s = dedup_polygon(ps).unwrap();
    if horizontal {
        s.map(|p| pt(p.y, p.x))
    } else {
        s
    }
}

fn touching(sim: &Sim) -> Vec<Sub> {
    let mut ret = Vec::new();
    match sim.choose(5) {
        0 => {
            // a big square or diamond, with smaller shapes that touch it and each other
            let diamond = |x: f64, y: f64, r: f64| {
                Sub::polygon(&[pt(x, y - r), pt(x + r, y), pt(x, y + r), pt(x - r, y)])
            };
            if sim.chance(50) {
                ret.push(rect(0.0, 0.0, 16.0, 16.0, false));
            } else {
                ret.push(diamond(8.0, 8.0, 8.0));
            }
            for _ in 0..sim.int(1, 4) {
                let x = 2.0 * sim.int(1, 7) as f64;
                let y = 2.0 * sim.int(1, 7) as f64;
                let r = sim.int(1, 4) as f64;
                let s = match sim.choose(3) {
                    0 => diamond(x, y, r),
                    1 => rect(x - r, y - r, x + r, y + r, false),
                    _ => Sub::polygon(&[pt(x, y - r), pt(x + r, y + r), pt(x - r, y + r)]),
                };
                ret.push(if sim.chance(60) { s.reversed() } else { s });
            }
        }
        1 => {
            // checkerboard
            let n = sim.int(2, 4);
            for i in 0..n {
                for j in 0..n {
                    if (i + j) % 2 == 0 || sim.chance(15) {
                        let (x, y) = (2.0 * i as f64, 2.0 * j as f64);
                        ret.push(rect(x, y, x + 2.0, y + 2.0, sim.chance(30)));
                    }
                }
            }
        }
        2 => {
            // concentric
            let n = sim.int(2, 5);
            for i in 0..n {
                let r = (2 * (n - i)) as f64;
                let (dx, dy) = (sim.int(-1, 1) as f64, sim.int(-1, 1) as f64);
                ret.push(rect(
                    20.0 - r + dx,
                    20.0 - r + dy,
                    20.0 + r + dx,
                    20.0 + r + dy,
                    sim.chance(50),
                ));
            }
        }
        3 => {
            // triangles sharing vertices
            let hub = pt(8.0, 8.0);
            for _ in 0..sim.int(2, 6) {
                let a = grid_point(sim, 16);
                let b = grid_point(sim, 16);
                if let Some(s) = dedup_polygon(vec![hub, a, b]) {
                    ret.push(s);
                }
            }
        }
        _ => {
            // holes touching holes in a frame
            ret.push(rect(0.0, 0.0, 20.0, 20.0, false));
            let n = sim.int(2, 4);
            for i in 0..n {
                let x = 4.0 * i as f64 + 2.0;
                let y = 4.0 + 2.0 * sim.int(0, 4) as f64;
                let s = Sub::polygon(&[
                    pt(x, y),
                    pt(x + 2.0, y - 2.0),
                    pt(x + 4.0, y),
                    pt(x + 2.0, y + 2.0),
                ]);
                ret.push(s.reversed());
            }
        }
    }
    ret
}

/// Shapes within shapes within shapes, some of which touch their parents or siblings.
fn nest(
    sim: &Sim,
    (x0, y0, x1, y1): (i64, i64, i64, i64),
    depth: u64,
    reverse: bool,
    max_els: usize,
    out: &mut Vec<Sub>,
) {
    if x1 - x0 < 2 || y1 - y0 < 2 || depth == 0 || out.len() * 4 > max_els {
        return;
    }
    let (mx, my) = ((x0 + x1) / 2, (y0 + y1) / 2);
    let p = |x: i64, y: i64| pt(x as f64, y as f64);
    let (shape, inner) = match sim.choose(6) {
        0 | 1 => (
            vec![p(x0, y0), p(x1, y0), p(x1, y1), p(x0, y1)],
            (x0, y0, x1, y1),
        ),
        2 => (
            vec![p(mx, y0), p(x1, my), p(mx, y1), p(x0, my)],
            (
                (x0 + mx) / 2,
                (y0 + my) / 2,
                (x1 + mx) / 2,
                (y1 + my) / 2,
            ),
        ),
        3 => (
            vec![p(x0, y0), p(x1, y1), p(x0, y1)],
            (x0, my, mx, y1),
        ),
        4 => (
            // a U
            vec![
                p(x0, y0),
                p(x0 + (x1 - x0) / 3, y0),
                p(x0 + (x1 - x0) / 3, my),
                p(x1 - (x1 - x0) / 3, my),
                p(x1 - (x1 - x0) / 3, y0),
                p(x1, y0),
                p(x1, y1),
                p(x0, y1),
            ],
            (x0, my, x1, y1),
        ),
        _ => (
            // a bow tie
            vec![p(x0, y0), p(mx, my), p(x1, y0), p(x1, y1), p(mx, my), p(x0, y1)],
            (mx, my, x1, my + (y1 - my) / 2),
        ),
    };
    if let Some(s) = dedup_polygon(shape) {
        out.push(if reverse ^ sim.chance(20) {
            s.reversed()
        } else {
            s
        });
    }
    // Split what's inside into cells, and put something into some of them.
    let (x0, y0, x1, y1) = inner;
    let (cols, rows) = *sim.pick(&[(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]);
    for i in 0..cols {
        for j in 0..rows {
            if sim.chance(30) {
                continue;
            }
            let pad = sim.int(0, 2);
            let cell = (
                x0 + (x1 - x0) * i / cols + pad,
                y0 + (y1 - y0) * j / rows + pad,
                x0 + (x1 - x0) * (i + 1) / cols - pad,
                y0 + (y1 - y0) * (j + 1) / rows - pad,
            );
            nest(sim, cell, depth - 1, !reverse, max_els, out);
        }
    }
}

fn zigzag(sim: &Sim) -> Option<Sub> {
    let n = sim.int(3, 12);
    let mut ps = Vec::new();
    let w = sim.int(1, 10) as f64;
    let swap = sim.chance(50);
    for i in 0..n {
        let x = if i % 2 == 0 { 0.0 } else { w };
        ps.push(pt(
            x + sim.int(0, 2) as f64,
            i as f64 * *sim.pick(&[1.0, 0.5, 0.0, 0.001]),
        ));
    }
    ps.push(pt(sim.int(-3, 12) as f64, sim.int(-3, 12) as f64));
    let s = dedup_polygon(ps)?;
    Some(if swap {
        s.map(|p| pt(p.y, p.x))
    } else {
        s
    })
}

/// Very thin triangles and almost-horizontal edges.
fn sliver(sim: &Sim) -> Option<Sub> {
    let d = *sim.pick(&[0.0, 1e-9, 1e-7, 1e-6, 3e-6, 1e-5, 1e-3, 0.1]);
    let x0 = sim.int(0, 5) as f64;
    let x1 = sim.int(4, 10) as f64;
    let y = sim.int(0, 6) as f64;
    let third = match sim.choose(4) {
        0 => pt(x1, y + d),
        1 => pt((x0 + x1) / 2.0, y + d),
        2 => pt(x0 + d, y + sim.int(1, 6) as f64),
        _ => pt(sim.int(0, 10) as f64, y + d),
    };
    dedup_polygon(vec![
        pt(x0, y),
        pt(x1, y + d * sim.int(-1, 1) as f64),
        third,
    ])
}

/// Lines that almost go through one point, perhaps all at almost the same angle, and perhaps
/// crossed by flat ones.
fn pencil(sim: &Sim, max_els: i64, out: &mut Vec<Sub>) {
    let c = if sim.chance(50) {
        pt(5.0, 5.0)
    } else {
        pt(sim.range(3.0, 7.0), sim.range(3.0, 7.0))
    };
    let n = sim.int(2, (max_els / 4).clamp(2, 8));
    let step = *sim.pick(&[1e-7, 3e-7, 1e-6, 2e-6, 5e-6, 3e-5, 1e-4, 1e-3, 1e-2, 0.0]);
    let spread = *sim.pick(&[2.0, 1.0, 0.1, 1e-2, 1e-3, 1e-5, 1e-6]);
    let base = sim.range(-1.5, 1.5);
    let same_ends = sim.chance(30);
    let mut line = || {
        let (dx, dy) = if sim.chance(12) {
            // A flat one.
            (1.0, *sim.pick(&[1e-3, 1e-2, 0.1, -1e-2, -1e-3, 2e-4]))
        } else {
            (base + spread * sim.int(-8, 8) as f64 / 8.0, 1.0)
        };
        let x = c.x + step * sim.int(-4, 4) as f64;
        let y = c.y + if sim.chance(20) { step * sim.int(-4, 4) as f64 } else { 0.0 };
        let (t0, t1) = if same_ends && dy == 1.0 {
            (4.0, 4.0)
        } else {
            (
                *sim.pick(&[4.0, 1.0, 0.1, 1e-3, 2.5]) * if sim.chance(50) { 1.0 } else { sim.range(0.5, 1.5) },
                *sim.pick(&[4.0, 1.0, 0.1, 1e-3, 2.5]) * if sim.chance(50) { 1.0 } else { sim.range(0.5, 1.5) },
            )
        };
        (pt(x - t0 * dx, y - t0 * dy), pt(x + t1 * dx, y + t1 * dy))
    };
    for _ in 0..n {
        let (p, q) = line();
        let ps = match sim.choose(3) {
            0 => {
                let (r, s) = line();
                vec![p, q, s, r]
            }
            1 => {
                let (r, s) = line();
                vec![p, q, r, s]
            }
            _ => vec![p, q, pt(sim.int(0, 10) as f64, sim.int(0, 10) as f64)],
        };
        out.extend(dedup_polygon(ps));
    }
}

fn family_subs(sim: &Sim, family: usize, n: usize, max_els: usize) -> Vec<Sub> {
    let mut ret: Vec<Sub> = Vec::new();
    let g = *sim.pick(&[6i64, 10, 4, 16, 3]);
    let mut els = 0;
    for _ in 0..n {
        let before = ret.len();
        match family {
            0 => ret.extend(grid_polygon(sim, g, 8)),
            1 => ret.push(grid_rect(sim, g)),
            2 => ret.push(float_polygon(sim, 8)),
            3 => ret.push(star(sim, pt(5.0, 5.0))),
            4 => ret.extend(horizontal_heavy(sim, g)),
            5 => ret.push(circle_like(sim)),
            6 => {
                let grid = sim.chance(50);
                ret.push(random_curve(sim, grid))
            }
            7 => ret.push(rounded_rect(sim)),
            8 => {
                let base = if ret.is_empty() || sim.chance(30) {
                    grid_polygon(sim, g, 6)
                } else {
                    let i = sim.below(ret.len());
                    Some(duplicate(sim, &ret[i]))
                };
                if let Some(b) = base {
                    ret.push(jitter(sim, &b));
                }
            }
            9 => {
                if ret.is_empty() || sim.chance(40) {
                    ret.extend(match sim.choose(3) {
                        0 => Some(grid_rect(sim, g)),
                        1 => grid_polygon(sim, g, 6),
                        _ => Some(star(sim, pt(5.0, 5.0))),
                    });
                } else {
                    let i = sim.below(ret.len());
                    let d = duplicate(sim, &ret[i]);
                    ret.push(d);
                }
            }
            10 => {
                let teeth = sim.int(3, (max_els as i64 / 4).max(4));
                let horizontal = sim.chance(30);
                ret.push(comb(sim, teeth, horizontal));
            }
            11 => ret.extend(touching(sim)),
            12 => ret.extend(zigzag(sim)),
            14 => ret.extend(sliver(sim)),
            15 => nest(sim, (0, 0, 48, 48), 4, false, max_els, &mut ret),
            16 => crowd(sim, max_els as i64 / 2, &mut ret),
            17 => pencil(sim, max_els as i64, &mut ret),
            _ => {
                let sub_family = *sim.pick(&[5usize, 0, 6, 7, 1, 2, 4, 9, 14]);
                match sub_family {
                    9 => {
                        if !ret.is_empty() {
                            let i = sim.below(ret.len());
                            let d = duplicate(sim, &ret[i]);
                            ret.push(if sim.chance(50) { jitter(sim, &d) } else { d });
                        }
                    }
                    f => ret.extend(family_subs(sim, f, 1, max_els)),
                }
            }
        }
        els += ret[before..].iter().map(|s| s.els.len()).sum::<usize>();
        if els > max_els {
            break;
        }
    }
    ret
}

/// Generates a case.
pub fn gen_case(sim: &Sim, opts: Opts) -> Case {
    if sim.chance(2) {
        let (a, b, eps) = *sim.pick(&crate::corpus::CORPUS);
        let mut case = Case::from_svg(a, b, eps);
        if case.is_polygonal() == opts.only_curves || (!opts.curves && !case.is_polygonal()) {
            case = Case::from_svg("M0,0 L4,0 L4,4 L0,4 Z", "", None);
        }
        if sim.chance(30) {
            case.sets.swap(0, 1);
        }
        sim.probe("corpus");
        return case;
    }
    if opts.bundles && opts.curves && sim.chance(if opts.only_curves { 15 } else { 4 }) {
        return gen_bundle(sim);
    }
    static ONLY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let only = *ONLY.get_or_init(|| std::env::var_os("LSIM_ONLY_CROWDS").is_some());
    let crowds = if only { 1000 } else { opts.crowds };
    static FAMILY: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();
    let forced = *FAMILY.get_or_init(|| std::env::var("LSIM_FAMILY").ok().and_then(|f| f.parse().ok()));
    if let Some(family) = forced {
        return gen_family(sim, opts, family);
    }
    let family = if !opts.only_curves && sim.choose(1000) >= 1000 - crowds {
        sim.probe("crowd");
        16
    } else if !opts.only_curves && sim.chance(opts.nested) {
        15
    } else if opts.only_curves || (opts.curves && sim.chance(25)) {
        *sim.pick(&CURVE_FAMILIES)
    } else if opts.max_els >= 200 && sim.chance(10) {
        10
    } else {
        *sim.pick(&POLY_FAMILIES)
    };
    gen_family(sim, opts, family)
}

pub fn gen_family(sim: &Sim, opts: Opts, family: usize) -> Case {
    let opts = Opts {
        max_els: if family == 16 { 4 * opts.crowd_size as usize } else { opts.max_els },
        ..opts
    };
    let budget = if CURVE_FAMILIES.contains(&family) {
        opts.max_els.min(30) / 2
    } else {
        opts.max_els / 2
    };
    let na = sim.int(1, 4) as usize;
    let nb = sim.int(0, 3) as usize;
    let mut a = family_subs(sim, family, na, budget);
    let mut b = if nb == 0 {
        Vec::new()
    } else {
        family_subs(sim, family, nb, budget)
    };
    // Now and then, copy something from one set to the other.
    if sim.chance(15) && !a.is_empty() {
        let i = sim.below(a.len());
        b.push(duplicate(sim, &a[i]));
    }
    if sim.chance(15) {
        std::mem::swap(&mut a, &mut b);
    }
    let mut case = Case {
        family,
        sets: [a, b],
        eps: None,
        explicit: sim.chance(30),
    };
    if opts.transforms && sim.chance(30) {
        let scale = *sim.pick(&[1.0, 100.0, 0.1, 1000.0, 0.37, 65536.0, 3.3e5]);
        let (dx, dy) = match sim.choose(5) {
            0 | 1 => (0.0, 0.0),
            2 => (-5.0, -5.0),
            3 => (sim.range(-50.0, 50.0), sim.range(-50.0, 50.0)),
            _ => (1024.0, -777.0),
        };
        let rotate = sim.chance(25);
        let (s, c) = sim.range(0.0, 6.3).sin_cos();
        case = case.map(|p| {
            let p = if rotate {
                pt(c * p.x - s * p.y, s * p.x + c * p.y)
            } else {
                p
            };
            pt((p.x + dx) * scale, (p.y + dy) * scale)
        });
    }
    // Nothing depends on the unit of length, except for the automatic tolerance.
    static ONLY_WILD: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let only_wild = *ONLY_WILD.get_or_init(|| std::env::var_os("LSIM_ONLY_WILD").is_some());
    let wild = opts.transforms && sim.chance(if only_wild { 100 } else { 3 });
    if wild {
        let scale = 10f64.powi(*sim.pick(&[-4, -6, -9, -12, -20, 7, 9, 12, 20]));
        case = case.map(|p| pt(p.x * scale, p.y * scale));
        sim.probe("wild_scale");
    }
    // The tolerance: the automatic one, or a custom one relative to the coordinates. Either way,
    // there's a limit to how fine it can be: see DESIGN.md on conditioning.
    let limit = case.magnitude() / max_ratio(&case);
    if wild {
        let rel: f64 = *sim.pick(&[1e-6, 1e-7, 1e-5]);
        case.eps = Some((case.size() * rel).max(limit));
    } else if sim.chance(40) {
        let rel: f64 = *sim.pick(&[1e-6, 1e-7, 1e-5, 1e-4, 1e-8, 1e-3]);
        let rel = if case.is_polygonal() { rel } else { rel.min(1e-5) };
        case.eps = Some((case.size().max(1e-3) * rel).max(limit).max(1e-9));
    } else if case.eps() < limit {
        case.eps = Some(limit);
    }
    drop_almost_horizontal(&mut case);
    if !case.is_polygonal() {
        drop_ill_conditioned(&mut case);
    }
    case
}

/// A flattened piece of a path element, for judging how well conditioned a case is.
struct Piece {
    set: usize,
    sub: usize,
    el: usize,
    a: Point,
    b: Point,
}

/// Removes subpaths until no two curves come close to one another at a small angle (unless they
/// follow one another smoothly, or coincide exactly), and none has a cusp. How accurately nearly
/// tangent curves get resolved is a matter of numerics: see DESIGN.md.
fn drop_ill_conditioned(case: &mut Case) {
    const MIN_SIN: f64 = 0.15;
    let size = case.size();
    let delta = (1e-3 * size).max(200.0 * case.eps());
    let mut pieces: Vec<Piece> = Vec::new();
    let mut bad: Vec<Vec<bool>> = case.sets.iter().map(|s| vec![false; s.len()]).collect();
    // Which piece range does each element have?
    for (set, subs) in case.sets.iter().enumerate() {
        for (sub, s) in subs.iter().enumerate() {
            let mut last = s.start;
            for (el, e) in s.els.iter().enumerate() {
                let first = pieces.len();
                let mut path = BezPath::new();
                path.move_to(last);
                // Control points on top of end points make for cusps or near-cusps.
                let far = |p: Point, q: Point| p.distance(q) > 20.0 * delta;
                match *e {
                    El::L(p) => path.line_to(p),
                    El::Q(c, p) => {
                        bad[set][sub] |= !far(c, last) || !far(c, p);
                        path.quad_to(c, p)
                    }
                    El::C(c, d, p) => {
                        bad[set][sub] |= !far(c, last) || !far(d, p);
                        path.curve_to(c, d, p)
                    }
                }
                let start = last;
                let mut cur = start;
                crate::oracle::flatten(&path, delta / 8.0, |f| {
                    if let kurbo::PathEl::LineTo(p) = f {
                        if p != cur {
                            pieces.push(Piece {
                                set,
                                sub,
                                el,
                                a: cur,
                                b: p,
                            });
                        }
                        cur = p;
                    }
                });
                // no sharp turns in the middle of a curve
                for k in first + 1..pieces.len() {
                    let u = pieces[k - 1].b - pieces[k - 1].a;
                    let v = pieces[k].b - pieces[k].a;
                    if u.dot(v) < 0.6 * u.hypot() * v.hypot() {
                        bad[set][sub] = true;
                    }
                }
                last = e.end();
            }
        }
    }
    let line = |p: &Piece| matches!(case.sets[p.set][p.sub].els[p.el], El::L(_));
    let controls = |p: &Piece| -> Vec<Point> {
        let s = &case.sets[p.set][p.sub];
        let start = if p.el == 0 {
            s.start
        } else {
            s.els[p.el - 1].end()
        };
        match s.els[p.el] {
            El::L(p) => vec![start, p],
            El::Q(a, p) => vec![start, a, p],
            El::C(a, b, p) => vec![start, a, b, p],
        }
    };
    for i in 0..pieces.len() {
        for j in i + 1..pieces.len() {
            let (p, q) = (&pieces[i], &pieces[j]);
            if bad[p.set][p.sub] || bad[q.set][q.sub] || (line(p) && line(q)) {
                continue;
            }
            if p.a.x.max(p.b.x) + delta < q.a.x.min(q.b.x)
                || q.a.x.max(q.b.x) + delta < p.a.x.min(p.b.x)
                || p.a.y.max(p.b.y) + delta < q.a.y.min(q.b.y)
                || q.a.y.max(q.b.y) + delta < p.a.y.min(p.b.y)
            {
                continue;
            }
            let same_sub = p.set == q.set && p.sub == q.sub;
            let n = case.sets[p.set][p.sub].els.len();
            if same_sub && p.el == q.el && j == i + 1 {
                continue;
            }
            let (u, v) = (p.b - p.a, q.b - q.a);
            if u.cross(v).abs() > MIN_SIN * u.hypot() * v.hypot() {
                continue;
            }
            let d2 = crate::oracle::dist2(p.a, q.a, q.b)
                .min(crate::oracle::dist2(p.b, q.a, q.b))
                .min(crate::oracle::dist2(q.a, p.a, p.b))
                .min(crate::oracle::dist2(q.b, p.a, p.b));
            if d2 > delta * delta {
                continue;
            }
            let follows = same_sub
                && (q.el == p.el || q.el == (p.el + 1) % n || p.el == (q.el + 1) % n)
                && u.dot(v) > 0.0;
            if follows {
                continue;
            }
            let cp = controls(p);
            let mut cq = controls(q);
            if cp == cq {
                continue;
            }
            cq.reverse();
            if cp == cq {
                continue;
            }
            // Whoever came later has to go.
            bad[q.set][q.sub] = true;
        }
    }
    for (set, bad) in case.sets.iter_mut().zip(bad) {
        let mut i = 0;
        set.retain(|_| {
            i += 1;
            !bad[i - 1]
        });
    }
}

/// How large coordinates can be, relative to the tolerance, before the accuracy of floating-point
/// curve arithmetic (which is none of this simulator's business) becomes the limiting factor.
fn max_ratio(_case: &Case) -> f64 {
    if let Some(r) = std::env::var("LSIM_RATIO").ok().and_then(|s| s.parse().ok()) {
        return r;
    }
    1e8
}

/// Removes the subpaths that have a line that's neither horizontal nor taller than the tolerance.
/// See the known findings: the positions of such lines are unreliable.
fn drop_almost_horizontal(case: &mut Case) {
    let min_height = 64.0 * case.eps();
    for set in &mut case.sets {
        set.retain(|s| {
            let mut last = s.start;
            s.els.iter().all(|e| {
                let d = e.end() - last;
                last = e.end();
                d.y == 0.0 || (d.y.abs() > min_height && d.y.abs() > 1e-5 * d.x.abs())
            })
        });
    }
}

/// Is this a case that the generator could have kept?
pub fn in_domain(case: &Case) -> bool {
    let n: usize = case.sets.iter().map(|s| s.len()).sum();
    let mut c = case.clone();
    drop_almost_horizontal(&mut c);
    if !c.is_polygonal() {
        drop_ill_conditioned(&mut c);
    }
    n == c.sets.iter().map(|s| s.len()).sum()
}
