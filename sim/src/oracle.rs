//! Executable reference models: winding numbers and distances of flattened paths.

use kurbo::{BezPath, ParamCurve, PathEl, Point};

use crate::sim::Sim;
use crate::work::{Case, Sub};

#[derive(Clone, Debug, Default)]
pub struct Geom {
    pub edges: Vec<(Point, Point)>,
}

impl Geom {
    pub fn from_path(path: &BezPath, tol: f64) -> Self {
        let mut g = Geom::default();
        g.add_path(path, tol);
        g
    }

    pub fn from_subs(subs: &[Sub], tol: f64) -> Self {
        let mut g = Geom::default();
        for s in subs {
            let mut p = BezPath::new();
            s.append_to(&mut p, true);
            g.add_path(&p, tol);
        }
        g
    }

    pub fn add_path(&mut self, path: &BezPath, tol: f64) {
        let mut start = Point::ZERO;
        let mut last = Point::ZERO;
        let edges = &mut self.edges;
        let mut push = |a: Point, b: Point| {
            if a != b {
                edges.push((a, b));
            }
        };
        flatten(path, tol, |el| match el {
            PathEl::MoveTo(p) => {
                push(last, start);
                start = p;
                last = p;
            }
            PathEl::LineTo(p) => {
                push(last, p);
                last = p;
            }
            PathEl::ClosePath => {
                push(last, start);
                last = start;
            }
            _ => unreachable!(),
        });
        push(last, start);
    }

    /// The winding number: +1 for each edge going to larger `y` to the west, -1 for each one
    /// going to smaller `y`.
    pub fn winding(&self, p: Point) -> i32 {
        let mut w = 0;
        for &(a, b) in &self.edges {
            if (a.y <= p.y) != (b.y <= p.y) {
                let t = (p.y - a.y) / (b.y - a.y);
                let x = a.x + t * (b.x - a.x);
                if x < p.x {
                    w += if b.y > a.y { 1 } else { -1 };
                }
            }
        }
        w
    }

    /// Is `p` at least `d` away from all the edges?
    pub fn is_clear(&self, p: Point, d: f64) -> bool {
        let d2 = d * d;
        self.edges.iter().all(|&(a, b)| {
            // a cheap bounding-box test first
            if p.x < a.x.min(b.x) - d
                || p.x > a.x.max(b.x) + d
                || p.y < a.y.min(b.y) - d
                || p.y > a.y.max(b.y) + d
            {
                return true;
            }
            dist2(p, a, b) >= d2
        })
    }

    pub fn dist(&self, p: Point) -> f64 {
        self.edges
            .iter()
            .map(|&(a, b)| dist2(p, a, b))
            .fold(f64::INFINITY, f64::min)
            .sqrt()
    }

    /// Twice the signed area is positive for things with winding number 1.
    pub fn area(&self) -> f64 {
        // shift for accuracy
        let Some(o) = self.edges.first().map(|e| e.0) else {
            return 0.0;
        };
        -0.5 * self
            .edges
            .iter()
            .map(|&(a, b)| (a.x - o.x) * (b.y - o.y) - (b.x - o.x) * (a.y - o.y))
            .sum::<f64>()
    }

    pub fn perimeter(&self) -> f64 {
        self.edges.iter().map(|&(a, b)| a.distance(b)).sum()
    }

    pub fn bbox(&self) -> (Point, Point) {
        let mut lo = Point::new(f64::INFINITY, f64::INFINITY);
        let mut hi = Point::new(f64::NEG_INFINITY, f64::NEG_INFINITY);
        for &(a, b) in &self.edges {
            for p in [a, b] {
                lo = Point::new(lo.x.min(p.x), lo.y.min(p.y));
                hi = Point::new(hi.x.max(p.x), hi.y.max(p.y));
            }
        }
        (lo, hi)
    }
}

pub fn dist2(p: Point, a: Point, b: Point) -> f64 {
    let ab = b - a;
    let ap = p - a;
    let l2 = ab.hypot2();
    let t = if l2 == 0.0 {
        0.0
    } else {
        (ap.dot(ab) / l2).clamp(0.0, 1.0)
    };
    (ap - t * ab).hypot2()
}

/// How far from the input boundary we need to be before we know what the answer should be, and
/// how accurately to flatten things.
#[derive(Clone, Copy, Debug)]
pub struct Margins {
    pub margin: f64,
    pub tol: f64,
}

impl Margins {
    pub fn for_case(case: &Case) -> Self {
        let eps = case.eps();
        let m = case.magnitude();
        if case.is_polygonal() {
            // Being within the tolerance of a flat line doesn't mean much for the horizontal
            // position.
            let flat = 4.0 / case.min_slope();
            let margin = (flat.max(64.0) * eps).max(1e-9 * m);
            Margins {
                margin,
                tol: margin / 8.0,
            }
        } else {
            // Where curves are almost tangent, being close in one direction doesn't mean much
            // for the other one.
            let size = case.size();
            let k = if case.family == 5 || case.family == 7 { 3.0 } else { 16.0 };
            let margin = (64.0 * eps)
                .max(k * (eps * size).sqrt())
                .max(3e-5 * size)
                .max(1e-9 * m);
            Margins {
                margin,
                tol: margin / 8.0,
            }
        }
    }
}

/// Picks sample points that are at least `margin` from all of `inputs`' edges: some next to
/// output edges, some next to input edges and vertices, and some anywhere.
pub fn samples(sim: &Sim, input: &Geom, output: &Geom, margin: f64, count: usize) -> Vec<Point> {
    let mut ret = Vec::new();
    let (lo, hi) = input.bbox();
    if input.edges.is_empty() {
        for &(a, b) in output.edges.iter().take(4) {
            ret.push(a.midpoint(b));
        }
        ret.push(Point::ZERO);
        return ret;
    }
    let near = |edges: &[(Point, Point)], i: usize, side: u64, t: f64, k: f64| {
        let (a, b) = edges[i];
        let n = (b - a).normalize();
        let n = kurbo::Vec2::new(-n.y, n.x) * if side == 0 { 1.0 } else { -1.0 };
        a.lerp(b, t) + n * margin * k
    };
    // A deterministic pass over the edges comes first (it doesn't use up choices)...
    for edges in [&output.edges, &input.edges] {
        let stride = (edges.len() / (count / 4).max(1)).max(1);
        for i in (0..edges.len()).step_by(stride) {
            for side in 0..2 {
                ret.push(near(edges, i, side, 0.5, 1.3));
            }
        }
    }
    // ...and then a random one.
    let seed = sim.choose(1 << 32);
    let mut rng = crate::prng::Rng::new(seed);
    for _ in 0..count / 4 {
        for edges in [&output.edges, &input.edges] {
            if !edges.is_empty() {
                let i = rng.below(edges.len());
                let side = rng.u64() % 2;
                let t = rng.f();
                let k = *rng.pick(&[1.1, 3.0, 10.0, 100.0]);
                ret.push(near(edges, i, side, t, k));
            }
        }
        let (a, _) = *rng.pick(&input.edges);
        let ang = rng.range(0.0, std::f64::consts::TAU);
        let r = margin * *rng.pick(&[1.1, 2.0, 5.0, 50.0]);
        ret.push(Point::new(a.x + r * ang.cos(), a.y + r * ang.sin()));
        let dx = (hi.x - lo.x).max(margin) * 0.6;
        let dy = (hi.y - lo.y).max(margin) * 0.6;
        let c = lo.midpoint(hi);
        ret.push(Point::new(
            c.x + rng.range(-dx, dx),
            c.y + rng.range(-dy, dy),
        ));
    }
    ret.retain(|p| p.x.is_finite() && p.y.is_finite() && input.is_clear(*p, margin));
    ret
}

/// Replaces curves by polylines that are within `tol`.
///
/// Subdivides uniformly, because kurbo's own flattening loses spikes (a control point on the
/// line through the end points, but not between them).
pub fn flatten(path: &BezPath, tol: f64, mut f: impl FnMut(PathEl)) {
    let mut last = Point::ZERO;
    let steps = |second_diff: f64, k: f64| -> usize {
        let n = (second_diff * k / (8.0 * tol)).sqrt().ceil();
        (n as usize).clamp(1, 5000)
    };
    for el in path.elements() {
        match *el {
            PathEl::QuadTo(a, p) => {
                let q = kurbo::QuadBez::new(last, a, p);
                let n = steps(((last - a) + (p - a)).hypot(), 2.0);
                for i in 1..n {
                    f(PathEl::LineTo(q.eval(i as f64 / n as f64)));
                }
                f(PathEl::LineTo(p));
            }
            PathEl::CurveTo(a, b, p) => {
                let c = kurbo::CubicBez::new(last, a, b, p);
                let d1 = ((last - a) + (b - a)).hypot();
                let d2 = ((a - b) + (p - b)).hypot();
                let n = steps(d1.max(d2), 6.0);
                for i in 1..n {
                    f(PathEl::LineTo(c.eval(i as f64 / n as f64)));
                }
                f(PathEl::LineTo(p));
            }
            el => f(el),
        }
        if let Some(p) = el.end_point() {
            last = p;
        }
    }
}
