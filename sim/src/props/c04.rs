//! C04: the output's boundary is made of input curves, up to the tolerance.

use kurbo::{BezPath, ParamCurveExtrema, Point, Rect};
use linesweeper::topology::Topology;

use super::common::*;
use crate::ensure;
use crate::oracle::{flatten, Geom, Margins};
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Case, Opts};

/// The flattened vertices of a path, and points in between.
pub fn points_on(path: &BezPath, tol: f64) -> Vec<Point> {
    let mut ret: Vec<Point> = Vec::new();
    flatten(path, tol, |el| {
        if let Some(p) = el.end_point() {
            if let (Some(last), kurbo::PathEl::LineTo(_)) = (ret.last().copied(), el) {
                for t in [0.17, 0.5, 0.83] {
                    ret.push(last.lerp(p, t));
                }
            }
            ret.push(p);
        }
    });
    ret
}

/// How far the output is allowed to be from the input.
pub fn allowance(case: &Case, m: Margins) -> f64 {
    if case.is_polygonal() {
        let flat = 1.0 / case.min_slope();
        (8.0 * flat * case.eps()).max(1e-9 * case.magnitude())
    } else {
        m.margin
    }
}

fn max_dist(pts: &[Point], g: &Geom, limit: usize) -> (f64, Point) {
    let stride = pts.len().div_ceil(limit).max(1);
    let mut worst = (0.0, Point::ZERO);
    for p in pts.iter().step_by(stride) {
        let d = g.dist(*p);
        if !(d <= worst.0) {
            worst = (d, *p);
        }
    }
    worst
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(4);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 200 } else { 60 },
            ..Opts::default()
        },
    );
    let m = Margins::for_case(&case);
    let allowed = allowance(&case, m);
    let tol = allowed / 8.0;
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let inputs = Inputs::new(&case, tol);
    let (a, b) = (case.path(0), case.path(1));
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let top = match guarded("Topology::from_paths_binary", || {
        Topology::from_paths_binary(&a, &b, case.eps())
    })? {
        Ok(t) => t,
        Err(e) => return fail("error", format!("unexpected error {e:?}\n{}", case.describe())),
    };
    // The bounding box encloses everything, and no more than that.
    let bounds = top.bounding_box();
    let mut expected: Option<Rect> = None;
    for s in a.segments().chain(b.segments()) {
        let r = s.bounding_box();
        if r.width() > 0.0 || r.height() > 0.0 {
            expected = Some(expected.map_or(r, |e| e.union(r)));
        }
    }
    if let Some(e) = expected {
        let off = (bounds.x0 - e.x0)
            .abs()
            .max((bounds.y0 - e.y0).abs())
            .max((bounds.x1 - e.x1).abs())
            .max((bounds.y1 - e.y1).abs());
        ensure!(
            off <= 1e-9 * case.magnitude(),
            "bounding-box",
            "the bounding box is {bounds:?} instead of {e:?}\n{}",
            case.describe()
        );
    }
    let (rule, op) = (*sim.pick(&RULES), *sim.pick(&OPS));
    let mut worst = 0.0f64;
    let contours = guarded("contours", || {
        top.contours(|w| inside(rule, op, w.shape_a, w.shape_b))
    })?;
    log_contours(sim, &contours);
    for (i, c) in contours.contours().enumerate() {
        let pts = points_on(&c.path, tol);
        let (d, p) = max_dist(&pts, &inputs.all, 300);
        worst = worst.max(d);
        ensure!(
            d <= allowed,
            "stray",
            "{rule:?} {op:?}: contour {i} contains {p:?}, which is {d:e} from the input (tolerance {:e}, allowed {allowed:e})\n{}\noutput:\n{}",
            case.eps(),
            case.describe(),
            show_contours(&contours)
        );
    }
    let positions = guarded("compute_positions", || top.compute_positions())?;
    let mut n = 0;
    for seg in top.segment_indices() {
        n += 1;
        if n > 400 {
            break;
        }
        let orig = &top.segments[top.orig_seg[seg]];
        let mut p = BezPath::new();
        let c = orig.to_kurbo_cubic();
        p.move_to(c.p0);
        p.curve_to(c.p1, c.p2, c.p3);
        p.curve_to(c.p2, c.p1, c.p0);
        let g = Geom::from_path(&p, tol);
        let pts = points_on(&positions[seg].path, tol);
        let (d, p) = if g.edges.is_empty() {
            (0.0, Point::ZERO)
        } else {
            max_dist(&pts, &g, 60)
        };
        worst = worst.max(d);
        ensure!(
            d <= allowed,
            "stray-segment",
            "the output segment {seg:?} contains {p:?}, which is {d:e} from the segment that it's a part of (tolerance {:e}, allowed {allowed:e})\n{}\n  segment: {:?}\n  path: {}",
            case.eps(),
            case.describe(),
            c,
            positions[seg].path.to_svg()
        );
    }
    if n > 0 && contours.contours().next().is_some() {
        sim.nontrivial();
    }
    let r = worst / allowed;
    sim.probe(match r {
        r if r < 0.01 => "worst_below_1%_of_allowed",
        r if r < 0.1 => "worst_below_10%_of_allowed",
        r if r < 0.5 => "worst_below_50%_of_allowed",
        _ => "worst_above_50%_of_allowed",
    });
    Ok(())
}
