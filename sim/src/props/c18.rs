//! C18: the paths of the output segments join up at the topology's points, and don't cross.

use kurbo::{BezPath, PathSeg, Point};
use linesweeper::topology::{OutputSegIdx, Topology, WindingNumber};

use super::common::*;
use super::sweeps::{report_ratio, Curve};
use crate::ensure;
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_bundle, gen_case, Case, Opts};

/// The path of an output segment.
struct Strand {
    seg: OutputSegIdx,
    path: BezPath,
    pieces: Vec<Curve>,
    x0: f64,
    x1: f64,
}

impl Strand {
    fn new(seg: OutputSegIdx, path: &BezPath) -> Self {
        let mut pieces = Vec::new();
        for s in path.segments() {
            let c = s.to_cubic();
            pieces.push(Curve {
                line: matches!(s, PathSeg::Line(_)),
                p: [c.p0, c.p1, c.p2, c.p3],
            });
        }
        let xs = || pieces.iter().flat_map(|c| c.p.iter().map(|p| p.x));
        Strand {
            seg,
            path: path.clone(),
            x0: xs().fold(f64::INFINITY, f64::min),
            x1: xs().fold(f64::NEG_INFINITY, f64::max),
            pieces,
        }
    }

    fn start(&self) -> Point {
        self.pieces[0].start()
    }

    fn end(&self) -> Point {
        self.pieces[self.pieces.len() - 1].end()
    }

    fn x_at(&self, y: f64) -> f64 {
        let i = self.pieces.partition_point(|c| c.end().y < y);
        self.pieces[i.min(self.pieces.len() - 1)].x_at(y)
    }

    /// The distance to a point, up to `near`.
    fn dist(&self, q: Point, near: f64) -> f64 {
        let i = self.pieces.partition_point(|c| c.end().y < q.y - near);
        self.pieces[i..]
            .iter()
            .take_while(|c| c.start().y <= q.y + near)
            .map(|c| c.dist(q, near))
            .fold(near, f64::min)
    }
}

/// How far the two strands are at each height: positive if `a` is to the right of `b`.
fn depth(a: &Strand, b: &Strand, y: f64, near: f64) -> f64 {
    let (xa, xb) = (a.x_at(y), b.x_at(y));
    let d = b.dist(Point::new(xa, y), near).min(a.dist(Point::new(xb, y), near));
    if xa > xb {
        d
    } else {
        -d
    }
}

fn heights(a: &Strand, b: &Strand) -> Vec<f64> {
    let (y0, y1) = (a.start().y.max(b.start().y), a.end().y.min(b.end().y));
    let mut ys = vec![y0, y1];
    for s in [a, b] {
        ys.extend(s.pieces.iter().map(|c| c.end().y).filter(|y| y0 < *y && *y < y1));
    }
    ys.sort_by(f64::total_cmp);
    ys.dedup();
    let mut all = Vec::new();
    let per = (60 / ys.len()).clamp(2, 9);
    for w in ys.windows(2) {
        for i in 1..=per {
            all.push(w[0] + (w[1] - w[0]) * (i as f64 - 0.5) / per as f64);
        }
    }
    all
}

fn check<W: WindingNumber>(sim: &Sim, top: &Topology<W>, case: &Case, what: impl Fn() -> String) -> Outcome {
    let (eps, magnitude) = (case.eps(), case.magnitude());
    let positions = guarded("compute_positions", || top.compute_positions())?;
    let mut strands = Vec::new();
    // Rounding.
    let tiny = (1e-3 * eps).max(1e-13 * magnitude);
    for seg in top.segment_indices() {
        let path = &positions[seg].path;
        log_path(sim, path);
        let (p, q) = (
            top.point(seg.first_half()).to_kurbo(),
            top.point(seg.second_half()).to_kurbo(),
        );
        let els = path.elements();
        ensure!(
            els.len() >= 2 && els[0] == kurbo::PathEl::MoveTo(p),
            "start",
            "the path of {seg:?} doesn't start at {p:?}: {}\n{}",
            path.to_svg(),
            what()
        );
        ensure!(
            els[els.len() - 1].end_point() == Some(q),
            "end",
            "the path of {seg:?} doesn't end at {q:?}: {}\n{}",
            path.to_svg(),
            what()
        );
        ensure!(
            els[1..].iter().all(|e| !matches!(e, kurbo::PathEl::MoveTo(_) | kurbo::PathEl::ClosePath)),
            "discontinuous",
            "the path of {seg:?} isn't continuous: {}\n{}",
            path.to_svg(),
            what()
        );
        if let Some(i) = positions[seg].copied_idx {
            ensure!(
                i < els.len() - 1,
                "copied-idx",
                "the path of {seg:?} has no piece {i}: {}\n{}",
                path.to_svg(),
                what()
            );
        }
        let s = Strand::new(seg, path);
        let mut top_y = p.y;
        let mut top_x = p.x;
        for (i, c) in s.pieces.iter().enumerate() {
            for k in 1..=8 {
                let r = c.eval(k as f64 / 8.0);
                ensure!(
                    r.y >= top_y - tiny && r.x.is_finite(),
                    "not-monotone",
                    "piece {i} of the path of {seg:?} goes up by {:e} at {r:?}: {}\n{}",
                    top_y - r.y,
                    path.to_svg(),
                    what()
                );
                top_y = top_y.max(r.y);
                if p.y == q.y {
                    ensure!(
                        r.y == p.y && r.x >= top_x,
                        "not-horizontal",
                        "piece {i} of the path of {seg:?} isn't horizontal or goes left: {}\n{}",
                        path.to_svg(),
                        what()
                    );
                    top_x = r.x;
                }
            }
        }
        if p.y < q.y && strands.len() < 300 {
            strands.push(s);
        }
    }
    // Crossings.
    // The order of lines that are close isn't enforced, and "close" means up to the tolerance plus
    // the accuracy (of half a tolerance). Curves that are close get laid out again, in order. The
    // end of a nearly horizontal line can move further, along the line.
    let factor = if case.is_polygonal() { 1.6 / case.min_slope() } else { CROSSING };
    let allowed = factor * eps + 1e-12 * magnitude;
    let near = (8.0 * eps).max(2.0 * allowed);
    let mut pairs = 0;
    strands.sort_by(|a, b| a.start().y.total_cmp(&b.start().y));
    for (i, a) in strands.iter().enumerate() {
        for b in &strands[i + 1..] {
            if b.start().y >= a.end().y {
                break;
            }
            if a.x0 > b.x1 || b.x0 > a.x1 {
                continue;
            }
            pairs += 1;
            if pairs > 2000 {
                return Ok(());
            }
            let (mut right, mut left) = ((0.0f64, 0.0), (0.0f64, 0.0));
            for y in heights(a, b) {
                let d = depth(a, b, y, near);
                if d > right.0 {
                    right = (d, y);
                }
                if -d > left.0 {
                    left = (-d, y);
                }
            }
            let d = right.0.min(left.0);
            report_ratio(sim, "crossing", d / allowed);
            ensure!(
                d <= allowed,
                "crossing",
                "the paths of {:?} and {:?} cross: the first one is to the right by {:e} at {}, and to the left by {:e} at {}, while the tolerance is {eps:e}\n  {}\n  {}\n{}",
                a.seg,
                b.seg,
                right.0,
                right.1,
                left.0,
                left.1,
                a.path.to_svg(),
                b.path.to_svg(),
                what()
            );
        }
    }
    sim.probe_if(pairs > 0, "pairs_of_paths_compared");
    sim.probe_if(strands.iter().any(|s| s.pieces.len() > 1), "perturbed_path");
    sim.probe_if(strands.iter().any(|s| s.start().y < 0.0 && s.pieces.len() > 1), "perturbed_path_at_negative_height");
    if pairs > 0 {
        sim.nontrivial();
    }
    Ok(())
}

/// How far the paths of curves may cross, in multiples of the tolerance.
const CROSSING: f64 = 0.75;

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(4);
    let case = if sim.chance(50) { gen_bundle(sim) } else { gen_case(
        sim,
        Opts {
            max_els: if big { 120 } else { 40 },
            only_curves: sim.chance(30),
            bundles: false,
            ..Opts::default()
        },
    ) };
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let (a, b) = (case.path(0), case.path(1));
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let top = match guarded("Topology::from_paths_binary", || {
        Topology::from_paths_binary(&a, &b, case.eps())
    })? {
        Ok(t) => t,
        Err(e) => return fail("error", format!("unexpected error {e:?}\n{}", case.describe())),
    };
    check(sim, &top, &case, || case.describe())
}
