//! C17: sweeps make progress and finish.

use linesweeper::sweep::{SweepLineBuffers, Sweeper};
use linesweeper::topology::Topology;

use super::common::*;
use super::sweeps::*;
use crate::ensure;
use crate::run::guarded;
use crate::sim::{engine_hook, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// How often one pair of curves can interact: crossings, near-touches, and the order events that
/// separate them.
fn interactions(a: &Curve, b: &Curve) -> usize {
    if a.line && b.line {
        2
    } else {
        12
    }
}

/// An upper bound for the number of heights at which something can happen.
fn bound(curves: &[Curve], eps: f64) -> usize {
    let mut ys: Vec<f64> = curves.iter().flat_map(|c| [c.start().y, c.end().y]).collect();
    ys.sort_by(|a, b| a.total_cmp(b));
    ys.dedup();
    let boxes: Vec<(f64, f64, f64, f64)> = curves
        .iter()
        .map(|c| {
            let xs = c.p.iter().map(|p| p.x);
            (
                xs.clone().fold(f64::INFINITY, f64::min) - 4.0 * eps,
                xs.fold(f64::NEG_INFINITY, f64::max) + 4.0 * eps,
                c.start().y - 4.0 * eps,
                c.end().y + 4.0 * eps,
            )
        })
        .collect();
    let mut ret = ys.len();
    for i in 0..curves.len() {
        for j in 0..i {
            let (a, b) = (boxes[i], boxes[j]);
            if a.0 <= b.1 && b.0 <= a.1 && a.2 <= b.3 && b.2 <= a.3 {
                ret += interactions(&curves[i], &curves[j]);
            }
        }
    }
    ret
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(5);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 300 } else { 60 },
            ..Opts::default()
        },
    );
    let eps = case.eps();
    let open = sim.chance(30);
    let segs = make_segments(sim, &case, open);
    sim.trace(|| format!("open paths allowed: {open}\n{}", case.describe()));
    let curves = Curve::all(&segs);
    let bound = bound(&curves, eps);
    sim.plan_engine_faults();
    let _hook = engine_hook(sim);
    // Superfluous events stop after a while.
    let mut faults_left = sim.any_rates();
    let stop_at = sim.below(60);
    let superfluous = || sim.inner().faults.get("spurious_touch").copied().unwrap_or(0) as usize;
    let total = |n: usize| n + 2 * superfluous();
    sim.reset_ticks(400 + 40 * bound as u64);

    let mut sweeper = Sweeper::new(&segs, eps);
    let mut bufs = SweepLineBuffers::default();
    let mut lines = 0;
    let mut last_y = f64::NEG_INFINITY;
    loop {
        if faults_left && lines > stop_at && sim.chance(10) {
            sim.set_rates(Default::default());
            faults_left = false;
        }
        let y = guarded("next_line", || sweeper.next_line(&mut bufs).map(|l| l.y()))?;
        let Some(y) = y else { break };
        sim.log_f(y);
        ensure!(y > last_y, "heights", "line {lines} is at {y}, after {last_y}");
        last_y = y;
        lines += 1;
        ensure!(
            lines <= total(bound),
            "too-many-lines",
            "there are already {lines} lines, for {} segments (at most {bound} were expected), and {} superfluous events\n{}",
            curves.len(),
            superfluous(),
            case.describe()
        );
    }
    report_ratio(sim, "c17", lines as f64 / total(bound).max(1) as f64);
    ensure!(
        guarded("next_line", || sweeper.next_line(&mut bufs).is_none())?,
        "finished",
        "there's another line after the last one"
    );
    let last = curves.iter().map(|c| c.end().y).fold(f64::NEG_INFINITY, f64::max);
    ensure!(
        curves.is_empty() || last_y >= last,
        "finished",
        "the sweep ended at {last_y}, but the last segment ends at {last}"
    );
    if lines > 2 {
        sim.nontrivial();
    }
    // The whole operation.
    if sim.chance(30) {
        sim.reset_ticks(400 + 40 * bound as u64);
        let (a, b) = (case.path(0), case.path(1));
        let top = guarded("Topology::from_paths_binary", || {
            Topology::from_paths_binary(&a, &b, eps)
        })?;
        if let Ok(top) = top {
            let c = guarded("contours", || {
                top.contours(|w| inside(RULES[0], OPS[0], w.shape_a, w.shape_b))
            })?;
            log_contours(sim, &c);
            sim.probe("operation");
        }
    }
    Ok(())
}
