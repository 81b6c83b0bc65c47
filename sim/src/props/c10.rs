//! C10: the sweep line is always complete and in order.

use kurbo::Point;

use super::common::*;
use super::sweeps::*;
use crate::ensure;
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// The segments that span heights just below the line, from left to right.
fn spanning(rec: &LineRec, curves: &[Curve]) -> Vec<usize> {
    rec.order
        .iter()
        .copied()
        .filter(|s| *s >= curves.len() || curves[*s].end().y > rec.y)
        .collect()
}

/// How the order changed, according to the ranges of the line: does that turn `old` into `new`?
fn check_ranges(l: usize, rec: &LineRec, old: &[usize], new: &[usize]) -> Outcome {
    let (mut i, mut j) = (0, 0);
    let bad = |what: &str| {
        fail(
            "ranges",
            format!(
                "line {l} (height {}): {what}; the order before was {old:?}, and the one after is {new:?}, with the changes {:?}",
                rec.y,
                rec.ranges
                    .iter()
                    .map(|r| (&r.old, &r.new))
                    .collect::<Vec<_>>()
            ),
        )
    };
    for range in &rec.ranges {
        // Which unchanged segments come before this?
        let skip = if let Some(s) = range.old.first() {
            match old[i..].iter().position(|o| o == s) {
                Some(p) => p,
                None => return bad("the old segments of a range aren't there"),
            }
        } else if let Some(s) = range.new.first() {
            match new[j..].iter().position(|o| o == s) {
                Some(p) => p,
                None => return bad("the new segments of a range aren't there"),
            }
        } else {
            // Just horizontal segments.
            continue;
        };
        if i + skip > old.len() || j + skip > new.len() || old[i..i + skip] != new[j..j + skip] {
            return bad("something changed outside of the ranges");
        }
        i += skip;
        j += skip;
        if !old[i..].starts_with(&range.old) {
            return bad("the old segments of a range aren't contiguous");
        }
        if !new[j..].starts_with(&range.new) {
            return bad("the new segments of a range aren't contiguous");
        }
        i += range.old.len();
        j += range.new.len();
    }
    if old[i..] != new[j..] {
        return bad("something changed after the last range");
    }
    Ok(())
}

pub fn check_line(
    sim: &Sim,
    curves: &[Curve],
    l: usize,
    rec: &LineRec,
    prev: &[usize],
    next_y: f64,
    allowed: f64,
) -> Result<Vec<usize>, crate::sim::Violation> {
    let y = rec.y;
    let now = spanning(rec, curves);
    // Exactly the segments that span this height.
    let mut got = now.clone();
    got.sort();
    let want: Vec<usize> = (0..curves.len())
        .filter(|s| curves[*s].spans(y))
        .collect();
    ensure!(
        got == want,
        "complete",
        "line {l} (height {y}) has the segments {got:?}, but the ones that span it are {want:?}"
    );
    // The ones in `order` that don't continue end right here.
    for s in &rec.order {
        ensure!(
            curves[*s].end().y >= y && curves[*s].start().y <= y,
            "complete",
            "line {l} (height {y}) has segment {s}: {:?}",
            curves[*s]
        );
    }
    check_ranges(l, rec, prev, &now)?;
    // In order, up to the next line.
    if now.len() > 1 {
        for frac in [0.02, 0.5, 0.98] {
            let h = y + (next_y - y) * frac;
            if h <= y || h >= next_y {
                continue;
            }
            let xs: Vec<f64> = now.iter().map(|s| curves[*s].x_at(h)).collect();
            for b in 1..xs.len() {
                for a in (0..b).rev() {
                    if xs[a] <= xs[b] + allowed {
                        continue;
                    }
                    let (ca, cb) = (&curves[now[a]], &curves[now[b]]);
                    let near = 4.0 * allowed;
                    let d = ca
                        .dist(Point::new(xs[b], h), near)
                        .min(cb.dist(Point::new(xs[a], h), near));
                    if d <= allowed {
                        continue;
                    }
                    // Where curves are almost horizontal, they can be moved along themselves, and
                    // so can the others that they meet there.
                    sim.probe("moved_along");
                    let width = now
                        .iter()
                        .map(|s| curves[*s].extent_near(h, allowed))
                        .filter(|(lo, hi)| *lo <= xs[a] + allowed && *hi >= xs[b] - allowed)
                        .map(|(lo, hi)| hi - lo)
                        .fold(0.0, f64::max);
                    let flat = allowed + width;
                    report_ratio(sim, "c10", d / flat);
                    ensure!(
                        d <= flat,
                        "order",
                        "after line {l} (height {y}), segment {} comes before segment {}, but at height {h} they're at {} and {}, {d} apart ({} times as much as allowed)",
                        now[a],
                        now[b],
                        xs[a],
                        xs[b],
                        d / flat
                    );
                }
            }
        }
    }
    Ok(now)
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(5);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 200 } else { 50 },
            crowd_size: 60,
            ..Opts::default()
        },
    );
    let eps = case.eps();
    let open = sim.chance(40);
    let segs = make_segments(sim, &case, open);
    sim.trace(|| format!("open paths allowed: {open}\n{}", case.describe()));
    let curves = Curve::all(&segs);
    sim.plan_engine_faults();
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let recs = match guarded("the sweep", || {
        record(&segs, eps, max_lines(&segs), &mut ReadAll)
    })? {
        Ok(r) => r,
        Err(_) => return fail("no-progress", "too many sweep lines"),
    };
    let mut prev: Vec<usize> = Vec::new();
    for (l, rec) in recs.iter().enumerate() {
        log_line(sim, rec);
        let next_y = recs.get(l + 1).map_or(rec.y, |r| r.y);
        prev = check_line(sim, &curves, l, rec, &prev, next_y, sweep_allowance(&case)).map_err(
            |mut v| {
                v.detail = format!("{}\n{}", v.detail, case.describe());
                v
            },
        )?;
        if prev.len() > 2 {
            sim.nontrivial();
        }
    }
    ensure!(prev.is_empty(), "complete", "after the last line, there's still {prev:?}");
    Ok(())
}
