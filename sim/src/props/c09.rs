//! C09: a sweep reports each segment completely, connectedly and in order.

use kurbo::Point;

use super::common::*;
use super::sweeps::*;
use crate::ensure;
use crate::oracle::Margins;
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// Everything that C09 says about a complete reading of a sweep.
pub fn check_events(
    sim: &Sim,
    curves: &[Curve],
    links: &[Link],
    recs: &[LineRec],
    allowed: f64,
    sideways: f64,
) -> Outcome {
    let n = curves.len();
    // Has the segment started, and has it ended?
    let mut started = vec![false; n];
    let mut ended = vec![false; n];
    // Where they start and end.
    let mut start_x = vec![f64::NAN; n];
    let mut end_x = vec![f64::NAN; n];
    let mut last_y = f64::NEG_INFINITY;
    let mut worst = 0.0f64;
    for (l, rec) in recs.iter().enumerate() {
        let y = rec.y;
        ensure!(y > last_y, "heights", "line {l} is at {y}, after {last_y}");
        last_y = y;
        ensure!(rec.complete, "reading", "line {l} couldn't be read up to the end");
        // Among all ranges: the pieces of each segment, in the order of delivery.
        let mut pieces: Vec<(usize, &Ev)> = Vec::new();
        let mut last_range_x = f64::NEG_INFINITY;
        let mut last_idx = None;
        for (r, range) in rec.ranges.iter().enumerate() {
            let place = format!("range {r} of line {l} (height {y})");
            ensure!(range.complete, "reading", "{place} couldn't be read up to the end");
            if let Some(end) = &range.end {
                ensure!(
                    end.is_empty(),
                    "reading",
                    "{place}: at its end, there's still {end:?}"
                );
            }
            ensure!(!range.steps.is_empty(), "empty", "{place} has no events");
            let mut ups: Vec<&Ev> = Vec::new();
            let mut downs: Vec<&Ev> = Vec::new();
            let mut last_x: Option<f64> = None;
            for step in &range.steps {
                let x = step.view.x;
                ensure!(
                    last_x.is_none_or(|lx| lx < x),
                    "batches",
                    "{place}: the position {x} comes after {last_x:?}"
                );
                let batch = step.batch.as_deref().unwrap_or(&[]);
                let mut active = Vec::new();
                let mut at_up: Vec<(usize, usize)> = Vec::new();
                for e in batch {
                    ensure!(
                        e.seg < n && e.x0.is_finite() && e.x1.is_finite(),
                        "malformed",
                        "{place}: {e:?}"
                    );
                    let ok = e.hi() == x && (e.x0 == e.x1 || Some(e.lo()) == last_x);
                    ensure!(
                        ok,
                        "batches",
                        "{place}: the batch from {last_x:?} to {x} has the event {e:?}"
                    );
                    if e.x0 != e.x1 {
                        active.push((e.seg, e.x0 < e.x1));
                    }
                    if e.up {
                        if e.x0 == x {
                            at_up.push((e.old_idx.unwrap_or(usize::MAX), e.seg));
                        }
                        ups.push(e);
                    }
                    if e.down {
                        downs.push(e);
                    }
                    pieces.push((r, e));
                }
                let mut got = step.view.active.clone();
                got.sort();
                active.sort();
                ensure!(
                    got == active,
                    "active",
                    "{place} at {x}: the active horizontals are {got:?}, but the events are {batch:?}"
                );
                last_x = Some(x);
            }
            // The connections at each position.
            for step in &range.steps {
                let x = step.view.x;
                let mut up: Vec<(usize, usize)> = ups
                    .iter()
                    .filter(|e| e.x0 == x)
                    .map(|e| (e.old_idx.unwrap_or(usize::MAX), e.seg))
                    .collect();
                let mut down: Vec<(usize, usize)> = downs
                    .iter()
                    .filter(|e| e.x1 == x)
                    .map(|e| (e.idx.unwrap_or(usize::MAX), e.seg))
                    .collect();
                up.sort();
                down.sort();
                let up: Vec<usize> = up.iter().map(|u| u.1).collect();
                let down: Vec<usize> = down.iter().map(|d| d.1).collect();
                ensure!(
                    up == step.view.up && down == step.view.down,
                    "connections",
                    "{place} at {x}: connected up to {:?} and down to {:?}, but the events say {up:?} and {down:?}",
                    step.view.up,
                    step.view.down
                );
            }
            // The connections of the range as a whole, in order.
            for (what, evs, want) in [("up", &mut ups, &range.old), ("down", &mut downs, &range.new)]
            {
                let up = what == "up";
                let key = |e: &Ev| if up { e.old_idx } else { e.idx };
                let at = |e: &Ev| if up { e.x0 } else { e.x1 };
                ensure!(
                    evs.iter().all(|e| key(e).is_some()),
                    "connections",
                    "{place}: a connected event has no index: {evs:?}"
                );
                evs.sort_by_key(|e| key(e));
                let segs: Vec<usize> = evs.iter().map(|e| e.seg).collect();
                ensure!(
                    segs == *want,
                    "connections",
                    "{place}: the events connected {what} are those of {segs:?}, but the range has {want:?}"
                );
                for w in evs.windows(2) {
                    ensure!(
                        at(w[0]) <= at(w[1]),
                        "connections",
                        "{place}: the events connected {what} are out of order: {:?} and {:?}",
                        w[0],
                        w[1]
                    );
                }
                if !up {
                    for e in evs.iter() {
                        ensure!(
                            rec.order.get(e.idx.unwrap()) == Some(&e.seg),
                            "connections",
                            "{place}: {e:?} isn't at its index of {:?}",
                            rec.order
                        );
                        ensure!(
                            last_idx < e.idx,
                            "ranges",
                            "{place}: {e:?} comes after index {last_idx:?}"
                        );
                        last_idx = e.idx;
                    }
                }
            }
            let first = range.steps[0].view.x;
            ensure!(
                first >= last_range_x - sideways,
                "ranges",
                "{place} starts at {first}, but the previous one goes up to {last_range_x}"
            );
            last_range_x = last_range_x.max(last_x.unwrap());
        }
        // Where several segments meet, the endpoints are the exact ones.
        let exact = |got: f64, want: f64, r: usize| {
            let range = &rec.ranges[r];
            let alone = range.old.len() <= 1 && range.new.len() <= 1;
            got == want || (alone && (got - want).abs() <= 1e-3 * allowed)
        };
        // Each segment's chain.
        pieces.sort_by_key(|p| p.1.seg);
        for group in pieces.chunk_by(|a, b| a.1.seg == b.1.seg) {
            let s = group[0].1.seg;
            let c = &curves[s];
            let place = format!("segment {s} on line {l} (height {y})");
            ensure!(
                group.iter().all(|p| p.0 == group[0].0),
                "ranges",
                "{place} is in several ranges: {group:?}"
            );
            let mut chain: Vec<&Ev> = group.iter().map(|p| p.1).collect();
            if chain.iter().any(|e| e.x0 > e.x1) {
                chain.reverse();
            }
            if chain.len() > 1 {
                sim.probe("several_pieces");
                ensure!(
                    chain.iter().all(|e| e.x0 != e.x1),
                    "chain",
                    "{place}: there's an empty piece: {chain:?}"
                );
            }
            for w in chain.windows(2) {
                ensure!(
                    w[0].x1 == w[1].x0 && !w[0].down && !w[1].up,
                    "chain",
                    "{place}: the pieces don't join: {chain:?}"
                );
            }
            let (first, last) = (chain[0], chain[chain.len() - 1]);
            ensure!(!ended[s], "chain", "{place} has already ended: {chain:?}");
            if first.up {
                ensure!(started[s], "chain", "{place} hasn't started yet: {chain:?}");
            } else {
                ensure!(!started[s], "chain", "{place} starts again: {chain:?}");
                started[s] = true;
                start_x[s] = first.x0;
                ensure!(
                    exact(first.x0, c.start().x, group[0].0) && y == c.start().y,
                    "endpoint",
                    "{place} starts at {}, instead of {:?}",
                    first.x0,
                    c.start()
                );
            }
            if !last.down {
                ended[s] = true;
                end_x[s] = last.x1;
                ensure!(
                    exact(last.x1, c.end().x, group[0].0) && y == c.end().y,
                    "endpoint",
                    "{place} ends at {}, instead of {:?}",
                    last.x1,
                    c.end()
                );
            }
            for x in [first.x0, last.x1] {
                let d = c.dist(Point::new(x, y), 4.0 * allowed);
                if d > allowed {
                    // Where a curve is almost horizontal, being close to it doesn't mean much
                    // for the horizontal position, neither for it nor for its neighbors.
                    let range = &rec.ranges[group[0].0];
                    let width = range
                        .old
                        .iter()
                        .chain(&range.new)
                        .map(|s| curves[*s].width_near(y, allowed))
                        .fold(0.0, f64::max);
                    let flat = allowed + width;
                    sim.probe("moved_along");
                    worst = worst.max(d / flat);
                    ensure!(
                        d <= flat,
                        "closeness",
                        "{place} is reported at {x}, which is {d} away ({} times as much as allowed)",
                        d / flat
                    );
                }
            }
        }
    }
    for s in 0..n {
        ensure!(
            started[s] && ended[s],
            "chain",
            "segment {s} ({:?}) has started: {}, has ended: {}",
            curves[s],
            started[s],
            ended[s]
        );
    }
    // Contours stay connected.
    for (a, b) in links {
        let at = |(s, end): (usize, bool)| if end { end_x[s] } else { start_x[s] };
        ensure!(
            at(*a) == at(*b),
            "links",
            "the segments {a:?} and {b:?} of a contour are reported to meet at {} and {}",
            at(*a),
            at(*b)
        );
    }
    report_ratio(sim, "c09", worst);
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(5);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 200 } else { 50 },
            ..Opts::default()
        },
    );
    let eps = case.eps();
    let open = sim.chance(40);
    let segs = make_segments(sim, &case, open);
    sim.trace(|| format!("open paths allowed: {open}\n{}", case.describe()));
    let curves = Curve::all(&segs);
    sim.plan_engine_faults();
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let recs = match guarded("the sweep", || {
        record(&segs, eps, max_lines(&segs), &mut ReadAll)
    })? {
        Ok(r) => r,
        Err(_) => return fail("no-progress", "too many sweep lines"),
    };
    for r in &recs {
        log_line(sim, r);
    }
    // The callback interface delivers the same events.
    if sim.chance(20) {
        sim.reset_actor(0);
        let names = Names::new(&segs);
        let mut evs = Vec::new();
        guarded("sweep()", || {
            linesweeper::sweep::sweep(&segs, eps, |y, e| evs.push((y, names.ev(&e))))
        })?;
        let want: Vec<(f64, Ev)> = recs
            .iter()
            .flat_map(|l| {
                l.ranges
                    .iter()
                    .flat_map(|r| &r.steps)
                    .flat_map(|s| s.batch.iter().flatten())
                    .map(|e| (l.y, e.clone()))
            })
            .collect();
        ensure!(evs == want, "callback", "sweep() delivers {evs:?}, instead of {want:?}");
        sim.probe("callback");
    }
    if recs.len() > 2 {
        sim.nontrivial();
    }
    let links = links(&segs);
    let allowed = sweep_allowance(&case);
    let sideways = allowed.max(super::c04::allowance(&case, Margins::for_case(&case)));
    check_events(sim, &curves, &links, &recs, allowed, sideways).map_err(|mut v| {
        v.detail = format!("{}\n{}", v.detail, case.describe());
        v
    })
}
