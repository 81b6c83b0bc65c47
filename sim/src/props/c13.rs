//! C13: faulty input is reported, and unusual but valid input isn't.

use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use linesweeper::{binary_op, binary_op_with_eps, Error, Segments};

use super::answers::segments_view;
use super::c01::check_region;
use super::common::*;
use crate::ensure;
use crate::oracle::Margins;
use crate::run::guarded;
use crate::sim::{engine_hook, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// Adds things to a path that don't change the set.
fn decorate(sim: &Sim, path: &BezPath, around: &[Point]) -> BezPath {
    let somewhere = || {
        if around.is_empty() || sim.chance(30) {
            Point::new(sim.int(-20, 20) as f64, sim.int(-20, 20) as f64)
        } else {
            around[sim.below(around.len())]
        }
    };
    let extra = |out: &mut BezPath| {
        // A subpath without any area.
        let p = somewhere();
        out.move_to(p);
        match sim.choose(7) {
            0 => sim.note_fault("lone_move"),
            1 => {
                sim.note_fault("closed_point");
                out.close_path();
            }
            2 => {
                sim.note_fault("zero_length_line");
                out.line_to(p);
                out.close_path();
            }
            3 => {
                sim.note_fault("point_curve");
                out.curve_to(p, p, p);
                if sim.chance(50) {
                    out.close_path();
                }
            }
            4 => {
                sim.note_fault("point_quad");
                out.quad_to(p, p);
                out.close_path();
            }
            5 => {
                sim.note_fault("closed_twice");
                out.close_path();
                out.close_path();
            }
            _ => {
                sim.note_fault("unclosed_point");
                out.line_to(p);
                out.line_to(p);
            }
        }
    };
    let mut out = BezPath::new();
    if sim.chance(20) {
        extra(&mut out);
    }
    let mut last = Point::ZERO;
    let mut start = Point::ZERO;
    for el in path.elements() {
        if matches!(el, PathEl::MoveTo(_)) && sim.chance(15) {
            extra(&mut out);
        }
        // Whatever closes a path twice, or repeats a point, is harmless.
        out.push(*el);
        match el {
            PathEl::ClosePath => {
                last = start;
                if sim.chance(10) {
                    sim.note_fault("closed_twice");
                    out.close_path();
                }
                if sim.chance(10) {
                    // SVG allows going on from here.
                    sim.note_fault("no_move_after_close");
                    out.line_to(last);
                    out.close_path();
                }
            }
            PathEl::MoveTo(p) => {
                start = *p;
                last = *p;
            }
            _ => last = el.end_point().unwrap_or(last),
        }
        if !matches!(el, PathEl::ClosePath) && sim.chance(6) {
            sim.note_fault("repeated_point");
            match sim.choose(3) {
                0 => out.line_to(last),
                1 => out.quad_to(last, last),
                _ => out.curve_to(last, last, last),
            }
        }
    }
    if sim.chance(15) {
        extra(&mut out);
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Infinity,
    NaN,
    NonClosed,
}

fn kind(e: &Error) -> Kind {
    match e {
        Error::Infinity => Kind::Infinity,
        Error::NaN => Kind::NaN,
        Error::NonClosedPath(_) => Kind::NonClosed,
    }
}

/// Replaces a coordinate by something that isn't finite.
fn corrupt(sim: &Sim, path: &mut BezPath) -> Option<Kind> {
    let els = path.elements_mut();
    let with_points: Vec<usize> = (0..els.len()).filter(|i| els[*i].end_point().is_some()).collect();
    if with_points.is_empty() {
        return None;
    }
    let i = with_points[sim.below(with_points.len())];
    let (x, kind, what) = match sim.choose(3) {
        0 => (f64::NAN, Kind::NaN, "nan"),
        1 => (f64::INFINITY, Kind::Infinity, "infinity"),
        _ => (f64::NEG_INFINITY, Kind::Infinity, "negative_infinity"),
    };
    let set = |p: &mut Point| {
        let both = sim.chance(10);
        let horizontal = sim.chance(50);
        if both || horizontal {
            p.x = x;
        }
        if both || !horizontal {
            p.y = x;
        }
    };
    match &mut els[i] {
        PathEl::MoveTo(p) | PathEl::LineTo(p) => set(p),
        PathEl::QuadTo(a, p) => set([a, p][sim.below(2)]),
        PathEl::CurveTo(a, b, p) => set([a, b, p][sim.below(3)]),
        PathEl::ClosePath => {}
    }
    sim.note_fault(what);
    Some(kind)
}

/// Adds a subpath that isn't closed, or opens one.
fn open(sim: &Sim, path: &BezPath) -> Option<BezPath> {
    let mut subs: Vec<Vec<PathEl>> = Vec::new();
    for el in path.elements() {
        if matches!(el, PathEl::MoveTo(_)) {
            subs.push(Vec::new());
        }
        subs.last_mut()?.push(*el);
    }
    if sim.chance(30) {
        let x = sim.int(-9, 9) as f64;
        let p = Point::new(x, 1.0);
        let q = Point::new(x, if sim.chance(50) { 1.0 + 1e-9 } else { 3.0 });
        let i = sim.below(subs.len() + 1);
        subs.insert(i, vec![PathEl::MoveTo(p), PathEl::LineTo(q)]);
    } else {
        let candidates: Vec<usize> = (0..subs.len())
            .filter(|i| {
                // Without whatever closes it, is it still a path, and does it end elsewhere?
                let s = &subs[*i];
                let Some(k) = s.iter().position(|e| matches!(e, PathEl::ClosePath)) else {
                    return false;
                };
                k > 1 && s[k - 1].end_point() != s[0].end_point() && k + 1 == s.len()
            })
            .collect();
        if candidates.is_empty() {
            return None;
        }
        subs[candidates[sim.below(candidates.len())]].pop();
    }
    sim.note_fault("unclosed_subpath");
    Some(BezPath::from_vec(subs.concat()))
}

pub fn run(sim: &Sim) -> Outcome {
    let mut case = gen_case(
        sim,
        Opts {
            max_els: 36,
            ..Opts::default()
        },
    );
    for set in &mut case.sets {
        if sim.chance(6) {
            sim.note_fault("empty_path");
            set.clear();
        }
    }
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let around: Vec<Point> = case
        .sets
        .iter()
        .flatten()
        .flat_map(|s| std::iter::once(s.start).chain(s.els.iter().map(|e| e.end())))
        .collect();
    let mut paths = [case.path(0), case.path(1)];
    if sim.chance(80) {
        for p in &mut paths {
            *p = decorate(sim, p, &around);
        }
    }
    let mut kinds: Vec<Kind> = Vec::new();
    let faulty = sim.chance(60);
    if faulty {
        for _ in 0..*sim.pick(&[1, 1, 1, 2, 3]) {
            let i = sim.below(2);
            if sim.chance(30) {
                // Not for paths that already have something wrong: a NaN isn't equal to itself.
                if kinds.is_empty() {
                    if let Some(p) = open(sim, &paths[i]) {
                        paths[i] = p;
                        kinds.push(Kind::NonClosed);
                    }
                }
            } else {
                kinds.extend(corrupt(sim, &mut paths[i]));
            }
        }
    }
    let m = Margins::for_case(&case);
    let rule = *sim.pick(&RULES);
    let op = *sim.pick(&OPS);
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let show = || {
        format!(
            "A: {}\nB: {}\n{}",
            paths[0].to_svg(),
            paths[1].to_svg(),
            case.describe()
        )
    };
    sim.trace(show);
    let api = sim.choose(3);
    let (what, got): (&str, Result<Contours, Error>) = match api {
        0 if case.eps.is_none() => (
            "binary_op",
            guarded("binary_op", || binary_op(&paths[0], &paths[1], rule, op))
                .map_err(|mut v| {
                    v.detail = format!("{}\n{}", v.detail, show());
                    v
                })?,
        ),
        2 if kinds.iter().all(|k| *k == Kind::NonClosed) => (
            "Topology::from_paths_binary",
            guarded("Topology::from_paths_binary", || {
                Topology::<BinaryWindingNumber>::from_paths_binary(&paths[0], &paths[1], case.eps())
                    .map(|t| t.contours(|w| inside(rule, op, w.shape_a, w.shape_b)))
                    .map_err(Error::from)
            })
            .map_err(|mut v| {
                v.detail = format!("{}\n{}", v.detail, show());
                v
            })?,
        ),
        _ => (
            "binary_op_with_eps",
            guarded("binary_op_with_eps", || {
                binary_op_with_eps(&paths[0], &paths[1], rule, op, case.eps())
            })
            .map_err(|mut v| {
                v.detail = format!("{}\n{}", v.detail, show());
                v
            })?,
        ),
    };
    match &got {
        Ok(c) => {
            log_contours(sim, c);
            ensure!(
                kinds.is_empty(),
                "accepted",
                "{what} accepted paths that are {kinds:?}\n{}",
                show()
            );
            // What got added doesn't have any area.
            let inputs = Inputs::new(&case, m.tol);
            check_region(sim, what, &case, &inputs, c, m, 24, |wa, wb| inside(rule, op, wa, wb))?;
        }
        Err(e) => {
            sim.log(kind(e) as u64);
            ensure!(
                !kinds.is_empty(),
                "rejected",
                "{what} rejected closed and finite paths: {e}\n{}",
                show()
            );
            ensure!(
                kinds.contains(&kind(e)),
                "wrong-error",
                "{what} said {e:?} about paths that are {kinds:?}\n{}",
                show()
            );
            sim.nontrivial();
        }
    }
    // The collection of segments agrees about what's closed.
    if kinds.iter().all(|k| *k == Kind::NonClosed) {
        let mut segs = Segments::default();
        let mut rejected = 0;
        for p in &paths {
            let before = segments_view(&segs);
            if guarded("add_bez_path", || segs.add_bez_path(p))?.is_err() {
                rejected += 1;
                ensure!(
                    segments_view(&segs) == before,
                    "leftovers",
                    "a rejected path left something behind\n{}",
                    show()
                );
            }
        }
        ensure!(
            (rejected > 0) == !kinds.is_empty(),
            "closed",
            "add_bez_path rejected {rejected} paths\n{}",
            show()
        );
    }
    Ok(())
}
