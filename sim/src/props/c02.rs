//! C02: contours are closed, consistently nested and consistently oriented.

use std::collections::BTreeSet;

use kurbo::{BezPath, PathEl, Point, Vec2};
use linesweeper::topology::{ContourIdx, Contours, Topology};
use linesweeper::{binary_op, BinaryOp, FillRule};

use super::common::*;
use crate::ensure;
use crate::oracle::{Geom, Margins};
use crate::prng::Rng;
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Case, Opts};

fn check_path(i: usize, els: &[PathEl]) -> Outcome {
    let n = els.len();
    ensure!(n >= 3, "malformed", "contour {i} has only {n} elements");
    ensure!(
        matches!(els[0], PathEl::MoveTo(_)),
        "malformed",
        "contour {i} doesn't start with a move"
    );
    ensure!(
        els[1..].iter().all(|e| !matches!(e, PathEl::MoveTo(_))),
        "malformed",
        "contour {i} has several subpaths"
    );
    ensure!(
        els[..n - 1].iter().all(|e| !matches!(e, PathEl::ClosePath)),
        "malformed",
        "contour {i} is closed in the middle"
    );
    let start = els[0].end_point().unwrap();
    let end = els
        .iter()
        .rev()
        .find_map(|e| e.end_point())
        .unwrap_or(start);
    ensure!(
        matches!(els[n - 1], PathEl::ClosePath) || end == start,
        "malformed",
        "contour {i} isn't closed"
    );
    Ok(())
}

/// A point on the boundary of contour `i` that isn't close to any other contour, and the
/// direction of the boundary there.
fn own_point(geoms: &[Geom], i: usize, clear: f64, rng: &mut Rng) -> Option<(Point, Vec2)> {
    let edges = &geoms[i].edges;
    // The longest edge, and some others.
    let mut order: Vec<usize> = (0..edges.len()).collect();
    order.sort_by(|a, b| {
        let l = |i: usize| (edges[i].1 - edges[i].0).hypot2();
        l(*b).total_cmp(&l(*a))
    });
    order.truncate(6);
    for e in order {
        let (a, b) = edges[e];
        if (b - a).hypot() < 3.0 * clear {
            return None;
        }
        for _ in 0..3 {
            let p = a.lerp(b, rng.range(0.3, 0.7));
            let ok = geoms
                .iter()
                .enumerate()
                .all(|(j, g)| j == i || g.is_clear(p, clear))
                // Nor close to another part of itself.
                && edges
                    .iter()
                    .enumerate()
                    .all(|(f, (c, d))| f == e || crate::oracle::dist2(p, *c, *d) > clear * clear);
            if ok {
                return Some((p, (b - a).normalize()));
            }
        }
    }
    None
}

pub fn check_contours(sim: &Sim, case: &Case, m: Margins, contours: &Contours) -> Outcome {
    let eps = case.eps();
    let cs: Vec<_> = contours.contours().collect();
    let n = cs.len();
    for (i, c) in cs.iter().enumerate() {
        check_path(i, c.path.elements())?;
        ensure!(
            c.path
                .elements()
                .iter()
                .filter_map(|e| e.end_point())
                .all(|p| p.x.is_finite() && p.y.is_finite()),
            "malformed",
            "contour {i} has a point that's not finite"
        );
        match c.parent {
            Some(p) => {
                ensure!(p.0 < n, "parent", "contour {i} has a parent that doesn't exist");
                ensure!(
                    cs[p.0].outer != c.outer,
                    "parent",
                    "contour {i} and its parent {} have outer={}",
                    p.0,
                    c.outer
                );
                ensure!(p.0 != i, "parent", "contour {i} is its own parent");
            }
            None => ensure!(c.outer, "parent", "contour {i} is a hole without a parent"),
        }
    }
    // The ancestors of each contour, innermost first.
    let mut ancestors: Vec<Vec<usize>> = Vec::new();
    for i in 0..n {
        let mut chain = Vec::new();
        let mut at = cs[i].parent;
        while let Some(p) = at {
            ensure!(chain.len() <= n, "parent", "contour {i} has cyclic ancestors");
            chain.push(p.0);
            at = cs[p.0].parent;
        }
        ancestors.push(chain);
    }

    // The grouping.
    let groups = contours.grouped();
    let mut seen = vec![false; n];
    for g in &groups {
        ensure!(!g.is_empty(), "grouping", "there's an empty group");
        let top = g[0];
        ensure!(
            cs[top.0].parent.is_none() && cs[top.0].outer,
            "grouping",
            "a group starts with the contour {}, which isn't a top-level one",
            top.0
        );
        for &ContourIdx(i) in g {
            ensure!(i < n, "grouping", "a group has the index {i}");
            ensure!(!seen[i], "grouping", "the contour {i} is in two groups");
            seen[i] = true;
            ensure!(
                i == top.0 || ancestors[i].last() == Some(&top.0),
                "grouping",
                "the contour {i} is in the group of {}, but has the ancestors {:?}",
                top.0,
                ancestors[i]
            );
            ensure!(
                std::ptr::eq(&contours[ContourIdx(i)], cs[i]),
                "grouping",
                "indexing and iterating disagree"
            );
        }
    }
    ensure!(
        seen.iter().all(|s| *s),
        "grouping",
        "the contours {:?} are in no group",
        (0..n).filter(|i| !seen[*i]).collect::<Vec<_>>()
    );

    // The geometry.
    let tol = if case.is_polygonal() { eps / 16.0 } else { m.tol };
    let geoms: Vec<Geom> = cs.iter().map(|c| Geom::from_path(&c.path, tol)).collect();
    let all = Geom {
        edges: geoms.iter().flat_map(|g| g.edges.iter().copied()).collect(),
    };
    let clear = if case.is_polygonal() {
        // Slivers can be thinner than the tolerance.
        (4.0 * eps).max(1e-9 * case.magnitude())
    } else {
        m.margin
    };
    let mut rng = Rng::new(sim.choose(1 << 32));
    let mut placed = 0;
    for i in 0..n {
        let area = geoms[i].area();
        let perimeter = geoms[i].perimeter();
        if area.abs() > 2.0 * clear * perimeter {
            ensure!(
                (area > 0.0) == cs[i].outer,
                "orientation",
                "contour {i} has outer={}, but is oriented the other way (area {area}, perimeter {perimeter})",
                cs[i].outer
            );
            sim.probe_if(!cs[i].outer, "hole");
        }
        let Some((p, dir)) = own_point(&geoms, i, clear, &mut rng) else {
            sim.probe("unplaced_contour");
            continue;
        };
        placed += 1;
        let containing: BTreeSet<usize> = (0..n)
            .filter(|j| *j != i && geoms[*j].winding(p) != 0)
            .collect();
        let claimed: BTreeSet<usize> = ancestors[i].iter().copied().collect();
        ensure!(
            containing == claimed,
            "parent",
            "contour {i} is inside of the contours {containing:?}, but its ancestors are {:?} (at {p:?}, outer={})",
            ancestors[i],
            cs[i].outer
        );
        if ancestors[i].len() >= 2 {
            sim.probe("nested_twice");
            // Innermost first: each is inside of the next one. That follows from each of them
            // having the right set of ancestors, if they're all placed.
        }
        // The interior is on one side, and the exterior on the other one.
        let normal = Vec2::new(-dir.y, dir.x) * (clear * 0.5);
        let (l, r) = (all.winding(p + normal), all.winding(p - normal));
        ensure!(
            (l == 0 && r == 1) || (l == 1 && r == 0),
            "winding",
            "the winding numbers on the two sides of contour {i} at {p:?} are {l} and {r}"
        );
    }
    // Anywhere else.
    let (lo, hi) = all.bbox();
    let mut tested = 0;
    for k in 0..60 {
        if all.edges.is_empty() {
            break;
        }
        let p = if k % 2 == 0 {
            Point::new(rng.range(lo.x, hi.x), rng.range(lo.y, hi.y))
        } else {
            let (a, b) = *rng.pick(&all.edges);
            let d = clear * *rng.pick(&[1.1, 2.0, 8.0]);
            let ang = rng.range(0.0, std::f64::consts::TAU);
            a.lerp(b, rng.f()) + Vec2::new(ang.cos(), ang.sin()) * d
        };
        if !all.is_clear(p, clear) {
            continue;
        }
        tested += 1;
        let w = all.winding(p);
        ensure!(
            w == 0 || w == 1,
            "winding",
            "the contours together have winding number {w} around {p:?}"
        );
    }
    if placed > 0 && tested > 0 {
        sim.nontrivial();
    }
    sim.probe_if(groups.len() > 1, "several_groups");
    Ok(())
}

/// Very deeply nested contours, on a thread with hardly any stack.
fn deep(sim: &Sim) -> Outcome {
    let n = sim.int(1500, 3000) as usize;
    sim.trace(|| format!("{n} nested squares"));
    sim.probe("very_deep");
    sim.nontrivial();
    let mut a = BezPath::new();
    for i in 0..n {
        let (d, e) = (i as f64, (2 * n - i) as f64);
        a.move_to((d, d));
        a.line_to((e, d));
        a.line_to((e, e));
        a.line_to((d, e));
        a.close_path();
    }
    let contours = match guarded("binary_op", || {
        binary_op(&a, &BezPath::new(), FillRule::EvenOdd, BinaryOp::Union)
    })? {
        Ok(c) => c,
        Err(e) => return fail("error", format!("unexpected error {e:?}")),
    };
    // A stack overflow aborts the process, and that's a violation too.
    let groups = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 10)
            .spawn_scoped(s, || contours.grouped())
            .expect("can't start a thread")
            .join()
    });
    let Ok(groups) = groups else {
        return fail("panic", format!("grouping {n} nested squares panicked"));
    };
    sim.log(groups.len() as u64);
    ensure!(
        groups.len() == 1 && groups[0].iter().map(|i| i.0).collect::<BTreeSet<_>>().len() == n,
        "grouped-deep",
        "{n} nested squares were grouped as {} groups, the first of which has {} members",
        groups.len(),
        groups.first().map_or(0, |g| g.len())
    );
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    if sim.choose(2000) == 0 {
        return deep(sim);
    }
    let big = sim.chance(6);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 300 } else { 60 },
            crowd_size: 60,
            nested: 30,
            ..Opts::default()
        },
    );
    let m = Margins::for_case(&case);
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let (a, b) = (case.path(0), case.path(1));
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let top = match guarded("Topology::from_paths_binary", || {
        Topology::from_paths_binary(&a, &b, case.eps())
    })? {
        Ok(t) => t,
        Err(e) => return fail("error", format!("unexpected error {e:?}\n{}", case.describe())),
    };
    for rule in RULES {
        for op in OPS {
            let contours = guarded("contours", || {
                top.contours(|w| inside(rule, op, w.shape_a, w.shape_b))
            })?;
            log_contours(sim, &contours);
            check_contours(sim, &case, m, &contours).map_err(|mut v| {
                v.detail = format!(
                    "{rule:?} {op:?}: {}\n{}\noutput:\n{}",
                    v.detail,
                    case.describe(),
                    show_contours(&contours)
                );
                v
            })?;
        }
    }
    Ok(())
}
