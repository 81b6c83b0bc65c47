//! C19: operations can be chained: a client keeps a pool of shapes, combines them, saves and
//! reloads them, and what it ends up with is what set algebra says about the shapes that it
//! started with.

use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use kurbo::{BezPath, PathEl, Point};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule};

use super::common::*;
use crate::ensure;
use crate::oracle::{samples, Geom, Margins};
use crate::run::{panic_violation, InjectedPanic};
use crate::sim::{engine_hook_for, Outcome, Sim};
use crate::work::{gen_case, in_domain, Case, El, Opts, Sub};

/// What a shape should be: a set-theoretic expression of the shapes that there were at first.
enum Expr {
    Leaf(usize),
    Op(FillRule, BinaryOp, Rc<Expr>, Rc<Expr>),
}

impl Expr {
    fn winding(&self, leaves: &[i32]) -> i32 {
        match self {
            Expr::Leaf(i) => leaves[*i],
            Expr::Op(rule, op, a, b) => {
                inside(*rule, *op, a.winding(leaves), b.winding(leaves)) as i32
            }
        }
    }

    fn show(&self) -> String {
        match self {
            Expr::Leaf(i) => format!("s{i}"),
            Expr::Op(rule, op, a, b) => {
                let r = if *rule == FillRule::EvenOdd { "eo" } else { "nz" };
                format!("{op:?}[{r}]({}, {})", a.show(), b.show())
            }
        }
    }
}

#[derive(Clone)]
struct Shape {
    path: BezPath,
    expr: Rc<Expr>,
    /// How far its boundary can be from that of the shapes that it comes from.
    error: f64,
    steps: u32,
}

fn subs_of(path: &BezPath) -> Vec<Sub> {
    // Subpaths from contours: closed, maybe without an explicit last line.
    let mut ret: Vec<Sub> = Vec::new();
    for el in path.elements() {
        match *el {
            PathEl::MoveTo(p) => ret.push(Sub { start: p, els: Vec::new() }),
            PathEl::LineTo(p) => ret.last_mut().unwrap().els.push(El::L(p)),
            PathEl::QuadTo(a, p) => ret.last_mut().unwrap().els.push(El::Q(a, p)),
            PathEl::CurveTo(a, b, p) => ret.last_mut().unwrap().els.push(El::C(a, b, p)),
            PathEl::ClosePath => {
                let s = ret.last_mut().unwrap();
                if s.els.last().map_or(s.start, |e| e.end()) != s.start {
                    let start = s.start;
                    s.els.push(El::L(start));
                }
            }
        }
    }
    ret
}

/// Rounds all the coordinates to multiples of `g`.
fn rounded(path: &BezPath, g: f64) -> BezPath {
    let r = |p: Point| Point::new((p.x / g).round() * g, (p.y / g).round() * g);
    let mut ret = BezPath::new();
    let mut last = Point::ZERO;
    for el in path.elements() {
        match *el {
            PathEl::MoveTo(p) => ret.move_to(r(p)),
            PathEl::LineTo(p) => {
                if r(p) != last {
                    ret.line_to(r(p))
                }
            }
            PathEl::QuadTo(a, p) => ret.quad_to(r(a), r(p)),
            PathEl::CurveTo(a, b, p) => ret.curve_to(r(a), r(b), r(p)),
            PathEl::ClosePath => ret.close_path(),
        }
        if let Some(p) = el.end_point() {
            last = r(p);
        }
    }
    ret
}

pub fn run(sim: &Sim) -> Outcome {
    let first = gen_case(
        sim,
        Opts {
            max_els: 40,
            bundles: false,
            ..Opts::default()
        },
    );
    sim.trace(|| first.describe());
    sim.plan_engine_faults();
    let eps = first.eps();
    let crash = Arc::new(AtomicU64::new(u64::MAX));
    let _hook = engine_hook_for(
        sim,
        0,
        Some(Box::new({
            let crash = crash.clone();
            move || {
                let left = crash.load(Ordering::Relaxed);
                if left == 0 {
                    crash.store(u64::MAX, Ordering::Relaxed);
                    std::panic::panic_any(InjectedPanic(0));
                }
                if left != u64::MAX {
                    crash.store(left - 1, Ordering::Relaxed);
                }
            }
        })),
    );

    // Deal the subpaths out to some shapes.
    let mut leaves: Vec<BezPath> = vec![BezPath::new(); sim.int(2, 4) as usize];
    for s in first.sets.iter().flatten() {
        let i = sim.below(leaves.len());
        s.append_to(&mut leaves[i], first.explicit);
    }
    let base = Margins::for_case(&first);
    let geoms: Vec<Geom> = leaves.iter().map(|p| Geom::from_path(p, base.tol)).collect();
    let mut all = Geom::default();
    for g in &geoms {
        all.edges.extend_from_slice(&g.edges);
    }
    if all.edges.is_empty() {
        return Ok(());
    }
    let mut pool: Vec<Shape> = leaves
        .iter()
        .enumerate()
        .map(|(i, p)| Shape {
            path: p.clone(),
            expr: Rc::new(Expr::Leaf(i)),
            error: 0.0,
            steps: 0,
        })
        .collect();
    let mut disk = pool.clone();
    let mut history: Vec<String> = Vec::new();
    let show = |history: &[String]| format!("{}\n{}", history.join("\n"), first.describe());

    let n_steps = sim.int(2, 9);
    let mut done = 0;
    for _ in 0..n_steps {
        match sim.choose(10) {
            0 => {
                // Save everything. What's on disk is text.
                for s in &mut pool {
                    let text = s.path.to_svg();
                    s.path = if text.is_empty() {
                        BezPath::new()
                    } else {
                        match BezPath::from_svg(&text) {
                            Ok(p) => p,
                            Err(_) => s.path.clone(),
                        }
                    };
                }
                disk = pool.clone();
                sim.probe("saved");
                history.push("saved".into());
                continue;
            }
            1 => {
                // The client crashed, and its memory is gone.
                pool = disk.clone();
                sim.note_fault("crash_between_steps");
                history.push("crashed and reloaded".into());
                continue;
            }
            2 => {
                let i = sim.below(pool.len());
                let g = eps * *sim.pick(&[128.0, 1000.0, 1e4]);
                if g > 1e-2 * first.size() || pool[i].path.elements().is_empty() {
                    continue;
                }
                pool[i].path = rounded(&pool[i].path, g);
                pool[i].error += g;
                sim.note_fault("rounded_coordinates");
                history.push(format!("rounded {i} to multiples of {g:e}"));
                continue;
            }
            _ => {}
        }
        let (i, j) = (sim.below(pool.len()), sim.below(pool.len()));
        let (rule, op) = (*sim.pick(&RULES), *sim.pick(&OPS));
        let (x, y) = (pool[i].clone(), pool[j].clone());
        let case = Case {
            family: first.family,
            sets: [subs_of(&x.path), subs_of(&y.path)],
            eps: first.eps,
            explicit: first.explicit,
        };
        if !in_domain(&case) {
            sim.probe("out_of_domain");
            continue;
        }
        if case.n_els() > 400 {
            sim.probe("too_big");
            continue;
        }
        let m = Margins::for_case(&case);
        set_step_budget(sim, &case);
        let crashing = crate::sim::HOOKS_ON && sim.chance(8);
        if crashing {
            crash.store(sim.choose(400), Ordering::Relaxed);
        }
        let what = format!("{rule:?} {op:?} of {i} and {j}");
        history.push(format!("{what}:\n    {}\n    {}", x.path.to_svg(), y.path.to_svg()));
        let res = std::panic::catch_unwind(AssertUnwindSafe(|| match case.eps {
            None => binary_op(&x.path, &y.path, rule, op),
            Some(eps) => binary_op_with_eps(&x.path, &y.path, rule, op, eps),
        }));
        crash.store(u64::MAX, Ordering::Relaxed);
        let contours = match res {
            Err(p) if p.is::<InjectedPanic>() => {
                pool = disk.clone();
                sim.note_fault("crash_in_engine");
                history.push("crashed and reloaded".into());
                continue;
            }
            Err(p) => {
                let mut v = panic_violation("an operation", p);
                v.detail = format!("{}\n{}", v.detail, show(&history));
                return Err(v);
            }
            Ok(Err(e)) => {
                return crate::sim::fail("error", format!("{what}: unexpected error {e}\n{}", show(&history)));
            }
            Ok(Ok(c)) => c,
        };
        log_contours(sim, &contours);
        let mut path = BezPath::new();
        for c in contours.contours() {
            path.extend(c.path.elements().iter().copied());
        }
        let shape = Shape {
            path,
            expr: Rc::new(Expr::Op(rule, op, x.expr.clone(), y.expr.clone())),
            error: x.error.max(y.error) + m.margin,
            steps: x.steps.max(y.steps) + 1,
        };
        done = done.max(shape.steps);
        let out = Geom::from_path(&shape.path, base.tol);
        let pts = samples(sim, &all, &out, shape.error.max(base.margin), 32);
        let mut ins = 0;
        for p in &pts {
            let w: Vec<i32> = geoms.iter().map(|g| g.winding(*p)).collect();
            let want = shape.expr.winding(&w);
            let got = out.winding(*p);
            ins += (want != 0) as usize;
            ensure!(
                want == got,
                "wrong-region",
                "after {} steps, {} should have winding number {want} at {p:?}, and has {got} (that's at distance {} from all of the first shapes, margin {})\n{}\noutput:\n{}",
                shape.steps,
                shape.expr.show(),
                all.dist(*p),
                shape.error,
                show(&history),
                show_contours(&contours)
            );
        }
        if ins > 0 && ins < pts.len() && shape.steps > 1 {
            sim.nontrivial();
        }
        if pool.len() < 8 || sim.chance(30) {
            pool.push(shape);
        } else {
            let k = sim.below(pool.len());
            pool[k] = shape;
        }
    }
    for k in 2..=done.min(5) {
        sim.probe(["", "", "depth_2", "depth_3", "depth_4", "depth_5"][k as usize]);
    }
    Ok(())
}
