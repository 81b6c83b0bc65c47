//! C05: the same shapes, submitted in different orders, give the same set.

use kurbo::Shape;
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use linesweeper::{binary_op_with_eps, BinaryOp, FillRule};

use super::c01::check_region;
use super::common::*;
use crate::ensure;
use crate::oracle::{samples, Margins};
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Case, Opts};

/// A way to submit a case. Returns the case, and whether its sets are swapped.
fn resubmit(sim: &Sim, case: &Case, rule: FillRule) -> (Case, bool) {
    let mut c = case.clone();
    for set in &mut c.sets {
        if sim.chance(70) {
            let p = sim.permutation(set.len());
            let old = set.clone();
            *set = p.iter().map(|i| old[*i].clone()).collect();
            sim.note_fault("subpaths_permuted");
        }
        if sim.chance(60) {
            for s in set.iter_mut() {
                let n = s.els.len();
                if n > 1 {
                    *s = s.rotated(sim.below(n));
                }
            }
            sim.note_fault("starts_moved");
        }
        if sim.chance(40) {
            for s in set.iter_mut() {
                *s = s.reversed();
            }
            sim.note_fault("set_reversed");
        } else if rule == FillRule::EvenOdd && sim.chance(40) {
            for s in set.iter_mut() {
                if sim.chance(50) {
                    *s = s.reversed();
                }
            }
            sim.note_fault("some_subpaths_reversed");
        }
    }
    c.explicit ^= sim.chance(50);
    let swapped = sim.chance(40);
    if swapped {
        c.sets.swap(0, 1);
        sim.note_fault("sets_swapped");
    }
    (c, swapped)
}

fn area(c: &Contours) -> f64 {
    c.contours().map(|c| c.path.area()).sum()
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(6);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 200 } else { 50 },
            crowd_size: 40,
            ..Opts::default()
        },
    );
    let m = Margins::for_case(&case);
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let inputs = Inputs::new(&case, m.tol);
    let rule = *sim.pick(&RULES);
    let n = sim.int(1, 3);
    let mut submissions = vec![(case.clone(), false)];
    for _ in 0..n {
        submissions.push(resubmit(sim, &case, rule));
    }
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    let direct = sim.chance(30);
    let ops: Vec<BinaryOp> = if direct {
        vec![*sim.pick(&[BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Xor])]
    } else {
        OPS.to_vec()
    };
    // The outputs of each submission, for each operation.
    let mut outputs: Vec<Vec<Contours>> = Vec::new();
    for (c, swapped) in &submissions {
        let (a, b) = (c.path(0), c.path(1));
        sim.reset_actor(0);
        set_step_budget(sim, &case);
        outputs.push(if direct {
            let res = guarded("binary_op_with_eps", || {
                binary_op_with_eps(&a, &b, rule, ops[0], case.eps())
            })?;
            match res {
                Ok(x) => vec![x],
                Err(e) => return fail("error", format!("unexpected error {e}\n{}", c.describe())),
            }
        } else {
            let top: Topology<BinaryWindingNumber> = match guarded("Topology::from_paths_binary", || {
                Topology::from_paths_binary(&a, &b, case.eps())
            })? {
                Ok(t) => t,
                Err(e) => return fail("error", format!("unexpected error {e}\n{}", c.describe())),
            };
            let mut v = Vec::new();
            for op in &ops {
                v.push(guarded("contours", || {
                    top.contours(|w| {
                        if *swapped {
                            inside(rule, *op, w.shape_b, w.shape_a)
                        } else {
                            inside(rule, *op, w.shape_a, w.shape_b)
                        }
                    })
                })?);
            }
            v
        });
    }
    // The sets agree where they must.
    let length: f64 = inputs.all.edges.iter().map(|(p, q)| p.distance(*q)).sum();
    let allowed = 2.0 * m.margin * (length + 4.0 * m.margin);
    for (k, op) in ops.iter().enumerate() {
        let first = contours_geom(&outputs[0][k], m.tol);
        let pts = samples(sim, &inputs.all, &first, m.margin, 24);
        for (v, out) in outputs.iter().enumerate() {
            let what = || format!("{rule:?} {op:?}, submission {v}");
            let show = || {
                format!(
                    "{}\nas first submitted:\n{}",
                    submissions[v].0.describe(),
                    case.describe()
                )
            };
            log_contours(sim, &out[k]);
            if v == 0 {
                check_region(sim, &what(), &case, &inputs, &out[k], m, 24, |wa, wb| inside(rule, *op, wa, wb))?;
                continue;
            }
            let g = contours_geom(&out[k], m.tol);
            for p in &pts {
                let (w0, w) = (first.winding(*p), g.winding(*p));
                ensure!(
                    w == w0,
                    "different-region",
                    "{}: the point {p:?} has winding number {w} in the output, instead of {w0} (it's at distance {} from the inputs, margin {})\n{}",
                    what(),
                    inputs.all.dist(*p),
                    m.margin,
                    show()
                );
            }
            let (a0, a) = (area(&outputs[0][k]), area(&out[k]));
            ensure!(
                (a - a0).abs() <= allowed + 1e-12 * case.magnitude() * case.magnitude(),
                "different-area",
                "{}: the output's area is {a} instead of {a0}; at most {allowed:e} of difference are due to the tolerance\n{}",
                what(),
                show()
            );
        }
    }
    sim.probe_if(!case.is_polygonal(), "curved_input");
    sim.probe_if(big, "big_input");
    Ok(())
}
