//! C01: the output of a boolean operation represents the right set, whichever legal way the
//! sweep got there.

use kurbo::Point;
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule};

use super::common::*;
use crate::ensure;
use crate::oracle::{samples, Geom, Margins};
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, Case, Opts};

pub fn check_region(
    sim: &Sim,
    what: &str,
    case: &Case,
    inputs: &Inputs,
    contours: &Contours,
    m: Margins,
    count: usize,
    expected: impl Fn(i32, i32) -> bool,
) -> Outcome {
    let out = contours_geom(contours, m.tol);
    let pts = samples(sim, &inputs.all, &out, m.margin, count);
    let mut ins = 0;
    for p in &pts {
        let wa = inputs.a.winding(*p);
        let wb = inputs.b.winding(*p);
        let want = expected(wa, wb);
        let got = out.winding(*p);
        ins += want as u64;
        if got != want as i32 {
            return fail(
                "wrong-region",
                format!(
                    "{what}: the point {p:?} has winding numbers {wa} and {wb} in the inputs, so it {} be in the output, \
                     but its winding number in the output is {got} (it's at distance {} from the inputs, margin {})\n{}\noutput:\n{}",
                    if want { "should" } else { "shouldn't" },
                    inputs.all.dist(*p),
                    m.margin,
                    case.describe(),
                    show_contours(contours),
                ),
            );
        }
    }
    if ins > 0 && (ins as usize) < pts.len() {
        sim.nontrivial();
    }
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    let big = sim.chance(6);
    let case = gen_case(
        sim,
        Opts {
            max_els: if big { 400 } else { 60 },
            ..Opts::default()
        },
    );
    let m = Margins::for_case(&case);
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let inputs = Inputs::new(&case, m.tol);
    let (a, b) = (case.path(0), case.path(1));
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);

    let api = sim.choose(4);
    let combos: Vec<(FillRule, BinaryOp)> = if api >= 2 {
        RULES
            .iter()
            .flat_map(|r| OPS.iter().map(|o| (*r, *o)))
            .collect()
    } else {
        vec![(*sim.pick(&RULES), *sim.pick(&OPS))]
    };
    let top: Option<Topology<BinaryWindingNumber>> = match api {
        2 => {
            let top = guarded("Topology::from_paths_binary", || {
                Topology::from_paths_binary(&a, &b, case.eps())
            })?;
            match top {
                Ok(t) => Some(t),
                Err(e) => return fail("error", format!("unexpected error {e}\n{}", case.describe())),
            }
        }
        3 if case.is_polygonal() => {
            let pts = |i: usize| -> Vec<Vec<linesweeper::Point>> {
                case.sets[i]
                    .iter()
                    .map(|s| {
                        s.vertices()
                            .into_iter()
                            .map(|p| linesweeper::Point::new(p.x, p.y))
                            .collect()
                    })
                    .collect()
            };
            sim.probe("polylines_api");
            Some(guarded("Topology::from_polylines_binary", || {
                Topology::from_polylines_binary(pts(0), pts(1), case.eps())
            })?)
        }
        _ => None,
    };
    for (rule, op) in combos {
        let what = format!("{rule:?} {op:?}");
        let contours = match &top {
            Some(top) => guarded("contours", || top.contours(|w| inside(rule, op, w.shape_a, w.shape_b)))?,
            None => {
                let res = guarded(&what, || match (api, case.eps) {
                    (0, None) => binary_op(&a, &b, rule, op),
                    _ => binary_op_with_eps(&a, &b, rule, op, case.eps()),
                })?;
                match res {
                    Ok(c) => c,
                    Err(e) => {
                        return fail("error", format!("{what}: unexpected error {e}\n{}", case.describe()))
                    }
                }
            }
        };
        log_contours(sim, &contours);
        let count = if top.is_some() { 24 } else { 64 };
        check_region(sim, &what, &case, &inputs, &contours, m, count, |wa, wb| {
            inside(rule, op, wa, wb)
        })?;
        ensure!(
            contours
                .contours()
                .all(|c| c.path.elements().iter().all(|e| e.end_point().map_or(true, finite))),
            "not-finite",
            "{what}: the output has non-finite points\n{}",
            case.describe()
        );
    }
    sim.probe_if(!case.is_polygonal(), "curved_input");
    sim.probe_if(big, "big_input");
    sim.probe_if(case.eps.is_some(), "custom_eps");
    Ok(())
}

fn finite(p: Point) -> bool {
    p.x.is_finite() && p.y.is_finite()
}

#[allow(dead_code)]
pub fn geom_of(case: &Case, tol: f64) -> Geom {
    let mut g = Geom::from_subs(&case.sets[0], tol);
    g.edges.extend(Geom::from_subs(&case.sets[1], tol).edges);
    g
}

/// Lines that are almost, but not quite, horizontal (compared to the tolerance) get the wrong
/// positions. See DESIGN.md.
const KNOWN: [(&str, &str, &str, f64); 2] = [
    (
        "near-horizontal-1",
        "M4,6 L9,5.999997 L6.5,6.000003 Z",
        "M5,6 L7,6 L7,6.1 Z",
        1e-6,
    ),
    (
        "near-horizontal-2",
        "M0,3 L6,2.999999999 L6,3.000000001 Z M5,0 L7,0 L5,6 Z M0,3 L4,3 L4,3.000000001 Z",
        "M0,0 L4,0 Z M0,0 L4,0 Z M1,3 L7,2.999999999 L7,3.000000001 Z",
        1e-6,
    ),
];

pub fn known() -> Vec<(String, Outcome)> {
    KNOWN
        .iter()
        .map(|(name, a, b, eps)| {
            let sim = Sim::replay(Vec::new(), Vec::new());
            let case = Case::from_svg(a, b, Some(*eps));
            let m = Margins::for_case(&case);
            let inputs = Inputs::new(&case, m.tol);
            let run = || -> Outcome {
                for (rule, op) in RULES.iter().flat_map(|r| OPS.iter().map(move |o| (*r, *o))) {
                    let res = guarded("binary_op", || {
                        binary_op_with_eps(&case.path(0), &case.path(1), rule, op, *eps)
                    })?;
                    if let Ok(c) = res {
                        check_region(&sim, "known", &case, &inputs, &c, m, 400, |wa, wb| {
                            inside(rule, op, wa, wb)
                        })?;
                    }
                }
                Ok(())
            };
            (
                format!("{name}: A=\"{a}\" B=\"{b}\" eps={eps:e}"),
                run(),
            )
        })
        .collect()
}
