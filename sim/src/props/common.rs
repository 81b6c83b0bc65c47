//! Things that several properties need.

use kurbo::PathEl;
use linesweeper::topology::Contours;
use linesweeper::{BinaryOp, FillRule};

use crate::oracle::Geom;
use crate::sim::Sim;
use crate::work::Case;

pub const RULES: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];
pub const OPS: [BinaryOp; 4] = [
    BinaryOp::Union,
    BinaryOp::Intersection,
    BinaryOp::Difference,
    BinaryOp::Xor,
];

/// What the documentation says that the fill rules and the operations mean.
pub fn inside(rule: FillRule, op: BinaryOp, wa: i32, wb: i32) -> bool {
    let one = |w: i32| match rule {
        FillRule::EvenOdd => w.rem_euclid(2) == 1,
        FillRule::NonZero => w != 0,
    };
    let (a, b) = (one(wa), one(wb));
    match op {
        BinaryOp::Union => a | b,
        BinaryOp::Intersection => a & b,
        BinaryOp::Difference => a & !b,
        BinaryOp::Xor => a ^ b,
    }
}

pub struct Inputs {
    pub a: Geom,
    pub b: Geom,
    pub all: Geom,
}

impl Inputs {
    pub fn new(case: &Case, tol: f64) -> Self {
        let a = Geom::from_subs(&case.sets[0], tol);
        let b = Geom::from_subs(&case.sets[1], tol);
        let mut all = a.clone();
        all.edges.extend_from_slice(&b.edges);
        Inputs { a, b, all }
    }
}

pub fn contours_geom(c: &Contours, tol: f64) -> Geom {
    let mut g = Geom::default();
    for c in c.contours() {
        g.add_path(&c.path, tol);
    }
    g
}

pub fn show_contours(c: &Contours) -> String {
    let mut s = String::new();
    for (i, c) in c.contours().enumerate() {
        s.push_str(&format!(
            "  {i}: outer={} parent={:?} {}\n",
            c.outer,
            c.parent.map(|p| p.0),
            c.path.to_svg()
        ));
    }
    s
}

pub fn log_path(sim: &Sim, p: &kurbo::BezPath) {
    for el in p.elements() {
        match *el {
            PathEl::MoveTo(p) => {
                sim.log(1);
                sim.log_f(p.x);
                sim.log_f(p.y);
            }
            PathEl::LineTo(p) => {
                sim.log(2);
                sim.log_f(p.x);
                sim.log_f(p.y);
            }
            PathEl::QuadTo(a, p) => {
                sim.log(3);
                for p in [a, p] {
                    sim.log_f(p.x);
                    sim.log_f(p.y);
                }
            }
            PathEl::CurveTo(a, b, p) => {
                sim.log(4);
                for p in [a, b, p] {
                    sim.log_f(p.x);
                    sim.log_f(p.y);
                }
            }
            PathEl::ClosePath => sim.log(5),
        }
    }
}

pub fn log_contours(sim: &Sim, c: &Contours) {
    for c in c.contours() {
        sim.log(c.parent.map_or(0, |p| p.0 as u64 + 1) * 2 + c.outer as u64);
        log_path(sim, &c.path);
    }
}

/// How many engine steps (sweep lines and intersection events) a case is allowed to take.
pub fn step_budget(n_els: usize) -> u64 {
    let n = n_els as u64 * 3 + 8;
    2000 + 60 * n * n
}

pub fn set_step_budget(sim: &Sim, case: &Case) {
    // Spurious events make more work.
    sim.reset_ticks(20 * step_budget(case.n_els()));
}
