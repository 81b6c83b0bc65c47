//! Questions to ask of the library, and digests of its answers, bit for bit.

use kurbo::PathEl;
use linesweeper::sweep::{sweep, OutputEvent};
use linesweeper::topology::{Contours, Topology, WindingNumber};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule, Segments};

use super::cb::{called, Call, Wn};
use super::common::inside;
use super::sweeps::*;
use crate::prng::mix;
use crate::sim::Sim;
use crate::work::Case;

/// An answer, in parts that have names.
#[derive(Clone, PartialEq, Default)]
pub struct Answer(pub Vec<(String, u64)>);

impl Answer {
    pub fn put(&mut self, name: impl Into<String>, hash: u64) {
        self.0.push((name.into(), hash));
    }

    pub fn log(&self, sim: &Sim) {
        for (_, h) in &self.0 {
            sim.log(*h);
        }
    }

    /// The name of the first part that's different.
    pub fn difference(&self, other: &Answer) -> Option<String> {
        for i in 0..self.0.len().max(other.0.len()) {
            match (self.0.get(i), other.0.get(i)) {
                (Some(a), Some(b)) if a == b => {}
                (Some(a), Some(b)) if a.0 == b.0 => return Some(a.0.clone()),
                (a, b) => return Some(format!("{:?} instead of {:?}", b.map(|x| &x.0), a.map(|x| &x.0))),
            }
        }
        None
    }
}

#[derive(Default)]
pub struct Hash(u64);

impl Hash {
    pub fn u(&mut self, x: u64) {
        self.0 = mix(&[self.0, x]);
    }
    pub fn f(&mut self, x: f64) {
        self.u(x.to_bits());
    }
    pub fn p(&mut self, p: kurbo::Point) {
        self.f(p.x);
        self.f(p.y);
    }
    pub fn path(&mut self, path: &kurbo::BezPath) {
        for el in path.elements() {
            match *el {
                PathEl::MoveTo(p) => {
                    self.u(1);
                    self.p(p);
                }
                PathEl::LineTo(p) => {
                    self.u(2);
                    self.p(p);
                }
                PathEl::QuadTo(a, p) => {
                    self.u(3);
                    self.p(a);
                    self.p(p);
                }
                PathEl::CurveTo(a, b, p) => {
                    self.u(4);
                    self.p(a);
                    self.p(b);
                    self.p(p);
                }
                PathEl::ClosePath => self.u(5),
            }
        }
    }
    pub fn contours(&mut self, c: &Contours) {
        for c in c.contours() {
            self.u(c.parent.map_or(0, |p| p.0 as u64 + 1) * 2 + c.outer as u64);
            self.path(&c.path);
        }
    }
    pub fn done(self) -> u64 {
        self.0
    }
}

pub fn contours_hash(c: &Contours) -> u64 {
    let mut h = Hash::default();
    h.contours(c);
    h.done()
}

pub fn groups_hash(c: &Contours) -> u64 {
    let mut h = Hash::default();
    for g in c.grouped() {
        h.u(7);
        for i in g {
            h.u(i.0 as u64);
        }
    }
    h.done()
}

/// The segments of a topology, their ends and winding numbers.
pub fn segments_hash<W: WindingNumber>(t: &Topology<W>, code: impl Fn(&W) -> u64) -> u64 {
    let mut h = Hash::default();
    for seg in t.segment_indices() {
        for half in [seg.first_half(), seg.second_half()] {
            h.p(t.point(half).to_kurbo());
            h.u(code(t.winding_clockwise(half)));
            h.u(code(t.winding_counter_clockwise(half)));
        }
        h.u(idx_code(&t.orig_seg[seg]));
    }
    h.done()
}

pub fn positions_hash<W: WindingNumber>(t: &Topology<W>) -> u64 {
    let pos = t.compute_positions();
    let mut h = Hash::default();
    for seg in t.segment_indices() {
        h.path(&pos[seg].path);
        h.u(pos[seg].copied_idx.map_or(0, |i| i as u64 + 1));
    }
    h.done()
}

/// Indices don't reveal their number, but they can be hashed (and `DefaultHasher::new` has fixed
/// keys).
fn idx_code(i: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

pub fn wn_code(w: &Wn) -> u64 {
    mix(&[w.a as u64, w.b as u64])
}

/// Everything that the callback of a sweep gets to see.
pub fn sweep_hash(segs: &Segments, eps: f64) -> u64 {
    let names = Names::new(segs);
    let mut h = Hash::default();
    sweep(segs, eps, |y, ev: OutputEvent| {
        called(Call::Event);
        let e = names.ev(&ev);
        h.f(y);
        h.u(e.seg as u64);
        h.f(e.x0);
        h.f(e.x1);
        h.u(e.up as u64 * 2 + e.down as u64);
    });
    h.done()
}

/// A predicate, with a chance for the simulator to intervene.
pub fn pred(rule: FillRule, op: BinaryOp) -> impl Fn(&Wn) -> bool {
    move |w: &Wn| {
        called(Call::Predicate);
        inside(rule, op, w.a, w.b)
    }
}

pub fn build(case: &Case) -> Topology<Wn> {
    Topology::from_paths([(&case.path(0), true), (&case.path(1), false)], case.eps())
        .unwrap_or_else(|e| panic!("unexpected error {e}"))
}

/// A request.
#[derive(Clone)]
pub enum Req {
    /// A simple operation.
    Op(FillRule, BinaryOp),
    /// A topology, with contours for some predicates, and positions.
    Topology(Vec<(FillRule, BinaryOp)>, bool),
    /// A sweep.
    Sweep,
}

pub fn answer(case: &Case, segs: &Segments, req: &Req) -> Answer {
    let mut a = Answer::default();
    match req {
        Req::Op(rule, op) => {
            let (p, q) = (case.path(0), case.path(1));
            let res = match case.eps {
                None => binary_op(&p, &q, *rule, *op),
                Some(eps) => binary_op_with_eps(&p, &q, *rule, *op, eps),
            };
            match res {
                Ok(c) => {
                    a.put(format!("contours of {rule:?} {op:?}"), contours_hash(&c));
                    a.put("groups", groups_hash(&c));
                }
                Err(e) => a.put(format!("error {e:?}"), 0),
            }
        }
        Req::Topology(combos, positions) => {
            let t = build(case);
            a.put("output segments", segments_hash(&t, wn_code));
            for (rule, op) in combos {
                let c = t.contours(pred(*rule, *op));
                a.put(format!("contours of {rule:?} {op:?}"), contours_hash(&c));
                a.put("groups", groups_hash(&c));
            }
            if *positions {
                a.put("positions", positions_hash(&t));
            }
            let b = t.bounding_box();
            a.put(
                "bounding box",
                mix(&[b.x0.to_bits(), b.y0.to_bits(), b.x1.to_bits(), b.y1.to_bits()]),
            );
        }
        Req::Sweep => a.put("events", sweep_hash(segs, case.eps())),
    }
    a
}

/// Everything there is to see about a collection of segments.
pub fn segments_view(segs: &Segments) -> u64 {
    let names = Names::new(segs);
    let mut h = Hash::default();
    for (y, s) in segs.entrances().iter().chain(segs.exits()) {
        h.f(*y);
        h.u(names.of(*s) as u64);
    }
    for s in segs.indices() {
        h.p(segs.oriented_start(s).to_kurbo());
        h.p(segs.oriented_end(s).to_kurbo());
        h.u(segs.contour_next(s).map_or(0, |s| names.of(s) as u64 + 1));
        h.u(segs.contour_prev(s).map_or(0, |s| names.of(s) as u64 + 1));
        h.u(segs.positively_oriented(s) as u64);
        let c = segs[s].to_kurbo_cubic();
        for p in [c.p0, c.p1, c.p2, c.p3] {
            h.p(p);
        }
    }
    h.done()
}
