//! C11: user code that crashes when it's called back leaves everything usable.

use std::cell::Cell;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;

use linesweeper::sweep::{SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::topology::{BinaryWindingNumber, Topology};
use linesweeper::{BinaryOp, FillRule, Point, Segments};

use super::answers::*;
use super::cb::{called, on_calls, Call, Wn, CALLS};
use super::common::*;
use super::sweeps::make_segments;
use crate::ensure;
use crate::prng::mix;
use crate::run::{guarded, panic_violation, InjectedPanic};
use crate::sim::{fail, Outcome, Sim, Violation};
use crate::work::{gen_case, Case, Opts};

/// A user's idea of a point. Converting it might crash.
#[derive(Clone, Copy)]
struct UserPoint(f64, f64);

impl From<UserPoint> for Point {
    fn from(p: UserPoint) -> Point {
        called(Call::Iterator);
        Point::new(p.0, p.1)
    }
}

/// An iterator that might crash.
struct Wary<I>(I);

impl<I: Iterator> Iterator for Wary<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        called(Call::Iterator);
        self.0.next()
    }
}

/// Runs something, counting the calls of user code.
fn count<T>(f: impl FnOnce() -> T) -> Result<(T, u64), Violation> {
    let n = Rc::new(Cell::new(0));
    let n2 = n.clone();
    let _calls = on_calls(move |_| n2.set(n2.get() + 1));
    let x = guarded("user code that doesn't crash", f)?;
    Ok((x, n.get()))
}

/// Runs something, with a crash at the `k`th call of user code.
fn crash<T>(sim: &Sim, what: &str, k: u64, f: impl FnOnce() -> T) -> Outcome {
    let n = Cell::new(0);
    let token = 1000 + k;
    let where_ = Rc::new(Cell::new(None));
    let where2 = where_.clone();
    let calls = on_calls(move |c| {
        n.set(n.get() + 1);
        if n.get() == k {
            where2.set(Some(c));
            std::panic::panic_any(InjectedPanic(token));
        }
    });
    let res = std::panic::catch_unwind(AssertUnwindSafe(f));
    drop(calls);
    match where_.get() {
        Some(c) => {
            sim.note_fault(CALLS[c as usize]);
            sim.log(c as u64);
        }
        None => return fail("unreachable-call", format!("{what}: there was no call {k}")),
    }
    match res {
        Ok(_) => fail("swallowed", format!("{what}: the panic in call {k} didn't reach the caller")),
        Err(p) => match p.downcast_ref::<InjectedPanic>() {
            Some(p) if p.0 == token => Ok(()),
            Some(_) => fail("swapped", format!("{what}: another panic reached the caller")),
            None => Err(panic_violation(what, p)),
        },
    }
}

/// An addition to a collection of segments.
#[derive(Clone)]
enum Add {
    Open(Vec<UserPoint>),
    Closed(Vec<UserPoint>),
    Many(Vec<Vec<UserPoint>>),
}

impl Add {
    fn apply(&self, segs: &mut Segments) {
        match self {
            Add::Open(ps) => segs.add_points(Wary(ps.iter().copied())),
            Add::Closed(ps) => segs.add_closed_polyline(Wary(ps.iter().copied())),
            Add::Many(ps) => segs.add_closed_polylines(Wary(ps.iter().map(|p| Wary(p.iter().copied())))),
        }
    }
}

fn user_points(case: &Case) -> Vec<Vec<UserPoint>> {
    case.sets
        .iter()
        .flatten()
        .map(|s| s.vertices().iter().map(|p| UserPoint(p.x, p.y)).collect())
        .collect()
}

/// What the caller holds on to.
struct Held {
    case: Case,
    segs: Segments,
    top: Topology<Wn>,
    combos: Vec<(FillRule, BinaryOp)>,
    lines: SweepLineBuffers,
    ranges: SweepLineRangeBuffers,
}

/// Sweeps with the caller's buffers. Every read of something is a chance to crash.
fn read_all(segs: &Segments, eps: f64, lines: &mut SweepLineBuffers, ranges: &mut SweepLineRangeBuffers) -> u64 {
    let mut h = Hash::default();
    let mut sweeper = Sweeper::new(segs, eps);
    while let Some(mut line) = sweeper.next_line(lines) {
        called(Call::Event);
        h.f(line.y());
        while let Some(mut range) = line.next_range(ranges, segs) {
            called(Call::Event);
            h.f(range.x().unwrap_or(0.5));
            while let Some(events) = range.events() {
                h.u(0xe7);
                for e in events {
                    called(Call::Event);
                    h.f(e.x0);
                    h.f(e.x1);
                }
            }
        }
    }
    h.done()
}

impl Held {
    fn contours(&self, i: usize) -> u64 {
        let (rule, op) = self.combos[i];
        let c = self.top.contours(pred(rule, op));
        mix(&[contours_hash(&c), groups_hash(&c)])
    }

    /// The answers that everything gives.
    fn answers(&mut self) -> Answer {
        let mut a = Answer::default();
        a.put("output segments", segments_hash(&self.top, wn_code));
        for i in 0..self.combos.len() {
            a.put(format!("contours {i}"), self.contours(i));
        }
        a.put("positions", positions_hash(&self.top));
        a.put("segments", segments_view(&self.segs));
        a.put("sweep events", sweep_hash(&self.segs, self.case.eps()));
        a.put(
            "lines and ranges",
            read_all(&self.segs, self.case.eps(), &mut self.lines, &mut self.ranges),
        );
        a
    }
}

pub fn run(sim: &Sim) -> Outcome {
    let case = gen_case(
        sim,
        Opts {
            max_els: if sim.chance(4) { 80 } else { 28 },
            crowds: 2,
            crowd_size: 60,
            ..Opts::default()
        },
    );
    sim.trace(|| case.describe());
    sim.reset_ticks(20_000_000);
    let eps = case.eps();
    let segs = make_segments(sim, &case, sim.chance(30));
    let top = guarded("building", || build(&case))?;
    let combos = vec![(*sim.pick(&RULES), *sim.pick(&OPS)), (*sim.pick(&RULES), *sim.pick(&OPS))];
    let mut held = Held {
        case: case.clone(),
        segs,
        top,
        combos,
        lines: SweepLineBuffers::default(),
        ranges: SweepLineRangeBuffers::default(),
    };
    let want = guarded("before any crash", || held.answers())?;
    want.log(sim);
    let built = want.0[0].1;

    let polylines = user_points(&case);
    let mut arena = Segments::default();
    let mut added: Vec<Add> = Vec::new();

    for _ in 0..sim.int(1, 4) {
        let what = sim.choose(7);
        let upto = |n: u64| -> Option<u64> {
            if n == 0 {
                None
            } else {
                Some(1 + sim.choose(n))
            }
        };
        match what {
            0 => {
                let (_, n) = count(|| build(&case))?;
                let Some(k) = upto(n) else { continue };
                crash(sim, "building a topology", k, || build(&case))?;
                if sim.chance(50) {
                    let t = guarded("building, after a crash", || build(&case))?;
                    ensure!(
                        segments_hash(&t, wn_code) == built,
                        "different-answer",
                        "building the same topology after a crash gave a different one\n{}",
                        case.describe()
                    );
                }
            }
            1 | 2 => {
                let i = sim.below(held.combos.len());
                let (_, n) = count(|| held.contours(i))?;
                let Some(k) = upto(n) else { continue };
                crash(sim, "contours", k, || held.contours(i))?;
            }
            3 => {
                let (_, n) = count(|| sweep_hash(&held.segs, eps))?;
                let Some(k) = upto(n) else { continue };
                crash(sim, "sweep", k, || sweep_hash(&held.segs, eps))?;
            }
            4 => {
                let Held { segs, lines, ranges, .. } = &mut held;
                let (_, n) = count(|| read_all(segs, eps, lines, ranges))?;
                let Some(k) = upto(n) else { continue };
                crash(sim, "reading a sweep", k, || read_all(segs, eps, lines, ranges))?;
            }
            5 if !polylines.is_empty() => {
                // Additions to a collection, some of which crash.
                for _ in 0..sim.int(1, 3) {
                    let add = match sim.choose(4) {
                        0 => Add::Open(polylines[sim.below(polylines.len())].clone()),
                        1 => Add::Closed(polylines[sim.below(polylines.len())].clone()),
                        _ => Add::Many(polylines.clone()),
                    };
                    let crashes = sim.chance(60);
                    if crashes {
                        let (_, n) = count(|| add.apply(&mut Segments::default()))?;
                        let Some(k) = upto(n) else { continue };
                        crash(sim, "adding", k, || add.apply(&mut arena))?;
                    } else {
                        guarded("adding", || add.apply(&mut arena))?;
                        added.push(add);
                    }
                }
                let mut model = Segments::default();
                for a in &added {
                    guarded("adding", || a.apply(&mut model))?;
                }
                ensure!(
                    arena.len() == model.len() && segments_view(&arena) == segments_view(&model),
                    "leftovers",
                    "additions that crashed left something behind: {} segments instead of {}, {} entrances instead of {}\n{}",
                    arena.len(),
                    model.len(),
                    arena.entrances().len(),
                    model.entrances().len(),
                    case.describe()
                );
                let (got, want) = (
                    guarded("sweeping a collection with failed additions", || sweep_hash(&arena, eps))?,
                    guarded("sweeping", || sweep_hash(&model, eps))?,
                );
                ensure!(
                    got == want,
                    "different-sweep",
                    "additions that crashed changed the sweep\n{}",
                    case.describe()
                );
            }
            _ => {
                let set = |i: usize| {
                    let ps: Vec<Vec<Point>> = case.sets[i]
                        .iter()
                        .map(|s| s.vertices().iter().map(|p| Point::new(p.x, p.y)).collect())
                        .collect();
                    Wary(ps.into_iter().map(|p| Wary(p.into_iter())))
                };
                let build = || Topology::<BinaryWindingNumber>::from_polylines_binary(set(0), set(1), eps);
                let digest = |t: &Topology<BinaryWindingNumber>| {
                    segments_hash(t, |w| mix(&[w.shape_a as u64, w.shape_b as u64]))
                };
                let (t, n) = count(build)?;
                let Some(k) = upto(n) else { continue };
                crash(sim, "building from polylines", k, build)?;
                let again = guarded("building, after a crash", build)?;
                ensure!(
                    digest(&t) == digest(&again),
                    "different-answer",
                    "building the same topology from polylines after a crash gave a different one\n{}",
                    case.describe()
                );
            }
        }
        sim.nontrivial();
        if sim.chance(30) {
            check(&mut held, &want)?;
        }
    }
    check(&mut held, &want)
}

fn check(held: &mut Held, want: &Answer) -> Outcome {
    let got = guarded("after a crash", || held.answers())?;
    match want.difference(&got) {
        None => Ok(()),
        Some(part) => fail(
            "different-answer",
            format!("after a crash, the {part} differ\n{}", held.case.describe()),
        ),
    }
}
