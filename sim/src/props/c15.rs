//! C15: comparisons don't depend on what was compared before, and they're right.

use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

use kurbo::Point;
use linesweeper::curve::{intersect_cubics, CurveInteraction, CurveOrder, Order};
use linesweeper::order::ComparisonCache;
use linesweeper::Segments;

use super::sweeps::*;
use crate::ensure;
use crate::run::{guarded, panic_violation, InjectedPanic};
use crate::sim::{engine_hook_for, fail, Outcome, Sim, N_SITES};
use crate::work::{gen_bundle, gen_case, Opts};

type Part = (f64, f64, Order);

fn parts(o: &CurveOrder) -> Vec<Part> {
    o.iter().collect()
}

fn flipped(o: Order) -> Order {
    match o {
        Order::Left => Order::Right,
        Order::Right => Order::Left,
        Order::Ish => Order::Ish,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Params {
    tolerance: f64,
    accuracy: f64,
    slop: bool,
}

impl Params {
    fn cache(&self) -> ComparisonCache {
        if self.slop {
            ComparisonCache::new(self.tolerance, self.accuracy)
        } else {
            ComparisonCache::new_without_y_slop(self.tolerance, self.accuracy)
        }
    }
}

/// The parts cover the common heights in increasing order, and neighbours have different orders.
fn check_shape(what: &str, p: &[Part], y0: f64, y1: f64) -> Outcome {
    ensure!(!p.is_empty(), "coverage", "{what}: no answer");
    ensure!(
        p[0].0 == y0 && p[p.len() - 1].1 == y1,
        "coverage",
        "{what}: covers {} to {}, but the common heights are {y0} to {y1}",
        p[0].0,
        p[p.len() - 1].1
    );
    for w in p.windows(2) {
        ensure!(w[0].1 == w[1].0, "coverage", "{what}: there's a gap at {}", w[0].1);
        ensure!(
            w[0].2 != w[1].2 && (w[0].2 == Order::Ish || w[1].2 == Order::Ish),
            "neighbours",
            "{what}: {:?} is followed by {:?} at {}",
            w[0].2,
            w[1].2,
            w[0].1
        );
    }
    for (a, b, _) in p {
        ensure!(a <= b, "coverage", "{what}: {a} to {b} are in the wrong order");
    }
    Ok(())
}

/// With the slop, a definite order has to hold in a neighbourhood.
fn check_slop(what: &str, sloppy: &[Part], raw: &[Part], slop: f64) -> Outcome {
    if raw[0].0 == raw[raw.len() - 1].1 {
        return Ok(());
    }
    let mut heights: Vec<f64> = raw.iter().chain(sloppy).flat_map(|p| [p.0, p.1]).collect();
    for r in raw {
        heights.extend([r.0 - slop, r.0 + slop, r.1 - slop, r.1 + slop]);
    }
    heights.sort_by(f64::total_cmp);
    let (y0, y1) = (raw[0].0, raw[raw.len() - 1].1);
    for w in heights.windows(2) {
        let h = 0.5 * (w[0] + w[1]);
        // Leave some room for rounding.
        let tiny = 8.0 * f64::EPSILON * (y0.abs().max(y1.abs()) + slop);
        if h <= y0 || h >= y1 || w[1] - w[0] <= 2.0 * tiny {
            continue;
        }
        let (lo, hi) = (h - slop, h + slop);
        // Everything that's within the slop, including parts without a height (except at the ends,
        // where there's nothing for them to be between).
        let mut near = raw.iter().filter(|r| {
            r.0 <= hi && r.1 >= lo && !(r.0 == r.1 && (r.0 == y0 || r.0 == y1))
        });
        let first = near.next().map_or(Order::Ish, |r| r.2);
        let want = if near.all(|r| r.2 == first) { first } else { Order::Ish };
        let got = at(sloppy, h);
        ensure!(
            got == want,
            "slop",
            "{what}: {got:?} at {h}, but without the slop of {slop} it's {raw:?}; with it, {sloppy:?}"
        );
    }
    Ok(())
}

fn at(p: &[Part], y: f64) -> Order {
    p.iter().find(|r| r.1 >= y).unwrap().2
}

/// The derived questions agree with the parts.
fn check_questions(what: &str, o: &CurveOrder, p: &[Part]) -> Outcome {
    let (y0, y1) = (p[0].0, p[p.len() - 1].1);
    let mut heights: Vec<f64> = p.iter().flat_map(|r| [r.0, 0.5 * (r.0 + r.1), r.1]).collect();
    heights.push(y0 + 0.37 * (y1 - y0));
    for y in heights {
        if y < y0 || y > y1 {
            continue;
        }
        let got = o.order_at(y);
        ensure!(got == at(p, y), "order-at", "{what}: order_at({y}) is {got:?}, but the parts are {p:?}");
        if y < y1 {
            let got = o.entry_at(y);
            let want = *p.iter().find(|r| r.1 > y).unwrap();
            ensure!(got == want, "entry-at", "{what}: entry_at({y}) is {got:?}, but the parts are {p:?}");
        }
        let got = o.order_after(y);
        let want = if y == y1 {
            p[p.len() - 1].2
        } else {
            p.iter()
                .find(|r| r.1 > y && r.2 != Order::Ish)
                .map_or(Order::Ish, |r| r.2)
        };
        ensure!(got == want, "order-after", "{what}: order_after({y}) is {got:?}, but the parts are {p:?}");
        // Coming from the left at height `y`.
        let mut rest = p.iter().filter(|r| r.1 > y).skip_while(|r| r.2 == Order::Left);
        let mut want: Option<(bool, f64, f64)> = None;
        loop {
            let Some(r) = rest.next() else { break };
            match r.2 {
                Order::Left => continue,
                Order::Right => {
                    want = Some((true, y, y));
                    break;
                }
                Order::Ish => {}
            }
            let Some(next) = rest.next() else { break };
            if next.2 == Order::Right {
                want = Some((true, r.0.max(y), r.1));
                break;
            }
            if y < r.0 {
                want = Some((false, r.0, r.1));
                break;
            }
        }
        let got = o.next_touch_after(y);
        let ok = match (got, want) {
            (None, None) => true,
            (Some(CurveInteraction::Cross(h)), Some((true, lo, hi)))
            | (Some(CurveInteraction::Touch(h)), Some((false, lo, hi))) => lo <= h && h <= hi,
            _ => false,
        };
        ensure!(ok, "next-touch", "{what}: next_touch_after({y}) is {got:?} instead of {want:?}; the parts are {p:?}");
    }
    Ok(())
}

/// Definite orders are right, and close curves don't get one.
fn check_truth(
    sim: &Sim,
    what: &str,
    p: &[Part],
    (a, b): (&Curve, &Curve),
    params: &Params,
    magnitude: f64,
) -> Outcome {
    for (lo, hi, order) in p {
        for frac in [0.03, 0.5, 0.97] {
            let y = lo + frac * (hi - lo);
            if !(y > *lo && y < *hi) {
                continue;
            }
            let (xa, xb) = (a.x_at(y), b.x_at(y));
            let d = xb - xa;
            // Heights are subject to rounding, and to a relative accuracy of 1e-8 that the library
            // documents.
            let dy = 1e-8 * magnitude;
            let flat = a.width_near(y, dy) + b.width_near(y, dy) + 1e-8 * magnitude;
            let room = params.accuracy + flat;
            let (excess, ok) = match order {
                Order::Left => (params.tolerance - d, d >= params.tolerance - room),
                Order::Right => (params.tolerance + d, -d >= params.tolerance - room),
                Order::Ish => {
                    // Where curves are flat, it's not the horizontal distance that counts: it's
                    // enough if they get close when they're moved a bit.
                    let near = 2.0 * (params.tolerance + room);
                    let tol = params.tolerance;
                    let d = (d.abs() - a.width_near(y, tol) - b.width_near(y, tol))
                        .min(a.dist(Point::new(xb, y), near))
                        .min(b.dist(Point::new(xa, y), near));
                    (d - params.tolerance, d <= params.tolerance + room)
                }
            };
            report_ratio(sim, "c15", excess / room);
            ensure!(
                ok,
                "wrong-order",
                "{what}: {order:?} at {y}, where they're {d} apart (tolerance {}, accuracy {}, allowance {flat})\n{a:?}\n{b:?}\n{p:?}",
                params.tolerance,
                params.accuracy
            );
        }
    }
    Ok(())
}

struct Pair {
    i: usize,
    j: usize,
    y0: f64,
    y1: f64,
}

pub fn run(sim: &Sim) -> Outcome {
    let case = if sim.chance(35) {
        gen_bundle(sim)
    } else {
        gen_case(
            sim,
            Opts {
                max_els: 24,
                ..Opts::default()
            },
        )
    };
    sim.trace(|| case.describe());
    let open = sim.chance(30);
    let mut segs = make_segments(sim, &case, open);
    let eps = case.eps();
    let magnitude = case.magnitude();
    // Several sets of parameters, including the ones that sweeps use.
    let mut all_params = vec![Params {
        tolerance: eps,
        accuracy: eps / 2.0,
        slop: true,
    }];
    for _ in 0..sim.int(0, 2) {
        let tolerance = eps * *sim.pick(&[1.0, 0.5, 4.0, 0.25, 30.0]);
        all_params.push(Params {
            tolerance,
            accuracy: tolerance * *sim.pick(&[0.5, 0.25, 1.0, 0.05]),
            slop: sim.chance(50),
        });
    }

    let curves = Curve::all(&segs);
    let names = Names::new(&segs);
    let mut pairs = Vec::new();
    for i in 0..curves.len() {
        for j in 0..i {
            let (a, b) = (&curves[i], &curves[j]);
            let (y0, y1) = (a.start().y.max(b.start().y), a.end().y.min(b.end().y));
            if !a.is_horizontal() && !b.is_horizontal() && y0 <= y1 {
                pairs.push(Pair { i, j, y0, y1 });
            }
        }
    }
    if pairs.is_empty() {
        return Ok(());
    }
    let crowd: Vec<(usize, usize)> = pairs.iter().map(|p| (p.i, p.j)).collect();
    // Keep it reasonably small.
    let keep = sim.int(1, 14) as usize;
    while pairs.len() > keep {
        let k = sim.below(pairs.len());
        pairs.swap_remove(k);
    }

    // What a new cache says, for each pair and each set of parameters.
    let mut answers: Vec<Vec<Vec<Part>>> = Vec::new();
    for params in &all_params {
        let mut list = Vec::new();
        for p in &pairs {
            let (i, j) = (names.idx(p.i), names.idx(p.j));
            let what = format!("segments {} and {} with {params:?}", p.i, p.j);
            let order = guarded("a comparison", || params.cache().compare_segments(&segs, i, j))?;
            let here = parts(&order);
            for (a, b, o) in &here {
                sim.log_f(*a);
                sim.log_f(*b);
                sim.log(*o as u64);
            }
            let check = || -> Outcome {
                check_shape(&what, &here, p.y0, p.y1)?;
                guarded("check_invariants", || order.check_invariants())?;
                check_questions(&what, &order, &here)?;
                let flip = order.flip();
                let want: Vec<Part> = here.iter().map(|(a, b, o)| (*a, *b, flipped(*o))).collect();
                ensure!(parts(&flip) == want, "mirror", "{what}: flipped, {here:?} becomes {:?}", parts(&flip));
                let other = guarded("a comparison", || params.cache().compare_segments(&segs, j, i))?;
                ensure!(
                    parts(&other) == want,
                    "mirror",
                    "{what}: one way it's {here:?}, and the other way it's {:?}",
                    parts(&other)
                );
                // In which of the two directions it's compared shouldn't matter, but it's up to
                // the cache.
                let no_slop = Params { slop: false, ..*params };
                let raw = guarded("a comparison", || no_slop.cache().compare_segments(&segs, i, j))?;
                let raw_parts = parts(&raw);
                check_shape(&what, &raw_parts, p.y0, p.y1)?;
                if params.slop {
                    check_slop(&what, &here, &raw_parts, params.tolerance)?;
                } else {
                    ensure!(here == raw_parts, "history", "{what}: {here:?}, and then {raw_parts:?}");
                }
                let slop = params.tolerance * 3.0;
                check_slop(&what, &parts(&raw.clone().with_y_slop(slop)), &raw_parts, slop)?;
                if raw_parts.len() > 1 {
                    sim.nontrivial();
                }
                check_truth(sim, &what, &raw_parts, (&curves[p.i], &curves[p.j]), params, magnitude)?;
                // The same question, without any cache.
                let (a, b) = (&segs[i.min(j)], &segs[i.max(j)]);
                let direct = guarded("intersect_cubics", || {
                    intersect_cubics(
                        a.to_kurbo_cubic(),
                        b.to_kurbo_cubic(),
                        params.tolerance,
                        params.accuracy,
                    )
                })?;
                check_shape(&what, &parts(&direct), p.y0, p.y1)?;
                let c = (&curves[names.of(i.min(j))], &curves[names.of(i.max(j))]);
                check_truth(sim, &what, &parts(&direct), c, params, magnitude)
            };
            check().map_err(|mut v| {
                v.detail = format!("{}\n{}", v.detail, case.describe());
                v
            })?;
            list.push(here);
        }
        answers.push(list);
    }

    // Now, histories.
    let crash = Arc::new(AtomicBool::new(false));
    let crash2 = crash.clone();
    let _hook = engine_hook_for(
        sim,
        0,
        Some(Box::new(move || {
            if crash2.swap(false, Ordering::Relaxed) {
                std::panic::panic_any(InjectedPanic(0));
            }
        })),
    );
    let mut rates = [0; N_SITES];
    rates[0] = *sim.pick(&[0, 400, 2000]);
    sim.set_rates(rates);
    let mut caches: Vec<(usize, ComparisonCache)> = all_params
        .iter()
        .enumerate()
        .map(|(k, p)| (k, p.cache()))
        .collect();
    // Once in a while, ask for a lot of others in between.
    let warm = sim.chance(8);
    for _ in 0..sim.int(4, 60) {
        let c = sim.below(caches.len());
        if warm && crowd.len() > 14 && sim.chance(7) {
            let start = sim.below(crowd.len());
            let cache = &mut caches[c].1;
            for k in 0..crowd.len().min(300) {
                let (i, j) = crowd[(start + k) % crowd.len()];
                guarded("a comparison", || {
                    cache.compare_segments(&segs, names.idx(i), names.idx(j));
                })?;
            }
            sim.probe("many_pairs");
            continue;
        }
        match sim.choose(20) {
            0 if caches.len() < 6 => {
                let copy = caches[c].clone();
                caches.push(copy);
                sim.probe("clone");
            }
            1 if caches.len() > 1 => {
                caches.swap_remove(c);
            }
            2 => {
                let k = sim.below(all_params.len());
                caches.push((k, all_params[k].cache()));
            }
            3 => {
                grow(sim, &mut segs, &case);
                sim.probe("grow");
            }
            _ => {
                let k = sim.below(pairs.len());
                let p = &pairs[k];
                let mut ij = (names.idx(p.i), names.idx(p.j));
                let swap = sim.chance(50);
                if swap {
                    std::mem::swap(&mut ij.0, &mut ij.1);
                }
                if sim.chance(5) {
                    crash.store(true, Ordering::Relaxed);
                }
                let (k2, cache) = &mut caches[c];
                let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
                    cache.compare_segments(&segs, ij.0, ij.1)
                }));
                crash.store(false, Ordering::Relaxed);
                let got = match res {
                    Ok(got) => parts(&got),
                    Err(e) if e.is::<InjectedPanic>() => {
                        sim.note_fault("crash");
                        continue;
                    }
                    Err(e) => return Err(panic_violation("a comparison", e)),
                };
                sim.shape(((c as u64) << 32) | ((k as u64) << 1) | swap as u64);
                let mut want = answers[*k2][k].clone();
                if swap {
                    for w in &mut want {
                        w.2 = flipped(w.2);
                    }
                }
                if got != want {
                    return fail(
                        "history",
                        format!(
                            "comparing {} and {} with {:?}: {got:?}, but a new cache says {want:?}\n{}",
                            p.i,
                            p.j,
                            all_params[*k2],
                            case.describe()
                        ),
                    );
                }
            }
        }
    }
    Ok(())
}

/// Adds something to the collection: existing segments, and comparisons, stay what they are.
fn grow(sim: &Sim, segs: &mut Segments, case: &crate::work::Case) {
    let m = case.magnitude();
    let pts: Vec<(f64, f64)> = (0..sim.int(2, 4))
        .map(|_| (sim.range(-m, m), sim.range(-m, m)))
        .collect();
    if sim.chance(50) {
        segs.add_points(pts);
    } else {
        segs.add_closed_polyline(pts);
    }
}
