//! C08: a checkpointed sweep resumes exactly where it was.

use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use linesweeper::sweep::Sweeper;

use super::c07::Careless;
use super::sweeps::*;
use crate::ensure;
use crate::run::{guarded, panic_violation, InjectedPanic};
use crate::sim::{engine_hook, engine_hook_for, fail, Ordinals, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// A sweep, the number of lines that it has had, and where its faults are.
#[derive(Clone)]
struct State<'a> {
    sweeper: Sweeper<'a>,
    l: usize,
    at: Ordinals,
}

pub fn run(sim: &Sim) -> Outcome {
    let case = gen_case(
        sim,
        Opts {
            max_els: if sim.chance(10) { 150 } else { 40 },
            crowds: 1,
            crowd_size: 40,
            ..Opts::default()
        },
    );
    sim.trace(|| case.describe());
    let open = sim.chance(30);
    let segs = make_segments(sim, &case, open);
    let eps = case.eps();
    sim.plan_engine_faults();
    sim.reset_ticks(10_000_000);
    let reference = {
        let _hook = engine_hook(sim);
        match guarded("the undisturbed sweep", || {
            record(&segs, eps, max_lines(&segs), &mut ReadAll)
        })? {
            Ok(r) => r,
            Err(_) => return fail("no-progress", "too many sweep lines"),
        }
    };
    for r in &reference {
        log_line(sim, r);
    }
    let names = Names::new(&segs);

    // After this many hook points, something crashes.
    let fuse = Arc::new(AtomicU64::new(u64::MAX));
    let fuse2 = fuse.clone();
    let _hook = engine_hook_for(
        sim,
        0,
        Some(Box::new(move || {
            let left = fuse2.load(Ordering::Relaxed);
            if left != u64::MAX {
                if left == 0 {
                    fuse2.store(u64::MAX, Ordering::Relaxed);
                    std::panic::panic_any(InjectedPanic(0));
                }
                fuse2.store(left - 1, Ordering::Relaxed);
            }
        })),
    );
    sim.reset_actor(0);
    let fresh = || State {
        sweeper: Sweeper::new(&segs, eps),
        l: 0,
        at: Ordinals::default(),
    };
    let mut cur = fresh();
    let mut saved: Vec<State<'_>> = Vec::new();
    let rate = *sim.pick(&[5, 20, 50]);
    let crash = *sim.pick(&[0, 5, 20]);
    let (skip, stop) = (*sim.pick(&[0, 20]), *sim.pick(&[0, 2, 10]));
    let mut resumed = 0;
    let mut budget = 3 * reference.len() + 20;
    let mut history = Vec::new();
    loop {
        if sim.chance(rate) {
            let mut copy = cur.clone();
            if sim.chance(20) {
                // A copy of a copy; the one in between is gone.
                copy = copy.clone();
            }
            history.push(format!("save {}", copy.l));
            sim.log(0xc1);
            if saved.len() < 4 {
                saved.push(copy);
            } else {
                let i = sim.below(saved.len());
                saved[i] = copy;
            }
            sim.probe("checkpoint");
        }
        let mut crashed = false;
        if budget > 0 && sim.chance(crash) {
            if crate::sim::HOOKS_ON && sim.chance(50) {
                fuse.store(sim.choose(20), Ordering::Relaxed);
            } else {
                crashed = true;
                sim.note_fault("crash_between_lines");
            }
        }
        budget = budget.saturating_sub(1);
        if !crashed {
            sim.set_ordinals(0, cur.at);
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
                let mut pace = Careless {
                    sim,
                    me: None,
                    skip,
                    stop,
                    segs: &segs,
                };
                read_line(&mut cur.sweeper, &segs, &names, cur.l, &mut Fresh, &mut pace)
            }));
            cur.at = sim.ordinals(0);
            match r {
                Err(p) if p.is::<InjectedPanic>() => {
                    sim.note_fault("crash_in_engine");
                    crashed = true;
                }
                Err(p) => {
                    let mut v = panic_violation("a resumed sweep", p);
                    v.detail = format!("{}\n{history:?}\n{}", v.detail, case.describe());
                    return Err(v);
                }
                Ok(None) => {
                    fuse.store(u64::MAX, Ordering::Relaxed);
                    ensure!(
                        cur.l == reference.len(),
                        "diverged",
                        "a sweep ended after {} lines, instead of {}: {history:?}\n{}",
                        cur.l,
                        reference.len(),
                        case.describe()
                    );
                    history.push("end".to_owned());
                    // Let the other ones run to their ends, too.
                    match saved.pop() {
                        Some(s) => {
                            resumed += (s.l > 0) as usize;
                            cur = s;
                            history.push(format!("resume {}", cur.l));
                        }
                        None => break,
                    }
                }
                Ok(Some(rec)) => {
                    fuse.store(u64::MAX, Ordering::Relaxed);
                    ensure!(
                        cur.l < reference.len(),
                        "diverged",
                        "there are too many lines: {history:?}\n{}",
                        case.describe()
                    );
                    if let Err(e) = compare(cur.l, &rec, &reference[cur.l]) {
                        return fail(
                            "diverged",
                            format!("{e}; the history was {history:?}\n{}", case.describe()),
                        );
                    }
                    cur.l += 1;
                }
            }
        }
        if crashed {
            history.push(format!("crash {}", cur.l));
            cur = if saved.is_empty() || sim.chance(10) {
                fresh()
            } else {
                let i = sim.below(saved.len());
                resumed += (saved[i].l > 0) as usize;
                if sim.chance(50) {
                    saved[i].clone()
                } else {
                    saved.swap_remove(i)
                }
            };
            sim.log(0xc0_0000 + cur.l as u64);
            history.push(format!("resume {}", cur.l));
        } else if !saved.is_empty() && sim.chance(5) {
            let i = sim.below(saved.len());
            std::mem::swap(&mut saved[i], &mut cur);
            resumed += (cur.l > 0) as usize;
            sim.probe("alternated");
            sim.log(0xc2_0000 + cur.l as u64);
            history.push(format!("alternate {}", cur.l));
        }
        sim.shape(cur.l as u64);
    }
    if resumed > 0 && reference.len() > 2 {
        sim.nontrivial();
    }
    Ok(())
}
