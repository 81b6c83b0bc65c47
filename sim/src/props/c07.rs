//! C07: sweeps don't disturb one another, or their buffers' previous users.

use std::sync::Mutex;

use linesweeper::sweep::{SegmentsConnectedAtX, SweepLine, SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::Segments;

use super::sweeps::*;
use crate::ensure;
use crate::run::{guarded, panic_violation};
use crate::sched::{run_all, Me, Task};
use crate::sim::{engine_hook_for, fail, Outcome, Sim};
use crate::work::{gen_case, Opts};

/// The buffers that all of the sweeps share.
#[derive(Default)]
struct Shared {
    lines: Vec<SweepLineBuffers>,
    ranges: Vec<SweepLineRangeBuffers>,
    ats: Vec<SegmentsConnectedAtX>,
}

struct SharedPool<'a> {
    sim: &'a Sim,
    shared: &'a Mutex<Shared>,
}

fn take<T: Default + Clone>(sim: &Sim, v: &mut Vec<T>, what: &str) -> T {
    if v.is_empty() || sim.chance(5) {
        return T::default();
    }
    sim.note_fault(what);
    let i = sim.below(v.len());
    if sim.chance(5) {
        v[i].clone()
    } else {
        v.swap_remove(i)
    }
}

impl Pool for SharedPool<'_> {
    fn line(&mut self) -> SweepLineBuffers {
        take(self.sim, &mut self.shared.lock().unwrap().lines, "dirty_line_buffers")
    }
    fn put_line(&mut self, b: SweepLineBuffers) {
        self.shared.lock().unwrap().lines.push(b);
    }
    fn range(&mut self) -> SweepLineRangeBuffers {
        take(self.sim, &mut self.shared.lock().unwrap().ranges, "dirty_range_buffers")
    }
    fn put_range(&mut self, b: SweepLineRangeBuffers) {
        self.shared.lock().unwrap().ranges.push(b);
    }
    fn at(&mut self) -> SegmentsConnectedAtX {
        let ats = &mut self.shared.lock().unwrap().ats;
        if ats.is_empty() || self.sim.chance(5) {
            return SegmentsConnectedAtX::default();
        }
        self.sim.note_fault("dirty_connections");
        ats.swap_remove(self.sim.below(ats.len()))
    }
    fn put_at(&mut self, b: SegmentsConnectedAtX) {
        self.shared.lock().unwrap().ats.push(b);
    }
}

/// A reader that lets others run, skips things, and gives up on things.
pub struct Careless<'a> {
    pub sim: &'a Sim,
    pub me: Option<&'a Me>,
    /// In percent.
    pub skip: u64,
    pub stop: u64,
    pub segs: &'a Segments,
}

impl Pace for Careless<'_> {
    fn at(&mut self, at: At, line: &SweepLine<'_, '_, '_>) -> Act {
        if let Some(me) = self.me {
            me.yield_now();
        }
        let x = self.sim.choose(100);
        if x >= 100 - self.stop {
            self.sim.note_fault(match at {
                At::Line(_) => "abandoned_line",
                At::Range(..) => "abandoned_line_halfway",
                At::Step(..) => "abandoned_range",
            });
            return Act::Stop;
        }
        if x >= 100 - self.stop - self.skip {
            if let At::Step(..) = at {
                self.sim.probe("skipped_events");
                return Act::Skip;
            }
        }
        if x == 1 {
            // Comparing two segments is allowed at any time, and has no visible effects.
            let n = (0..).take_while(|i| line.line_segment(*i).is_some()).count();
            if n >= 2 {
                let i = self.sim.below(n - 1);
                let (a, b) = (line.line_segment(i).unwrap(), line.line_segment(i + 1).unwrap());
                let (a, b) = if self.sim.chance(50) { (a, b) } else { (b, a) };
                let (p, q) = (&self.segs[a], &self.segs[b]);
                if p.start().y.max(q.start().y) < p.end().y.min(q.end().y) {
                    self.sim.probe("extra_comparison");
                    let _ = line.compare_segments(a, b);
                }
            }
        }
        Act::Events
    }
}

pub fn run(sim: &Sim) -> Outcome {
    let n = sim.int(2, 4) as usize;
    let mut inputs: Vec<(Segments, f64)> = Vec::new();
    // Which segments each sweep uses, and its tolerance.
    let mut sweeps: Vec<(usize, f64)> = Vec::new();
    for _ in 0..n {
        if !inputs.is_empty() && sim.chance(40) {
            let i = sim.below(inputs.len());
            let factor = *sim.pick(&[1.0, 2.0, 0.5]);
            sweeps.push((i, inputs[i].1 * factor));
            sim.probe("shared_segments");
            continue;
        }
        let case = gen_case(
            sim,
            Opts {
                max_els: 24,
                crowds: 1,
                crowd_size: 25,
                ..Opts::default()
            },
        );
        sim.trace(|| case.describe());
        let open = sim.chance(30);
        inputs.push((make_segments(sim, &case, open), case.eps()));
        sweeps.push((inputs.len() - 1, case.eps()));
    }
    sim.plan_engine_faults();
    sim.reset_ticks(3_000_000);

    // Each of them alone, with fresh buffers.
    let mut references = Vec::new();
    for (id, (input, eps)) in sweeps.iter().enumerate() {
        let segs = &inputs[*input].0;
        let _hook = engine_hook_for(sim, id, None);
        let r = guarded("the sweep on its own", || {
            record(segs, *eps, max_lines(segs), &mut ReadAll)
        })?;
        match r {
            Ok(r) => references.push(r),
            Err(_) => return fail("no-progress", "too many sweep lines"),
        }
        sim.reset_actor(id);
    }
    for r in references.iter().flatten() {
        log_line(sim, r);
    }

    // All of them together.
    let shared = Mutex::new(Shared::default());
    let rate = *sim.pick(&[10, 30, 60, 100]);
    let tasks: Vec<Task<'_, Outcome>> = sweeps
        .iter()
        .enumerate()
        .map(|(id, (input, eps))| {
            let (segs, eps) = (&inputs[*input].0, *eps);
            let reference = &references[id];
            let shared = &shared;
            let skip = *sim.pick(&[0, 5, 50]);
            let stop = *sim.pick(&[0, 2, 10, 30]);
            let quit = if sim.chance(20) {
                sim.below(reference.len() + 1)
            } else {
                usize::MAX
            };
            let task: Task<'_, Outcome> = Box::new(move |me: &Me| {
                let me2 = me.clone();
                let _hook = engine_hook_for(sim, id, Some(Box::new(move || me2.yield_now())));
                let names = Names::new(segs);
                let mut sweeper = Sweeper::new(segs, eps);
                let mut pool = SharedPool { sim, shared };
                let mut pace = Careless {
                    sim,
                    me: Some(me),
                    skip,
                    stop,
                    segs,
                };
                let mut l = 0;
                loop {
                    me.yield_now();
                    if l == quit {
                        sim.note_fault("abandoned_sweep");
                        return Ok(());
                    }
                    let Some(rec) =
                        read_line(&mut sweeper, segs, &names, l, &mut pool, &mut pace)
                    else {
                        break;
                    };
                    ensure!(l < reference.len(), "diverged", "sweep {id} has too many lines");
                    if let Err(e) = compare(l, &rec, &reference[l]) {
                        return fail("diverged", format!("sweep {id}: {e}"));
                    }
                    l += 1;
                }
                ensure!(
                    l == reference.len(),
                    "diverged",
                    "sweep {id} ended after {l} lines, instead of {}",
                    reference.len()
                );
                Ok(())
            });
            task
        })
        .collect();
    let (results, switches) = run_all(sim, rate, tasks);
    sim.log(switches);
    if switches > n as u64 && references.iter().all(|r| r.len() > 1) {
        sim.nontrivial();
    }
    for r in results {
        match r {
            Ok(r) => r?,
            Err(p) => return Err(panic_violation("a sweep", p)),
        }
    }
    Ok(())
}
