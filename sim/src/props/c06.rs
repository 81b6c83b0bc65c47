//! C06: the same request gives the same answer, bit for bit.


use linesweeper::Segments;

use super::answers::*;
use super::cb::on_calls;
use super::common::*;
use super::sweeps::make_segments;
use crate::run::{guarded, panic_violation, set_hash_seed};
use crate::sched::{run_all, Me, Task};
use crate::sim::{engine_hook_for, Outcome, Sim, Violation, N_SITES};
use crate::work::{gen_case, Case, Opts};

fn gen_req(sim: &Sim) -> Req {
    match sim.choose(8) {
        0..=3 => Req::Op(*sim.pick(&RULES), *sim.pick(&OPS)),
        4 => Req::Sweep,
        _ => {
            let n = sim.int(1, 3);
            let combos = (0..n).map(|_| (*sim.pick(&RULES), *sim.pick(&OPS))).collect();
            Req::Topology(combos, sim.chance(40))
        }
    }
}

/// Runs something on a thread of its own, whose hash maps have a seed of their own.
fn on_new_thread<T: Send>(seed: u64, f: impl FnOnce() -> Result<T, Violation> + Send) -> Result<T, Violation> {
    set_hash_seed(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, f)
            .expect("failed to spawn a thread")
            .join()
            .unwrap_or_else(|p| Err(panic_violation("a request", p)))
    })
}

struct Request {
    case: Case,
    segs: Segments,
    req: Req,
}

impl Request {
    fn answer(&self) -> Answer {
        answer(&self.case, &self.segs, &self.req)
    }
}

fn same(what: &str, got: &Answer, want: &Answer, r: &Request) -> Outcome {
    if let Some(part) = want.difference(got) {
        return crate::sim::fail(
            "different-answer",
            format!("{what}: the {part} differ\n{}", r.case.describe()),
        );
    }
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    let n = sim.int(1, 3) as usize;
    let mut requests: Vec<Request> = Vec::new();
    for i in 0..n {
        let case = match i {
            // Something closely related to an earlier request.
            1.. if sim.chance(40) => {
                let mut c = requests[sim.below(i)].case.clone();
                match sim.choose(3) {
                    0 => c.eps = Some(c.eps() * 2.0),
                    1 => c.sets.swap(0, 1),
                    _ => {}
                }
                c
            }
            _ => gen_case(
                sim,
                Opts {
                    max_els: if sim.chance(4) { 120 } else { 36 },
                    crowds: 1,
                    crowd_size: 25,
                    ..Opts::default()
                },
            ),
        };
        sim.trace(|| case.describe());
        let segs = make_segments(sim, &case, false);
        let req = gen_req(sim);
        requests.push(Request { case, segs, req });
    }
    sim.reset_ticks(20_000_000);
    // What each request's answer is, the first time it's asked (in this process or, for most of
    // the properties, this run).
    let mut answers = Vec::new();
    for r in &requests {
        let a = on_new_thread(sim.choose(1 << 20) + 1, || guarded("the first request", || r.answer()))?;
        a.log(sim);
        if !a.0.is_empty() {
            sim.nontrivial();
        }
        answers.push(a);
    }

    // Again: on other threads, with other hash seeds, after other requests, and while the caches
    // forget things.
    let forget = match sim.choose(4) {
        0 => 0,
        1 => 4096,
        _ => *sim.pick(&[20u64, 200, 1000, 2500]),
    };
    let mut rates = [0; N_SITES];
    rates[0] = forget;
    sim.set_rates(rates);
    for k in 0..sim.int(1, 2) {
        let seed = sim.choose(1 << 20) + 1;
        let order = sim.permutation(n);
        let again = sim.chance(30);
        sim.note_fault("new_hash_seed");
        on_new_thread(seed, || {
            let _hook = engine_hook_for(sim, k as usize, None);
            for i in &order {
                for _ in 0..1 + again as usize {
                    let a = guarded("a repeated request", || requests[*i].answer())?;
                    same("a repeated request", &a, &answers[*i], &requests[*i])?;
                }
            }
            Ok(())
        })?;
    }

    // At the same time as others (and as itself).
    let threads = sim.int(2, 4) as usize;
    let rate = *sim.pick(&[2, 10, 40]);
    let tasks: Vec<Task<'_, Outcome>> = (0..threads)
        .map(|t| {
            let list: Vec<usize> = (0..sim.int(1, 2)).map(|_| sim.below(n)).collect();
            let seed = sim.choose(1 << 20) + 1;
            let (requests, answers) = (&requests, &answers);
            let task: Task<'_, Outcome> = Box::new(move |me: &Me| {
                set_hash_seed(seed);
                let (me2, me3) = (me.clone(), me.clone());
                let _hook = engine_hook_for(sim, 8 + t, Some(Box::new(move || me2.yield_now())));
                let _calls = on_calls(move |_| me3.yield_now());
                for i in list {
                    let a = guarded("a concurrent request", || requests[i].answer())?;
                    same("a concurrent request", &a, &answers[i], &requests[i])?;
                    me.yield_now();
                }
                Ok(())
            });
            task
        })
        .collect();
    let (results, switches) = run_all(sim, rate, tasks);
    sim.log(switches);
    for r in results {
        match r {
            Ok(r) => r?,
            Err(p) => return Err(panic_violation("a request", p)),
        }
    }
    Ok(())
}

