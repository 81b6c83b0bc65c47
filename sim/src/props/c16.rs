//! C16: topologies, segments and contours can be shared between threads.

use linesweeper::sweep::Sweeper;
use linesweeper::topology::{Contours, Topology};
use linesweeper::{BinaryOp, FillRule, Segments};

use super::answers::*;
use super::cb::{on_calls, Wn};
use super::common::*;
use super::sweeps::*;
use crate::ensure;
use crate::prng::mix;
use crate::run::{guarded, panic_violation};
use crate::sched::{run_all, Me, Task};
use crate::sim::{engine_hook_for, fail, Outcome, Sim, N_SITES};
use crate::work::{gen_case, Case, Opts};

/// The scheduler only ever runs one thread at a time, so that sharing this is harmless. Whether
/// the compiler agrees that it can be shared is checked separately.
struct Shared<T>(T);

unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct IsShareable<T>(std::marker::PhantomData<T>);

trait NotShareable {
    const YES: bool = false;
}

impl<T> NotShareable for T {}

impl<T: Send + Sync> IsShareable<T> {
    const YES: bool = true;
}

struct World {
    topology: Topology<Wn>,
    contours: Contours,
    segs: Segments,
}

impl World {
    fn new(sim_segs: &Segments, case: &Case) -> Self {
        let topology = build(case);
        let contours = topology.contours(pred(FillRule::EvenOdd, BinaryOp::Xor));
        World {
            topology,
            contours,
            segs: sim_segs.clone(),
        }
    }
}

#[derive(Clone, Debug)]
enum Query {
    Contours(FillRule, BinaryOp),
    Positions,
    OutputSegments,
    BoundingBox,
    Shared,
    Groups,
    Sweep(f64),
    Lines(f64),
    Segments,
    Clone,
}

fn gen_query(sim: &Sim) -> Query {
    match sim.choose(14) {
        0..=3 => Query::Contours(*sim.pick(&RULES), *sim.pick(&OPS)),
        4 => Query::Positions,
        5 => Query::OutputSegments,
        6 => Query::BoundingBox,
        7 => Query::Shared,
        8 => Query::Groups,
        9 | 10 => Query::Sweep(*sim.pick(&[1.0, 2.0, 0.5])),
        11 => Query::Lines(*sim.pick(&[1.0, 2.0, 0.5])),
        12 => Query::Segments,
        _ => Query::Clone,
    }
}

fn ask(w: &World, eps: f64, q: &Query, pause: &mut dyn FnMut()) -> u64 {
    match q {
        Query::Contours(rule, op) => {
            let c = w.topology.contours(pred(*rule, *op));
            mix(&[contours_hash(&c), groups_hash(&c)])
        }
        Query::Positions => positions_hash(&w.topology),
        Query::OutputSegments => segments_hash(&w.topology, wn_code),
        Query::BoundingBox => {
            let b = w.topology.bounding_box();
            mix(&[b.x0.to_bits(), b.y0.to_bits(), b.x1.to_bits(), b.y1.to_bits()])
        }
        Query::Shared => contours_hash(&w.contours),
        Query::Groups => groups_hash(&w.contours),
        Query::Sweep(f) => sweep_hash(&w.segs, eps * f),
        Query::Lines(f) => {
            let names = Names::new(&w.segs);
            let mut sweeper = Sweeper::new(&w.segs, eps * f);
            let mut h = Hash::default();
            let mut l = 0;
            while let Some(rec) = read_line(&mut sweeper, &w.segs, &names, l, &mut Fresh, &mut ReadAll) {
                h.f(rec.y);
                h.u(mix(&rec.order.iter().map(|s| *s as u64).collect::<Vec<_>>()));
                l += 1;
                pause();
            }
            h.done()
        }
        Query::Segments => segments_view(&w.segs),
        Query::Clone => {
            let t = w.topology.clone();
            pause();
            let s = w.segs.clone();
            pause();
            let c = w.contours.clone();
            mix(&[segments_hash(&t, wn_code), segments_view(&s), contours_hash(&c)])
        }
    }
}

pub fn run(sim: &Sim) -> Outcome {
    let case = gen_case(
        sim,
        Opts {
            max_els: if sim.chance(4) { 100 } else { 36 },
            crowds: 1,
            crowd_size: 30,
            ..Opts::default()
        },
    );
    sim.trace(|| case.describe());
    sim.reset_ticks(20_000_000);
    ensure!(
        IsShareable::<Topology<Wn>>::YES
            && IsShareable::<Topology<linesweeper::topology::BinaryWindingNumber>>::YES
            && IsShareable::<Segments>::YES
            && IsShareable::<Contours>::YES,
        "not-shareable",
        "topologies, segments or contours can't be shared between threads any more"
    );
    let segs = make_segments(sim, &case, sim.chance(30));
    let threads = sim.int(2, 4) as usize;
    let queries: Vec<Vec<Query>> = (0..threads)
        .map(|_| (0..sim.int(1, 3)).map(|_| gen_query(sim)).collect())
        .collect();
    // The answers when there's nobody else, each from a world of its own.
    let mut answers: Vec<Vec<u64>> = Vec::new();
    for qs in &queries {
        let mut v = Vec::new();
        for q in qs {
            let a = guarded("a query on its own", || {
                ask(&World::new(&segs, &case), case.eps(), q, &mut || {})
            })?;
            sim.log(a);
            v.push(a);
        }
        answers.push(v);
    }
    // All of them, in the same world.
    let world = Shared(guarded("building", || World::new(&segs, &case))?);
    let mut rates = [0; N_SITES];
    rates[0] = *sim.pick(&[0u64, 0, 100, 2000]);
    sim.set_rates(rates);
    let rate = *sim.pick(&[3, 20, 60]);
    let tasks: Vec<Task<'_, Outcome>> = queries
        .iter()
        .enumerate()
        .map(|(t, qs)| {
            let (world, answers, case) = (&world, &answers[t], &case);
            let task: Task<'_, Outcome> = Box::new(move |me: &Me| {
                let (me2, me3) = (me.clone(), me.clone());
                let _hook = engine_hook_for(sim, t, Some(Box::new(move || me2.yield_now())));
                let _calls = on_calls(move |_| me3.yield_now());
                for (q, want) in qs.iter().zip(answers) {
                    let got = guarded(&format!("{q:?}, concurrently"), || {
                        ask(world.get(), case.eps(), q, &mut || me.yield_now())
                    })?;
                    if got != *want {
                        return fail(
                            "different-answer",
                            format!("{q:?} gave a different answer in company\n{}", case.describe()),
                        );
                    }
                    me.yield_now();
                }
                Ok(())
            });
            task
        })
        .collect();
    let (results, switches) = run_all(sim, rate, tasks);
    sim.log(switches);
    if switches > threads as u64 {
        sim.nontrivial();
    }
    for r in results {
        match r {
            Ok(r) => r?,
            Err(p) => return Err(panic_violation("a query", p)),
        }
    }
    // And nobody left anything behind.
    for q in queries.iter().flatten().zip(answers.iter().flatten()).take(2) {
        let got = guarded("a query, afterwards", || ask(world.get(), case.eps(), q.0, &mut || {}))?;
        ensure!(
            got == *q.1,
            "different-answer-afterwards",
            "{:?} gave a different answer afterwards\n{}",
            q.0,
            case.describe()
        );
    }
    Ok(())
}
