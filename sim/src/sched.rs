//! A scheduler for simulated threads: real threads, of which exactly one runs at any time. The
//! simulator picks which one, at every yield point.

use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Condvar, Mutex};

use crate::sim::Sim;

struct State {
    current: usize,
    alive: Vec<bool>,
    switches: u64,
}

struct Shared {
    sim: Sim,
    state: Mutex<State>,
    wake: Vec<Condvar>,
    /// The chance, in percent, of considering a switch at a yield point.
    rate: u64,
}

/// A simulated thread's handle to the scheduler.
#[derive(Clone)]
pub struct Me {
    shared: Arc<Shared>,
    pub id: usize,
}

impl Me {
    fn hand_over(&self, finished: bool) {
        let sh = &self.shared;
        let mut st = sh.state.lock().unwrap();
        debug_assert_eq!(st.current, self.id);
        if finished {
            st.alive[self.id] = false;
        } else if !sh.sim.chance(sh.rate) {
            return;
        }
        let others: Vec<usize> = (0..st.alive.len())
            .filter(|i| *i != self.id && st.alive[*i])
            .collect();
        if others.is_empty() {
            return;
        }
        let next = others[sh.sim.below(others.len())];
        st.switches += 1;
        sh.sim.shape(((self.id as u64) << 8) | next as u64);
        sh.sim.log(0x5c_0000 | ((self.id as u64) << 8) | next as u64);
        st.current = next;
        sh.wake[next].notify_one();
        if !finished {
            while st.current != self.id {
                st = sh.wake[self.id].wait(st).unwrap();
            }
        }
    }

    /// A point at which the simulator may decide to run another thread.
    pub fn yield_now(&self) {
        self.hand_over(false);
    }

    fn wait_for_turn(&self) {
        let sh = &self.shared;
        let mut st = sh.state.lock().unwrap();
        while st.current != self.id {
            st = sh.wake[self.id].wait(st).unwrap();
        }
    }
}

pub type Task<'a, T> = Box<dyn FnOnce(&Me) -> T + Send + 'a>;

/// Runs all the tasks to completion, and returns their results (or the payloads of their panics)
/// and the number of context switches.
pub fn run_all<'a, T: Send>(
    sim: &Sim,
    rate: u64,
    tasks: Vec<Task<'a, T>>,
) -> (Vec<std::thread::Result<T>>, u64) {
    let n = tasks.len();
    if n == 0 {
        return (Vec::new(), 0);
    }
    let shared = Arc::new(Shared {
        sim: sim.clone(),
        state: Mutex::new(State {
            current: sim.below(n),
            alive: vec![true; n],
            switches: 0,
        }),
        wake: (0..n).map(|_| Condvar::new()).collect(),
        rate,
    });
    let results = std::thread::scope(|scope| {
        let handles: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(id, task)| {
                let me = Me {
                    shared: shared.clone(),
                    id,
                };
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        me.wait_for_turn();
                        let ret = std::panic::catch_unwind(AssertUnwindSafe(|| task(&me)))
                            .map_err(crate::run::locate);
                        me.hand_over(true);
                        ret
                    })
                    .expect("failed to spawn a thread")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(Err))
            .collect()
    });
    let switches = shared.state.lock().unwrap().switches;
    sim.ran_threads(n as u64, switches);
    (results, switches)
}
