//! The simulator: the single owner of every choice, fault and scheduling decision of a run.
//!
//! A run is a pure function of (property, choices, faults, code). In generating mode the choices
//! come from one seeded PRNG and are recorded; in replay mode they come from the recorded list
//! (and are 0, the simplest choice, once that list is exhausted, which is what lets the minimiser
//! delete choices freely). Engine faults are decided from (fault seed, site, ordinal), and every
//! one that fires is recorded, so that a replay file can list them explicitly.

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::{Arc, Mutex, MutexGuard};

use crate::prng::{mix, Rng};

/// The kinds of engine faults (see `linesweeper::dst::Site`), in the order of their ids.
pub const SITES: [&str; 7] = [
    "forget_comparison",
    "keep_scanning",
    "spurious_touch",
    "no_slot_sharing",
    "slow_insertion",
    "slow_range",
    "extra_position",
];

pub const N_SITES: usize = SITES.len();

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fault {
    pub site: usize,
    pub ordinal: u64,
    pub arg: u64,
}

/// Where an actor is: fault decisions are a function of this.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Ordinals {
    /// The number of sweep lines so far.
    line: u64,
    /// How often each site was reached since then.
    sites: [u64; N_SITES],
}

enum Source {
    Gen(Rng),
    Fixed { seq: Vec<u64>, pos: usize },
}

pub struct Inner {
    source: Source,
    pub choices: Vec<u64>,
    fault_seed: u64,
    rates: [u64; N_SITES],
    listed: Option<HashMap<(usize, u64), u64>>,
    /// For each actor (see [`Sim::reset_actor`]), how often each site was reached.
    ordinals: Vec<Ordinals>,
    pub fired: Vec<Fault>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub log_len: u64,
    pub ticks: u64,
    pub tick_budget: u64,
    pub trace: Option<Vec<String>>,
    pub nontrivial: bool,
    pub sweep_lines: u64,
    pub threads: u64,
    pub switches: u64,
    pub shape: u64,
}

/// A handle to the simulator. Cheap to clone. There's never any contention on the lock, because
/// at most one simulated thread runs at a time.
#[derive(Clone)]
pub struct Sim(Arc<Mutex<Inner>>);

/// The payload of the panic that abandons a run that used up its step budget.
pub struct OutOfSteps;

pub struct Violation {
    /// What kind of failure it is. Minimisation keeps this the same.
    pub class: String,
    pub detail: String,
}

pub type Outcome = Result<(), Violation>;

pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::sim::fail($class, format!($($arg)*));
        }
    };
}

impl Sim {
    fn with_source(source: Source, fault_seed: u64, listed: Option<Vec<Fault>>) -> Self {
        Sim(Arc::new(Mutex::new(Inner {
            source,
            choices: Vec::new(),
            fault_seed,
            rates: [0; N_SITES],
            listed: listed.map(|fs| {
                fs.into_iter()
                    .map(|f| ((f.site, f.ordinal), f.arg))
                    .collect()
            }),
            ordinals: Vec::new(),
            fired: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            log_hash: 0x9e37_79b9,
            log_len: 0,
            ticks: 0,
            tick_budget: 2_000_000,
            trace: None,
            nontrivial: false,
            sweep_lines: 0,
            threads: 0,
            switches: 0,
            shape: 0,
        })))
    }

    pub fn generate(seed: u64) -> Self {
        Self::with_source(
            Source::Gen(Rng::new(seed)),
            mix(&[seed, 0xfa17]),
            None,
        )
    }

    pub fn replay(choices: Vec<u64>, faults: Vec<Fault>) -> Self {
        Self::with_source(
            Source::Fixed {
                seq: choices,
                pos: 0,
            },
            0,
            Some(faults),
        )
    }

    pub fn inner(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn enable_trace(&self) {
        self.inner().trace = Some(Vec::new());
    }

    // --- choices ---

    /// A number in `0..n`.
    pub fn choose(&self, n: u64) -> u64 {
        assert!(n > 0);
        let mut s = self.inner();
        let v = match &mut s.source {
            Source::Gen(rng) => ((rng.u64() as u128 * n as u128) >> 64) as u64,
            Source::Fixed { seq, pos } => {
                let v = seq.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        s.choices.push(v);
        v
    }

    pub fn below(&self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }

    /// An integer in `lo..=hi`.
    pub fn int(&self, lo: i64, hi: i64) -> i64 {
        lo + self.choose((hi - lo + 1) as u64) as i64
    }

    /// True with probability `p` percent. The simplest choice is "no".
    pub fn chance(&self, p: u64) -> bool {
        self.choose(100) >= 100 - p.min(100)
    }

    pub fn unit(&self) -> f64 {
        self.choose(1 << 53) as f64 / (1u64 << 53) as f64
    }

    pub fn range(&self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }

    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// A permutation of `0..n`. The simplest choice is the identity.
    pub fn permutation(&self, n: usize) -> Vec<usize> {
        let mut xs: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            xs.swap(i, j);
        }
        xs
    }

    // --- faults ---

    /// Decides which kinds of engine faults are enabled in this run, and how often they fire.
    pub fn plan_engine_faults(&self) {
        let mode = self.choose(10);
        let mut rates = [0u64; N_SITES];
        let levels = [8u64, 64, 400, 2048, 4096];
        match mode {
            0..=2 => {}
            3..=6 => {
                let site = self.below(N_SITES);
                rates[site] = *self.pick(&levels);
            }
            7 | 8 => {
                for r in rates.iter_mut() {
                    if self.chance(50) {
                        *r = *self.pick(&levels[..4]);
                    }
                }
            }
            _ => {
                let level = *self.pick(&levels[..4]);
                rates = [level; N_SITES];
            }
        }
        self.inner().rates = rates;
    }

    pub fn set_rates(&self, rates: [u64; N_SITES]) {
        self.inner().rates = rates;
    }

    pub fn any_rates(&self) -> bool {
        self.inner().rates.iter().any(|r| *r > 0)
    }

    /// Should an engine fault happen now?
    pub fn engine_fault(&self, actor: usize, site: usize) -> Option<u64> {
        let mut s = self.inner();
        if s.ordinals.len() <= actor {
            s.ordinals.resize(actor + 1, Ordinals::default());
        }
        let o = &mut s.ordinals[actor];
        let ordinal = ((actor as u64) << 48) + (o.line << 20) + o.sites[site];
        o.sites[site] += 1;
        let arg = match &s.listed {
            Some(listed) => listed.get(&(site, ordinal)).copied(),
            None => {
                if s.rates[site] == 0 {
                    None
                } else {
                    let h = mix(&[s.fault_seed, site as u64, ordinal]);
                    (h % 4096 < s.rates[site]).then_some((h >> 12) % 1024)
                }
            }
        };
        if let Some(arg) = arg {
            s.fired.push(Fault { site, ordinal, arg });
            *s.faults.entry(SITES[site].to_owned()).or_default() += 1;
        }
        drop(s);
        arg
    }

    /// Makes an actor's faults start from the beginning again, so that the actor can repeat
    /// what it did before.
    pub fn reset_actor(&self, actor: usize) {
        self.set_ordinals(actor, Ordinals::default());
    }

    /// Called at every new sweep line.
    pub fn next_line(&self, actor: usize) {
        let mut o = self.ordinals(actor);
        o.line += 1;
        o.sites = [0; N_SITES];
        self.set_ordinals(actor, o);
        self.inner().sweep_lines += 1;
    }

    /// Counts simulated threads, and switches between them.
    pub fn ran_threads(&self, threads: u64, switches: u64) {
        let mut s = self.inner();
        s.threads += threads;
        s.switches += switches;
    }

    pub fn ordinals(&self, actor: usize) -> Ordinals {
        self.inner().ordinals.get(actor).copied().unwrap_or_default()
    }

    pub fn set_ordinals(&self, actor: usize, to: Ordinals) {
        let mut s = self.inner();
        if s.ordinals.len() <= actor {
            s.ordinals.resize(actor + 1, Ordinals::default());
        }
        s.ordinals[actor] = to;
    }

    /// Records a fault that was injected by the scenario itself.
    pub fn note_fault(&self, kind: &str) {
        *self.inner().faults.entry(kind.to_owned()).or_default() += 1;
    }

    pub fn probe(&self, name: &str) {
        *self.inner().probes.entry(name.to_owned()).or_default() += 1;
    }

    pub fn probe_if(&self, cond: bool, name: &str) {
        if cond {
            self.probe(name)
        }
    }

    pub fn nontrivial(&self) {
        self.inner().nontrivial = true;
    }

    /// Records a hash of the schedule/state that was reached, for counting distinct ones.
    pub fn shape(&self, x: u64) {
        let mut s = self.inner();
        s.shape = mix(&[s.shape, x]);
    }

    /// One simulated step. Returns true if the step budget is used up.
    pub fn tick(&self) -> bool {
        let mut s = self.inner();
        s.ticks += 1;
        s.ticks > s.tick_budget
    }

    pub fn reset_ticks(&self, budget: u64) {
        let mut s = self.inner();
        s.ticks = 0;
        s.tick_budget = budget;
    }

    // --- the event log ---

    pub fn log(&self, x: u64) {
        let mut s = self.inner();
        s.log_hash = mix(&[s.log_hash, x]);
        s.log_len += 1;
    }

    pub fn log_f(&self, x: f64) {
        self.log(x.to_bits());
    }

    pub fn log_str(&self, x: &str) {
        for chunk in x.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..chunk.len()].copy_from_slice(chunk);
            self.log(u64::from_le_bytes(b));
        }
    }

    /// Adds a line to the human-readable trace, if there is one.
    pub fn trace(&self, f: impl FnOnce() -> String) {
        if self.inner().trace.is_some() {
            let line = f();
            if std::env::var_os("LSIM_LIVE").is_some() {
                eprintln!("{line}");
            }
            if let Some(t) = &mut self.inner().trace {
                if t.len() < 4000 {
                    t.push(line);
                }
            }
        }
    }
}

/// The engine sites, as ids.
#[cfg(linesweeper_dst)]
fn site_id(site: linesweeper::dst::Site) -> Option<usize> {
    use linesweeper::dst::Site;
    Some(match site {
        Site::Tick => return None,
        Site::ForgetComparison => 0,
        Site::KeepScanning => 1,
        Site::SpuriousTouch => 2,
        Site::NoSlotSharing => 3,
        Site::SlowInsertion => 4,
        Site::SlowRange => 5,
        Site::ExtraPosition => 6,
    })
}

/// Installs the engine hook on this thread for the lifetime of the returned guard. `on_site` is
/// called first at every hook point: it's where threads yield and where callers get crashed.
#[cfg(linesweeper_dst)]
pub fn engine_hook_for(sim: &Sim, actor: usize, mut on_site: Option<Box<dyn FnMut()>>) -> HookGuard {
    let sim = sim.clone();
    let prev = linesweeper::dst::set_hook(Some(Box::new(move |site| {
        if let Some(f) = &mut on_site {
            f();
        }
        match site_id(site) {
            None => {
                sim.next_line(actor);
                if sim.tick() {
                    std::panic::panic_any(OutOfSteps);
                }
                None
            }
            Some(id) => sim.engine_fault(actor, id),
        }
    })));
    HookGuard(Some(prev))
}

/// The engine hook for scenarios with a single actor.
pub fn engine_hook(sim: &Sim) -> HookGuard {
    engine_hook_for(sim, 0, None)
}

#[cfg(linesweeper_dst)]
pub struct HookGuard(Option<Option<Box<dyn FnMut(linesweeper::dst::Site) -> Option<u64>>>>);

#[cfg(linesweeper_dst)]
impl Drop for HookGuard {
    fn drop(&mut self) {
        if let Some(prev) = self.0.take() {
            linesweeper::dst::set_hook(prev);
        }
    }
}

#[cfg(not(linesweeper_dst))]
pub fn engine_hook_for(_sim: &Sim, _actor: usize, _on_site: Option<Box<dyn FnMut()>>) -> HookGuard {
    HookGuard
}

#[cfg(not(linesweeper_dst))]
pub struct HookGuard;

#[cfg(not(linesweeper_dst))]
impl Drop for HookGuard {
    fn drop(&mut self) {}
}

pub const HOOKS_ON: bool = cfg!(linesweeper_dst);

pub fn hex(x: u64) -> String {
    let mut s = String::new();
    let _ = write!(s, "{x:016x}");
    s
}
