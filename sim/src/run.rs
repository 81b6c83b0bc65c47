//! Executing, recording, minimising and replaying runs.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::prng::mix;
use crate::props;
use crate::sim::{Fault, OutOfSteps, Sim, Violation, SITES};

// --- hash seeds ---

/// The standard library seeds its hash maps, once per thread, using this function. Overriding
/// it makes the iteration order of hash maps one more thing that the simulator controls.
static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static HASH_SEED_REQUESTS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    HASH_SEED_REQUESTS.fetch_add(1, Ordering::Relaxed);
    let seed = HASH_SEED.load(Ordering::Relaxed);
    for i in 0..len {
        *buf.add(i) = (mix(&[seed, (i / 8) as u64]) >> (8 * (i % 8))) as u8;
    }
    len as isize
}

/// Sets the hash seed for threads that haven't used a hash map yet.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.store(seed, Ordering::Relaxed);
}

// --- panics ---

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Panics that are part of the simulation (an injected crash of user code, say).
pub struct InjectedPanic(#[allow(dead_code)] pub u64);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<OutOfSteps>() {
            "step budget exceeded".to_owned()
        } else if info.payload().is::<InjectedPanic>() {
            "injected".to_owned()
        } else {
            "?".to_owned()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs something, turning panics into violations.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => Err(panic_violation(what, p)),
    }
}

/// A panic that happened on another simulated thread.
pub struct Located(String, String);

/// Turns the payload of a panic on this thread into one that says where it was.
pub fn locate(p: Box<dyn std::any::Any + Send>) -> Box<dyn std::any::Any + Send> {
    if p.is::<OutOfSteps>() || p.is::<InjectedPanic>() {
        return p;
    }
    let (loc, msg) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default();
    Box::new(Located(loc, msg))
}

pub fn panic_violation(what: &str, p: Box<dyn std::any::Any + Send>) -> Violation {
    if p.is::<OutOfSteps>() {
        return Violation {
            class: "no-progress".into(),
            detail: format!("{what}: the step budget was used up"),
        };
    }
    let (loc, msg) = match p.downcast::<Located>() {
        Ok(l) => (l.0, l.1),
        Err(_) => LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default(),
    };
    Violation {
        class: format!("panic@{loc}"),
        detail: format!("{what} panicked at {loc}: {msg}"),
    }
}

// --- executing ---

pub enum RunSpec {
    Seed(u64),
    Fixed(Vec<u64>, Vec<Fault>),
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub choices: Vec<u64>,
    pub fired: Vec<Fault>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub log_len: u64,
    pub sweep_lines: u64,
    pub threads: u64,
    pub switches: u64,
    pub shape: u64,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

pub fn run_seed(prop: &str, base: u64, index: u64) -> u64 {
    let mut parts = vec![base, index];
    parts.extend(prop.bytes().map(|b| b as u64));
    mix(&parts)
}

/// Executes one run, on a fresh thread.
pub fn execute(prop: &str, spec: RunSpec, trace: bool) -> RunResult {
    let Some(p) = props::find(prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let sim = match spec {
        RunSpec::Seed(seed) => Sim::generate(seed),
        RunSpec::Fixed(choices, faults) => Sim::replay(choices, faults),
    };
    if trace {
        sim.enable_trace();
    }
    // The hash seed is the first choice of every run.
    set_hash_seed(sim.choose(1 << 20) + 1);
    let sim2 = sim.clone();
    let run = p.run;
    let violation = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            match std::panic::catch_unwind(AssertUnwindSafe(|| run(&sim2))) {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(p) => Some(panic_violation("the run", p)),
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            Some(Violation {
                class: "panic@join".into(),
                detail: "the simulated process died".into(),
            })
        });
    if let Some(v) = &violation {
        sim.log_str(&v.class);
    }
    let mut s = sim.inner();
    for f in std::mem::take(&mut s.fired) {
        s.shape = mix(&[s.shape, f.site as u64, f.ordinal, f.arg]);
        s.fired.push(f);
    }
    RunResult {
        violation,
        choices: std::mem::take(&mut s.choices),
        fired: std::mem::take(&mut s.fired),
        faults: std::mem::take(&mut s.faults),
        probes: std::mem::take(&mut s.probes),
        log_hash: s.log_hash,
        log_len: s.log_len,
        sweep_lines: s.sweep_lines,
        threads: s.threads,
        switches: s.switches,
        shape: s.shape,
        nontrivial: s.nontrivial,
        trace: s.trace.take().unwrap_or_default(),
    }
}

// --- statistics ---

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub events: u64,
    pub sweep_lines: u64,
    pub threads: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub fault_runs: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub with_faults: u64,
    pub rerun: u64,
    pub diverged: Vec<u64>,
    pub samples: Vec<(u64, Vec<String>)>,
    pub violations: u64,
    pub cut_short: bool,
    pub wall_s: f64,
    /// The slowest run, and how many seconds it took.
    pub slowest: (u64, f64),
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

impl Stats {
    pub fn add(&mut self, r: &RunResult) {
        self.runs += 1;
        self.events += r.log_len;
        self.sweep_lines += r.sweep_lines;
        self.threads += r.threads;
        self.switches += r.switches;
        if r.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(r.log_hash);
        }
        self.shapes.insert(r.shape);
        if !r.faults.is_empty() {
            self.with_faults += 1;
        }
        for (k, v) in &r.faults {
            *self.faults.entry(k.clone()).or_default() += v;
            *self.fault_runs.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }

    pub fn to_json(&self) -> String {
        let map = |m: &BTreeMap<String, u64>| {
            let items: Vec<String> = m
                .iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect();
            format!("{{{}}}", items.join(","))
        };
        let set = |m: &HashSet<u64>| {
            let items: Vec<String> = m.iter().map(|h| format!("\"{h:x}\"")).collect();
            format!("[{}]", items.join(","))
        };
        let samples: Vec<String> = self
            .samples
            .iter()
            .map(|(i, t)| {
                let t: Vec<String> = t.iter().map(|s| json_str(s)).collect();
                format!("{{\"run\":{},\"trace\":[{}]}}", i, t.join(","))
            })
            .collect();
        format!(
            "{{\"runs\":{},\"nontrivial\":{},\"events\":{},\"sweep_lines\":{},\"threads\":{},\"switches\":{},\"with_faults\":{},\"rerun\":{},\"diverged\":{:?},\"violations\":{},\"cut_short\":{},\"wall_s\":{},\"slowest\":[{},{:.2}],\"hash_seed_requests\":{},\"faults\":{},\"fault_runs\":{},\"probes\":{},\"samples\":[{}],\"distinct\":{},\"shapes\":{}}}",
            self.runs,
            self.nontrivial,
            self.events,
            self.sweep_lines,
            self.threads,
            self.switches,
            self.with_faults,
            self.rerun,
            self.diverged,
            self.violations,
            self.cut_short,
            self.wall_s,
            self.slowest.0,
            self.slowest.1,
            HASH_SEED_REQUESTS.load(Ordering::Relaxed),
            map(&self.faults),
            map(&self.fault_runs),
            map(&self.probes),
            samples.join(","),
            set(&self.distinct),
            set(&self.shapes),
        )
    }
}

// --- replay files ---

#[derive(Clone)]
pub struct ReplayFile {
    pub prop: String,
    pub base_seed: u64,
    pub index: u64,
    pub hooks: bool,
    pub class: String,
    pub log_hash: u64,
    pub choices: Vec<u64>,
    pub faults: Vec<Fault>,
    pub detail: String,
    pub trace: Vec<String>,
    /// Generate the choices from the seed, instead of taking them from the file.
    pub generate: bool,
}

impl ReplayFile {
    pub fn from_result(prop: &str, base: u64, index: u64, r: &RunResult, v: &Violation) -> Self {
        ReplayFile {
            prop: prop.to_owned(),
            base_seed: base,
            index,
            hooks: crate::sim::HOOKS_ON,
            class: v.class.clone(),
            log_hash: r.log_hash,
            choices: r.choices.clone(),
            faults: r.fired.clone(),
            detail: v.detail.clone(),
            trace: r.trace.clone(),
            generate: false,
        }
    }

    pub fn save(&self, path: &str) {
        let mut s = String::new();
        let _ = writeln!(s, "lsim-replay 1");
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {} run {}", self.base_seed, self.index);
        let _ = writeln!(s, "hooks {}", self.hooks);
        let _ = writeln!(s, "class {}", self.class);
        let _ = writeln!(s, "log {:016x}", self.log_hash);
        let cs: Vec<String> = self.choices.iter().map(|c| c.to_string()).collect();
        let _ = writeln!(s, "choices {}", cs.join(" "));
        for f in &self.faults {
            let _ = writeln!(s, "fault {} {} {}", SITES[f.site], f.ordinal, f.arg);
        }
        for l in self.detail.lines() {
            let _ = writeln!(s, "# {l}");
        }
        if !self.trace.is_empty() {
            let _ = writeln!(s, "# trace of the run:");
        }
        for t in &self.trace {
            for l in t.lines() {
                let _ = writeln!(s, "#   {l}");
            }
        }
        std::fs::write(path, s).unwrap();
    }

    pub fn load(path: &str) -> Self {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("{path}: {e}");
            std::process::exit(2);
        });
        let mut rf = ReplayFile {
            prop: String::new(),
            base_seed: 0,
            index: 0,
            hooks: false,
            class: String::new(),
            log_hash: 0,
            choices: Vec::new(),
            faults: Vec::new(),
            detail: String::new(),
            trace: Vec::new(),
            generate: false,
        };
        for line in text.lines() {
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => rf.prop = v.trim().to_owned(),
                "seed" => {
                    let w: Vec<&str> = v.split_whitespace().collect();
                    rf.base_seed = w.first().and_then(|s| s.parse().ok()).unwrap_or(0);
                    rf.index = w.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
                }
                "hooks" => rf.hooks = v.trim() == "true",
                "mode" => rf.generate = v.trim() == "generate",
                "class" => rf.class = v.to_owned(),
                "log" => rf.log_hash = u64::from_str_radix(v.trim(), 16).unwrap_or(0),
                "choices" => {
                    rf.choices = v
                        .split_whitespace()
                        .filter_map(|s| s.parse().ok())
                        .collect()
                }
                "fault" => {
                    let w: Vec<&str> = v.split_whitespace().collect();
                    if let [site, ord, arg] = w[..] {
                        if let Some(site) = SITES.iter().position(|s| *s == site) {
                            rf.faults.push(Fault {
                                site,
                                ordinal: ord.parse().unwrap_or(0),
                                arg: arg.parse().unwrap_or(0),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        rf
    }
}

// --- minimising ---

/// Shrinks the fault list and then the choices, as long as the class of the violation stays
/// the same.
pub fn minimise(rf: &ReplayFile, budget: Duration) -> ReplayFile {
    let t0 = Instant::now();
    let mut choices = rf.choices.clone();
    let mut faults = rf.faults.clone();
    let fails = |choices: &[u64], faults: &[Fault]| -> Option<RunResult> {
        let r = execute(
            &rf.prop,
            RunSpec::Fixed(choices.to_vec(), faults.to_vec()),
            false,
        );
        match &r.violation {
            Some(v) if v.class == rf.class => Some(r),
            _ => None,
        }
    };
    let out_of_time = || t0.elapsed() > budget;

    if fails(&choices, &faults).is_some() {
        loop {
            let mut progress = false;
            // Faults: all at once, then in chunks.
            let mut chunk = faults.len();
            while chunk > 0 && !faults.is_empty() && !out_of_time() {
                let mut i = 0;
                while i < faults.len() && !out_of_time() {
                    let mut cand = faults.clone();
                    cand.drain(i..(i + chunk).min(cand.len()));
                    if fails(&choices, &cand).is_some() {
                        faults = cand;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
            // Delete choices.
            let mut chunk = (choices.len() / 2).max(1);
            while chunk > 0 && !out_of_time() {
                let mut i = 0;
                while i < choices.len() && !out_of_time() {
                    let mut cand = choices.clone();
                    cand.drain(i..(i + chunk).min(cand.len()));
                    if let Some(r) = fails(&cand, &faults) {
                        // What was really used might be shorter than what we offered.
                        let mut used = r.choices.clone();
                        while used.last() == Some(&0) {
                            used.pop();
                        }
                        let better = used.len() < choices.len();
                        choices = if better { used } else { cand };
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
            // Simplify choices.
            for i in 0..choices.len() {
                if out_of_time() || i >= choices.len() {
                    break;
                }
                if choices[i] == 0 {
                    continue;
                }
                let orig = choices[i];
                let mut cand = choices.clone();
                cand[i] = 0;
                if fails(&cand, &faults).is_some() {
                    choices = cand;
                    progress = true;
                    continue;
                }
                // binary search downwards
                let mut lo = 0;
                let mut hi = orig;
                let mut steps = 0;
                while hi - lo > 1 && steps < 12 && !out_of_time() {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = choices.clone();
                    cand[i] = mid;
                    if fails(&cand, &faults).is_some() {
                        hi = mid;
                        choices = cand;
                        progress = true;
                    } else {
                        lo = mid;
                    }
                    steps += 1;
                }
            }
            if !progress || out_of_time() {
                break;
            }
        }
    }
    let r = execute(
        &rf.prop,
        RunSpec::Fixed(choices.clone(), faults.clone()),
        true,
    );
    match &r.violation {
        Some(v) if v.class == rf.class => {
            let mut out = ReplayFile::from_result(&rf.prop, rf.base_seed, rf.index, &r, v);
            out.choices = choices;
            out.faults = faults;
            out
        }
        _ => rf.clone(),
    }
}
