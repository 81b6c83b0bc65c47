//! `lsim`: deterministic simulation of linesweeper, with fault injection.
//!
//! The driver (`/verif/check.py`) runs several of these processes at once, each over its share of
//! the run indices of a batch. Which process executes which run has no influence on the run.

mod corpus;
mod oracle;
mod prng;
mod props;
mod run;
mod sched;
mod sim;
mod work;

use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::time::{Duration, Instant};

use run::{RunResult, RunSpec};

fn arg<T: std::str::FromStr>(args: &[String], i: usize) -> T {
    args.get(i)
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| usage())
}

fn usage() -> ! {
    eprintln!(
        "usage:
  lsim list
  lsim batch PROP SEED START STRIDE COUNT SECONDS OUTDIR   run a share of a batch
  lsim one PROP SEED INDEX                                 run one, with a trace
  lsim min IN OUT SECONDS                                  minimise a replay file
  lsim replay FILE                                         replay a file
  lsim known PROP                                          check the known findings
  lsim hashes PROP SEED START COUNT                        print event log hashes"
    );
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    run::install_panic_hook();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.name);
            }
        }
        Some("batch") => batch(&args),
        Some("one") => {
            let prop: String = arg(&args, 1);
            let seed = run::run_seed(&prop, arg(&args, 2), arg(&args, 3));
            let r = run::execute(&prop, RunSpec::Seed(seed), true);
            print_result(&prop, &r);
        }
        Some("min") => {
            let input: String = arg(&args, 1);
            let output: String = arg(&args, 2);
            let secs: f64 = arg(&args, 3);
            let rf = run::ReplayFile::load(&input);
            let min = run::minimise(&rf, Duration::from_secs_f64(secs));
            min.save(&output);
        }
        Some("replay") => {
            let input: String = arg(&args, 1);
            let rf = run::ReplayFile::load(&input);
            let spec = if rf.generate {
                RunSpec::Seed(run::run_seed(&rf.prop, rf.base_seed, rf.index))
            } else {
                RunSpec::Fixed(rf.choices.clone(), rf.faults.clone())
            };
            let r = run::execute(&rf.prop, spec, true);
            print_result(&rf.prop, &r);
            match &r.violation {
                Some(v) => {
                    let same = v.class == rf.class && r.log_hash == rf.log_hash;
                    println!(
                        "replay: {}",
                        if same {
                            "reproduced exactly"
                        } else {
                            "DIFFERENT from the recorded failure"
                        }
                    );
                    std::process::exit(1);
                }
                None => {
                    println!("replay: no violation");
                }
            }
        }
        Some("known") => {
            let prop: String = arg(&args, 1);
            for (what, outcome) in props::known(&prop) {
                match outcome {
                    Ok(()) => println!("OK {what}"),
                    Err(v) => println!("FAILS {what} [{}]", v.class),
                }
            }
        }
        Some("hashes") => {
            let prop: String = arg(&args, 1);
            let base: u64 = arg(&args, 2);
            let start: u64 = arg(&args, 3);
            let count: u64 = arg(&args, 4);
            for i in start..start + count {
                let r = run::execute(&prop, RunSpec::Seed(run::run_seed(&prop, base, i)), false);
                println!("{} {:016x} {} {}", i, r.log_hash, r.log_len, r.violation.is_some());
            }
        }
        _ => usage(),
    }
}

fn print_result(prop: &str, r: &RunResult) {
    println!("property {prop}");
    for t in &r.trace {
        println!("  {t}");
    }
    println!("log: {} events, hash {:016x}", r.log_len, r.log_hash);
    println!("choices: {:?}", r.choices);
    println!("faults: {:?}", r.fired);
    println!("probes: {:?}", r.probes);
    match &r.violation {
        Some(v) => println!("violation: {}\n{}", v.class, v.detail),
        None => println!("no violation"),
    }
}

fn batch(args: &[String]) {
    let prop: String = arg(args, 1);
    let base: u64 = arg(args, 2);
    let start: u64 = arg(args, 3);
    let stride: u64 = arg(args, 4);
    let count: u64 = arg(args, 5);
    let secs: f64 = arg(args, 6);
    let dir: String = arg(args, 7);

    let t0 = Instant::now();
    let progress = std::fs::File::create(format!("{dir}/progress.{start}")).unwrap();
    let stop_file = format!("{dir}/stop");
    let mut stats = run::Stats::default();
    let mut i = start;
    let mut last_sample = 0;
    // For exploring: don't stop at the first violation.
    let keep_going = std::env::var_os("LSIM_KEEP_GOING").is_some();
    while i < count {
        if t0.elapsed().as_secs_f64() > secs {
            stats.cut_short = true;
            break;
        }
        if let Ok(s) = std::fs::read_to_string(&stop_file) {
            // Someone found a violation. Keep going until we know whether we have an earlier one.
            if s.trim().parse::<u64>().map(|v| v < i).unwrap_or(false) {
                break;
            }
        }
        let _ = progress.write_all_at(format!("{i:<20}\n").as_bytes(), 0);
        let seed = run::run_seed(&prop, base, i);
        let started = Instant::now();
        let r = run::execute(&prop, RunSpec::Seed(seed), false);
        stats.add(&r);
        let took = started.elapsed().as_secs_f64();
        if took > stats.slowest.1 {
            stats.slowest = (i, took);
        }
        // Every so often, run it again: the event log has to be the same.
        if (i / stride) % 97 == 3 {
            let again = run::execute(&prop, RunSpec::Seed(seed), false);
            stats.rerun += 1;
            if again.log_hash != r.log_hash {
                stats.diverged.push(i);
            }
        }
        if r.nontrivial && stats.samples.len() < 3 && r.log_len != last_sample {
            last_sample = r.log_len;
            let t = run::execute(&prop, RunSpec::Seed(seed), true);
            stats
                .samples
                .push((i, t.trace.iter().take(30).cloned().collect::<Vec<_>>()));
        }
        if let Some(v) = &r.violation {
            let rf = run::ReplayFile::from_result(&prop, base, i, &r, v);
            rf.save(&format!("{dir}/violation.{i}"));
            stats.violations += 1;
            if keep_going {
                i += stride;
                continue;
            }
            // Several workers might be racing here: all that matters is that the file contains
            // some index with a violation.
            let tmp = format!("{dir}/stop.{start}");
            let _ = std::fs::write(&tmp, format!("{i}"));
            let better = std::fs::read_to_string(&stop_file)
                .ok()
                .and_then(|s| s.trim().parse::<u64>().ok())
                .map(|v| i < v)
                .unwrap_or(true);
            if better {
                let _ = std::fs::rename(&tmp, &stop_file);
            }
            break;
        }
        i += stride;
    }
    stats.wall_s = t0.elapsed().as_secs_f64();
    let out = format!("{dir}/stats.{start}");
    let mut f = std::fs::File::create(format!("{out}.tmp")).unwrap();
    f.write_all(stats.to_json().as_bytes()).unwrap();
    drop(f);
    std::fs::rename(format!("{out}.tmp"), out).unwrap();
    let _ = progress.write_all_at(format!("{:<20}\n", "done").as_bytes(), 0);
}
