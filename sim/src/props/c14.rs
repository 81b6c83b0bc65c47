//! C14: the sequence container behaves like a plain vector under every history of operations,
//! including ones in which user code is interrupted by a crash in the middle.

use std::cell::RefCell;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;

use linesweeper::treevec::TreeVec;

use crate::ensure;
use crate::run::InjectedPanic;
use crate::sim::{Outcome, Sim};

/// Counts live elements, so that we notice when some of them get lost or dropped twice.
#[derive(Default)]
struct Ledger {
    live: i64,
    /// Panic when cloning this many more elements.
    clone_fuse: Option<u64>,
}

struct Elem {
    val: u64,
    ledger: Rc<RefCell<Ledger>>,
}

impl Elem {
    fn new(val: u64, ledger: &Rc<RefCell<Ledger>>) -> Self {
        ledger.borrow_mut().live += 1;
        Elem {
            val,
            ledger: ledger.clone(),
        }
    }
}

impl Clone for Elem {
    fn clone(&self) -> Self {
        let boom = {
            let mut l = self.ledger.borrow_mut();
            match &mut l.clone_fuse {
                Some(0) => true,
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        };
        if boom {
            std::panic::panic_any(InjectedPanic(1));
        }
        Elem::new(self.val, &self.ledger)
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        self.ledger.borrow_mut().live -= 1;
    }
}

fn injected<T>(f: impl FnOnce() -> T) -> Result<Option<T>, Box<dyn std::any::Any + Send>> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(p) if p.is::<InjectedPanic>() => Ok(None),
        Err(p) => Err(p),
    }
}

fn contents<const B: usize>(t: &TreeVec<Elem, B>) -> Vec<u64> {
    t.iter().map(|e| e.val).collect()
}

fn history<const B: usize>(sim: &Sim) -> Outcome {
    let ledger = Rc::new(RefCell::new(Ledger::default()));
    let mut next = 0u64;
    let mut fresh = || {
        next += 1;
        next
    };
    let mut tree: TreeVec<Elem, B>;
    let mut model: Vec<u64> = Vec::new();

    // Some histories start with something big.
    let prefill = match sim.choose(4) {
        0 | 1 => 0,
        2 => sim.int(0, (3 * B as i64).min(60)),
        _ => sim.int(0, ((B * B) as i64 * 2).min(500)),
    };
    if sim.chance(50) {
        tree = (0..prefill)
            .map(|_| {
                let v = fresh();
                model.push(v);
                Elem::new(v, &ledger)
            })
            .collect();
    } else {
        tree = TreeVec::new();
        for _ in 0..prefill {
            let i = sim.below(model.len() + 1);
            let v = fresh();
            model.insert(i, v);
            tree.insert(i, Elem::new(v, &ledger));
        }
    }
    // An older version of the tree, to make sure that copies don't share anything.
    let mut snapshot: Option<(TreeVec<Elem, B>, Vec<u64>)> = None;

    // Alternate between phases in which we mostly insert and ones in which we mostly remove.
    let phases = sim.int(1, 4);
    for _ in 0..phases {
        let bias = *sim.pick(&[50u64, 80, 20, 95, 5]);
        // Insertions and removals can cluster.
        let cluster = sim.choose(3);
        let ops = sim.int(1, 80);
        for _ in 0..ops {
            let kind = sim.choose(100);
            let at = |sim: &Sim, n: usize| -> usize {
                match cluster {
                    0 => sim.below(n),
                    1 => n - 1 - sim.below(n.min(3)),
                    _ => sim.below(n.min(3)),
                }
            };
            if kind < 60 {
                if model.is_empty() || sim.choose(100) < bias {
                    let i = at(sim, model.len() + 1);
                    let v = fresh();
                    sim.trace(|| format!("insert({i}, #{v})"));
                    model.insert(i, v);
                    tree.insert(i, Elem::new(v, &ledger));
                } else {
                    let i = at(sim, model.len());
                    sim.trace(|| format!("remove({i})"));
                    let want = model.remove(i);
                    let got = tree.remove(i);
                    ensure!(
                        got.val == want,
                        "wrong-remove",
                        "remove({i}) returned #{} instead of #{want}",
                        got.val
                    );
                }
            } else if kind < 64 {
                // reads
                let i = sim.below(model.len() + 3);
                let got = tree.get(i).map(|e| e.val);
                ensure!(
                    got == model.get(i).copied(),
                    "wrong-get",
                    "get({i}) returned {got:?} instead of {:?} (len {})",
                    model.get(i),
                    model.len()
                );
                if i < model.len() {
                    ensure!(
                        tree[i].val == model[i],
                        "wrong-index",
                        "[{i}] is {} instead of {}",
                        tree[i].val,
                        model[i]
                    );
                }
            } else if kind < 70 {
                // writes
                let i = sim.below(model.len() + 1);
                let v = fresh();
                let through_index = sim.chance(50) && i < model.len();
                sim.trace(|| format!("write({i}, #{v})"));
                if through_index {
                    tree[i].val = v;
                    model[i] = v;
                } else {
                    let got = tree.get_mut(i).map(|e| e.val = v).is_some();
                    ensure!(
                        got == (i < model.len()),
                        "wrong-get-mut",
                        "get_mut({i}) disagrees"
                    );
                    if got {
                        model[i] = v;
                    }
                }
            } else if kind < 78 {
                // ranges, maybe abandoned half way
                let lo = sim.below(model.len() + 1);
                let hi = lo + sim.below(model.len() - lo + 1);
                let form = sim.choose(5);
                let stop = if sim.chance(30) {
                    sim.below(hi - lo + 1)
                } else {
                    usize::MAX
                };
                let (lo, hi) = match form {
                    0 => (lo, hi),
                    1 => (0, hi),
                    2 => (lo, model.len()),
                    3 => (0, model.len()),
                    _ if hi > lo => (lo, hi),
                    _ => (0, model.len()),
                };
                let it = match form {
                    1 => tree.range(..hi),
                    2 => tree.range(lo..),
                    4 if hi > lo => tree.range(lo..=hi - 1),
                    _ => tree.range(lo..hi),
                };
                let got: Vec<u64> = it.take(stop).map(|e| e.val).collect();
                let want: Vec<u64> = model[lo..hi].iter().copied().take(stop).collect();
                ensure!(
                    got == want,
                    "wrong-range",
                    "range({lo}..{hi}) gave {got:?} instead of {want:?}"
                );
                if stop != usize::MAX {
                    sim.note_fault("abandoned_iterator");
                }
            } else if kind < 84 {
                let lo = sim.below(model.len() + 1);
                let hi = lo + sim.below(model.len() - lo + 1);
                let stop = if sim.chance(30) {
                    sim.below(hi - lo + 1)
                } else {
                    usize::MAX
                };
                sim.trace(|| format!("range_mut({lo}..{hi}) up to {stop}"));
                let it = if sim.chance(70) {
                    tree.range_mut(lo..hi)
                } else {
                    tree.range_mut(lo..)
                };
                for (k, e) in it.take(stop.min(hi - lo)).enumerate() {
                    ensure!(
                        e.val == model[lo + k],
                        "wrong-range-mut",
                        "range_mut({lo}..{hi}) gave #{} in place {k}, instead of #{}",
                        e.val,
                        model[lo + k]
                    );
                    let v = fresh();
                    e.val = v;
                    model[lo + k] = v;
                }
            } else if kind < 86 {
                for (k, e) in tree.iter_mut().enumerate() {
                    ensure!(
                        model.get(k) == Some(&e.val),
                        "wrong-iter-mut",
                        "iter_mut gave #{} in place {k}",
                        e.val
                    );
                    e.val += 1_000_000;
                    model[k] += 1_000_000;
                }
            } else if kind < 93 {
                // Searches. The predicate might be inconsistent, and it might crash.
                let crash_at = sim.chance(25).then(|| sim.below(6));
                let sorted = sim.chance(60);
                let split = sim.below(model.len() + 1);
                let salt = sim.choose(1 << 16);
                let index_of: std::collections::HashMap<u64, usize> =
                    model.iter().enumerate().map(|(i, v)| (*v, i)).collect();
                let pred = |v: u64| {
                    if sorted {
                        index_of.get(&v).is_some_and(|i| *i < split)
                    } else {
                        crate::prng::mix(&[salt, v]) % 2 == 0
                    }
                };
                let mut calls = 0;
                let res = injected(|| {
                    tree.partition_point(|e| {
                        calls += 1;
                        if crash_at.is_some_and(|n| calls > n) {
                            std::panic::panic_any(InjectedPanic(2));
                        }
                        pred(e.val)
                    })
                });
                match res {
                    Err(p) => std::panic::resume_unwind(p),
                    Ok(None) => sim.note_fault("predicate_crash"),
                    Ok(Some(got)) => {
                        let at = |i: usize| model.get(i).map(|v| pred(*v));
                        ensure!(
                            got <= model.len()
                                && at(got) != Some(true)
                                && (got == 0 || at(got - 1) == Some(true)),
                            "wrong-partition-point",
                            "partition_point returned {got}, where the predicate is {:?} and before which it's {:?} (len {})",
                            at(got),
                            got.checked_sub(1).and_then(at),
                            model.len()
                        );
                        if sorted {
                            ensure!(
                                got == split,
                                "wrong-partition-point",
                                "partition_point returned {got} instead of {split}"
                            );
                        }
                    }
                }
            } else if kind < 97 {
                // Copy it, maybe with a crash while copying.
                let before = ledger.borrow().live;
                let fuse = sim.chance(40).then(|| sim.choose(model.len() as u64 + 1));
                ledger.borrow_mut().clone_fuse = fuse;
                let res = injected(|| tree.clone());
                ledger.borrow_mut().clone_fuse = None;
                match res {
                    Err(p) => std::panic::resume_unwind(p),
                    Ok(None) => {
                        sim.note_fault("clone_crash");
                        ensure!(
                            ledger.borrow().live == before,
                            "leak",
                            "an interrupted clone changed the number of live elements from {before} to {}",
                            ledger.borrow().live
                        );
                    }
                    Ok(Some(t)) => {
                        if let Some((old, old_model)) = &snapshot {
                            ensure!(
                                contents(old) == *old_model,
                                "snapshot-changed",
                                "a copy of the container changed along with it"
                            );
                        }
                        if sim.chance(30) {
                            // Go back to the copy, or rather continue with it.
                            let old = std::mem::replace(&mut tree, t);
                            snapshot = Some((old, model.clone()));
                        } else {
                            snapshot = Some((t, model.clone()));
                        }
                    }
                }
            } else if let Some((t, m)) = snapshot.take() {
                // "Restart" from the snapshot.
                sim.note_fault("restart_from_snapshot");
                tree = t;
                model = m;
            }
            ensure!(
                tree.len() == model.len() && tree.is_empty() == model.is_empty(),
                "wrong-len",
                "the length is {} (empty: {}) instead of {}",
                tree.len(),
                tree.is_empty(),
                model.len()
            );
            if !model.is_empty() {
                sim.nontrivial();
            }
        }
        let got = contents(&tree);
        ensure!(
            got == model,
            "wrong-contents",
            "the contents are {got:?} instead of {model:?}"
        );
        tree.check_invariants();
        for v in &got {
            sim.log(*v);
        }
        sim.shape(model.len() as u64);
        let expected_live = (model.len() + snapshot.as_ref().map_or(0, |s| s.1.len())) as i64;
        ensure!(
            ledger.borrow().live == expected_live,
            "leak",
            "there are {} live elements instead of {expected_live}",
            ledger.borrow().live
        );
        sim.probe_if(model.len() > B * B, "three_levels");
        sim.probe_if(model.len() > B * B * B, "four_levels");
        sim.probe_if(model.len() <= B, "one_level");
    }
    if let Some((old, old_model)) = &snapshot {
        ensure!(
            contents(old) == *old_model,
            "snapshot-changed",
            "a copy of the container changed along with it"
        );
    }
    drop(snapshot);
    drop(tree);
    ensure!(
        ledger.borrow().live == 0,
        "leak",
        "{} elements are still alive at the end",
        ledger.borrow().live
    );
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    let b = sim.choose(8);
    sim.probe(["b4", "b5", "b6", "b8", "b7", "b16", "b32", "b128"][b as usize]);
    match b {
        0 => history::<4>(sim),
        1 => history::<5>(sim),
        2 => history::<6>(sim),
        3 => history::<8>(sim),
        4 => history::<7>(sim),
        5 => history::<16>(sim),
        6 => history::<32>(sim),
        _ => history::<128>(sim),
    }
}
