//! C03: the winding numbers of topologies, for winding number types, numbers of sets and
//! predicates that the library doesn't know.

use std::collections::HashMap;

use kurbo::{BezPath, Point, Vec2};
use linesweeper::topology::{Topology, WindingNumber};

use super::common::*;
use crate::ensure;
use crate::oracle::{samples, Geom, Margins};
use crate::prng::mix;
use crate::run::guarded;
use crate::sim::{engine_hook, fail, Outcome, Sim};
use crate::work::{gen_case, to_path, Case, Opts, Sub};

/// What a user could come up with.
pub trait UserWinding: WindingNumber<Tag = u8> {
    /// From the winding numbers with respect to the five sets.
    fn expected(ws: [i32; 5]) -> Self;
    fn code(&self) -> u64;
}

/// One integer for each set.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Five(pub [i32; 5]);

/// Like [`Five`], but on the heap.
#[derive(Clone, Debug, Default, Eq)]
pub struct Boxed(Vec<(u8, i32)>);

/// Parities: a group in which everything is its own inverse.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Parity(u8);

/// A weighted sum, modulo 7.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Mod7(u8);

/// Just a sum.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sum(i64);

const WEIGHTS: [i32; 5] = [1, 2, 3, 4, 5];

macro_rules! adder {
    ($t:ty, |$a:ident, $b:ident| $e:expr) => {
        impl std::ops::Add for $t {
            type Output = Self;
            fn add(self, rhs: Self) -> Self {
                let ($a, $b) = (self, rhs);
                $e
            }
        }
        impl std::ops::AddAssign for $t {
            fn add_assign(&mut self, rhs: Self) {
                *self = self.clone() + rhs;
            }
        }
    };
}

adder!(Five, |a, b| Five(std::array::from_fn(|i| a.0[i] + b.0[i])));
adder!(Parity, |a, b| Parity(a.0 ^ b.0));
adder!(Mod7, |a, b| Mod7((a.0 + b.0) % 7));
adder!(Sum, |a, b| Sum(a.0 + b.0));
adder!(Boxed, |a, b| {
    let mut v = a.0.clone();
    for (t, n) in b.0 {
        match v.iter_mut().find(|e| e.0 == t) {
            Some(e) => e.1 += n,
            None => v.push((t, n)),
        }
    }
    Boxed(v)
});

impl Boxed {
    fn get(&self, t: u8) -> i32 {
        self.0.iter().find(|e| e.0 == t).map_or(0, |e| e.1)
    }
}

impl PartialEq for Boxed {
    fn eq(&self, other: &Self) -> bool {
        (0..5).all(|t| self.get(t) == other.get(t))
    }
}

fn sign(positive: bool) -> i32 {
    if positive {
        1
    } else {
        -1
    }
}

impl WindingNumber for Five {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> Self {
        let mut w = Five::default();
        w.0[tag as usize] = sign(positive);
        w
    }
}

impl UserWinding for Five {
    fn expected(ws: [i32; 5]) -> Self {
        Five(ws)
    }
    fn code(&self) -> u64 {
        mix(&self.0.map(|x| x as u64))
    }
}

impl WindingNumber for Boxed {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> Self {
        Boxed(vec![(tag, sign(positive))])
    }
}

impl UserWinding for Boxed {
    fn expected(ws: [i32; 5]) -> Self {
        Boxed((0..5).map(|t| (t, ws[t as usize])).collect())
    }
    fn code(&self) -> u64 {
        mix(&[0u8, 1, 2, 3, 4].map(|t| self.get(t) as u64))
    }
}

impl WindingNumber for Parity {
    type Tag = u8;
    fn single(tag: u8, _positive: bool) -> Self {
        Parity(1 << tag)
    }
}

impl UserWinding for Parity {
    fn expected(ws: [i32; 5]) -> Self {
        Parity((0..5).map(|i| ((ws[i].rem_euclid(2)) as u8) << i).sum())
    }
    fn code(&self) -> u64 {
        self.0 as u64
    }
}

impl WindingNumber for Mod7 {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> Self {
        Mod7((sign(positive) * WEIGHTS[tag as usize]).rem_euclid(7) as u8)
    }
}

impl UserWinding for Mod7 {
    fn expected(ws: [i32; 5]) -> Self {
        Mod7((0..5).map(|i| ws[i] * WEIGHTS[i]).sum::<i32>().rem_euclid(7) as u8)
    }
    fn code(&self) -> u64 {
        self.0 as u64
    }
}

impl WindingNumber for Sum {
    type Tag = u8;
    fn single(_tag: u8, positive: bool) -> Self {
        Sum(sign(positive) as i64)
    }
}

impl UserWinding for Sum {
    fn expected(ws: [i32; 5]) -> Self {
        Sum(ws.iter().map(|w| *w as i64).sum())
    }
    fn code(&self) -> u64 {
        self.0 as u64
    }
}

/// Distributes the subpaths over tagged paths. A tag can have several paths.
fn distribute(sim: &Sim, case: &Case) -> Vec<(u8, Vec<Sub>)> {
    let mut paths: Vec<(u8, Vec<Sub>)> = Vec::new();
    let n_tags = sim.int(1, 5) as usize;
    for s in case.sets.iter().flatten() {
        let tag = sim.below(n_tags) as u8;
        if paths.is_empty() || sim.chance(70) {
            paths.push((tag, vec![s.clone()]));
        } else {
            paths.last_mut().unwrap().1.push(s.clone());
        }
        if sim.chance(5) {
            paths.push((sim.below(5) as u8, Vec::new()));
        }
    }
    paths
}

fn with_type<W: UserWinding>(sim: &Sim, case: &Case, m: Margins, paths: &[(u8, Vec<Sub>)]) -> Outcome {
    let describe = || {
        let mut s = case.describe();
        for (tag, subs) in paths {
            s.push_str(&format!("\n  tag {tag}: {}", to_path(subs, case.explicit).to_svg()));
        }
        s
    };
    let bez: Vec<(u8, BezPath)> = paths
        .iter()
        .map(|(t, s)| (*t, to_path(s, case.explicit)))
        .collect();
    let mut geoms: [Geom; 5] = Default::default();
    let mut all = Geom::default();
    for (t, subs) in paths {
        let g = Geom::from_subs(subs, m.tol);
        geoms[*t as usize].edges.extend_from_slice(&g.edges);
        all.edges.extend(g.edges);
    }
    let truth = |p: Point| -> [i32; 5] { std::array::from_fn(|i| geoms[i].winding(p)) };

    let top: Topology<W> = match guarded("Topology::from_paths", || {
        Topology::from_paths(bez.iter().map(|(t, p)| (p, *t)), case.eps())
    })? {
        Ok(t) => t,
        Err(e) => return fail("error", format!("unexpected error {e:?}\n{}", describe())),
    };

    // Around each point, each sector is counter-clockwise of one half-segment and clockwise
    // of another one.
    let mut around: HashMap<(u64, u64), i64> = HashMap::new();
    // Pieces that run along the same horizontal line don't overlap (by more than what the ranges
    // of one sweep line are allowed to).
    let mut horizontal: Vec<[f64; 3]> = Vec::new();
    let mut n_segs = 0;
    for seg in top.segment_indices() {
        n_segs += 1;
        let (h1, h2) = (seg.first_half(), seg.second_half());
        ensure!(
            top.winding_clockwise(h1) == top.winding_counter_clockwise(h2)
                && top.winding_clockwise(h2) == top.winding_counter_clockwise(h1),
            "halves",
            "the two halves of {seg:?} disagree\n{}",
            describe()
        );
        ensure!(
            top.winding_clockwise(h1) != top.winding_counter_clockwise(h1),
            "trivial",
            "{seg:?} has the same winding number {:?} on both sides\n{}",
            top.winding_clockwise(h1),
            describe()
        );
        let (p1, p2) = (top.point(h1), top.point(h2));
        if p1.y == p2.y {
            horizontal.push([p1.y, p1.x.min(p2.x), p1.x.max(p2.x)]);
            sim.probe("horizontal_output");
        }
        for h in [h1, h2] {
            let p = top.point(h);
            let key = (p.x.to_bits(), p.y.to_bits());
            let e = around.entry(key).or_default();
            *e = e
                .wrapping_add(mix(&[top.winding_clockwise(h).code()]) as i64)
                .wrapping_sub(mix(&[top.winding_counter_clockwise(h).code()]) as i64);
        }
    }
    let allowed = super::c04::allowance(case, m);
    horizontal.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for w in horizontal.windows(2) {
        ensure!(
            w[0][0] != w[1][0] || w[0][2].min(w[1][2]) <= w[1][1] + allowed,
            "coincident",
            "two output segments overlap along a horizontal line: {:?} and {:?}\n{}",
            w[0],
            w[1],
            describe()
        );
    }
    ensure!(
        around.values().all(|v| *v == 0),
        "sectors",
        "the segments around a point disagree about winding numbers\n{}",
        describe()
    );

    // The winding numbers recorded for each output segment.
    let positions = guarded("compute_positions", || top.compute_positions())?;
    let mut out = Vec::new();
    for seg in top.segment_indices() {
        let mut p = positions[seg].path.clone();
        if p.elements().is_empty() {
            return fail("no-position", format!("{seg:?} has no path\n{}", describe()));
        }
        // `Geom` closes paths: go back the way that we came.
        let back = p.reverse_subpaths();
        p.extend(back.elements().iter().skip(1).copied());
        out.push((seg, Geom::from_path(&p, m.tol)));
    }
    let mut checked = 0;
    for (k, (seg, g)) in out.iter().enumerate() {
        // There's a choice of edges: take the longest one in the first half of the list.
        let half = &g.edges[..g.edges.len().div_ceil(2)];
        let Some(&(a, b)) = half
            .iter()
            .max_by(|a, b| (a.1 - a.0).hypot2().total_cmp(&(b.1 - b.0).hypot2()))
        else {
            continue;
        };
        if (b - a).hypot() < 4.0 * m.margin {
            continue;
        }
        let mid = a.midpoint(b);
        let dir = (b - a).normalize();
        let normal = Vec2::new(-dir.y, dir.x) * (1.5 * m.margin);
        let reach = 2.0 * m.margin;
        if out
            .iter()
            .enumerate()
            .any(|(j, (_, o))| j != k && !o.is_clear(mid, reach))
        {
            continue;
        }
        for (p, recorded) in [
            // `y` goes down, so counter-clockwise is to the east of a segment that goes south.
            (mid - normal, top.winding_counter_clockwise(seg.first_half())),
            (mid + normal, top.winding_clockwise(seg.first_half())),
        ] {
            if !all.is_clear(p, m.margin) {
                continue;
            }
            checked += 1;
            let ws = truth(p);
            let want = W::expected(ws);
            ensure!(
                *recorded == want,
                "winding",
                "the winding number of {seg:?} at {p:?} is recorded as {recorded:?}, but the input says {want:?}\n{}",
                describe()
            );
        }
    }
    sim.probe_if(checked > 0, "side_checked");

    // Predicates.
    let zero = W::default().code();
    let salt = sim.choose(1 << 30);
    let n_classes = sim.int(2, 3) as u64;
    let class = |w: &W| -> u64 {
        if w.code() == zero {
            0
        } else {
            1 + mix(&[salt, w.code()]) % n_classes
        }
    };
    let mut total = 0.0;
    let mut slack = 0.0;
    for k in 0..=n_classes {
        // Each class, and then everything together.
        let want = |w: &W| if k == n_classes { class(w) != 0 } else { class(w) == k + 1 };
        let contours = guarded("contours", || top.contours(want))?;
        log_contours(sim, &contours);
        let og = contours_geom(&contours, m.tol);
        if k == n_classes {
            let area = og.area();
            slack += og.perimeter();
            ensure!(
                (area - total).abs() <= 4.0 * m.margin * slack + 1e-9 * area.abs(),
                "area",
                "the areas of {n_classes} complementary predicates add up to {total}, but should be {area} (perimeter {slack}, margin {})\n{}",
                m.margin,
                describe()
            );
        } else {
            total += og.area();
            slack += og.perimeter();
        }
        let mut ins = 0;
        let pts = samples(sim, &all, &og, m.margin, 24);
        for p in &pts {
            let ws = truth(*p);
            let expected = want(&W::expected(ws));
            ins += expected as usize;
            let got = og.winding(*p);
            ensure!(
                got == expected as i32,
                "wrong-region",
                "class {k} of {n_classes} (salt {salt}): the point {p:?} has winding numbers {ws:?}, so it {} be in the output, \
                 but its winding number there is {got}\n{}\noutput:\n{}",
                if expected { "should" } else { "shouldn't" },
                describe(),
                show_contours(&contours)
            );
        }
        if ins > 0 && ins < pts.len() && checked > 0 {
            sim.nontrivial();
        }
    }
    sim.log(n_segs);
    Ok(())
}

pub fn run(sim: &Sim) -> Outcome {
    let case = gen_case(
        sim,
        Opts {
            max_els: 50,
            nested: 10,
            ..Opts::default()
        },
    );
    let m = Margins::for_case(&case);
    sim.trace(|| case.describe());
    sim.plan_engine_faults();
    let paths = distribute(sim, &case);
    let _hook = engine_hook(sim);
    set_step_budget(sim, &case);
    match sim.choose(5) {
        0 => with_type::<Five>(sim, &case, m, &paths),
        1 => with_type::<Boxed>(sim, &case, m, &paths),
        2 => with_type::<Parity>(sim, &case, m, &paths),
        3 => with_type::<Mod7>(sim, &case, m, &paths),
        _ => with_type::<Sum>(sim, &case, m, &paths),
    }
}
