//! C12: the collection of segments keeps its invariants over any history of additions.

use kurbo::{BezPath, CubicBez, ParamCurve, PathEl, Point};
use linesweeper::{SegIdx, Segments};

use super::answers::segments_view;
use crate::ensure;
use crate::run::guarded;
use crate::sim::{fail, Outcome, Sim};

fn pt(x: f64, y: f64) -> Point {
    Point::new(x, y)
}

/// What we expect of a segment, in its original direction.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Piece {
    line: bool,
    c: [Point; 4],
}

impl Piece {
    fn line(p: Point, q: Point) -> Self {
        Piece {
            line: true,
            c: [p, p, q, q],
        }
    }
    fn of(segs: &Segments, i: SegIdx) -> Self {
        let s = &segs[i];
        let c = s.to_kurbo_cubic();
        if s.is_line() {
            return Piece::line(segs.oriented_start(i).to_kurbo(), segs.oriented_end(i).to_kurbo());
        }
        let c = if segs.positively_oriented(i) {
            [c.p0, c.p1, c.p2, c.p3]
        } else {
            [c.p3, c.p2, c.p1, c.p0]
        };
        Piece { line: false, c }
    }
}

#[derive(Clone, Default)]
struct Model {
    pieces: Vec<Piece>,
    next: Vec<Option<usize>>,
}

impl Model {
    fn chain(&mut self, pieces: Vec<Piece>, closed: bool) {
        let first = self.pieces.len();
        let n = pieces.len();
        self.pieces.extend(pieces);
        for i in 0..n {
            self.next.push(if i + 1 < n {
                Some(first + i + 1)
            } else if closed {
                Some(first)
            } else {
                None
            });
        }
    }
}

/// The pieces that a single curve gets split into.
fn split(sim: &Sim, c: [Point; 4], quad: Option<Point>) -> Result<Vec<Piece>, crate::sim::Violation> {
    let mut path = BezPath::new();
    path.move_to(c[0]);
    match quad {
        Some(q) => path.quad_to(q, c[3]),
        None => path.curve_to(c[1], c[2], c[3]),
    }
    let mut alone = Segments::default();
    match guarded("adding a single curve", || alone.add_non_closed_bez_path(&path))? {
        Ok(()) => {}
        Err(e) => return fail("rejected", format!("rejected a curve: {e}: {}", path.to_svg())),
    }
    let pieces: Vec<Piece> = alone.indices().map(|i| Piece::of(&alone, i)).collect();
    let whole = match quad {
        Some(q) => [c[0], c[0].lerp(q, 2.0 / 3.0), c[3].lerp(q, 2.0 / 3.0), c[3]],
        None => c,
    };
    if whole.iter().all(|p| p.y == c[0].y) {
        // Something horizontal. It doesn't have an area, so all that matters is where it goes.
        let want = if c[0] == c[3] { Vec::new() } else { vec![(c[0], c[3])] };
        ensure!(
            pieces.iter().map(|p| (p.c[0], p.c[3])).collect::<Vec<_>>() == want,
            "horizontal-curve",
            "the pieces of {} should be {want:?}: {pieces:?}",
            path.to_svg()
        );
        return Ok(pieces);
    }
    let size = c.iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
    let flat = whole.iter().all(|p| (p.y - c[0].y).abs() <= 1e-9 * size);
    if flat && pieces.is_empty() && c[0] == c[3] {
        return Ok(pieces);
    }
    ensure!(
        !pieces.is_empty() && pieces[0].c[0] == c[0] && pieces[pieces.len() - 1].c[3] == c[3],
        "curve-ends",
        "the pieces of {} don't start and end where it does: {pieces:?}",
        path.to_svg()
    );
    sim.probe_if(pieces.len() > 1, "curve_was_split");
    if flat {
        // Horizontal up to rounding: where it turns around is noise.
        sim.probe("almost_horizontal_curve");
        return Ok(pieces);
    }
    // The pieces cover the curve, and don't stray from it.
    let samples = |c: [Point; 4], n: usize| -> Vec<Point> {
        let c = CubicBez::new(c[0], c[1], c[2], c[3]);
        (0..=n).map(|i| c.eval(i as f64 / n as f64)).collect()
    };
    let fine = samples(whole, 256);
    let coarse: Vec<Point> = pieces.iter().flat_map(|p| samples(p.c, 96)).collect();
    let gap = |ps: &[Point]| {
        ps.windows(2).map(|w| w[0].distance(w[1])).fold(0.0, f64::max)
    };
    let dist = |p: &Point, ps: &[Point]| {
        ps.windows(2)
            .map(|w| crate::oracle::dist2(*p, w[0], w[1]).sqrt())
            .fold(f64::INFINITY, f64::min)
    };
    let allowed = 0.25 * gap(&fine).max(gap(&coarse)) + 1e-7 * size;
    for (ps, qs, what) in [(&fine, &coarse, "isn't covered"), (&coarse, &fine, "is far from the curve")] {
        for p in ps.iter().step_by(5) {
            let d = dist(p, qs);
            ensure!(
                d <= allowed,
                "curve-shape",
                "splitting {}: {p:?} {what} (distance {d:e}, allowed {allowed:e}): {pieces:?}",
                path.to_svg()
            );
        }
    }
    Ok(pieces)
}

/// What's expected of adding a path: its chains (and whether they are closed), up to the first
/// one that isn't closed but should be.
struct Expected {
    chains: Vec<(Vec<Piece>, bool)>,
    rejected: Option<(Point, Point)>,
}

fn expect(sim: &Sim, path: &BezPath, must_close: bool) -> Result<Expected, crate::sim::Violation> {
    let mut ret = Expected {
        chains: Vec::new(),
        rejected: None,
    };
    let mut cur: Vec<Piece> = Vec::new();
    let (mut start, mut last) = (Point::ZERO, Point::ZERO);
    let mut done = Vec::new();
    for el in path.elements() {
        match *el {
            PathEl::MoveTo(p) => {
                done.push(std::mem::take(&mut cur));
                (start, last) = (p, p);
            }
            PathEl::LineTo(p) => {
                if p != last {
                    cur.push(Piece::line(last, p));
                }
                last = p;
            }
            PathEl::QuadTo(q, p) => {
                cur.extend(split(sim, [last, q, q, p], Some(q))?);
                last = p;
            }
            PathEl::CurveTo(a, b, p) => {
                cur.extend(split(sim, [last, a, b, p], None)?);
                last = p;
            }
            PathEl::ClosePath => {
                if last != start {
                    cur.push(Piece::line(last, start));
                }
                last = start;
            }
        }
    }
    done.push(cur);
    for ps in done {
        if ps.is_empty() {
            continue;
        }
        let (p, q) = (ps[0].c[0], ps[ps.len() - 1].c[3]);
        if p != q && must_close && ret.rejected.is_none() {
            ret.rejected = Some((p, q));
        }
        ret.chains.push((ps, p == q));
    }
    Ok(ret)
}

fn gen_point(sim: &Sim, scale: f64) -> Point {
    let fine = sim.chance(20);
    let c = || {
        let mut x = sim.int(-6, 6) as f64;
        if x == 0.0 && sim.chance(20) {
            x = -0.0;
        }
        (if fine { x + sim.unit() } else { x }) * scale
    };
    let x = c();
    let y = c();
    pt(x, y)
}

/// The same point, or (almost) the same one.
fn again(sim: &Sim, p: Point) -> Point {
    if sim.chance(50) {
        sim.note_fault("repeated_point");
        return p;
    }
    sim.note_fault("almost_repeated_point");
    let nudge = |v: f64| match sim.choose(8) {
        0 | 1 => v,
        2 => v.next_up(),
        3 => v.next_down(),
        4 => v + 1e-9,
        5 => v - 1e-12,
        6 => -v.abs() * 0.0,
        _ => v * (1.0 + 1e-7),
    };
    // (-0 for 0 is the only change of sign that's small.)
    let fix = |v: f64, w: f64| if w == 0.0 && v != 0.0 { v } else { w };
    pt(fix(p.x, nudge(p.x)), fix(p.y, nudge(p.y)))
}

fn gen_polyline(sim: &Sim, scale: f64) -> Vec<Point> {
    let n = if sim.chance(1) { sim.int(0, 300) } else { sim.int(0, 7) };
    let mut ps: Vec<Point> = Vec::new();
    for _ in 0..n {
        match ps.last() {
            Some(p) if sim.chance(12) => {
                let p = again(sim, *p);
                ps.push(p);
            }
            Some(_) if sim.chance(3) => {
                let p = again(sim, ps[0]);
                ps.push(p);
            }
            Some(p) if sim.chance(15) => {
                let y = p.y;
                ps.push(pt(gen_point(sim, scale).x, y));
            }
            _ => ps.push(gen_point(sim, scale)),
        }
    }
    if n == 0 {
        sim.note_fault("empty_polyline");
    } else if n == 1 {
        sim.note_fault("single_point");
    }
    ps
}

fn gen_path(sim: &Sim, scale: f64) -> BezPath {
    let mut path = BezPath::new();
    let subs = sim.int(0, 4);
    // Most of the time, everything's closed.
    let sloppy = *sim.pick(&[0, 0, 0, 10, 50]);
    for i in 0..subs {
        let start = gen_point(sim, scale);
        let mut last = start;
        if i > 0 && sim.chance(8) && matches!(path.elements().last(), Some(PathEl::ClosePath)) {
            // SVG allows going on without a move.
            sim.note_fault("no_move_after_close");
        } else {
            path.move_to(start);
        }
        for _ in 0..sim.int(0, 5) {
            let p = if sim.chance(8) {
                again(sim, last)
            } else if sim.chance(3) {
                again(sim, start)
            } else {
                gen_point(sim, scale)
            };
            match sim.choose(5) {
                0..=2 => path.line_to(p),
                3 => path.quad_to(gen_point(sim, scale), p),
                _ => {
                    let a = gen_point(sim, scale);
                    let b = gen_point(sim, scale);
                    path.curve_to(a, b, p)
                }
            }
            last = p;
        }
        if sim.chance(sloppy) {
            sim.note_fault("unclosed_subpath");
            continue;
        }
        if sim.chance(30) {
            path.line_to(if sim.chance(sloppy) { again(sim, start) } else { start });
            if sim.chance(30) {
                path.close_path();
            }
        } else {
            path.close_path();
        }
    }
    path
}

fn check(segs: &Segments, model: &Model, what: &str) -> Outcome {
    let idx: Vec<SegIdx> = segs.indices().collect();
    let n = model.pieces.len();
    ensure!(
        segs.len() == n && idx.len() == n && segs.segments().count() == n,
        "length",
        "{what}: there are {} segments (or {} or {}), instead of {n}",
        segs.len(),
        idx.len(),
        segs.segments().count()
    );
    let num = |s: SegIdx| idx.binary_search(&s).unwrap_or(usize::MAX);
    let mut prev = vec![None; n];
    for (i, next) in model.next.iter().enumerate() {
        if let Some(j) = next {
            prev[*j] = Some(i);
        }
    }
    for (i, s) in idx.iter().enumerate() {
        let want = &model.pieces[i];
        let got = Piece::of(segs, *s);
        ensure!(
            got == *want,
            "segment",
            "{what}: segment {i} is {got:?}, instead of {want:?}"
        );
        let (p, q) = (segs[*s].start(), segs[*s].end());
        ensure!(
            (p.y, p.x) <= (q.y, q.x),
            "direction",
            "{what}: segment {i} goes from {p:?} to {q:?}"
        );
        ensure!(
            segs[*s].is_horizontal() == (p.y == q.y),
            "horizontal",
            "{what}: segment {i} from {p:?} to {q:?}: is_horizontal is {}",
            segs[*s].is_horizontal()
        );
        ensure!(
            segs.oriented_start(*s).to_kurbo() == want.c[0] && segs.oriented_end(*s).to_kurbo() == want.c[3],
            "orientation",
            "{what}: segment {i} is oriented from {:?} to {:?}, instead of {want:?}",
            segs.oriented_start(*s),
            segs.oriented_end(*s)
        );
        let c = segs[*s].to_kurbo_cubic();
        let slack = 1e-300 + 1e-9 * [c.p0, c.p1, c.p2, c.p3].iter().map(|p| p.y.abs()).fold(0.0, f64::max);
        let mut y = c.p0.y;
        for k in 1..=8 {
            let z = c.eval(k as f64 / 8.0).y;
            ensure!(z >= y - slack, "not-monotone", "{what}: segment {i} goes up: {c:?}");
            y = z;
        }
        let next = segs.contour_next(*s).map(num);
        ensure!(
            next == model.next[i],
            "next",
            "{what}: segment {i} is followed by {next:?}, instead of {:?}",
            model.next[i]
        );
        let p = segs.contour_prev(*s).map(num);
        ensure!(
            p == prev[i],
            "previous",
            "{what}: segment {i} is preceded by {p:?}, instead of {:?}",
            prev[i]
        );
        if let Some(j) = next {
            ensure!(
                segs.oriented_end(*s) == segs.oriented_start(idx[j]),
                "chain",
                "{what}: segment {i} ends at {:?}, but the next one starts at {:?}",
                segs.oriented_end(*s),
                segs.oriented_start(idx[j])
            );
        }
    }
    // Entrances and exits.
    let mut entered = vec![0; n];
    let mut exited = vec![0; n];
    let mut last = (f64::NEG_INFINITY, f64::NEG_INFINITY);
    for (y, s) in segs.entrances() {
        entered[num(*s)] += 1;
        let p = segs[*s].start();
        ensure!(p.y == *y, "entrance", "{what}: segment {} enters at {p:?}, not at {y}", num(*s));
        ensure!(*y >= last.0, "entrance-order", "{what}: the entrances aren't in order: {y} comes after {last:?}");
        // Those that go down enter from left to right.
        if !segs[*s].is_horizontal() {
            ensure!(
                (*y, p.x) >= last,
                "entrance-order",
                "{what}: the entrances aren't in order: {p:?} comes after {last:?}"
            );
            last = (*y, p.x);
        } else if *y > last.0 {
            last = (*y, f64::NEG_INFINITY);
        }
    }
    let mut last = f64::NEG_INFINITY;
    for (y, s) in segs.exits() {
        exited[num(*s)] += 1;
        ensure!(
            segs[*s].end().y == *y,
            "exit",
            "{what}: segment {} exits at {:?}, not at {y}",
            num(*s),
            segs[*s].end()
        );
        ensure!(*y >= last, "exit-order", "{what}: the exits aren't in order: {y} comes after {last}");
        last = *y;
    }
    for i in 0..n {
        ensure!(entered[i] == 1, "entrances", "{what}: segment {i} enters {} times", entered[i]);
        let want = !segs[idx[i]].is_horizontal() as i32;
        ensure!(exited[i] == want, "exits", "{what}: segment {i} exits {} times", exited[i]);
    }
    guarded("check_invariants", || segs.check_invariants())
}

fn closed_chain(ps: &[Point]) -> Vec<Piece> {
    if ps.len() <= 1 {
        return Vec::new();
    }
    (0..ps.len()).map(|i| Piece::line(ps[i], ps[(i + 1) % ps.len()])).collect()
}

pub fn run(sim: &Sim) -> Outcome {
    let scale = *sim.pick(&[1.0, 0.1, 1000.0, 1e-3]);
    let mut worlds: Vec<(Segments, Model)> = vec![Default::default()];
    let steps = if sim.chance(4) { sim.int(20, 60) } else { sim.int(1, 8) };
    for step in 0..steps {
        if worlds.len() < 3 && sim.chance(10) {
            let i = sim.below(worlds.len());
            let c = worlds[i].clone();
            worlds.push(c);
            sim.probe("clone");
        }
        let n_worlds = worlds.len();
        let w = sim.below(n_worlds);
        let before = segments_view(&worlds[w].0);
        let (segs, model) = &mut worlds[w];
        let tuple = |ps: &[Point]| -> Vec<(f64, f64)> { ps.iter().map(|p| (p.x, p.y)).collect() };
        let what;
        match sim.choose(8) {
            0 => {
                let ps = gen_polyline(sim, scale);
                what = format!("step {step}, add_points {ps:?}");
                guarded(&what, || segs.add_points(tuple(&ps)))?;
                if ps.len() > 1 {
                    model.chain(ps.windows(2).map(|w| Piece::line(w[0], w[1])).collect(), false);
                }
            }
            1 => {
                let ps = gen_polyline(sim, scale);
                what = format!("step {step}, add_closed_polyline {ps:?}");
                guarded(&what, || segs.add_closed_polyline(tuple(&ps)))?;
                model.chain(closed_chain(&ps), true);
            }
            2 | 3 => {
                let list: Vec<Vec<Point>> = (0..sim.int(0, 4)).map(|_| gen_polyline(sim, scale)).collect();
                what = format!("step {step}, add_closed_polylines {list:?}");
                guarded(&what, || segs.add_closed_polylines(list.iter().map(|ps| tuple(ps))))?;
                for ps in &list {
                    model.chain(closed_chain(ps), true);
                }
            }
            k => {
                let path = gen_path(sim, scale);
                let must_close = k != 4;
                what = format!(
                    "step {step}, {} {}",
                    if must_close { "add_bez_path" } else { "add_non_closed_bez_path" },
                    path.to_svg()
                );
                let expected = expect(sim, &path, must_close)?;
                let got = guarded(&what, || {
                    if must_close {
                        segs.add_bez_path(&path)
                    } else {
                        segs.add_non_closed_bez_path(&path)
                    }
                })?;
                match (got, expected.rejected) {
                    (Ok(()), None) => {
                        for (ps, closed) in expected.chains {
                            model.chain(ps, closed);
                        }
                    }
                    (Err(e), Some((p, q))) => {
                        sim.note_fault("rejected_path");
                        ensure!(
                            e.start_point == p && e.end_point == q,
                            "wrong-error",
                            "{what}: the error is about {:?} and {:?}, instead of {p:?} and {q:?}",
                            e.start_point,
                            e.end_point
                        );
                        ensure!(
                            segments_view(segs) == before,
                            "leftovers",
                            "{what}: a rejected path left something behind"
                        );
                    }
                    (Ok(()), Some((p, q))) => {
                        return fail("accepted", format!("{what}: accepted, though a subpath goes from {p:?} to {q:?}"))
                    }
                    (Err(e), None) => return fail("rejected", format!("{what}: {e}")),
                }
            }
        }
        sim.trace(|| what.clone());
        for (i, (segs, model)) in worlds.iter().enumerate() {
            if i == w || sim.chance(20) {
                check(segs, model, &what)?;
            }
        }
        sim.log(segments_view(&worlds[w].0));
    }
    if worlds.iter().any(|w| w.0.len() > 2) {
        sim.nontrivial();
    }
    // However the same segments got there, they come out the same.
    for (segs, model) in &worlds {
        check(segs, model, "at the end")?;
    }
    Ok(())
}
