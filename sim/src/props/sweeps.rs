//! Driving sweeps step by step, and recording what they deliver.

use kurbo::BezPath;
use linesweeper::sweep::{
    OutputEvent, SegmentsConnectedAtX, SweepLine, SweepLineBuffers, SweepLineRange,
    SweepLineRangeBuffers, Sweeper,
};
use linesweeper::{SegIdx, Segments};

use crate::sim::Sim;
use crate::work::{Case, El, Sub};

/// An output event, with the segment identified by its number.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub seg: usize,
    pub x0: f64,
    pub up: bool,
    pub x1: f64,
    pub down: bool,
    pub idx: Option<usize>,
    pub old_idx: Option<usize>,
}

impl Ev {
    pub fn lo(&self) -> f64 {
        self.x0.min(self.x1)
    }
    pub fn hi(&self) -> f64 {
        self.x0.max(self.x1)
    }
}

/// What a range looks like at one horizontal position.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub x: f64,
    pub up: Vec<usize>,
    pub down: Vec<usize>,
    pub active: Vec<(usize, bool)>,
}

impl View {
    pub fn is_empty(&self) -> bool {
        self.up.is_empty() && self.down.is_empty() && self.active.is_empty()
    }
}

/// One step of reading a range.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub view: View,
    /// The events, if we moved along by asking for them.
    pub batch: Option<Vec<Ev>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RangeRec {
    pub old: Vec<usize>,
    pub new: Vec<usize>,
    pub steps: Vec<Step>,
    /// Was it read up to the end?
    pub complete: bool,
    /// If so, what does it look like there? (Nothing should be left.)
    pub end: Option<View>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct LineRec {
    pub y: f64,
    /// All of the line, including the segments that just ended.
    pub order: Vec<usize>,
    pub ranges: Vec<RangeRec>,
    pub complete: bool,
}

/// What a reader does at some point of a sweep.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// Ask for the events.
    Events,
    /// Just move along.
    Skip,
    /// Ask for nothing more of this range, or this line.
    Stop,
}

/// A point of a sweep: the number of the line, of the range and of the step.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Line(usize),
    Range(usize, usize),
    Step(usize, usize, usize),
}

/// Decides how a reader reads.
pub trait Pace {
    fn at(&mut self, at: At, line: &SweepLine<'_, '_, '_>) -> Act;
}

/// Reads everything, as events.
pub struct ReadAll;

impl Pace for ReadAll {
    fn at(&mut self, _at: At, _line: &SweepLine<'_, '_, '_>) -> Act {
        Act::Events
    }
}

pub struct Names(Vec<SegIdx>);

impl Names {
    pub fn new(segs: &Segments) -> Self {
        Names(segs.indices().collect())
    }

    pub fn of(&self, idx: SegIdx) -> usize {
        self.0.binary_search(&idx).unwrap_or(usize::MAX)
    }

    pub fn idx(&self, n: usize) -> SegIdx {
        self.0[n]
    }

    pub fn len(&self) -> usize {
        self.0.len()
    }

    pub fn ev(&self, e: &OutputEvent) -> Ev {
        Ev {
            seg: self.of(e.seg_idx),
            x0: e.x0,
            up: e.connected_above,
            x1: e.x1,
            down: e.connected_below,
            idx: e.sweep_idx,
            old_idx: e.old_sweep_idx,
        }
    }
}

pub fn line_order(line: &SweepLine<'_, '_, '_>, names: &Names) -> Vec<usize> {
    (0..)
        .map_while(|i| line.line_segment(i))
        .map(|s| names.of(s))
        .collect()
}

fn view(
    range: &SweepLineRange<'_, '_, '_>,
    x: f64,
    names: &Names,
    at: &mut SegmentsConnectedAtX,
) -> View {
    range.update_segments_at_x(at);
    View {
        x,
        up: at.connected_up().map(|s| names.of(s)).collect(),
        down: at.connected_down().map(|s| names.of(s)).collect(),
        active: range
            .active_horizontals_and_orientations()
            .map(|(s, o)| (names.of(s), o))
            .collect(),
    }
}

/// Reads one range.
pub fn read_range(
    range: &mut SweepLineRange<'_, '_, '_>,
    (l, r): (usize, usize),
    names: &Names,
    at: &mut SegmentsConnectedAtX,
    pace: &mut dyn Pace,
) -> RangeRec {
    let mut rec = RangeRec {
        old: range.old_segment_range().map(|s| names.of(s)).collect(),
        new: range.segment_range().map(|s| names.of(s)).collect(),
        steps: Vec::new(),
        complete: false,
        end: None,
    };
    loop {
        let Some(x) = range.x() else {
            rec.complete = range.events().is_none();
            rec.end = Some(view(range, f64::INFINITY, names, at));
            return rec;
        };
        let act = pace.at(At::Step(l, r, rec.steps.len()), range.line());
        let view = view(range, x, names, at);
        match act {
            Act::Events => {
                let batch = range
                    .events()
                    .map(|b| b.iter().map(|e| names.ev(e)).collect());
                rec.steps.push(Step { view, batch });
            }
            Act::Skip => {
                range.increase_x();
                rec.steps.push(Step { view, batch: None });
            }
            Act::Stop => return rec,
        }
    }
}

/// Where buffers come from and where they go to.
pub trait Pool {
    fn line(&mut self) -> SweepLineBuffers;
    fn put_line(&mut self, b: SweepLineBuffers);
    fn range(&mut self) -> SweepLineRangeBuffers;
    fn put_range(&mut self, b: SweepLineRangeBuffers);
    fn at(&mut self) -> SegmentsConnectedAtX;
    fn put_at(&mut self, b: SegmentsConnectedAtX);
}

/// New buffers every time.
pub struct Fresh;

impl Pool for Fresh {
    fn line(&mut self) -> SweepLineBuffers {
        SweepLineBuffers::default()
    }
    fn put_line(&mut self, _b: SweepLineBuffers) {}
    fn range(&mut self) -> SweepLineRangeBuffers {
        SweepLineRangeBuffers::default()
    }
    fn put_range(&mut self, _b: SweepLineRangeBuffers) {}
    fn at(&mut self) -> SegmentsConnectedAtX {
        SegmentsConnectedAtX::default()
    }
    fn put_at(&mut self, _b: SegmentsConnectedAtX) {}
}

/// Moves the sweep on by one line, and reads it.
pub fn read_line(
    sweeper: &mut Sweeper<'_>,
    segs: &Segments,
    names: &Names,
    l: usize,
    pool: &mut dyn Pool,
    pace: &mut dyn Pace,
) -> Option<LineRec> {
    let mut lb = pool.line();
    let mut line = match sweeper.next_line(&mut lb) {
        Some(line) => line,
        None => {
            pool.put_line(lb);
            return None;
        }
    };
    let mut rec = LineRec {
        y: line.y(),
        order: line_order(&line, names),
        ranges: Vec::new(),
        complete: false,
    };
    if pace.at(At::Line(l), &line) != Act::Stop {
        loop {
            let r = rec.ranges.len();
            // This counts as stopping in this line.
            if pace.at(At::Range(l, r), &line) == Act::Stop {
                break;
            }
            let mut rb = pool.range();
            let mut at = pool.at();
            let done = match line.next_range(&mut rb, segs) {
                Some(mut range) => {
                    rec.ranges.push(read_range(&mut range, (l, r), names, &mut at, pace));
                    false
                }
                None => true,
            };
            pool.put_range(rb);
            pool.put_at(at);
            if done {
                rec.complete = true;
                break;
            }
        }
    }
    pool.put_line(lb);
    Some(rec)
}

/// Everything that a sweep delivers, when it's run alone, with fresh buffers, and read completely.
/// Gives up, returning `Err`, after too many lines.
pub fn record(
    segs: &Segments,
    eps: f64,
    max_lines: usize,
    pace: &mut dyn Pace,
) -> Result<Vec<LineRec>, Vec<LineRec>> {
    let names = Names::new(segs);
    let mut sweeper = Sweeper::new(segs, eps);
    let mut ret = Vec::new();
    while let Some(rec) = read_line(&mut sweeper, segs, &names, ret.len(), &mut Fresh, pace) {
        ret.push(rec);
        if ret.len() > max_lines {
            return Err(ret);
        }
    }
    Ok(ret)
}

/// Does what was read agree with the reference (a complete reading), as far as it goes?
pub fn compare(l: usize, got: &LineRec, want: &LineRec) -> Result<(), String> {
    if got.y != want.y {
        return Err(format!("line {l} is at height {}, instead of {}", got.y, want.y));
    }
    if got.order != want.order {
        return Err(format!(
            "line {l} (height {}) has the segments {:?}, instead of {:?}",
            got.y, got.order, want.order
        ));
    }
    if got.ranges.len() > want.ranges.len() || (got.complete && got.ranges.len() != want.ranges.len())
    {
        return Err(format!(
            "line {l} (height {}) has {} ranges, instead of {}",
            got.y,
            got.ranges.len(),
            want.ranges.len()
        ));
    }
    for (r, (g, w)) in got.ranges.iter().zip(&want.ranges).enumerate() {
        let place = format!("range {r} of line {l} (height {})", got.y);
        if g.old != w.old || g.new != w.new {
            return Err(format!(
                "{place} goes from {:?} to {:?}, instead of from {:?} to {:?}",
                g.old, g.new, w.old, w.new
            ));
        }
        if g.steps.len() > w.steps.len() || (g.complete && g.steps.len() != w.steps.len()) {
            return Err(format!(
                "{place} has {} positions, instead of {}",
                g.steps.len(),
                w.steps.len()
            ));
        }
        if let Some(end) = &g.end {
            if !end.is_empty() {
                return Err(format!("{place}: after its end, there's still {end:?}"));
            }
        }
        for (s, (gs, ws)) in g.steps.iter().zip(&w.steps).enumerate() {
            if gs.view != ws.view {
                return Err(format!(
                    "{place}, position {s}: got {:?}, instead of {:?}",
                    gs.view, ws.view
                ));
            }
            if gs.batch.is_some() && gs.batch != ws.batch {
                return Err(format!(
                    "{place}, position {s}: got the events {:?}, instead of {:?}",
                    gs.batch, ws.batch
                ));
            }
        }
    }
    Ok(())
}

pub fn log_line(sim: &Sim, l: &LineRec) {
    sim.log_f(l.y);
    for o in &l.order {
        sim.log(*o as u64);
    }
    for r in &l.ranges {
        sim.log(((r.old.len() as u64) << 32) + r.new.len() as u64);
        for s in &r.steps {
            sim.log_f(s.view.x);
            for e in s.batch.iter().flatten() {
                sim.log(((e.seg as u64) << 2) + ((e.up as u64) << 1) + e.down as u64);
                sim.log_f(e.x0);
                sim.log_f(e.x1);
            }
        }
    }
}

// --- segments ---

fn open_path(sub: &Sub, keep: usize) -> BezPath {
    let mut p = BezPath::new();
    p.move_to(sub.start);
    for e in &sub.els[..keep] {
        match *e {
            El::L(q) => p.line_to(q),
            El::Q(a, q) => p.quad_to(a, q),
            El::C(a, b, q) => p.curve_to(a, b, q),
        }
    }
    p
}

/// A collection of segments with the case's curves: mostly closed paths, but some of them can be
/// open ones.
pub fn make_segments(sim: &Sim, case: &Case, open: bool) -> Segments {
    let mut segs = Segments::default();
    for sub in case.sets.iter().flatten() {
        let n = sub.els.len();
        if open && n > 1 && sim.chance(30) {
            let keep = sim.int(1, n as i64 - 1) as usize;
            sim.probe("open_path");
            if sub.is_polygon() && sim.chance(50) {
                let mut pts = vec![sub.start];
                pts.extend(sub.els[..keep].iter().map(|e| e.end()));
                pts.dedup();
                segs.add_points(pts.iter().map(|p| (p.x, p.y)));
            } else {
                let p = open_path(sub, keep);
                if segs.add_non_closed_bez_path(&p).is_err() {
                    panic!("an open path was rejected");
                }
            }
        } else if sub.is_polygon() && sim.chance(20) {
            let mut pts = sub.vertices();
            pts.dedup();
            while pts.len() > 1 && pts.first() == pts.last() {
                pts.pop();
            }
            if pts.len() >= 2 {
                segs.add_closed_polyline(pts.iter().map(|p| (p.x, p.y)));
            }
        } else {
            let mut p = BezPath::new();
            sub.append_to(&mut p, case.explicit);
            if segs.add_bez_path(&p).is_err() {
                panic!("a closed path was rejected");
            }
        }
    }
    segs
}

/// More lines than a sweep can reasonably have.
pub fn max_lines(segs: &Segments) -> usize {
    let n = segs.len() + 4;
    2000 + 60 * n * n
}

// --- geometry ---

/// A segment, as a curve that we evaluate on our own.
#[derive(Clone, Copy, Debug)]
pub struct Curve {
    pub line: bool,
    pub p: [kurbo::Point; 4],
}

impl Curve {
    pub fn new(segs: &Segments, idx: SegIdx) -> Self {
        let s = &segs[idx];
        let c = s.to_kurbo_cubic();
        Curve {
            line: s.is_line(),
            p: [c.p0, c.p1, c.p2, c.p3],
        }
    }

    pub fn all(segs: &Segments) -> Vec<Curve> {
        segs.indices().map(|i| Curve::new(segs, i)).collect()
    }

    pub fn start(&self) -> kurbo::Point {
        self.p[0]
    }

    pub fn end(&self) -> kurbo::Point {
        self.p[3]
    }

    pub fn is_horizontal(&self) -> bool {
        self.p[0].y == self.p[3].y
    }

    pub fn spans(&self, y: f64) -> bool {
        self.p[0].y <= y && y < self.p[3].y
    }

    pub fn eval(&self, t: f64) -> kurbo::Point {
        let [a, b, c, d] = self.p;
        if self.line {
            return a.lerp(d, t);
        }
        let (ab, bc, cd) = (a.lerp(b, t), b.lerp(c, t), c.lerp(d, t));
        ab.lerp(bc, t).lerp(bc.lerp(cd, t), t)
    }

    /// The parameter at which the curve reaches height `y`, clamped to its range.
    pub fn t_at(&self, y: f64) -> f64 {
        let (y0, y1) = (self.p[0].y, self.p[3].y);
        if y <= y0 {
            return 0.0;
        }
        if y >= y1 {
            return 1.0;
        }
        if self.line {
            return (y - y0) / (y1 - y0);
        }
        let (mut lo, mut hi) = (0.0, 1.0);
        for _ in 0..54 {
            let mid = 0.5 * (lo + hi);
            if self.eval(mid).y < y {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        0.5 * (lo + hi)
    }

    pub fn x_at(&self, y: f64) -> f64 {
        if y <= self.p[0].y {
            return self.p[0].x;
        }
        if y >= self.p[3].y {
            return self.p[3].x;
        }
        self.eval(self.t_at(y)).x
    }

    /// The horizontal extent of the part within `dy` of the height `y`.
    pub fn extent_near(&self, y: f64, dy: f64) -> (f64, f64) {
        let (a, b) = (self.x_at(y - dy), self.x_at(y + dy));
        (a.min(b), a.max(b))
    }

    pub fn width_near(&self, y: f64, dy: f64) -> f64 {
        let (lo, hi) = self.extent_near(y, dy);
        hi - lo
    }

    /// The distance to a point, if it's at most `near`. Otherwise, any number larger than that.
    pub fn dist(&self, q: kurbo::Point, near: f64) -> f64 {
        let d2 = if self.line {
            crate::oracle::dist2(q, self.p[0], self.p[3])
        } else {
            let (t0, t1) = (self.t_at(q.y - near), self.t_at(q.y + near));
            let n = 64;
            let mut last = self.eval(t0);
            let mut best = (q - last).hypot2();
            for i in 1..=n {
                let p = self.eval(t0 + (t1 - t0) * i as f64 / n as f64);
                best = best.min(crate::oracle::dist2(q, last, p));
                last = p;
            }
            best
        };
        d2.sqrt()
    }
}

/// How far from its segment a reported position may be, and how far out of order segments may be.
pub fn sweep_allowance(case: &Case) -> f64 {
    (3.0 * case.eps()).max(1e-12 * case.magnitude())
}

/// For exploring: how close do we get to the limits?
pub fn report_ratio(sim: &Sim, what: &str, ratio: f64) {
    if std::env::var_os("LSIM_LIMITS").is_some() && ratio > 0.3 {
        eprintln!("ratio {what} {ratio}");
    }
    let _ = sim;
}

/// Two ends of segments (the number of the segment, and whether it's its end instead of its start)
/// that are joined in a contour.
pub type Link = ((usize, bool), (usize, bool));

pub fn links(segs: &Segments) -> Vec<Link> {
    let names = Names::new(segs);
    segs.indices()
        .filter_map(|i| {
            let next = segs.contour_next(i)?;
            Some((
                (names.of(i), segs.positively_oriented(i)),
                (names.of(next), !segs.positively_oriented(next)),
            ))
        })
        .collect()
}
