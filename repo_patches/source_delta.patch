From d6d3e15f2f9234c22f74a7df07b9ef3a96ff48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 01/27] fix: scan for new intersections past segments that exit
 on the current sweep line

When a segment leaves its slot in the sweep line, the segment that becomes the
left neighbor has to look for intersections to its right. If the slot just to
the left held a segment ending at this same height, the scan was started from
that segment and did nothing, so the crossing was never noticed.
---
 src/sweep/sweep_line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..02cb6da 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,14 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // The scans do nothing when they're started at a segment that ends at the current height,
+        // so skip over those to find the segment that will actually be the neighbor.
+        let neighbor = (0..pos)
+            .rev()
+            .find(|&i| self.segments[self.line.seg(i)].end().y > self.y);
+        if let Some(neighbor) = neighbor {
+            self.intersection_scan_right(neighbor);
+            self.intersection_scan_left(neighbor);
         }
     }
 
-- 
2.43.0


From 8c588947c8df933f85409da969ded72d2830b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 02/27] fix: give contours that touch at a point the right
 parent

When walking a contour visits a point twice, the piece that gets split out is
a hole of the connected set that we're walking around. If the walk started on a
hole, the split-out piece is that hole's sibling (it used to become an 'outer'
child of the hole). If the repeated point is the one that the walk started at,
it's the intended contour that gets split out, so that's the one that should
fill the reserved slot (it used to be marked as a hole of its own hole).
---
 src/topology.rs | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..93ec5ed 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1214,6 +1214,8 @@ impl<W: WindingNumber> Topology<W> {
             // "endpoint" here means "as we walk the contour;" it could be either a first_half
             // or a second_half as far as `HalfOutputSegIdx` is concerned.
             let mut segs = Vec::new();
+            // Have we already filled in the contour slot that we reserved?
+            let mut found_reserved = false;
             last_visit[self.point_idx[start]] = Some(0);
 
             debug_assert!(inside(self.winding_counter_clockwise(start)));
@@ -1246,21 +1248,25 @@ impl<W: WindingNumber> Topology<W> {
                     // contours visited `p`.
                     .filter(|&idx| idx < segs.len() && self.point_idx[segs[idx].other_half()] == p);
                 if let Some(seg_idx) = last_visit_idx {
-                    // We repeated a point, meaning that we've found an inner contour. Extract
+                    // We repeated a point, meaning that we've found another contour. Extract
                     // it and remove it from the current contour.
 
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
+                    // If the repeated point is where we started walking, it's the contour that
+                    // we were intending to walk that's being split out.
+                    let loop_contour_idx = if seg_idx == 0 && !found_reserved {
+                        found_reserved = true;
+                        contour_idx
+                    } else {
+                        ret.push_touching(contour_idx)
+                    };
                     for &seg in &segs[seg_idx..] {
                         seg_contour[seg.idx.0] = Some(loop_contour_idx);
                     }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
+                    ret.contours[loop_contour_idx.0].path =
+                        self.segs_to_path(&segs[seg_idx..], &positions);
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1273,10 +1279,15 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
+            let last_contour_idx = if found_reserved {
+                ret.push_touching(contour_idx)
+            } else {
+                contour_idx
+            };
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(last_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            ret.contours[last_contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
@@ -1969,6 +1980,26 @@ impl Contours {
         ret
     }
 
+    /// Adds a new (empty, for now) contour that touches `idx` at a point, and that has the same
+    /// connected piece of the set on its left.
+    ///
+    /// The new contour is always a hole in that connected piece: if `idx` is its outer boundary
+    /// then the new contour is a child, and if `idx` is another hole then it's a sibling.
+    fn push_touching(&mut self, idx: ContourIdx) -> ContourIdx {
+        let touching = &self.contours[idx.0];
+        let parent = if touching.outer {
+            Some(idx)
+        } else {
+            touching.parent
+        };
+        self.contours.push(Contour {
+            path: BezPath::default(),
+            parent,
+            outer: false,
+        });
+        ContourIdx(self.contours.len() - 1)
+    }
+
     /// Iterates over all of the contours, ignoring the hierarchical structure.
     ///
     /// For example, if you're creating an SVG path out of all these contours then
-- 
2.43.0


From 758f36a90236cf8e534c4d547c95fa3b1a0264f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 03/27] fix: merge runs of three or more coincident output
 segments

Merging only considers scan-line neighbors, but it compared against the
original neighbor even if that neighbor had already been merged away. So three
or more coincident segments never collapsed to one, and leftover pairs could
show up as zero-width contours in the output.
---
 src/topology.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 93ec5ed..fd44ff7 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -847,7 +847,13 @@ impl<W: WindingNumber> Topology<W> {
                 // b and c aren't. Then merging a and d would be bad -- even if they're clockwise
                 // neighbors by going around the way that avoids b and c -- because it would mess up
                 // the winding numbers of b and c.
-                if y0 != y1 && self.scan_west[idx] != Some(cw_nbr.idx) {
+                //
+                // Segments that were already merged away don't count as being in between.
+                let mut west = self.scan_west[idx];
+                while let Some(deleted) = west.filter(|w| self.deleted[*w]) {
+                    west = self.scan_west[deleted];
+                }
+                if y0 != y1 && west != Some(cw_nbr.idx) {
                     continue;
                 }
                 if y0 != y1 {
-- 
2.43.0


From ddc3ab535f059e7c23ac63a22f330bf9e576b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 04/27] fix: terminate the contour links of non-closed paths

The first segment of a non-closed path was linked to whatever segment preceded
it in the arena (or to itself) and the last one to whatever would come next
(possibly out of bounds), instead of both links being None as documented.
---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From 495480d8cd439f7b5b1c554ea5df9ca3fc284096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 05/27] fix: leave the segment arena unchanged when adding a
 non-closed path fails

The segments that were read before noticing the problem used to stay in the
arena, with no entry in the enter and exit lists and with contour links
pointing at segments of whichever path got added next.
---
 src/segments.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/segments.rs b/src/segments.rs
index 20194d9..091340c 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -296,9 +296,13 @@ impl Segments {
     /// Add a Bézier path to this arena.
     ///
     /// The path can contain multiple subpaths, and each of them must be closed.
+    /// If one of them isn't, this returns an error and leaves the arena unchanged.
     pub fn add_bez_path(&mut self, p: &BezPath) -> Result<(), NonClosedPath> {
         let old_len = self.segs.len();
-        self.add_path_without_updating_enter_exit(p, true)?;
+        if let Err(e) = self.add_path_without_updating_enter_exit(p, true) {
+            self.truncate(old_len);
+            return Err(e);
+        }
         self.update_enter_exit(old_len);
         Ok(())
     }
@@ -395,6 +399,17 @@ impl Segments {
         Ok(())
     }
 
+    /// Forgets all but the first `len` segments. The forgotten segments must not have been
+    /// added to the enter and exit lists yet.
+    fn truncate(&mut self, len: usize) {
+        self.segs.inner.truncate(len);
+        self.contour_prev.inner.truncate(len);
+        self.contour_next.inner.truncate(len);
+        self.orientation.inner.truncate(len);
+        self.split_from_predecessor.inner.truncate(len);
+        self.input_segs.inner.truncate(len);
+    }
+
     fn add_polyline_without_updating_enter_exit<P: Into<Point>>(
         &mut self,
         ps: impl IntoIterator<Item = P>,
-- 
2.43.0


From 7359b13ff0d440728468663c38908d1b2c5cecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 06/27] fix: report NaNs in the input as Error::NaN

The check looked for NaNs in the extremal values of the bounding box, but
taking minima and maxima of floats drops NaNs. So the NaN check never fired,
and we'd either panic or report the path as not closed.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..339b0d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,8 +103,9 @@ pub fn binary_op(
     if min.is_infinite() || max.is_infinite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
+    // We can't rely on NaNs propagating to the min and max, because `f64::min` and `f64::max`
+    // prefer numbers over NaNs.
+    if set_a.is_nan() || set_b.is_nan() {
         return Err(Error::NaN);
     }
 
-- 
2.43.0


From fd07221a87ae94126bda2c73d7f8885d7049278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 07/27] dst: hooks module for deterministic simulation, and a
 hook in the comparison cache

Only compiled with --cfg linesweeper_dst.
---
 src/dst.rs   | 70 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs   | 22 +++++++++++++++++
 src/order.rs | 11 +++++++++
 3 files changed, 103 insertions(+)
 create mode 100644 src/dst.rs

diff --git a/src/dst.rs b/src/dst.rs
new file mode 100644
index 0000000..c301806
--- /dev/null
+++ b/src/dst.rs
@@ -0,0 +1,70 @@
+//! Hooks for deterministic simulation testing.
+//!
+//! This module (and every use of it) is only compiled with `--cfg linesweeper_dst`. It lets a
+//! simulator decide, on the current thread, whether some unusual-but-legal thing happens: a
+//! cached comparison is forgotten, an optional fast path isn't taken, the event queue contains
+//! an event for two segments that don't interact, and so on. None of these are allowed to
+//! affect the correctness of the output.
+
+use std::cell::RefCell;
+
+/// The places where a simulator can intervene.
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
+pub enum Site {
+    /// Some unit of work was done. Returning something has no effect, but the hook might panic
+    /// in order to abandon the work.
+    Tick,
+    /// A cached comparison is about to be used. Return an even number to forget it, and an
+    /// odd number to forget the whole cache.
+    ForgetComparison,
+    /// A scan for intersections is about to stop early. Return something to keep scanning.
+    KeepScanning,
+    /// A segment was just inserted in the sweep line. Return something to queue an event at
+    /// which that segment "touches" a neighbor; the number influences which neighbor, and when.
+    SpuriousTouch,
+    /// A segment is about to replace the previous segment in its contour, sharing its slot
+    /// in the sweep line. Return something to insert it separately.
+    NoSlotSharing,
+    /// The position of a new segment is about to be determined just by bounding boxes. Return
+    /// something to skip that fast path.
+    SlowInsertion,
+    /// A range with a single segment is about to be handled by a fast path. Return something
+    /// to skip the fast path.
+    SlowRange,
+    /// The changed intervals are about to be computed. Return something to give a position
+    /// to some segment that doesn't need one; the number influences which one.
+    ExtraPosition,
+}
+
+type Hook = Box<dyn FnMut(Site) -> Option<u64>>;
+
+thread_local! {
+    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
+}
+
+/// Installs a hook for the current thread, returning the one that was there before.
+///
+/// The hook isn't called re-entrantly: while it's running, nothing unusual happens.
+pub fn set_hook(hook: Option<Hook>) -> Option<Hook> {
+    HOOK.with(|h| std::mem::replace(&mut *h.borrow_mut(), hook))
+}
+
+/// Puts the hook back, even if it panicked.
+struct Restore(Option<Hook>);
+
+impl Drop for Restore {
+    fn drop(&mut self) {
+        HOOK.with(|h| {
+            let mut h = h.borrow_mut();
+            if h.is_none() {
+                *h = self.0.take();
+            }
+        });
+    }
+}
+
+pub(crate) fn decide(site: Site) -> Option<u64> {
+    let hook = HOOK.with(|h| h.borrow_mut().take())?;
+    let mut restore = Restore(Some(hook));
+    restore.0.as_mut().and_then(|hook| hook(site))
+}
diff --git a/src/lib.rs b/src/lib.rs
index 339b0d6..98ccb93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,12 +1,34 @@
 #![deny(missing_docs)]
 #![doc = include_str!("../README.md")]
 
+// `linesweeper_dst` isn't a feature: it's set with `RUSTFLAGS="--cfg linesweeper_dst"` when
+// running the crate in a simulator.
+#![allow(unexpected_cfgs)]
+
+/// In a simulation, asks the simulator whether something unusual should happen. Otherwise,
+/// it never does.
+macro_rules! dst_fire {
+    ($site:ident) => {{
+        #[cfg(linesweeper_dst)]
+        {
+            crate::dst::decide(crate::dst::Site::$site).is_some()
+        }
+        #[cfg(not(linesweeper_dst))]
+        {
+            false
+        }
+    }};
+}
+
 #[macro_use]
 mod typed_vec;
 
 #[cfg(any(test, feature = "arbitrary"))]
 pub mod arbitrary;
 pub mod curve;
+#[cfg(linesweeper_dst)]
+#[doc(hidden)]
+pub mod dst;
 mod geom;
 mod num;
 pub mod order;
diff --git a/src/order.rs b/src/order.rs
index d3f8b7c..3d51fc5 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -55,6 +55,17 @@ impl ComparisonCache {
     ///
     /// TODO: this API will change to something with less cloning
     pub fn compare_segments(&mut self, segments: &Segments, i: SegIdx, j: SegIdx) -> CurveOrder {
+        #[cfg(linesweeper_dst)]
+        if self.inner.contains_key(&(i, j)) {
+            match crate::dst::decide(crate::dst::Site::ForgetComparison) {
+                Some(n) if n % 2 == 0 => {
+                    self.inner.remove(&(i, j));
+                }
+                Some(_) => self.inner.clear(),
+                None => {}
+            }
+        }
+
         if let Some(order) = self.inner.get(&(i, j)) {
             return order.clone();
         }
-- 
2.43.0


From 83aaca3321627ab8a7a932ffbe136e11be57de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 08/27] dst: hooks in the sweep line

With --cfg linesweeper_dst a simulator can skip optional fast paths and early exits, and
queue extra events. Without it, nothing changes.
---
 src/sweep/sweep_line.rs | 78 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 02cb6da..9053cb4 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -156,10 +156,13 @@ impl SegmentOrderEntry {
     }
 }
 
+/// In a simulation, we use a small fanout so that small sweep lines have interesting trees.
+const SEGMENT_ORDER_FANOUT: usize = if cfg!(linesweeper_dst) { 4 } else { 128 };
+
 #[cfg_attr(test, derive(serde::Serialize))]
 #[derive(Clone, Default)]
 pub(crate) struct SegmentOrder {
-    pub(crate) segs: TreeVec<SegmentOrderEntry, 128>,
+    pub(crate) segs: TreeVec<SegmentOrderEntry, SEGMENT_ORDER_FANOUT>,
 }
 
 impl std::fmt::Debug for SegmentOrder {
@@ -350,6 +353,7 @@ impl<'segs> Sweeper<'segs> {
         self.check_invariants();
 
         let y = self.events.next_y(self.segments)?;
+        let _ = dst_fire!(Tick);
         self.advance(y);
         self.check_invariants();
 
@@ -379,6 +383,14 @@ impl<'segs> Sweeper<'segs> {
             self.check_invariants();
         }
 
+        #[cfg(linesweeper_dst)]
+        if let Some(n) = crate::dst::decide(crate::dst::Site::ExtraPosition) {
+            if !self.line.segs.is_empty() {
+                self.segs_needing_positions
+                    .push((n % self.line.segs.len() as u64) as usize);
+            }
+        }
+
         self.compute_changed_intervals();
         Some(SweepLine {
             state: self,
@@ -439,7 +451,7 @@ impl<'segs> Sweeper<'segs> {
             // Our basic comparisons use eps tolerance and eps/2 accuracy, so if
             // our max_x is 1.5 eps less than their min_x then we're guaranteed
             // to always compare Order::Left of them.
-            if seg.max_x() + 2.0 * self.eps < other.min_x() {
+            if seg.max_x() + 2.0 * self.eps < other.min_x() && !dst_fire!(KeepScanning) {
                 break;
             }
             height_bound = height_bound.min(other.end().y);
@@ -468,7 +480,7 @@ impl<'segs> Sweeper<'segs> {
 
             let cmp = self.compare_segments_conservatively(seg_idx, other_idx);
             if let Some((_y0, y1, order)) = cmp.iter().find(|(_, y1, _)| *y1 > y) {
-                if order == Order::Left && y1 >= height_bound {
+                if order == Order::Left && y1 >= height_bound && !dst_fire!(KeepScanning) {
                     break;
                 }
             }
@@ -493,7 +505,7 @@ impl<'segs> Sweeper<'segs> {
                 continue;
             }
 
-            if seg.min_x() - 2.0 * self.eps > other.max_x() {
+            if seg.min_x() - 2.0 * self.eps > other.max_x() && !dst_fire!(KeepScanning) {
                 break;
             }
             height_bound = height_bound.min(other.end().y);
@@ -518,7 +530,7 @@ impl<'segs> Sweeper<'segs> {
 
             let cmp = self.compare_segments_conservatively(other_idx, seg_idx);
             if let Some((_y0, y1, order)) = cmp.iter().find(|(_, y1, _)| *y1 > y) {
-                if order == Order::Left && y1 >= height_bound {
+                if order == Order::Left && y1 >= height_bound && !dst_fire!(KeepScanning) {
                     break;
                 }
             }
@@ -541,6 +553,45 @@ impl<'segs> Sweeper<'segs> {
         self.line.segs.insert(pos, seg);
         self.intersection_scan_right(pos);
         self.intersection_scan_left(pos);
+        #[cfg(linesweeper_dst)]
+        self.maybe_queue_spurious_touch(pos);
+    }
+
+    /// Lets a simulator queue a "touch" event between the segment at `pos` and one of its
+    /// neighbors, at some height before they really interact.
+    #[cfg(linesweeper_dst)]
+    fn maybe_queue_spurious_touch(&mut self, pos: usize) {
+        let Some(n) = crate::dst::decide(crate::dst::Site::SpuriousTouch) else {
+            return;
+        };
+        let nbr = if n % 2 == 0 {
+            Some(pos + 1)
+        } else {
+            pos.checked_sub(1)
+        };
+        let Some(nbr) = nbr.filter(|i| *i < self.line.segs.len()) else {
+            return;
+        };
+        let left = self.line.seg(pos.min(nbr));
+        let right = self.line.seg(pos.max(nbr));
+        let mut bound = self.segments[left].end().y.min(self.segments[right].end().y);
+        if bound <= self.y {
+            return;
+        }
+        match self.compare_segments(left, right).next_touch_after(self.y) {
+            Some(curve::CurveInteraction::Cross(y)) | Some(curve::CurveInteraction::Touch(y)) => {
+                bound = bound.min(y);
+            }
+            None => {}
+        }
+        let y = self.y + (bound - self.y) * ((n / 2) % 8) as f64 / 8.0;
+        if y > self.y && y < bound {
+            self.events.push(IntersectionEvent {
+                y,
+                left: right,
+                right: left,
+            });
+        }
     }
 
     fn handle_enter(&mut self, seg_idx: SegIdx) {
@@ -565,11 +616,17 @@ impl<'segs> Sweeper<'segs> {
         if let Some(contour_prev) = contour_prev {
             if self.segments[contour_prev].start().y < self.y {
                 debug_assert_eq!(self.segments[contour_prev].end(), new_seg.start());
-                if pos < self.line.segs.len() && self.line.segs[pos].seg == contour_prev {
+                if pos < self.line.segs.len()
+                    && self.line.segs[pos].seg == contour_prev
+                    && !dst_fire!(NoSlotSharing)
+                {
                     self.handle_contour_continuation(seg_idx, new_seg, pos);
                     return;
                 }
-                if pos > 0 && self.line.segs[pos - 1].seg == contour_prev {
+                if pos > 0
+                    && self.line.segs[pos - 1].seg == contour_prev
+                    && !dst_fire!(NoSlotSharing)
+                {
                     self.handle_contour_continuation(seg_idx, new_seg, pos - 1);
                     return;
                 }
@@ -644,6 +701,7 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn handle_intersection(&mut self, left: SegIdx, right: SegIdx) {
+        let _ = dst_fire!(Tick);
         let left_idx = self.line.position(left).unwrap();
         let right_idx = self.line.position(right).unwrap();
         if left_idx < right_idx {
@@ -1165,7 +1223,9 @@ impl SegmentOrder {
 
         if pos >= self.segs.len() {
             return pos;
-        } else if pos + 1 >= self.segs.len() || self.segs[pos + 1].lower_bound >= seg_x {
+        } else if (pos + 1 >= self.segs.len() || self.segs[pos + 1].lower_bound >= seg_x)
+            && !dst_fire!(SlowInsertion)
+        {
             // At this point, the segment before pos is definitely to our left, and the segment
             // after pos is definitely to our right (or there is no such segment). That means
             // we can insert either before or after `pos`. We'll choose based on what the order
@@ -1455,7 +1515,7 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
             .clone();
         self.next_changed_interval += 1;
 
-        if range.segs.len() == 1 && range.horizontals.is_none() {
+        if range.segs.len() == 1 && range.horizontals.is_none() && !dst_fire!(SlowRange) {
             return self.next_range_single_seg(bufs, segments, range.segs.start);
         }
 
-- 
2.43.0


From d9cbe92751088d837fd569baf4910a7418a5501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 09/27] fix: solve for t with an accuracy that doesn't depend
 on the scale

---
 src/curve/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..c65bcad 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -352,8 +352,9 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
-    let roots = cubic.roots_between(0.0, 1.0, eps);
+    // This accuracy is for the root (which is between 0 and 1), so it doesn't
+    // depend on how large the coefficients are.
+    let roots = cubic.roots_between(0.0, 1.0, 1e-12);
     if !roots.is_empty() {
         return roots[0];
     }
-- 
2.43.0


From 7951ec90c9104123caa6acdf3d75e9c0180a5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 10/27] fix: skip intervals that collapse when comparing curves

---
 src/curve/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index c65bcad..d7ce218 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1100,6 +1100,10 @@ fn intersect_cubics_rec(
 
     //println!("ep1 - ep0 = {:?}", dep);
     for (new_y0, new_y1, order) in scratch.iter() {
+        // Undoing the scaling can collapse an interval.
+        if new_y0 >= new_y1 {
+            continue;
+        }
         // dbg!(new_y0, new_y1, order);
         // dbg!(
         //     solve_x_for_y(orig_c0, new_y0),
-- 
2.43.0


From 99978c58bf3b26a02feab199d0cbe959b0656011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 11/27] fix: don't merge output segments beyond their
 unperturbed part

---
 src/topology.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index fd44ff7..308cadb 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1084,7 +1084,16 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // The merge only goes as far as the copied part of the output segment: the rest of the
+        // output segment (if any) was perturbed, and so it needs to be kept as it is.
+        let copied_end = if seg.is_first_half() {
+            pos.path.elements().get(1)
+        } else {
+            pos.path.elements().iter().rev().nth(1)
+        };
+        let end_y = copied_end
+            .and_then(|el| el.end_point())
+            .map_or(self.point(seg.other_half()).y, |p| p.y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From a8c1d6d42a7572dc37548d8811b9fc6564460d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 12/27] fix: only merge an output segment with its own
 continuation

---
 src/topology.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 308cadb..445ccda 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1119,7 +1119,18 @@ impl<W: WindingNumber> Topology<W> {
                 None
             }
         };
-        if self.is_simple_point(seg) {
+        // Even at a simple point, our neighbor might not be our continuation: if there were
+        // coincident segments, our continuation might have been deleted in favor of another one.
+        let nbr_idx = self.orig_seg[self.point_neighbors[seg].clockwise.idx];
+        let continuation = if has_orig_orientation {
+            self.segments.contour_prev(orig_idx)
+        } else {
+            self.segments.contour_next(orig_idx)
+        };
+        if self.is_simple_point(seg)
+            && continuation == Some(nbr_idx)
+            && self.segments.input_segs[nbr_idx] == self.segments.input_segs[orig_idx]
+        {
             can_merge
         } else {
             None
-- 
2.43.0


From b0cfc48c17549f339c9874c0a52b0ea83476b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 13/27] fix: keep the control points of very short subsegments
 in range

---
 src/curve/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index d7ce218..d906d86 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -391,6 +391,12 @@ pub fn y_subsegment(c: CubicBez, y0: f64, y1: f64) -> CubicBez {
     let mut ret = c.subsegment(t0..t1);
     ret.p0.y = y0;
     ret.p3.y = y1;
+    // In a cubic with monotonic y, the control points can't go further than this. (When `y1` is
+    // extremely close to `y0`, the rounding errors of `subsegment` are large compared to
+    // `y1 - y0`.)
+    let reach = 4.0 / 3.0 * (y1 - y0);
+    ret.p1.y = ret.p1.y.max(y0).min(y0 + reach);
+    ret.p2.y = ret.p2.y.min(y1).max(y1 - reach);
     ret
 }
 
-- 
2.43.0


From 1b956f34fa6b7394269424dcf025480c54ad20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 14/27] fix: always compare a pair of segments in the same
 direction

---
 src/order.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/order.rs b/src/order.rs
index 3d51fc5..e072d19 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -70,16 +70,18 @@ impl ComparisonCache {
             return order.clone();
         }
 
-        let segi = &segments[i];
-        let segj = &segments[j];
-
-        let c0 = segi.to_kurbo_cubic();
-        let c1 = segj.to_kurbo_cubic();
+        // The numerical comparison isn't perfectly symmetric. Always compare the
+        // two segments in the same direction, so that the answer doesn't depend
+        // on the direction of the first question.
+        let (a, b) = (i.min(j), i.max(j));
+        let c0 = segments[a].to_kurbo_cubic();
+        let c1 = segments[b].to_kurbo_cubic();
         let forward =
             curve::intersect_cubics(c0, c1, self.tolerance, self.accuracy).with_y_slop(self.y_slop);
         let reverse = forward.flip();
-        self.inner.insert((j, i), reverse);
-        self.inner.entry((i, j)).insert_entry(forward).get().clone()
+        self.inner.insert((b, a), reverse);
+        self.inner.insert((a, b), forward);
+        self.inner[&(i, j)].clone()
     }
 }
 
-- 
2.43.0


From 67466c6558caf0f3522581169af07a2e4290b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 15/27] fix: remember the position in
 SweepLineRange::increase_x

Alternating between increase_x and events is documented, but events used
the position of the last call to events (or panicked if there was none).
---
 src/sweep/range.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sweep/range.rs b/src/sweep/range.rs
index 33082dd..cc66e2f 100644
--- a/src/sweep/range.rs
+++ b/src/sweep/range.rs
@@ -305,6 +305,7 @@ impl<'bufs, 'state, 'segs> SweepLineRange<'bufs, 'state, 'segs> {
                     self.bufs.active_horizontals.push(hseg);
                 }
             }
+            self.last_x = Some(x);
         }
         self.bufs
             .active_horizontals
-- 
2.43.0


From deddb140e12046ed5383b750553272aeac3827d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 16/27] fix: don't jump ahead on lines in compute_positions

When a group of close segments started in the middle of a line, the
line's path went all the way to its endpoint before it was joined up
with the group's perturbed part, and so it doubled back.
---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..5adf683 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -78,7 +78,8 @@ fn ordered_curves_all_close(
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
             if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
+                // Only go up to `y0`: the rest of the line might need to be perturbed.
+                out.path.line_to((segs[seg_idx].at_y(y0), y0))
             } else {
                 let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
-- 
2.43.0


From 15562c270e3b7b5f00027db0e81bc346f532300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 17/27] fix: enforce the order of output segments at negative
 heights too

compute_positions thought that every output segment starting above zero
was already handled, and copied it without perturbing it.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index 5adf683..4e11ea0 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -262,6 +262,9 @@ pub(crate) fn compute_positions(
     // we need to separately keep track of how far down we've looked at each output. If
     // we weren't lazy, that would just be the last `y` coordinate in `out`.
     let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
+    for idx in orig_seg_map.indices() {
+        last_y[idx] = f64::NEG_INFINITY;
+    }
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
-- 
2.43.0


From 54e91db63018bd444f19cbe08ec2e9c0adab4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 18/27] fix: stop laying out a group of segments where another
 one joins it

compute_positions let a group run past the height where another segment
got close to it, if that segment only became a neighbor there. Then the
late-comer's group went back to parts that were laid out already, and
the paths doubled back.
---
 src/position.rs | 20 ++++++++++++--------
 src/topology.rs |  9 +++++----
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 4e11ea0..0da0a36 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -294,10 +294,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -305,6 +301,12 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // We aren't close to the next neighbor yet, if there is one.
+        if let Some(close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -313,10 +315,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -324,6 +322,12 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // We aren't close to the next neighbor yet, if there is one.
+        if let Some(close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
diff --git a/src/topology.rs b/src/topology.rs
index 445ccda..e200ddf 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1707,20 +1707,21 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
+        for (y0, y1, other_seg) in self.iter(seg) {
             if y1 <= y {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
+                // The heights at which these two are neighbors.
+                let y0 = y0.max(y);
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
-                    .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(_, order_y1, order)| *order == Order::Ish && *order_y1 > y0);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(y0));
                 }
             }
         }
-- 
2.43.0


From a965079e2d095dc3b8efa2daf8b1c421f86d5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 19/27] fix: keep lines that get perturbed at one end in order

compute_positions joined the unperturbed start of a line up with its
perturbed end by going to where the original line was, which isn't
ordered with respect to other lines whose endpoints were moved.
---
 src/position.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 0da0a36..1de3d08 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -79,7 +79,11 @@ fn ordered_curves_all_close(
             let endpoint = endpoints[out_idx.second_half()];
             if segs[seg_idx].is_line() {
                 // Only go up to `y0`: the rest of the line might need to be perturbed.
-                out.path.line_to((segs[seg_idx].at_y(y0), y0))
+                // Stay on the line between our own endpoints (which might be perturbed
+                // already), because those are the lines that have the right order.
+                let p0 = bez_end(&out.path);
+                let t = (y0 - p0.y) / (endpoint.y - p0.y);
+                out.path.line_to((p0.x + t * (endpoint.x - p0.x), y0))
             } else {
                 let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
-- 
2.43.0


From e7c1c7566551672cf3b5689c3b4acc8afea438c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 20/27] fix: don't push segments back and forth forever in
 handle_intersection

With three nearly tangent curves where left < j holds, while j ~ right
and left ~ right are on their way to j < right < left, processing the
intersection pushed j to the right of right, and it immediately came back
and brought left along: next_line never returned.
---
 src/sweep/sweep_line.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 9053cb4..949cc0b 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -738,6 +738,24 @@ impl<'segs> Sweeper<'segs> {
                         return;
                     }
 
+                    // Even if `seg_j` doesn't compare strictly left of `right` yet, pushing
+                    // it to the right of `right` is no good if it needs to come back: then
+                    // `left` < `seg_j` would make it bring `left` along, and we'd be pushing
+                    // them back and forth forever. As long as `left` and `right` are still
+                    // close, there's no hurry to process their intersection.
+                    if j_right_order == Order::Ish && j_cmp.order_after(self.y) == Order::Left {
+                        let cmp = self.compare_segments(left, right);
+                        let (_, y3, left_right_order) = cmp.entry_at(self.y);
+                        if left_right_order == Order::Ish {
+                            self.events.push(IntersectionEvent {
+                                y: y1.min(y3),
+                                left,
+                                right,
+                            });
+                            return;
+                        }
+                    }
+
                     to_move.push(j);
                 }
             }
-- 
2.43.0


From 89a7a89fd31169f59ee103c714387d910af4b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 21/27] fix: let close curves cross at the end of the interval
 once past its middle

Crossing immediately made a few nearly tangent curves take turns crossing
one another forever, and next_line never returned. This replaces the
previous change of handle_intersection, which cured only some of the cases.
---
 src/curve/mod.rs        |  4 ++++
 src/sweep/sweep_line.rs | 18 ------------------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index d906d86..b15f483 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -169,6 +169,10 @@ impl CurveOrder {
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
+            // If we're already past the middle, there's still time until the end of the
+            // interval. Crossing immediately isn't an option: if there are several curves
+            // close by, they might take turns crossing one another forever.
+            Order::Right if cross_y <= y => Some(CurveInteraction::Cross(y1)),
             Order::Right => Some(CurveInteraction::Cross(cross_y)),
             Order::Left => {
                 if y < y0 {
diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 949cc0b..9053cb4 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -738,24 +738,6 @@ impl<'segs> Sweeper<'segs> {
                         return;
                     }
 
-                    // Even if `seg_j` doesn't compare strictly left of `right` yet, pushing
-                    // it to the right of `right` is no good if it needs to come back: then
-                    // `left` < `seg_j` would make it bring `left` along, and we'd be pushing
-                    // them back and forth forever. As long as `left` and `right` are still
-                    // close, there's no hurry to process their intersection.
-                    if j_right_order == Order::Ish && j_cmp.order_after(self.y) == Order::Left {
-                        let cmp = self.compare_segments(left, right);
-                        let (_, y3, left_right_order) = cmp.entry_at(self.y);
-                        if left_right_order == Order::Ish {
-                            self.events.push(IntersectionEvent {
-                                y: y1.min(y3),
-                                left,
-                                right,
-                            });
-                            return;
-                        }
-                    }
-
                     to_move.push(j);
                 }
             }
-- 
2.43.0


From 613617d18da24c0beb74e17606aea74844aa8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 22/27] fix: don't leave some polylines behind if an iterator
 panics

The ones that had been added stayed there without ever entering or leaving
the sweep line.
---
 src/segments.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 091340c..ed6f606 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -279,6 +279,11 @@ impl Segments {
         &mut self,
         ps: impl IntoIterator<Item = impl IntoIterator<Item = P>>,
     ) {
+        // If one of the iterators panics, none of the polylines should have been added.
+        let ps: Vec<Vec<Point>> = ps
+            .into_iter()
+            .map(|p| p.into_iter().map(|p| p.into()).collect())
+            .collect();
         let old_len = self.segs.len();
         for p in ps {
             self.add_polyline_without_updating_enter_exit(p);
-- 
2.43.0


From 342782bea71da7a6d693d35aeefb6ce7d7330a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 23/27] fix: report infinities and NaNs wherever they are

binary_op_with_eps panicked on them, and binary_op accepted infinite control
points (bounding boxes don't contain them).
---
 src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98ccb93..82841dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,20 @@ impl std::fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Checks that all of the coordinates are finite.
+///
+/// We can't rely on bounding boxes for this: they don't necessarily contain the control
+/// points, and `f64::min` and `f64::max` prefer numbers over NaNs.
+fn check_finite(set_a: &kurbo::BezPath, set_b: &kurbo::BezPath) -> Result<(), Error> {
+    if set_a.is_nan() || set_b.is_nan() {
+        Err(Error::NaN)
+    } else if !set_a.is_finite() || !set_b.is_finite() {
+        Err(Error::Infinity)
+    } else {
+        Ok(())
+    }
+}
+
 /// Computes a boolean operation between two sets, each of which is described as
 /// a collection of closed polylines.
 ///
@@ -118,18 +132,12 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a, set_b)?;
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
     let max = bbox.max_x().max(bbox.max_y());
-    if min.is_infinite() || max.is_infinite() {
-        return Err(Error::Infinity);
-    }
-    // We can't rely on NaNs propagating to the min and max, because `f64::min` and `f64::max`
-    // prefer numbers over NaNs.
-    if set_a.is_nan() || set_b.is_nan() {
-        return Err(Error::NaN);
-    }
 
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
@@ -153,6 +161,8 @@ pub fn binary_op_with_eps(
     op: BinaryOp,
     eps: f64,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a, set_b)?;
+
     let top = Topology::from_paths_binary(set_a, set_b, eps)?;
     #[cfg(feature = "debug-svg")]
     {
-- 
2.43.0


From 3945172c748a5c82b5032b1086268be74bc50246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 24/27] fix: don't skip a touch that comes just after two
 curves come apart

---
 src/curve/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b15f483..05d16f7 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -165,7 +165,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (next_y0, _, next_order) = iter.next()?;
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
@@ -178,7 +178,9 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    // We're already touching. Look for the next time, starting in
+                    // the definite order after this.
+                    self.next_touch_after(next_y0)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From 1cfca9c59d3fe0cc666845fc44eafdf423031f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 25/27] fix: scale up small curves when intersecting them

The padding in the recursive intersection was an absolute 1e-12 whenever the
curves were less than one unit high. For inputs that are small as a whole (about
1e-4 and below, with a tolerance in proportion) that's more than the accuracy
that was asked for, and the recursion never came to an end.
---
 src/curve/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 05d16f7..f2c1e60 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -991,6 +991,13 @@ fn max_distance(c0: CubicBez, c1: CubicBez) -> f64 {
         .max(l_infty_distance(c0.p3, c1.p3))
 }
 
+/// The largest coordinate, in absolute value.
+fn max_param(c: CubicBez) -> f64 {
+    [c.p0, c.p1, c.p2, c.p3]
+        .iter()
+        .fold(0.0, |max, p| max.max(p.x.abs()).max(p.y.abs()))
+}
+
 fn intersect_cubics_rec(
     orig_c0: CubicBez,
     orig_c1: CubicBez,
@@ -1034,7 +1041,10 @@ fn intersect_cubics_rec(
     // If the y coordinates are very off-center, the quadratic coefficients become
     // large and cause instability. So we re-center and then compensate afterwards.
     let y_mid = (y0 + y1) / 2.0;
-    let y_unscale = (y1 - y0).max(1.0);
+    //
+    // Curves that are small as a whole need to be scaled up, or else the padding below
+    // is too large for them.
+    let y_unscale = (y1 - y0).max(max_param(orig_c0).max(max_param(orig_c1)).min(1.0));
     //let y_unscale = 1.0f64;
     let y_scale = y_unscale.recip();
     c0.p0.y = (c0.p0.y - y_mid) * y_scale;
-- 
2.43.0


From 597f6b5424fdcdb786f663ae66e379df8adcde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:50 +0000
Subject: [PATCH 26/27] fix: don't recurse when grouping contours

Grouping deeply nested contours overflowed the stack, which aborts the process.
---
 src/topology.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index e200ddf..f641404 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1993,14 +1993,13 @@ impl Contours {
 
         let mut ret = Vec::with_capacity(top_level.len());
         for top in top_level {
+            // This doesn't recurse, because contours can be nested very deeply.
             let mut tree = Vec::new();
-            fn visit(idx: ContourIdx, children: &[Vec<ContourIdx>], acc: &mut Vec<ContourIdx>) {
-                acc.push(idx);
-                for &child in &children[idx.0] {
-                    visit(child, children, acc);
-                }
+            let mut stack = vec![top];
+            while let Some(idx) = stack.pop() {
+                tree.push(idx);
+                stack.extend(children[idx.0].iter().rev());
             }
-            visit(top, &children, &mut tree);
             ret.push(tree);
         }
 
-- 
2.43.0


From 16a2b45d2aea646bf49b7bdbfab4c17c26a9e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:56 +0000
Subject: [PATCH 27/27] fix: don't delay an intersection to the end of its
 segments

There, the comparison of the two segments has no entry anymore, so
handling the intersection panicked.
---
 src/sweep/sweep_line.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 9053cb4..51a02ff 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -730,11 +730,12 @@ impl<'segs> Sweeper<'segs> {
                     let j_cmp = self.compare_segments(seg_j_idx, right);
                     let (_, y2, j_right_order) = j_cmp.entry_at(self.y);
                     if j_right_order == Order::Left {
-                        self.events.push(IntersectionEvent {
-                            y: y1.min(y2),
-                            left,
-                            right,
-                        });
+                        // If nothing changes until `left` or `right` ends, there's no
+                        // intersection left to handle.
+                        let y = y1.min(y2);
+                        if y < self.segments[left].end().y.min(self.segments[right].end().y) {
+                            self.events.push(IntersectionEvent { y, left, right });
+                        }
                         return;
                     }
 
-- 
2.43.0

