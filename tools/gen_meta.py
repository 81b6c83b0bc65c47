#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The checks don't use this; it only keeps the two files in step."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


HOOK = "cfg(linesweeper_dst): src/dst.rs decides, at named sites of the sweep line and the comparison cache, whether a legal but unusual alternative is taken"
SL = "src/sweep/sweep_line.rs"
RG = "src/sweep/range.rs"
TP = "src/topology.rs"

prop("C01", "Boolean operations compute the right set",
     "For any two sets of closed, finite Bézier paths, any fill rule and any operation, every point that's farther from all of the input curves than the accuracy warrants is inside the output (winding number exactly 1) if the fill rule and the operation put it inside, and outside (winding number exactly 0) otherwise. "
     "This holds for overlapping, coincident, touching, self-intersecting and degenerate paths, and for lines that are exactly horizontal, at every scale. "
     "It doesn't depend on which of its legal orders the sweep processes events in, nor on what its caches have forgotten.",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs whose lines are either exactly horizontal or not nearly horizontal (see the known findings), with coordinates up to 1e8 times the tolerance; all legal orders of sweep events and all histories of the comparison cache.",
     "The unit tests compare a few dozen outputs with snapshots, and the property tests only check that nothing panics; nobody computes what the set should be.",
     ["src/lib.rs", TP, SL, "src/order.rs", "src/curve/mod.rs", "src/position.rs"],
     [("binary_op, binary_op_with_eps", "src/lib.rs"), ("Sweeper: event queue, intersection scan, changed intervals", SL), ("Topology::from_segments, merge_coincident, contours", TP)],
     ["binary_op", "binary_op_with_eps", "Topology::contours"], HOOK)

prop("C02", "Contours are closed, nested and oriented consistently",
     "The contours of any operation are closed paths that together have winding number exactly 1 or 0 everywhere away from their boundary. "
     "A contour is marked as outer exactly if it goes around the set (rather than around a hole), a contour with a parent has a parent of the opposite kind that's the innermost contour containing it, and a hole always has a parent. "
     "Grouping the contours by containment lists every contour exactly once, with each group starting at an outer contour that has no parent and containing exactly its descendants.",
     ["inputs", "schedules", "fault_sequences"],
     "All closed inputs in the domain of C01, including contours that touch at points; all legal orders of sweep events.",
     "Tests only have a handful of snapshots with a parent; nothing checks containment, orientation or the grouping.",
     [TP], [("Topology::contours: scan-west parents, splitting at repeated points", TP), ("Contours::grouped", TP), ("merge_coincident", TP)],
     ["Contours::contours", "Contours::grouped", "Contour::parent", "Contour::outer"], HOOK)

prop("C03", "Every output segment separates the right winding numbers",
     "In a topology built from any number of tagged closed paths, with any user-defined winding number type, the winding numbers recorded on the two sides of each output segment are those of the input paths there, the segments around every point agree about the winding numbers of the sectors between them, no output segment has the same winding number on both sides, and no two of them overlap along a horizontal line (up to the accuracy). "
     "Consequently the contours of any user-chosen predicate of the winding numbers bound the set of points that satisfy it, and the areas of complementary or disjoint predicates add up.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "All inputs in the domain of C01, in up to five tagged sets, with winding number types and predicates that the caller made up; all legal orders of sweep events.",
     "The tests use two winding number types, never more than two sets, and never compare the winding numbers of a segment with those of the input.",
     [TP], [("Topology::from_paths, process_sweep_line_range, second_half_segs", TP), ("winding_clockwise, winding_counter_clockwise", TP), ("WindingNumber", TP)],
     ["Topology::segment_indices", "winding_clockwise", "winding_counter_clockwise", "contours"], HOOK)

prop("C04", "Outputs stay close to the inputs' curves",
     "Every point on an output contour is within the accuracy of some input curve, and every output segment stays within it of the input segment that it's recorded as coming from. "
     "For polygons the distance is a small multiple of the tolerance (times the inverse slope of the flattest line); for curves it can grow to the square root of tolerance times size, where a curve is flat or nearly tangent to another. The topology's bounding box is that of the inputs.",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs in the domain of C01; all legal orders of sweep events, including extra ones.",
     "The property tests check closeness only with the slow-asserts feature (off, and unusable); snapshots cover fixed inputs.",
     [TP, "src/position.rs", RG, SL], [("compute_positions", "src/position.rs"), ("segs_to_path", TP), ("feasible_horizontal_positions", SL)],
     ["Contour::path", "PositionedOutputSeg::path", "Topology::orig_seg"], HOOK)

prop("C05", "The order in which paths arrive doesn't matter",
     "Submitting the same subpaths in another order, starting each at another vertex, traversing all of them backwards, closing them explicitly or implicitly, or exchanging the two sets (of a symmetric operation) yields the same set, up to the accuracy.",
     ["inputs", "schedules", "histories"],
     "All inputs in the domain of C01 and all orders of submission; simultaneous sweep events get permuted, and so do segment numbers.",
     "No test submits the same paths twice in different orders.",
     [SL, "src/segments.rs", TP], [("event queue: ties between events at the same height", SL), ("Segments::update_enter_exit", "src/segments.rs")],
     ["binary_op_with_eps"], HOOK)

prop("C06", "The same request gives bit-for-bit the same answer",
     "Repeating an operation with the same arguments gives the same contours, bit for bit and in the same order: in the same process or another one, on any thread, alongside other operations, and whatever the hash seeds are. "
     "Evicting cached comparisons at arbitrary moments doesn't change the answer either.",
     ["schedules", "configurations", "fault_sequences", "histories"],
     "All inputs, hash seeds, thread interleavings and cache evictions.",
     "Tests run each input once, with one hash seed per process, and can't evict.",
     ["src/order.rs", SL, TP, "src/position.rs"], [("ComparisonCache", "src/order.rs"), ("EventQueue (BTreeSet, not a hash set)", SL)],
     ["binary_op", "Topology"], HOOK)

prop("C07", "Sweeps don't disturb one another, or their buffers' previous users",
     "Any number of sweeps can be advanced alternately, sharing dirty buffers that another sweep left behind, and each delivers exactly the events that it delivers when run alone with fresh buffers. "
     "This also holds if a caller abandons ranges or lines halfway and moves on to the next one.",
     ["schedules", "histories", "crash_points"],
     "All interleavings of several sweeps, at the granularity of lines, ranges and batches of events, and all points at which a caller stops reading.",
     "Every test runs one sweep at a time to completion with its own buffers.",
     [SL, RG], [("SweepLineBuffers, SweepLineRangeBuffers::clear", RG), ("SweepLine::next_range", SL)],
     ["Sweeper::next_line", "SweepLine::next_range", "SweepLineRange::events"], HOOK)

prop("C08", "A checkpointed sweep resumes exactly where it was",
     "A sweep that's cloned between two lines, and then continues from the clone after the original was dropped (or advanced, or crashed), delivers exactly the events that an undisturbed sweep does.",
     ["crash_points", "histories", "schedules"],
     "All inputs, all checkpoints, any number of crashes and restarts.",
     "No test clones a sweep.",
     [SL, "src/treevec.rs", "src/order.rs"], [("derive(Clone) for Sweeper", SL), ("derive(Clone) for TreeVec", "src/treevec.rs")],
     ["Sweeper::clone", "Sweeper::next_line"], HOOK)

prop("C09", "A sweep reports each segment completely, connectedly and in order",
     "The heights of sweep lines strictly increase, ranges within a line go left to right without overlapping, and batches of events within a range go left to right. "
     "The events of each segment, in the order in which they're delivered, form one connected chain that starts at the segment's first endpoint (connected only below), passes through sweep lines (connected both above and below), and ends at its last endpoint (connected only above); horizontal pieces on one line join up without gaps. "
     "Every reported position is close to the segment.",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs; all legal orders of sweep events.",
     "Tests snapshot a few sweeps of three or four segments.",
     [SL, RG, "src/sweep/output_event.rs"], [("next_range, next_range_single_seg", SL), ("SweepLineRange::events, HFrag", RG)],
     ["sweep()", "SweepLineRange::events", "OutputEvent"], HOOK)

prop("C10", "The sweep line is always complete and in order",
     "Just after each sweep line, the line contains exactly the segments that span that height, each one once, and at every height before the next sweep line they're in left-to-right order up to the tolerance. "
     "Outside of the changed ranges the order of segments doesn't change from one line to the next.",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs and all prefixes of their sweeps; all legal orders of sweep events.",
     "The order is only checked by the slow-asserts feature on the tests' inputs.",
     [SL, "src/treevec.rs", "src/curve/mod.rs"], [("SegmentOrder, handle_enter, handle_exit, handle_intersection, intersection_scan", SL), ("compute_changed_intervals", SL)],
     ["SweepLine::line_segment", "SweepLineRange::segment_range", "SweepLineRange::old_segment_range"], HOOK)

prop("C11", "A crashing callback leaves everything usable",
     "If user code that's called back (an inside predicate, a winding number's arithmetic, an event callback, an iterator of points) panics at any call, the panic reaches the caller unchanged, nothing aborts or hangs, and everything the caller still holds (topologies, segments, sweeps, buffers) keeps giving the answers it gives when there was no panic.",
     ["crash_points", "fault_sequences", "histories"],
     "All call sites of user code, and all ordinals of calls.",
     "No test has a callback that panics.",
     [TP, "src/segments.rs", SL], [("Topology::contours(inside)", TP), ("WindingNumber's Add, Default, Clone, Eq", TP), ("Segments::add_closed_polylines(iter)", "src/segments.rs"), ("sweep(callback)", "src/sweep/mod.rs")],
     ["Topology::contours", "Segments::add_points", "sweep()"], None)

prop("C12", "The segment collection keeps its invariants over any history of additions",
     "After any sequence of additions (open and closed polylines and Bézier paths, with degenerate points, and rejected ones), every segment goes downwards (or rightwards, if it's horizontal), following and preceding a segment are inverse relations that traverse each contour in the order and direction in which it was added, the oriented endpoints chain up exactly, and the entrances and exits list every segment exactly once in sweep order. "
     "A rejected path leaves the collection exactly as it was.",
     ["histories", "crash_points", "inputs"],
     "All sequences of additions, including ones that fail in the middle.",
     "The tests build each collection with a single call, and none adds a path that's rejected.",
     ["src/segments.rs", "src/geom.rs"], [("add_points, add_closed_polyline(s), add_bez_path, add_non_closed_bez_path", "src/segments.rs"), ("update_enter_exit, check_invariants", "src/segments.rs")],
     ["Segments::contour_next", "contour_prev", "entrances", "exits", "oriented_start", "oriented_end", "positively_oriented"], None)

prop("C13", "Faulty input is reported and good input isn't",
     "An operation on paths with an infinite coordinate, a NaN coordinate or a subpath that isn't closed returns the corresponding error, and never panics or returns contours. "
     "Closed, finite paths (including empty ones, single points, and subpaths that go on without a move after a close) are never rejected and never cause a panic.",
     ["inputs", "fault_sequences"],
     "All corruptions of one or several coordinates or elements of a valid request, and all valid requests in the domain of C01.",
     "The tests have no faulty input at all.",
     ["src/lib.rs", "src/segments.rs"], [("binary_op's bounding box and NaN checks", "src/lib.rs"), ("add_path_without_updating_enter_exit", "src/segments.rs")],
     ["binary_op", "Topology::from_paths", "Segments::add_bez_path"], None)

prop("C14", "The sweep line's tree behaves like a vector",
     "For every sequence of insertions, removals, lookups, mutations, range iterations, binary searches and clones, the tree-based vector gives exactly the answers of a plain vector, and mutating one clone never shows in another. "
     "An element is dropped exactly once, and a panicking predicate or clone leaves the structure consistent.",
     ["histories", "crash_points", "configurations"],
     "All histories of operations, for fan-outs from 4 to 64, with several live clones.",
     "The tests only do insertions and removals on single trees of bounded size with one fan-out.",
     ["src/treevec.rs"], [("insert, remove, split, merge, rebalance", "src/treevec.rs"), ("Iter, IterMut, range, range_mut, partition_point", "src/treevec.rs"), ("TreeVec::clone", "src/treevec.rs")],
     ["TreeVec"], None)

prop("C15", "Cached comparisons don't depend on history",
     "Comparing two segments gives the same answer whatever was compared before, whatever was forgotten since, and in whichever cache (of the same parameters) it's asked for, and the answers for a pair and for the swapped pair are mirror images. "
     "The answer covers exactly the common heights (extended by the vertical slop, if any), in increasing order, and where it says that one segment is strictly to the left or right it really is, by more than the tolerance up to the accuracy. "
     "Where it says that they're close, they are, up to the tolerance and the accuracy. What's derived from an answer (the order at and just after a height, and the next height at which the segments touch or cross) agrees with it.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of queries and evictions over all pairs of segments, with several caches and clones of caches.",
     "The tests ask each cache one question.",
     ["src/order.rs", "src/curve/mod.rs"], [("ComparisonCache::compare_segments", "src/order.rs"), ("CurveOrder::flip, with_y_slop", "src/curve/mod.rs"), ("intersect_cubics", "src/curve/mod.rs")],
     ["ComparisonCache::compare_segments", "SweepLine::compare_segments"], HOOK)

prop("C16", "Shared topologies and segments can be read from several threads",
     "Threads that share a topology, a collection of segments or a set of contours, and concurrently compute contours, positions or sweeps from it, each get the answers that they'd get alone, under every interleaving.",
     ["schedules"],
     "All interleavings of up to four threads, at the granularity of the callbacks and engine steps.",
     "All tests are single-threaded.",
     [TP, "src/segments.rs", SL], [("Topology and Segments have no interior mutability", TP), ("Sweeper's RefCell caches are per sweep", SL)],
     ["Topology::contours", "Topology::compute_positions", "sweep()"], HOOK)

prop("C17", "Sweeps make progress and finish",
     "Every operation on finite input finishes: the heights of successive sweep lines strictly increase, and their number is bounded by the number of endpoints plus a bounded number for each pair of segments. "
     "Superfluous events delay this only in proportion to their number.",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs in the domain of C01 and all sequences of superfluous events that stop eventually.",
     "Tests can only fail to terminate on the inputs that they have.",
     [SL, "src/curve/mod.rs"], [("Sweeper::next_line, EventQueue", SL), ("intersection_scan: re-inserting pairs that were already processed", SL)],
     ["Sweeper::next_line", "binary_op"], HOOK)

prop("C18", "Output segments' paths join up and keep their order",
     "The path computed for each output segment starts and ends exactly at the points that the topology records for it, is continuous, and proceeds monotonically in height up to the tolerance. "
     "The paths of two output segments don't cross one another by more than the accuracy (the tolerance and, for polygons, its multiples for nearly horizontal lines, whose ends can move along the line).",
     ["inputs", "schedules", "fault_sequences"],
     "All inputs in the domain of C01; all legal orders of sweep events.",
     "The tests draw the positions into image snapshots, without checking endpoints or crossings.",
     ["src/position.rs", TP], [("compute_positions, ordered_curves", "src/position.rs"), ("build_scan_line_orders", TP)],
     ["Topology::compute_positions", "Topology::point"], HOOK)

prop("C19", "Operations can be chained",
     "The output of an operation is a valid input of the next one. After any history of operations that use earlier outputs as operands, however often, and with any of the outputs saved as SVG text and reloaded, rounded to a coarser grid, or restored after a crash between or within steps, the set that results is what the set-theoretic expression says about the shapes that the history started with, except within the errors that the steps add up to.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "All histories whose steps stay in the domain of C01; all crash points; all legal orders of sweep events.",
     "No test uses an output as an input.",
     ["src/lib.rs", TP, SL, "src/order.rs"],
     [("binary_op and Contours, whose outputs share boundaries with their inputs up to the tolerance", "src/lib.rs"), ("merge_coincident, contours", TP), ("near-coincident segments in the comparison cache", "src/order.rs")],
     ["binary_op", "binary_op_with_eps", "Contours"], HOOK)

prop("C31", "Curve intersection is accurate",
     "The curve comparison primitive locates crossings of two monotonic cubics within its documented tolerance and accuracy.",
     ["inputs"], "All pairs of monotonic cubics.",
     "Only sampled by unit and fuzz tests.",
     ["src/curve/mod.rs", "src/curve/transverse.rs"], [("intersect_cubics, EstParab", "src/curve/mod.rs")], ["intersect_cubics"], None)

prop("C32", "Splitting curves at their vertical extrema keeps their shape",
     "Splitting a Bézier curve into vertically monotonic pieces gives pieces that join up exactly and cover the original curve.",
     ["inputs"], "All cubic Bézier curves.",
     "Only sampled by unit and property tests.",
     ["src/curve/mod.rs", "src/geom.rs"], [("monotonic_pieces, force_monotonic", "src/curve/mod.rs")], ["monotonic_pieces"], None)

prop("C33", "Running time is near-linear for inputs with few intersections",
     "The running time grows like n log n plus the number of intersections, for inputs with few near-coincident segments.",
     ["inputs"], "All inputs.", "Only the benchmarks measure time.",
     [SL, "src/treevec.rs"], [("intersection_scan's early exit", SL), ("TreeVec", "src/treevec.rs")], ["binary_op"], None)

NA = {
    "C31": "a pure function of two curves: there's no schedule, clock, fault, history or interleaving for a simulator to control. Its consequences are covered by C01, C04, C10, C15 and C17.",
    "C32": "a pure function of one curve, with nothing to schedule or to fail. Its consequences (chaining, orientation) are covered by C12.",
    "C33": "about wall-clock performance, which deterministic simulation says nothing about. Progress in terms of steps is C17.",
}

LEVEL_NOTE = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())

ids = [p["id"] for p in P]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for i in ids:
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "deterministic simulation with fault injection: " + CLAIMED[i][0],
            "level": "exploration",
            "level_note": CLAIMED[i][1] + " " + NOTE,
        })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {
        "guard": "cfg(linesweeper_dst)",
        "enable": "RUSTFLAGS=\"--cfg linesweeper_dst\" (check.py builds the simulator twice: with it, in build/dst, and without it, in build/plain)",
        "source_commits": HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in CLAIMED],
    "notes": "See DESIGN.md. Known findings and repairs are in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
