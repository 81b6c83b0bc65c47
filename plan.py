"""What each check runs: for each variant of the build, the number of runs and the time limit."""


def v(quick, thorough=None, q_secs=100, t_secs=2400):
    return {"quick": (quick, q_secs), "thorough": (thorough or quick * 20, t_secs)}


PLAN = {
    "C01": {"order": ["plain", "dst"], "variants": {"plain": v(60000), "dst": v(60000)}},
    "C02": {"order": ["plain", "dst"], "variants": {"plain": v(50000), "dst": v(40000)}},
    "C03": {"order": ["plain", "dst"], "variants": {"plain": v(60000), "dst": v(50000)}},
    "C04": {"order": ["plain", "dst"], "variants": {"plain": v(40000), "dst": v(30000)}},
    "C05": {"order": ["plain", "dst"], "variants": {"plain": v(20000), "dst": v(16000)}},
    "C06": {"order": ["plain", "dst"], "repeats": True, "det": 120, "variants": {"plain": v(14000), "dst": v(9000)}},
    "C07": {"order": ["plain", "dst"], "repeats": True, "variants": {"plain": v(20000), "dst": v(12000)}},
    "C08": {"order": ["plain", "dst"], "variants": {"plain": v(30000), "dst": v(30000)}},
    "C09": {"order": ["plain", "dst"], "variants": {"plain": v(120000), "dst": v(80000)}},
    "C10": {"order": ["plain", "dst"], "variants": {"plain": v(120000), "dst": v(80000)}},
    "C11": {"order": ["plain"], "variants": {"plain": v(50000)}},
    "C12": {"order": ["plain"], "variants": {"plain": v(240000)}},
    "C13": {"order": ["plain", "dst"], "variants": {"plain": v(160000), "dst": v(100000)}},
    "C14": {"order": ["plain"], "variants": {"plain": v(60000)}},
    "C15": {"order": ["plain", "dst"], "repeats": True, "variants": {"plain": v(120000), "dst": v(120000)}},
    "C16": {"order": ["plain", "dst"], "repeats": True, "variants": {"plain": v(16000), "dst": v(12000)}},
    "C17": {"order": ["plain", "dst"], "variants": {"plain": v(120000), "dst": v(80000)}},
    "C18": {"order": ["plain", "dst"], "variants": {"plain": v(100000), "dst": v(40000)}},
    "C19": {"order": ["plain", "dst"], "variants": {"plain": v(50000), "dst": v(40000)}},
}

ASSUMPTIONS = [
    "a clean batch is evidence, not proof: runs are sampled",
    "coordinates are at most 1e8 times the tolerance (the code documents a relative accuracy of 1e-8), and no line is nearly horizontal (a height that's non-zero but less than 64 tolerances, or a slope below 1e-5): see DESIGN.md",
    "the simulator's hash seeds come from overriding getrandom, so std's hash maps are the only users of randomness",
]

RULES = {
    "C01": "each run generates two sets of closed paths from one of 17 families (swarm style: sizes, transforms, tolerance), a plan of engine faults, and an API; it's non-trivial if samples fell both inside and outside of the expected set, and distinct if its event log (the output, bit by bit) is",
    "C02": "as for C01, with families of nested and touching shapes; every output contour is then checked: closed, parents before children, nesting by winding numbers, orientation, no coincident opposite edges, each boundary in one contour; it's non-trivial if there's at least one contour with an area",
    "C03": "as for C01, with a winding number type drawn from five (big integers, boxed, parity, modulo 7, and a free sum), and a predicate; it's non-trivial if the samples saw several winding numbers",
    "C04": "as for C01, with points on all output curves; it's non-trivial if there's output",
    "C05": "each run poses a request as it is, and again with its subpaths permuted, started elsewhere, reversed, closed differently, or with the two sets exchanged, and compares the two outputs by winding numbers at sample points outside of a margin, and by their areas; it's non-trivial if samples fell both inside and outside, and distinct if its event log is",
    "C06": "each run poses one to three requests (operations, topologies, sweeps), and then again on other simulated threads, with other hash seeds, in another order, interleaved with one another, and with cache evictions at random moments; some runs are also repeated in the same and in other processes; it's non-trivial if there's an answer, and distinct if its event log is",
    "C07": "each run has 2 to 4 sweeps on simulated threads, over several or shared collections of segments; a seeded scheduler switches at lines, ranges, batches and (with the hooks) engine sites; they take dirty buffers from a shared pool, and skip or abandon things; it's non-trivial if there were more switches than threads, and distinct if its event log is",
    "C08": "each run sweeps one collection, with clones taken between lines, crashes between lines or at engine sites, resumptions from any clone, and alternation between live clones; it's non-trivial if some sweep was resumed after its first line, and distinct if its event log is",
    "C09": "each run records one complete sweep (open and closed paths, all families) with engine faults; it's non-trivial if there were more than two lines, and distinct if its event log is",
    "C10": "each run records one complete sweep (open and closed paths, all families) with engine faults, and checks the line after each step; it's non-trivial if a line had more than two segments, and distinct if its event log is",
    "C11": "each run is a history of requests whose user code (nine kinds of callbacks) panics at an ordinal drawn from its number of calls, after each of which everything that survives is asked again; it's non-trivial if there was a panic, and distinct if its event log is",
    "C12": "each run is a history of additions to one collection (eight kinds, with degenerate and rejected paths), with the whole collection compared with a model after each one; it's non-trivial if there's a segment, and distinct if its event log is",
    "C13": "each run takes a valid request and corrupts some of its coordinates or elements (or none); it's non-trivial if something was corrupted, and distinct if its event log is",
    "C14": "each run is a history of operations on the sequence container, together with a model vector; it's non-trivial if the container was non-empty at some point, and distinct if its log of contents is",
    "C15": "each run is a history of comparisons of pairs of segments, in several caches and clones of caches, with evictions, swapped arguments, and callers that crash, followed by an independent evaluation of both curves; it's non-trivial if some answer has a strict order, and distinct if its event log is",
    "C16": "each run shares topologies, segments and contours among 2 to 4 simulated threads, which a seeded scheduler switches at callbacks and (with the hooks) engine sites; it's non-trivial if there were more switches than threads, and distinct if its event log is",
    "C18": "each run computes the positions of all output segments, half of the time for a bundle of nearly tangent curves, and checks their ends, their monotonicity, and all pairs of paths at up to 60 heights; it's non-trivial if there was a pair of paths to compare, and distinct if the paths are",
    "C19": "each run is a history of up to nine operations on a pool of shapes, with saving, reloading, rounding and crashes, and compares each output with a set expression over the shapes that there were at first; it's non-trivial if samples fell both inside and outside of an output of an operation on an output, and distinct if its event log is",
    "C17": "each run sweeps one collection and counts lines and engine steps, with a burst of superfluous events that stops at some point; it's non-trivial if there were more than two lines, and distinct if its event log is",
}

COMPONENTS = {
    "real": [
        "all of linesweeper, built from /repo's working tree",
        "kurbo, polycool, arrayvec and the standard library",
    ],
    "stub": [
        "getrandom (hash seeds come from the run's seed)",
        "callers: user threads, callbacks, winding number types and iterators are simulated",
    ],
}
