HOOK_COMMITS = ["fd07221a87ae94126bda2c73d7f8885d7049278e", "83aaca3321627ab8a7a932ffbe136e11be57de81"]
NOTE = "Seeded search over simulated runs, so a clean batch is evidence rather than proof; trusts the simulator's reference models, and kurbo and std as they are."
CLAIMED = {
    "C01": ("seeded workloads, engine faults at sweep and cache sites, a winding number model as the oracle",
            "Compares the output with the winding numbers of the flattened inputs at sample points outside of a margin, with and without engine faults."),
    "C02": ("seeded workloads, engine faults at sweep and cache sites, structural invariants and a winding number model as the oracle",
            "Checks structure, nesting, orientation and coverage of the contours of each run against winding numbers of the output's own paths and of the inputs."),
    "C03": ("seeded workloads with user-defined winding number types, engine faults, and a winding number model as the oracle",
            "Compares the topology's per-segment winding numbers and the contours of arbitrary predicates with winding numbers of the flattened inputs."),
    "C04": ("seeded workloads, engine faults, and distances to the flattened inputs as the oracle",
            "Measures the distance of sampled output points to the input curves."),
    "C05": ("seeded workloads submitted in several orders, permuted simultaneous events and other engine faults, and the sets' equality as the oracle",
            "Compares the outputs of several submissions of the same paths with one another."),
    "C06": ("seeded hash seeds, simulated threads with a seeded scheduler, cache evictions, re-execution in other processes, and bitwise equality as the oracle",
            "Compares the answers to repeated requests bit by bit."),
    "C07": ("simulated threads that sweep concurrently, with a seeded scheduler, shared dirty buffers and readers that give up anywhere, engine faults, and each sweep's undisturbed history as the oracle",
            "Compares everything that each of several interleaved sweeps delivers with its history when it's run alone."),
    "C08": ("seeded histories of checkpoints, crashes (also inside of the engine) and resumptions, engine faults, and the undisturbed history as the oracle",
            "Compares everything that resumed sweeps deliver with the history of an undisturbed one."),
    "C09": ("seeded workloads, engine faults, and invariants of the history of events",
            "Checks the recorded history of each sweep: order, batches, connections, chains, endpoints and closeness."),
    "C10": ("seeded workloads, engine faults, and a model of which segments span which heights and in which order",
            "Checks each prefix of a sweep against an independent evaluation of all of the curves."),
    "C11": ("crashes injected into user code at seeded ordinals, and the undisturbed answers as the oracle",
            "Crashes callbacks, and compares what's left with what it should be."),
    "C12": ("seeded histories of additions, including ones that fail halfway, compared with a model collection after each step",
            "Compares the collection with an independent model after each addition."),
    "C13": ("corruptions injected into valid requests, engine faults, and the documented errors as the oracle",
            "Checks which error is returned for which corruption."),
    "C14": ("seeded histories of operations on several clones, checked step by step against plain vectors, with injected panics",
            "Compares every operation with a plain vector."),
    "C15": ("seeded histories of comparisons, evictions and crashes, with fresh caches, mirror images and an evaluation of the curves as the oracles",
            "Compares each answer with those given before, by other caches and for the swapped pair, and with the curves themselves."),
    "C16": ("simulated threads that share immutable data, with a seeded scheduler, and the answers given in isolation as the oracle",
            "Compares what concurrent readers get with what they get alone."),
    "C18": ("seeded workloads with bundles of nearly tangent curves, engine faults, and geometric invariants of the positioned paths",
            "Checks ends, continuity, monotonicity and pairwise order of the paths of all output segments."),
    "C19": ("seeded histories of operations with crashes and reloads of saved state, engine faults, and a set expression over winding numbers of the original shapes as the oracle",
            "Compares each step's output with the set expression of the history at sample points outside of the accumulated margin."),
    "C17": ("seeded workloads, bursts of superfluous engine events that stop eventually, and a step bound as the oracle",
            "Counts sweep lines and engine steps, and compares them with a bound computed from the input."),
}
