"""Which checkers decide which property. gen_manifest.py makes MANIFEST.json of this."""

BOTH = ("debug", "release")
BFS = "explicit-state breadth-first exploration of operation histories on the real code against a reference model"
FAULT = BFS + ", with every fault point of every transition enumerated"
TRUST = ("Trusted: the reference model, the instrumented allocator and element types of the harness, rustc. "
         "Bounded: everything holds for all histories up to the bounds in the evidence file, not beyond. ")

PLAN = {}


def plan(prop, bins, technique, note, asan=()):
    """`asan`: checkers that are run in a build with the address sanitizer too."""
    PLAN[prop] = {"run": [(c, b, BOTH + (("asan",) if b in asan else ())) for c, b in bins], "technique": technique, "note": note}


def seq(*b):
    return [("seq", x) for x in b]


plan("C01", seq("vec"), BFS, "All histories of Vec operations up to the length and capacity bounds, plus every operation from lengths up to 64.")
plan("C02", seq("vec"), BFS + " with element identities", "Ownership of every element followed through all histories of Vec operations and conversions.", asan=("vec",))
plan("C03", seq("vec", "small", "string"), BFS, "Capacity after every request of every history, with the allocator calls watched; overflowing requests included.")
plan("C04", seq("vec", "small"), BFS, "All sequences up to the bound, all predicate and equality outcomes, call log compared.")
plan("C05", seq("vec", "small"), BFS, "All ranges of all sequences up to the bound, all front/back consumption orders, drop and leak.")
plan("C06", seq("vec"), BFS, "All front/back/nth/peek/drop orders of by-value iteration up to the bound.")
plan("C07", seq("small"), BFS, "All histories of SmallVec operations for inline capacities 0, 1, 2, 3, 4 and 16.")
plan("C08", seq("small"), BFS + " with element identities", "Ownership of every element followed through storage moves and conversions.", asan=("small",))
plan("C09", seq("small"), BFS, "Storage mode and allocator calls after every operation of every history.")
plan("C10", seq("string"), BFS, "All histories over texts of 1- to 4-byte characters, compared with std String.")
plan("C11", seq("string"), FAULT, "Well-formedness after every operation, also unwound ones; conversions over enumerated byte and unit sequences.")
plan("C12", seq("vec", "small"), FAULT, "A panic in every caller callback of every operation in every small state, then use and destruction.")
plan("C13", seq("vec", "small", "string", "ptrs", "boxes"), FAULT, "Failure of every allocator request of every operation in every small state, then retry and destruction.")
plan("C14", seq("vec", "small", "string", "ptrs", "boxes", "scopes"), BFS, "Red zones, poison, layout and owner of each block are checked in all histories, and every access by the address sanitizer.",
     asan=("vec", "small", "string", "ptrs", "boxes", "scopes"))
plan("C16", seq("vec", "small", "string", "ptrs", "boxes"), BFS, "Selector and allocator of each request under all markers and nested scopes.")
plan("C18", seq("boxes", "fwd"), FAULT, "All histories of Box, boxed slices and Vec conversions for all element shapes.", asan=("boxes",))
plan("C19", seq("ptrs"), BFS + " over sets of handles", "All histories over several strong and weak handles, also handles stored inside values and unwinding destructors.", asan=("ptrs",))
plan("C20", seq("ptrs"), BFS + " over sets of handles", "get_mut, make_mut and try_unwrap in every reachable state of a set of handles, clones that panic included.")
plan("C21", seq("ptrs"), BFS + " over sets of handles", "All single-thread histories over several strong and weak handles.")
plan("C25", seq("ptrs"), BFS + " over sets of handles", "All histories over several groups of handles, envelopes and fences on one thread.", asan=("ptrs",))
plan("C26", seq("ptrs"), BFS + " over sets of handles", "get_mut, make_mut, try_unwrap and fencing in every reachable state of several groups of handles.")
plan("C28", seq("ptrs") + [("conc", "conc")], BFS + " over sets of handles; all schedules of programs that send envelopes between threads", "Envelopes made, received and dropped in every reachable state of a set of handles, and sent between threads in all schedules.")
CONC = "stateless exploration of all interleavings, stale reads and failing compare-exchanges of the real code under a controlled scheduler with an operational C++20 memory model"
CTRUST = ("Trusted: the shim that replaces core and std in the verification build (atomics, fences, cells, spin hints), its memory model, rustc. "
          "Bounded: programs of two or three threads with up to the operations listed in the evidence file.")


def conc(prop, note, also=()):
    PLAN[prop] = {"run": [(c, b, BOTH) for c, b in list(also) + [("conc", "conc")]], "technique": CONC, "note": note, "trust": CTRUST}


conc("C22", "All programs up to the bound; races of values, counters and memory found with vector clocks in every execution.")
conc("C23", "All programs up to the bound; each granted access checked against all other accesses and all other handles.")
conc("C24", "All programs up to the bound; every operation has to return, counts compared with the handles left.")
conc("C27", "All programs up to the bound on handles received through envelopes and fences; cells of the per-thread counts are watched too.")
plan("C15", seq("scopes"), "exhaustive enumeration of programs of nested scopes run on the real code, every state of the scope stack checked", "All well-formed programs of nested, unwinding and caught scopes up to the length bound.", asan=("scopes",))
plan("C17", seq("marks"), "exhaustive enumeration of pairs of markers and selectors made at several places of the program", "All pairs over a set of types, markers and places in two crates.")
plan("C29", seq("fwd"), "exhaustive enumeration of pairs of values, sequences and texts on the real code against the values themselves", "All pairs of small values, sequences and texts for all pointers and containers; failing writers included.")

HOOKS = ["2d9cd4d8ebaf550068d65eb1b50e6a59e3297b2e"]
