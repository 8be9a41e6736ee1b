"""What each property's check runs: harness executables, time budgets, and the texts used in MANIFEST and evidence."""
REAL = ["every dcgp header the harness includes, compiled from /repo's working tree with scheduling instrumentation",
        "libstdc++ containers and streams", "Boost.Serialization archives"]
STUB = ["OS scheduler and mutexes (seeded one-at-a-time scheduler)", "memory allocator (fault injection)",
        "entropy source and clock (simulated)", "oneTBB runtime (simulated work-stealing partitioner)",
        "AuDi and SymEngine (not installed here: small stand-ins)"]
BS = ["-lboost_serialization"]
HARNESSES = {
    "rng": {"src": ["rng", "rng_tu2"]},
    "gym": {"src": ["gym"]},
    "expr": {"src": ["expr_e01", "expr_e02", "expr_c", "expr_s", "expr_impl", "s11n_impl"], "libs": BS},
    "ann": {"src": ["ann", "expr_impl", "s11n_impl"], "libs": BS},
    "func": {"src": ["func", "s11n_impl"], "libs": BS},
    "evo": {"src": ["evo", "evo_s", "evo_l", "evo_p", "evo_i", "evo_impl", "prob_impl", "expr_impl", "s11n_impl"], "libs": ["-lpagmo"] + BS},
    "prob": {"src": ["prob", "prob_impl", "expr_impl", "s11n_impl"], "libs": ["-lpagmo"] + BS},
}
T = "deterministic simulation with fault injection: "
PROPS = {
    "C01": {
        "harness": ["rng", "evo"], "quick_s": 40,
        "technique": T + "seeded thread schedules over the real generator, race detection and a linearizability check",
        "rule": "A run draws 1-4 threads in two translation units, a history of next/set_seed/construct operations and "
                "a schedule that may switch threads at every shared memory access. Non-trivial: at least two "
                "operations overlapped or a re-seed raced with draws.",
        "assumptions": ["std::mutex and static-local guards are modelled by the simulator (sequentially consistent "
                        "memory plus happens-before race detection)"],
    },
    "C02": {
        "harness": "expr", "quick_s": 30,
        "technique": T + "seeded schedules and task partitions of the parallel loss against a sequential reference",
        "rule": "A run draws an expression, data, a split and a worker count; the simulated task runtime draws the "
                "partition and the interleaving; faults are kernel exceptions at a drawn point and the n-th "
                "allocation failing. Non-trivial: a parallel evaluation was compared or an error had to propagate.",
    },
    "C03": {
        "harness": "ann", "quick_s": 40,
        "technique": T + "seeded schedules, partitions, shuffles and failures of training against a forward-mode reference",
        "rule": "A run draws a network, data, batch size and split; the simulated runtime draws partition, schedule and "
                "the shuffle's entropy; faults are a failing entropy source, a failing allocation and a malformed row. "
                "Loss, gradient and trained weights are compared with an independent sequential forward-mode "
                "reference. Non-trivial: every completed run.",
    },
    "C04": {
        "harness": ["func", "expr", "ann", "prob"], "quick_s": 20,
        "technique": T + "seeded schedules over shared const objects with happens-before race detection",
        "rule": "2-4 threads run drawn const operations on shared objects, or arbitrary operations on private copies, "
                "under a drawn schedule; results are compared with a single-threaded execution. Non-trivial: at least "
                "two threads touched the object.",
    },
    "C05": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "evaluators with drawn orders, partitions, schedules and failing evaluations against the "
                         "sequential run",
        "rule": "A run draws a problem, a population, an algorithm and an evaluator: pagmo's own on the simulated task "
                "runtime, one that permutes the candidates, one with a thread per candidate; it may fail the k-th "
                "evaluation. The result is compared with the sequential run from the same seeds. Non-trivial: every "
                "completed comparison.",
        "assumptions": ["the pagmo library itself runs uninstrumented; its parallel loops run on the simulated tasks"],
    },
    "C06": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "runs repeated under drawn histories and schedules, compared bit by bit",
        "rule": "A run repeats the same seeded evolution after drawn disturbances (re-seeding the library, other "
                "evolutions, other objects), through copies, late seeding or pagmo's wrappers, and next to other "
                "threads evolving under a drawn schedule; all results must be bit-identical. Non-trivial: every "
                "completed comparison.",
        "assumptions": ["the pagmo library itself runs uninstrumented"],
    },
    "C07": {
        "harness": ["func", "prob"], "quick_s": 25,
        "technique": T + "seeded operation histories over dirty memory with save/load and failing allocations",
        "rule": "A run draws callables with every declared level and a history of copies, moves, assignments, save and "
                "load with fresh objects placed over patterned memory. Non-trivial: a level was compared after at "
                "least one transfer.",
    },
    "C08": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "pagmo's thread islands on simulated threads, every state read compared with the island alone",
        "rule": "A run draws 2-3 islands with a problem, population, algorithm and queued tasks each; the islands evolve "
                "on simulated threads while the main thread reads, copies and saves them; kernels may reject inputs or "
                "forbid threads. Every state read and the final state must be one the island passes through when it "
                "evolves alone; with migration, every individual and migrant must carry its true fitness and no island "
                "loses its best. Non-trivial: every completed comparison.",
        "assumptions": ["the pagmo library itself runs uninstrumented; its threads, locks and futures are simulated"],
    },
    "E01": {
        "harness": ["expr", "ann"], "quick_s": 40,
        "technique": T + "seeded operation histories with failing allocations against a reference decoder",
        "rule": "A run draws a program shape, kernels and a history of set/mutate/seed/copy/save operations, some "
                "invalid, some with the n-th allocation failing; derived data are recomputed by an independent "
                "reference after every step. Non-trivial: at least one operation changed the program.",
        "assumptions": ["a setter or mutation interrupted by a failing allocation may leave derived data stale until "
                        "the next successful change (not claimed)"],
    },
    "E02": {
        "harness": "expr", "quick_s": 40,
        "technique": T + "seeded mutation histories with the random source under simulator control, against a contract",
        "rule": "A run draws a shape and a history of mutations and checks each change against the contract of that "
                "mutation (which genes may change, how many, always different and legal). Non-trivial: at least one "
                "gene changed.",
    },
    "E04": {
        "harness": "prob", "quick_s": 40,
        "technique": T + "seeded call histories with failing kernels, failing allocations and reloads, against a "
                         "reference model and a fresh problem",
        "rule": "A run draws a problem, a handful of candidates and a history of fitness, gradient, hessians, predict, "
                "pretty, malformed calls, copies, save/load and changes of the phenotype correction, with user kernels "
                "that reject some inputs and the n-th allocation failing. Every answer is compared with a reference "
                "evaluator and with a problem that never did anything else; gradients with differences of the "
                "reference loss. Non-trivial: every completed history.",
        "assumptions": ["derivatives are compared for kernels without branches or singular points only",
                        "AuDi is a stand-in (truncated Taylor arithmetic written for this harness)"],
    },
    "E05": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "seeded evolutions with drawn evaluators, failing kernels and failing allocations against a "
                         "fresh problem and recorded candidates",
        "rule": "A run evolves a drawn population for 1-3 successive steps and checks every stored fitness with a fresh "
                "problem, legality, evaluation counts against counted kernel calls, the best value, survivors against "
                "all recorded candidates, and what may not change; kernels may reject inputs and the n-th allocation "
                "may fail, after which nothing may have changed. Non-trivial: a step was checked.",
        "assumptions": ["AuDi is a stand-in", "learned constants may leave the initial box (not claimed legal)",
                        "allocations inside pagmo do not fail (it allocates in noexcept functions)"],
    },
    "E06": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "the same seeded evolution re-run under drawn verbosities and tolerances, histories compared",
        "rule": "A run evolves the same population with every line logged, with none, and with a drawn period, with and "
                "without a drawn tolerance; logs are compared with the outcome and with each other. Non-trivial: "
                "every completed comparison.",
        "assumptions": ["pagmo's choice of the best of a population holding NaN losses is not judged"],
    },
    "E07": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "seeded learning steps under drawn task partitions, failing kernels and failing allocations, "
                         "refined against an independent Newton / gradient step",
        "rule": "A run draws a problem, a population and a memetic algorithm and checks, step by step, that the constants "
                "of every new individual are what one Newton step from a parent gives (or what the parent had, where the "
                "derivatives forbid a step); gradient descent is followed iteration by iteration. Derivatives come from "
                "a fresh problem. Non-trivial: a new individual or an iteration was checked.",
        "assumptions": ["AuDi is a stand-in", "a step is not judged where the second derivatives are nearly singular"],
    },
    "E08": {
        "harness": "evo", "quick_s": 45,
        "technique": T + "seeded evolutions over a problem that records every candidate, histories checked against an "
                         "independent lineage model",
        "rule": "A run evolves a drawn population with a drawn algorithm, evaluator, schedule and faults (failing kernels, "
                "failing allocations) over a recording problem, and follows the history: which individual is the parent of "
                "each candidate, what differs, what is kept. Long runs check that what may happen does. Non-trivial: a "
                "candidate was checked.",
        "assumptions": ["AuDi is a stand-in", "pagmo's choice of the best of a population holding NaN losses is not judged"],
    },
    "F01": {
        "harness": "func", "quick_s": 25,
        "technique": T + "seeded operation histories with failing allocations and throwing copies against a reference "
                         "model, leak accounting",
        "rule": "A run draws a history of construct/copy/move/assign/call/extract operations over several callables and "
                "kernels, with the n-th allocation or user copy failing. Non-trivial: a fault fired or values moved "
                "between objects.",
    },
    "G01": {
        "harness": "gym", "quick_s": 25,
        "technique": T + "concurrent generator calls under seeded schedules and failing allocations, certified residuals",
        "rule": "A run draws one or more generators called from several threads with earlier calls and failing "
                "allocations; results are compared with a quiet call and with the certified models. Non-trivial: two "
                "calls overlapped or a fault fired.",
        "assumptions": ["the Lanczos2 labels carry the four decimals present in the repository"],
    },
    "S01": {
        "harness": ["expr", "ann", "prob", "evo"], "quick_s": 25,
        "technique": T + "seeded histories with save, torn load and reload into used objects, futures compared",
        "rule": "A run draws an object with a history, saves it in a drawn format, optionally fails one load with a "
                "truncated stream, loads into a fresh or used object and compares everything observable, including "
                "the next mutations. Non-trivial: a load completed and was compared.",
    },
    "S02": {
        "harness": "evo", "quick_s": 60,
        "technique": T + "crashes at drawn points, torn and short checkpoints, restart compared with the uninterrupted run",
        "rule": "A run evolves in steps with a checkpoint of population and algorithm on a simulated disk after each; it "
                "is killed before, inside or after steps (failing allocation) and inside saves (disk full at a drawn "
                "byte), restarted from the newest complete checkpoint into fresh or used objects, and the final state "
                "is compared with the uninterrupted run. Non-trivial: at least one restart.",
        "assumptions": ["a checkpoint ends with an end mark written after the state",
                        "text archives are used only when all numbers are finite (Boost cannot read nan back)"],
    },
    "S03": {
        "harness": "func", "quick_s": 25,
        "technique": T + "storage faults at a drawn byte (short write, torn file) and failing allocations",
        "rule": "A run saves wrappers to simulated storage, cuts the stream at a drawn byte or fails the n-th "
                "allocation while loading; the load must throw and the target keep its value. Non-trivial: the fault "
                "fired inside the operation.",
        "assumptions": ["memory held by a partly loaded object inside Boost.Serialization is not accounted"],
    },
}
NA = [{"property": "K01", "reason": "Pure functions of their arguments: no schedule, clock, I/O, randomness or fault can change what a kernel "
       "returns, so there is nothing to simulate. E01 still compares the values of whole programs with their printed formulas."}]
