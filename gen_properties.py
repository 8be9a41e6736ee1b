import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I="include/dcgp/"
p("C01","The library-wide random source is linearizable and race-free across threads",
 "Drawing seeds from and re-seeding the library-wide random source, from any number of threads and from any part of the program that includes the library, behaves as if the operations ran one at a time on a single 32-bit Mersenne Twister: no draw is lost, repeated or torn, and draws following a re-seed are exactly the stream of that seed. No execution has a data race.",
 ["schedules","histories"],"every interleaving of any number of threads and translation units, every seed and history of draws and re-seeds",
 "The one existing test runs a few threads once on the real scheduler and only looks for duplicated values; it cannot choose the interleaving that loses an update, and it uses a single translation unit.",
 [I+"rng.hpp"],[("mutex around engine and seed","rng.hpp random_device::next/set_seed"),("function-local or templated static shared by all translation units","rng.hpp random_device_statics")],
 ["values returned by next()","values after set_seed()"])
p("C02","A batch loss split over threads equals the sequential loss",
 "For every dataset, loss type and admissible number of parts, the loss computed in parallel equals the loss computed sequentially up to floating point summation order, whatever the schedule and work partition. An inadmissible split or malformed data point is rejected, an error in any part reaches the caller, and in every case the expression is left unchanged.",
 ["schedules","inputs","fault_sequences"],"every partition, interleaving, number of workers, dataset, split and failing point or allocation",
 "Tests compare one or two fixed splits on the real thread pool; they cannot force two parts to overlap in the accumulation nor make an individual part fail.",
 [I+"expression.hpp"],[("parallel_for over sub-batches, accumulation under a spin mutex","expression.hpp loss(first,last,...)"),("divisibility check","expression.hpp loss(first,last,...)")],
 ["return value or exception of loss()"])
p("C03","Network loss, gradient and training are the same in parallel and in sequence",
 "For a network encoded as an expression, the parallel loss and its gradient equal the sequential ones and the mathematical derivative, and a training epoch with any number of parts yields the weights of the sequential epoch over the same order of the data. Training permutes inputs and targets together, changes only weights and biases that influence the outputs, a rejected call changes nothing, and a failed epoch stops between batches without ever breaking the pairing of inputs and targets.",
 ["schedules","inputs","fault_sequences"],"every network, dataset, batch size, split, schedule, partition, random shuffle, and failing entropy source or allocation",
 "Tests check gradients numerically on a few networks and parallel training only for agreement within luck of the real scheduler; the shuffle draws real entropy, so no test can fix or fail it.",
 [I+"expression_ann.hpp"],[("two engines with one seed shuffle inputs and targets","expression_ann.hpp sgd"),("per-part gradient buffers summed under a spin mutex","expression_ann.hpp d_loss batch overload"),("list of consumers of every node","expression_ann.hpp update_data_structures")],
 ["return of d_loss()/sgd()","weights, biases, points and labels after sgd()"])
p("C04","Concurrent read-only use is race-free and copies are independent",
 "Any number of threads may evaluate, print, copy and save the same expression, kernel or wrapped function at the same time and each gets the result a single thread would get, with no data race, provided the user's callables allow it. A copy shares no mutable state with its original: threads that modify their own copies never disturb one another.",
 ["schedules","histories"],"every interleaving of threads over shared constant objects and private copies",
 "No existing test shares an expression between threads.",
 [I+"expression.hpp",I+"expression_weighted.hpp",I+"expression_ann.hpp",I+"function.hpp",I+"kernel.hpp"],
 [("const evaluation without caches","expression.hpp operator(), loss"),("deep copy of the wrapped callable","function.hpp copy constructor")],["results of concurrent calls"])
p("C05","Evolution with batch evaluation equals sequential evolution",
 "An evolutionary run that evaluates candidates through a batch evaluator, of any kind and under any schedule, produces the same population and log as the run that evaluates them one by one (with each loss summed in a fixed order). Every candidate handed to the evaluator is a legal decision vector, and an error raised while evaluating reaches the caller.",
 ["schedules","configurations","fault_sequences"],"every algorithm, problem, seed, evaluator, schedule, partition and failing evaluation",
 "Tests run each algorithm once with the default evaluator; they cannot reorder evaluations inside a batch nor fail the k-th one.",
 [I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/es4cgp.hpp",I+"problems/symbolic_regression.hpp"],
 [("packing of candidates into one batch vector and unpacking of fitnesses","algorithms/*.hpp evolve, m_bfe branch"),("thread safety level of the problem","problems/symbolic_regression.hpp get_thread_safety")],
 ["population, log and exceptions of evolve()"])
p("C06","The same seeds give the same run, whatever else happened in the process",
 "Given the same problem (with each loss summed in a fixed order), population, configuration and seeds, an evolutionary run returns bit-identical results regardless of earlier activity in the process, of what other threads do, and of the state of the library-wide random source.",
 ["histories","schedules"],"every configuration and seed, every preceding history and concurrent activity of other threads",
 "Tests never repeat a run in a different context; a dependence on hidden global state passes any single-run test.",
 [I+"algorithms/es4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/gd4cgp.hpp",I+"rng.hpp"],
 [("per-algorithm seeded engine","algorithms/*.hpp constructor, m_e"),("working copy of the problem's expression with its own engine","algorithms/*.hpp evolve")],["population and log after evolve()"])
p("C07","The declared thread-safety level survives every way a callable travels",
 "The thread-safety level declared by a user's callable is the level reported by every kernel, wrapped function and problem built from it, after any sequence of copies, moves, assignments, saves and loads; a problem never reports a safer level than its least safe part. Work is never shared between threads for an object whose level forbids it.",
 ["histories","configurations"],"every declared level, every sequence of transfers, every initial content of memory",
 "Tests assert the level right after construction only; an uninitialised or dropped level reads as the right value by chance.",
 [I+"kernel.hpp",I+"function.hpp",I+"problems/symbolic_regression.hpp"],
 [("level taken from the wrapped functions","kernel.hpp constructor"),("level saved with the object","kernel.hpp/function.hpp serialize"),("minimum over the kernels","symbolic_regression.hpp get_thread_safety")],["get_thread_safety()"])
p("C08","Asynchronous islands evolve exactly as if each were alone",
 "Evolving problems in pagmo's asynchronous thread islands gives each island the population, algorithm state and log it reaches alone, whatever the schedule; populations, algorithms, copies and archives taken meanwhile are states that island passes through, and with migration every individual and migrant carries its true fitness and no single-objective island loses its best. An error inside an island reaches the caller and leaves that island in its last complete state, and a problem whose level forbids threads is refused.",
 ["schedules","histories","fault_sequences"],"every interleaving of islands, readers and migrations, every point at which a kernel fails, every algorithm",
 "Tests never put a problem into an island; anything shared behind the copies (a static scratch, a common engine, a shared cache) shows only under some interleavings.",
 [I+"problems/symbolic_regression.hpp",I+"algorithms/es4cgp.hpp",I+"algorithms/gd4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"kernel.hpp"],
 [("cached and working copies owned by each problem","symbolic_regression.hpp m_cgp"),("engine per algorithm","evolve()"),("declared thread safety","get_thread_safety")],["populations and algorithms read from the islands"])
p("E01","An expression always agrees with its encoding and rejects illegal ones whole",
 "At every moment, the values, printed formula, active elements, bounds and dimensions an expression reports are those obtained by decoding its encoding from scratch, and the encoding stays within its bounds. A call with illegal arguments is rejected and has no effect, whatever the preceding history, including failed allocations.",
 ["histories","inputs","fault_sequences"],"every shape, kernel set and history of set, mutate, seed, copy, move, constant and weight changes, legal or not, with any allocation failing",
 "Tests check a few fixed encodings after construction; derived data going stale needs particular operation sequences or failures.",
 [I+"expression.hpp",I+"expression_weighted.hpp",I+"expression_ann.hpp"],
 [("bounds check before assignment","expression.hpp check_cgp_encoding"),("active sets rebuilt after each change","expression.hpp update_data_structures")],["getters and evaluation after every operation"])
p("E02","A mutation changes exactly the kind and number of elements it promises",
 "Each mutation changes only elements of the kind it names, at most as many as requested, always to a different legal value when one exists, and reaches every such value; requests that cannot be met leave the expression unchanged. The changes depend only on the expression's seed and the sequence of calls.",
 ["histories","inputs"],"every shape, seed and history of mutations, including degenerate shapes in which no change is possible",
 "Mutations are random: a test samples a handful of draws of one shape and cannot see an element that is never chosen or is chosen wrongly once in many draws.",
 [I+"expression.hpp"],[("selection among active/inactive genes with resampling until different","expression.hpp mutate_*"),("own random engine","expression.hpp m_e")],["encoding before and after each mutation"])
p("E04","Evaluating a problem is pure: the value depends only on the candidate",
 "For a symbolic regression problem, the fitness, predictions, gradient and Hessians of a candidate depend only on the candidate and the problem's configuration, never on what was evaluated before, on failed evaluations, on earlier copies or loads, nor on the number of parallel parts beyond summation order. Malformed candidates and configurations are rejected without any effect.",
 ["histories","inputs","fault_sequences"],"every problem, every history of fitness, gradient, Hessian, prediction and reconfiguration calls with any allocation or evaluation failing, in any order",
 "Internal state reused between evaluations shows only for particular orders of calls; tests evaluate each candidate once.",
 [I+"problems/symbolic_regression.hpp"],[("mutable working expressions reloaded from the candidate","symbolic_regression.hpp fitness/gradient/hessians"),("one-entry fitness cache filled by derivative computations","symbolic_regression.hpp m_cache")],["fitness, predict, gradient, hessians, pretty"])
p("E05","Evolution never loses the best and reports the truth about the population",
 "After any evolutionary run, every individual's stored fitness is the fitness of its stored decision vector, population size and legality of the vectors are kept, the number of evaluations reported is the number made, and with a single objective the best value never gets worse (for the gradient refinement: when it refines and replaces the best). Local optimisation changes only constants of the selected individual, disabled constant learning leaves constants alone, and with several objectives no survivor of a generation is dominated by a discarded candidate of it (losses being finite).",
 ["histories","inputs","configurations"],"every algorithm, configuration, problem, initial population and seed, across successive runs",
 "Tests run each algorithm a couple of times and look at the output by eye or only check that nothing throws.",
 [I+"algorithms/es4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/gd4cgp.hpp"],
 [("elitist replacement","algorithms/*.hpp evolve"),("write-back of best decision vector with its fitness","algorithms/*.hpp evolve")],["population after evolve(), fevals"])
p("E06","Logs tell what happened and verbosity never changes the outcome",
 "The log of an evolutionary run agrees with the run: generations increase by the logging period, evaluation counts and best values are those reached at that point, best values never get worse with a single objective, and stopping early at a loss tolerance happens exactly when the reported criterion is met. Turning logging on or off, or changing its period, changes neither the resulting population nor the stopping point. What is printed on the screen are the lines of the log and the reason for stopping.",
 ["configurations","histories"],"every algorithm, verbosity, stopping tolerance, problem and seed",
 "Tests run with one verbosity; a stopping test placed inside the logging code is invisible to them.",
 [I+"algorithms/es4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/gd4cgp.hpp"],
 [("log lines pushed every m_verbosity generations","algorithms/*.hpp evolve"),("ftol exit","algorithms/*.hpp evolve")],["get_log(), population"])
p("E07","Learning moves the constants exactly as the derivatives say",
 "In the memetic algorithms the constants a mutated candidate depends on are those of its parent or the result of exactly one Newton step on them: the step is taken when the second derivatives are finite and clearly positive definite (with one constant: finite and not zero) and is never taken when they are not finite or clearly indefinite; the other constants are left alone or drawn anew from their initial range. The gradient refinement walks along the negative gradient by the current step length, keeps a move only if it lowers the loss, lengthens the step by half after a success and quarters it after a failure, and stops at the minimum step length or when the gradient vanishes or is not finite.",
 ["histories","inputs","configurations","fault_sequences"],"every memetic algorithm and gradient refinement, problem, parent, number of constants, pattern of constants in use, and failing evaluation or allocation",
 "Tests run one problem with one constant for which any step that lowers the loss passes; wrong derivatives show only for particular sets of constants in use, and are hidden by selection.",
 [I+"algorithms/mes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/gd4cgp.hpp"],
 [("Newton step over the active constants","mes4cgp.hpp/momes4cgp.hpp evolve"),("adaptive step length","gd4cgp.hpp evolve")],["constants of the individuals after evolve()","gd4cgp log"])
p("E08","Every candidate is a mutated copy of its parent and the best tried survive",
 "Every candidate an evolution evaluates, once, is a copy of its parent with at most the maximum number of genes changed and its constants copied or, when they are learned by mutation, all perturbed independently in both directions; mutations really happen and reach the maximum. In the single-objective algorithms all candidates of a generation come from the best found so far (evolutionary strategy: the last one not worse than it, so equally good candidates replace it; memetic one: strictly better), in the multi-objective ones each individual is the parent of exactly one candidate. Afterwards the population consists of earlier individuals and evaluated candidates, holds the best loss tried at every kind of exit, at no rank holds a worse loss than before, and with several objectives keeps the best trade-offs of each generation.",
 ["histories","inputs","configurations","schedules","fault_sequences"],"every algorithm, problem, population, maximum number of mutations, evaluator, schedule, tolerance and failing evaluation or allocation",
 "Tests look at the final population only; selection hides candidates made from a wrong parent, mutations that are too large, too small or missing, and a best candidate lost at one of the exits.",
 [I+"algorithms/es4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp"],
 [("candidates mutated from the best or from each individual","algorithms/*.hpp evolve step 1"),("acceptance of a new parent","es4cgp.hpp/mes4cgp.hpp evolve"),("update of the population at exit","es4cgp.hpp update_pop"),("replaceable access to the problem","symbolic_regression.hpp extract_sr_cpp_py")],["decision vectors passed to the problem's fitness","population after evolve()"])
p("F01","Wrapped callables are independent values and survive any failure",
 "A wrapped callable or kernel behaves as a value: copies are independent, moves transfer, calls give what the wrapped callable gives with the same arguments, type queries answer truthfully, an empty wrapper fails cleanly, and a kernel set holds exactly the kernels put into it. If a user's copy, a call or an allocation fails at any point, no wrapper is corrupted or leaked and the target of the failed operation keeps a usable value.",
 ["histories","fault_sequences"],"every history of construction, copy, move, assignment, call and extraction over callables of every kind, with any allocation or user copy failing",
 "Tests cover each operation once without failures; exception safety and lifetime errors need a failing allocation at a particular point in a sequence.",
 [I+"function.hpp",I+"kernel.hpp",I+"kernel_set.hpp",I+"wrapped_functions.hpp"],[("clone into a unique_ptr","function.hpp"),("copy-and-move assignment","function.hpp operator=")],["call results, is, extract, operator bool, live object counts"])
p("G01","Benchmark data generators are deterministic, concurrent-safe and right",
 "Every benchmark generator returns the same inputs and targets on every call, from any thread, whatever was called before and even after a call that failed for lack of memory; the targets are the documented formula at the inputs, and the standard-reference data sets have their certified residuals.",
 ["schedules","histories","fault_sequences"],"every generator, every interleaving of concurrent callers, every earlier history and failing allocation",
 "The test compares a few values of one call per generator; hidden shared state, order dependence or data corruption in other rows is not visible to it.",
 [I+"gym.hpp",I+"misc_data.hpp",I+"nist_data.hpp"],[("fixed grids and fixed-seed engines","gym.hpp generate_*"),("data tables","misc_data.hpp, nist_data.hpp")],["points and labels of every generator"])
p("K01","Each kernel computes its documented function on every numeric type",
 "Every kernel in the library returns its documented mathematical value, protected at its documented singular points, for every arity it accepts, and the same function on plain and on generalised dual numbers.",
 ["inputs"],"every kernel, arity, value and number type",
 "Tests sample a few values and arities of some kernels.",
 [I+"wrapped_functions.hpp"],[("one implementation for all numeric types","wrapped_functions.hpp")],["kernel calls"])
p("S01","Saving and loading gives back an equivalent object with the same future",
 "Loading a saved expression, network, kernel, wrapped function, problem or algorithm into any object, used or fresh, gives an object indistinguishable from the saved one: same reported state, same results, same random future and same configuration, in every archive format. Saving changes nothing.",
 ["histories","inputs"],"every class, archive format, history before saving and previous content of the target, including a failed load",
 "Tests save a freshly built object and load it into a default one, comparing one evaluation; forgotten members and stale members of the target do not show.",
 [I+"expression.hpp",I+"expression_weighted.hpp",I+"expression_ann.hpp",I+"kernel.hpp",I+"function.hpp",I+"problems/symbolic_regression.hpp",I+"algorithms/es4cgp.hpp",I+"algorithms/gd4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp"],
 [("serialize members","every serialize()")],["all getters, evaluation and further evolution of the loaded object"])
p("S02","A crashed run restarted from its checkpoint continues exactly",
 "If an evolutionary run that saves its problem, population and algorithm between steps is killed at any point, restarting from the last complete checkpoint reaches exactly the state the uninterrupted run reaches. An incomplete checkpoint is never mistaken for a complete one.",
 ["crash_points","histories","fault_sequences"],"every crash point between and inside steps and inside a save, every torn or short checkpoint, every algorithm and configuration",
 "No test restarts anything; any piece of state missing from the archive shows only in the continuation.",
 [I+"algorithms/es4cgp.hpp",I+"algorithms/mes4cgp.hpp",I+"algorithms/moes4cgp.hpp",I+"algorithms/momes4cgp.hpp",I+"algorithms/gd4cgp.hpp",I+"problems/symbolic_regression.hpp",I+"expression.hpp"],
 [("engine state saved","serialize of algorithms and expression")],["population after the continued run"])
p("S03","A failed save or load is reported and leaves the target intact",
 "When storage fails in the middle of saving or loading a wrapped callable or kernel (disk full, short read, torn file, failing allocation), the failure is reported to the caller; the object being saved is unchanged and the object being loaded into still has either its previous value or the complete new one.",
 ["crash_points","fault_sequences"],"every byte position at which the stream can fail, every failing allocation, both archive formats",
 "Tests only save and load through intact in-memory streams.",
 [I+"function.hpp",I+"kernel.hpp",I+"s11n.hpp"],[("load through a temporary owner","function.hpp serialize"),("polymorphic pointer serialization","function.hpp")],["exceptions, target after a failed load"])
for q in P:
    n=q["statement"].count(". ")+1
    if n>3: print(q["id"],"sentences",n)
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
