"""Single source of the property texts and of the run parameters; gen.py writes properties.jsonl and MANIFEST.json."""
CSDF = ("consistent, weakly connected (C)SDF graph with at least one channel, strictly positive phase durations and no auto-concurrency (reentrancy factor 1)")
BASE = ["the reference results come from an implementation in /verif/harness that shares no code with kiter (exact integer cycle ratios, token-game replay)",
        "the tree is built as C++17 with -O1; durations are integers or dyadic rationals, so sums are exact",
        "held on the generated graphs only; nothing is claimed about graphs outside the generator's profiles"]
TECH = "runtime monitoring: "
L = "src/libkiter/"

def P(**k): return k
PROPS = {}

PROPS["K01"] = P(
  title="The repetition vector is the minimal solution of the balance equations",
  statement="For every dataflow graph the repetition vector computation succeeds exactly when the balance equations (production total of the source times its repetitions = consumption total of the target times its repetitions, on every channel) have a positive solution. When it succeeds, the firing count of each task is the smallest such positive integer solution (over a weakly connected graph) times the task's phase count, and it is the same when computed again, after the cached computation is reset, and after a consistent channel is added. When it fails, the graph is not marked as having a repetition vector.",
  quant=(["inputs"], "every weakly connected (C)SDF graph with at least one channel, any topology (trees, dense multigraphs, self-loops), rates including zero phases, consistent or not"),
  why="The solver walks the graph in an order chosen by the data and multiplies/divides fractions; tests only look at a few benchmark graphs, all consistent, and never at a perturbed channel that closes a cycle.",
  files=[L+"models/repetition_vector.cpp", L+"commons/commons.h", L+"models/Dataflow.h"],
  mech=[("balance solving", L+"models/repetition_vector.cpp: computeRepetitionVector"), ("phase firings", L+"models/Dataflow.h: getNi/setNi")],
  observe="return value of computeRepetitionVector and getNi of every task",
  flavour="rel", quick_n=70000, thorough_n=2500000, must=["balance.checked", "perturbed.inconsistent", "perturbed.consistent"],
  tech="online oracle over computeRepetitionVector: exact rational propagation plus direct check of every balance equation, on generated and perturbed graphs",
  rule="random graphs over 6 topology profiles, optionally with scaled rates; half of the inconsistent monitor's graphs have one rate perturbed. Distinct = different graph text; all have at least one channel.")

PROPS["K02"] = P(
  title="K-periodic and expanded evaluation give the exact maximal throughput",
  statement="For every " + CSDF + ", KPeriodicThroughput, NKPeriodicThroughput and EGN report the maximal throughput of the graph: one over the maximum cycle ratio (time over tokens) of the precedence constraints between all phase firings of one graph iteration. When the graph deadlocks, the reported value is not positive (up to rounding). All three agree with each other and with the steady state of a self-timed execution of the graph.",
  quant=(["inputs"], "every such graph: cyclic or not, live or deadlocked, SDF/CSDF/HSDF, zero rates, scaled rates and useless tokens, integer or dyadic durations"),
  why="The K-iter loop converges through a data-dependent sequence of periodicity vectors; an error in the constraint generation, the optimality test or the vector update only shows for particular rate/marking combinations, while tests compare a handful of benchmark values.",
  files=[L+"algorithms/throughput/kperiodic.cpp", L+"models/EventGraph.cpp", L+"algorithms/normalization.cpp"],
  mech=[("K-periodic iteration", L+"algorithms/throughput/kperiodic.cpp: compute_Kperiodic_throughput, sameset, updateVectorWithLocalNi"), ("constraints between phases", L+"algorithms/throughput/kperiodic.cpp: generateKPeriodicConstraint, generateKperiodicSelfloopConstraint"), ("cycle ratio", L+"models/EventGraph.h: MinCycleRatio")],
  observe="the throughput line printed by the algorithm as run by -a NAME",
  flavour="rel", quick_n=80000, thorough_n=3000000, must=["compared.KPeriodicThroughput", "compared.NKPeriodicThroughput", "compared.EGN", "graphs.live", "graphs.deadlocked", "simulated.states"],
  tech="differential oracle: independent full expansion with exact integer cycle ratio, and an independent self-timed simulation, against the printed throughput",
  rule="random graphs over 10 profiles (csdf, sdf, hsdf, self-loops, long and dyadic durations, strongly connected, scaled rates, many phases). Distinct = different graph text; the oracle's verdict (live, deadlocked) is counted.")

PROPS["K03"] = P(
  title="Fixed-K evaluation is exact for every periodicity vector",
  statement="For every " + CSDF + " and every periodicity vector K of positive integers, the fixed-K evaluation reports exactly the throughput of the best schedule in which each task t repeats K_t cycles of its phases with one period: never more, never less, and a non-positive value (up to rounding) when no such schedule exists. The same holds for 1PeriodicThroughput and EG1 (K=1) and 2PeriodicThroughput (K=2); LP1 and LPN, solved as linear programs, give the same value for K=1 and K=repetition vector whenever a schedule exists.",
  quant=(["inputs"], "every such graph and K vector, including vectors that are not divisors of the repetition vector"),
  why="Constraint coefficients use floors, gcds and phase indices of both end tasks; an off-by-one only matters for particular K, markings and rates, which no finite list of benchmark outputs covers.",
  files=[L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp"],
  mech=[("constraints", L+"algorithms/throughput/kperiodic.cpp: generateKPeriodicConstraint"), ("LP", L+"algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp")],
  observe="KSchedule result and printed throughputs",
  flavour="rel", quick_n=80000, thorough_n=3000000, must=["compared.KSchedule", "compared.EG1", "compared.2PeriodicThroughput", "compared.LP1", "compared.LPN", "expected.infeasible"],
  tech="differential oracle: exact K-periodic period computed from an independent constraint derivation, against the API result and the printed value",
  rule="the graphs of K02, with K=1, K=2 and random K in 1..3 per task. Distinct = different graph text or vector.")

PROPS["K04"] = P(
  title="Strictly periodic evaluation is exact, its approximation safe",
  statement="For every " + CSDF + ", SPeriodicThroughput reports the throughput of the best strictly periodic schedule (successive firings of a task equally spaced) and a non-positive value (up to rounding) when none exists. ASPeriodicThroughput reports the throughput of its published sufficient condition, which never exceeds the strictly periodic one.",
  quant=(["inputs"], "every such graph, live or not"),
  why="The bound computation depends on worst-case phase offsets for every channel, so a wrong maximum goes unnoticed on graphs whose critical cycle avoids the channel.",
  files=[L+"algorithms/throughput/csdf_strictly_periodic.cpp"],
  mech=[("strict constraints", L+"algorithms/throughput/csdf_strictly_periodic.cpp: generateStrictly*"),],
  observe="printed throughput",
  flavour="rel", quick_n=100000, thorough_n=3000000, must=["compared.SPeriodicThroughput", "compared.ASPeriodicThroughput", "expected.infeasible", "expected.finite"],
  tech="differential oracle: exact strictly periodic period from the definition, against the printed value",
  rule="the graphs of K02. Distinct = different graph text.")

PROPS["K05"] = P(
  title="Symbolic execution reports the self-timed steady-state throughput",
  statement="For every " + CSDF + ", SymbExec reports the long-run rate of the self-timed (as soon as possible) execution of the graph, in iterations per time unit, and zero when that execution deadlocks. Transient phases, dead-time, disconnected strongly connected components and tokens that never become critical do not change it.",
  quant=(["inputs"], "every such graph"),
  why="The explicit state exploration stops on the first recurrent state; an incomplete state, a wrong token update or a rate taken from the wrong actor shows only on graphs with particular phase/rate combinations.",
  files=[L+"algorithms/throughput/symbolic_execution.cpp", L+"algorithms/throughput/actor.cpp", L+"algorithms/throughput/state.cpp"],
  mech=[("state exploration", L+"algorithms/throughput/symbolic_execution.cpp: computeComponentThroughput"), ("firing rules", L+"algorithms/throughput/actor.cpp: isReadyForExec, execStart, execEnd")],
  observe="printed throughput",
  flavour="rel", quick_n=80000, thorough_n=3000000, must=["compared.SymbExec", "graphs.live", "graphs.deadlocked"],
  tech="differential oracle: exact maximal throughput (which self-timed execution attains) against the printed value",
  rule="the graphs of K02 with durations below 1000. Distinct = different graph text.")

PROPS["K06"] = P(
  title="deGroote evaluation equals the maximal throughput of SDF graphs",
  statement="For every weakly connected SDF graph (one phase per task, at least one channel, positive durations, reentrancy 1), deGrooteThroughput and deGrooteCleanThroughput report the maximal throughput within the algorithm's own relative tolerance of 2e-5, and a value that is not positive for a deadlocked graph.",
  quant=(["inputs"], "every such graph: homogeneous, multirate, with self-loops, scaled rates and useless tokens"),
  why="The algorithm alternates pessimistic and optimistic single-rate approximations; a wrong bound changes the result only when the critical cycle goes through the approximated channel.",
  files=[L+"algorithms/throughput/degroote.cpp"],
  mech=[("unfolding refinement", L+"algorithms/throughput/degroote.cpp: getThroughput")],
  observe="printed throughput",
  flavour="rel", quick_n=100000, thorough_n=3000000, must=["compared.deGrooteThroughput", "compared.deGrooteCleanThroughput"],
  tech="differential oracle: exact maximal throughput against the printed value",
  rule="random SDF graphs over 5 profiles. Distinct = different graph text.")

PROPS["K07"] = P(
  title="Every emitted schedule is executable and repeats at the announced period",
  statement="For every live " + CSDF + ", replaying the start times of the schedules built by the 1-periodic, K-periodic, fixed-K (any vector), strictly periodic and linear-program schedulers (where the class of schedules is feasible), or the ASAP scheduler on strongly connected graphs, never consumes a token before it is produced and never overlaps two firings of a task. Start times are non-negative, every task has its periodic starts, repeats them exactly once per announced graph period share, and that period is the optimum of the schedule's class.",
  quant=(["inputs", "histories"], "every such graph; every firing of the first graph periods of the schedule, initial (transient) firings included"),
  why="A schedule is a long timed history whose errors (a wrong order of phases, a shifted repetition, a lost transient firing) only show when the firings are executed against token counts; tests compare printed text for a few graphs.",
  files=[L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp", L+"algorithms/scheduling/CSDF_SPeriodicScheduling.cpp", L+"algorithms/throughput/symbolic_execution.cpp", L+"models/Scheduling.cpp"],
  mech=[("start times", L+"models/EventGraph.cpp: computeStartingTime"), ("period scaling", L+"algorithms/throughput/kperiodic.cpp: period2Scheduling"), ("textual schedule", L+"models/Scheduling.cpp: asText")],
  observe="the Scheduling object, or its printed text for ASAP",
  flavour="rel", quick_n=80000, thorough_n=3000000, must=["replayed.schedules", "replayed.events", "cases.asap", "cases.lp"],
  tech="offline trace checker: each emitted schedule is unrolled and replayed as a token game with overlap checks; its period is compared with an exact optimum",
  rule="live graphs of K02's profiles (strongly connected for ASAP). Distinct = different algorithm and graph text.")

PROPS["K08"] = P(
  title="Cycle-ratio analysis of event graphs: optimum, critical circuit, start times",
  statement="For every event graph whose constraints take positive time, the minimal cycle ratio returned is the exact minimum over circuits of tokens over time, together with a closed circuit that attains it, infinity and no circuit when the graph is acyclic; the maximal cycle ratio is its dual when distances are positive. A finite starting bound above the optimum does not change the result and a bound below it never yields a better ratio. At any period at least the optimum the computed start times satisfy every constraint with the earliest start at zero, and the component split divides the events and internal constraints exactly into strongly connected components.",
  quant=(["inputs"], "every finite event graph: multi-arcs, self-loops, several components, ties, zero-distance circuits, large coefficients"),
  why="Howard's policy iteration terminates on a floating-point test after a data-dependent number of improvements; wrong policies, bounds or bookkeeping give plausible ratios on most graphs.",
  files=[L+"commons/howard_cycle_ratio.hpp", L+"models/EventGraph.cpp", L+"models/EventGraph.h"],
  mech=[("policy iteration", L+"commons/howard_cycle_ratio.hpp: mcr_howard"), ("start times", L+"models/EventGraph.cpp: computeStartingTimeWithOmega"), ("components", L+"models/EventGraph.cpp: generateSCC")],
  observe="returned ratio, circuit, start times and component graphs",
  flavour="rel", quick_n=150000, thorough_n=4000000, must=["circuits.checked", "starts.computed", "max.compared", "bound.above", "bound.below", "components.split", "acyclic", "ratio.zero"],
  tech="differential oracle with certificates: exact integer cycle ratio, circuit closure and ratio, all start constraints, brute-force SCCs",
  rule="random event graphs over 7 profiles, 1..40 events. Distinct = different graph text.")

PROPS["K09"] = P(
  title="Graph documents are read, written and read back without loss",
  statement="Reading an SDF3 XML document yields exactly the graph it describes: tasks, types, reentrancy, initial and periodic phase durations, channels in document order, rates per phase, initial tokens, token sizes and names, whatever the attribute order, comments, quoting, 'n*v' repetition or omitted defaults. Writing a graph with PrintXML or writeSDF3File gives a well-formed document that describes the same graph, and reading that back gives an equal graph; durations keep up to 15 significant digits. The script printed by PrintKiter describes the graph's tasks, phases, durations, rates and markings.",
  quant=(["inputs"], "every (C)SDF graph, with empty or zero phases, large numbers, decimal durations and names containing XML special characters or UTF-8"),
  why="Ports are matched to channels by name, lists are run-length encoded, and durations go through a printf-like formatting; a loss shows only for particular values or attribute layouts, tests re-read a few shipped files.",
  files=[L+"printers/SDF3Wrapper.cpp", L+"printers/stdout.cpp", L+"commons/commons.h"],
  mech=[("reading", L+"printers/SDF3Wrapper.cpp: readSDF3File, parseChannel"), ("writing", L+"printers/SDF3Wrapper.cpp: writeSDF3File, generateSDF3XML"), ("lists", L+"commons/commons.h: splitSDF3List, timeToString")],
  observe="Dataflow getters after reading, the text of the written document, the output of the kiter executable",
  flavour="rel", quick_n=45000, thorough_n=1500000, must=["documents.written", "documents.read", "roundtrip.equal", "files.compared", "scripts.compared", "cli.runs"],
  tech="differential oracle: an independent XML reader and writer, compared with kiter's reader and writer on generated graphs and documents",
  rule="random graphs with all the attributes the format carries; documents vary layout, attribute order, quoting and defaults. Distinct = different graph text.")

PROPS["K10"] = P(
  title="The dataflow container behaves like its model over any edit history",
  statement="After any sequence of edits on a dataflow graph (adding, removing and renumbering tasks and channels, renaming, setting rates, durations, markings, sizes, ports, types), every query by identifier, name, port, position or adjacency answers as a plain list-of-records model does: nothing is lost, duplicated or left over. Totals equal the sum of the phases, copies are independent of their origin, and analysis results disappear exactly when the graph changes. Edits that would break the model (duplicate or empty names, used identifiers, wrong phase counts, writes to an analysed graph) are refused.",
  quant=(["histories", "inputs"], "every sequence of container operations over one or several instances, with copies and analyses in between"),
  why="The container keeps several indexes (id, name, port, boost properties, cached totals) that must move together; a stale index shows only after particular sequences of edits.",
  files=[L+"models/Dataflow.h", L+"models/Dataflow.cpp"],
  mech=[("indexes", L+"models/Dataflow.h: addVertex, removeVertex, setVertexId, setEdgeId, getVertexByName"), ("state", L+"models/Dataflow.h: reset_computation, set_read_only")],
  observe="every public getter of Dataflow after each operation",
  flavour="rel", quick_n=20000, thorough_n=800000, must=["states.compared", "copies", "analysed", "rejected.name", "rejected.phase-count", "rejected.readonly", "rejected.edge-id", "rejected.vertex-id"],
  tech="model-based online checker: each random operation history is applied to the container and to a list model, all getters are compared after every step",
  rule="random histories of 10..70 operations on up to 3 instances. Distinct = different history.")

PROPS["K11"] = P(
  title="Computed buffer sizes are sufficient, and minimal when solved exactly",
  statement="For every consistent live (C)SDF graph without auto-concurrency and every period that schedules of the class can reach, periodic and strictly periodic buffer sizing return a total for which some distribution of channel sizes allows a schedule of that class with that period; strictly periodic and fixed-offset sizing name such a distribution. With integer solving on graphs whose nonzero rates are at least the channel's gcd the total is the minimum over all distributions, and periods below the class minimum are reported as infeasible. Explored period/size pairs obey the same rule, and the reverse channels added to the graph carry exactly these sizes.",
  quant=(["inputs"], "every such graph, period, token size and offset family (burst, average, min-max, Wiggers)"),
  why="The sizes come from a linear program with floor and gcd terms per pair of phases; one wrong coefficient undersizes a channel only for particular rates and markings, and nothing else in the tool executes the sized graph.",
  files=[L+"algorithms/buffersizing/periodic.cpp", L+"algorithms/buffersizing/periodic_fixed.cpp", L+"algorithms/dse/periodic.cpp", L+"lp/glpsol.cpp"],
  mech=[("program", L+"algorithms/buffersizing/periodic.cpp: periodic_memory_sizing_csdf"), ("fixed offsets", L+"algorithms/buffersizing/periodic_fixed.cpp: compute_periodic_fixed_memory, generate*Offsets, add_vbuffers"), ("exploration", L+"algorithms/dse/periodic.cpp: compute_csdf_dse_from_function")],
  observe="returned and printed totals, per-channel sizes, feasibility, the graph after AddVBuffers, printed period/size pairs",
  flavour="rel", quick_n=55000, thorough_n=1500000, must=["sized", "printed", "period.default", "infeasible", "channels.checked", "bruteforce.compared", "optimal.compared", "fixed.checked.BURST", "fixed.checked.AVERAGE", "fixed.checked.MINMAX", "fixed.checked.WIGGERS", "vbuffers.checked", "points.checked"],
  tech="differential oracle: exact class period of the graph with the computed capacities, brute-force minimum over all distributions",
  rule="random live graphs with up to 4 channels, self-loops and token sizes; periods at, above and below the minimum. Distinct = different request.",
  note="BackPressureSizing is an estimate that undersizes; two inputs are kept as known findings and it is not part of the random workload.")

PROPS["K12"] = P(
  title="Buffer/throughput exploration finds the exact Pareto front",
  statement="Every buffer distribution the throughput-buffering exploration reports or explores has its printed size and exactly its printed throughput when channels are bounded by it, no distribution is explored twice, and the explored graph is left unchanged. With periodic analysis and with corrected symbolic execution the Pareto list is exactly the staircase of the best throughput for each size, strictly increasing in both, up to the target throughput or the maximum.",
  quant=(["inputs"], "every live (C)SDF graph, every step size and throughput target, every variant of the exploration"),
  why="The search prunes on storage dependencies, lower bounds and step sizes; an unsound prune loses points only on graphs where two channels interact, and the tests check a few shipped graphs.",
  files=[L+"algorithms/dse/buffer_sizing.cpp", L+"algorithms/dse/kperiodic.cpp", L+"algorithms/throughput/symbolic_execution.cpp"],
  mech=[("exploration", L+"algorithms/dse/kperiodic.cpp"), ("lower bounds and steps", L+"algorithms/dse/buffer_sizing.cpp: findMinimumStepSz, findMinimumChannelSz, findMinimumDistributionSz"), ("queue", L+"algorithms/dse/buffer_sizing.cpp: StorageDistributionSet, isSearchComplete, minimize")],
  observe="explored points and Pareto list printed by ThroughputBufferingDSE",
  flavour="rel", quick_n=40000, thorough_n=1500000, must=["points.checked", "explored", "front.compared", "target.reached", "maximum.reached", "coarse.checked", "pareto.points", "bruteforce.points"],
  tech="online oracle: exact state-space throughput of every reported distribution, brute force over all smaller distributions for the front",
  rule="live graphs with up to 4 channels, integer durations, no self-loop channels; variants default, symbolic corrected, symbolic original, coarse. Distinct = different graph text.",
  note="With the published (original) storage-dependency rule only the truth of each point is claimed: that rule is known to be incomplete, and the tool keeps it on purpose.")

PROPS["K13"] = P(
  title="Bounded-buffer symbolic execution: exact throughput, sound dependencies",
  statement="For every graph and buffer distribution, symbolic execution with bounded channels returns the exact throughput of the bounded graph, zero exactly when it deadlocks. With the corrected dependency rule the channels reported as storage dependencies are enough: removing the bound from all the other channels changes nothing.",
  quant=(["inputs"], "every (C)SDF graph and every distribution between tight and loose, deadlocking ones included"),
  why="Space is claimed at firing start and released at firing end, and dependencies are followed backwards over one period; errors appear only when two limits interact.",
  files=[L+"algorithms/throughput/symbolic_execution.cpp", L+"algorithms/throughput/actor.cpp", L+"algorithms/throughput/state.cpp"],
  mech=[("execution", L+"algorithms/throughput/symbolic_execution.cpp: computeThroughputandCycles"), ("dependencies", L+"algorithms/dse/abstract_dep_graph.cpp")],
  observe="printed throughput and storage dependencies of SymbExecDebug",
  flavour="rel", quick_n=40000, thorough_n=1500000, must=["compared.SymbExecDebug", "dependencies.checked", "dependencies.listed", "buffers.limiting", "buffers.deadlocking", "graphs.live", "graphs.deadlocked"],
  tech="differential oracle: exact state-space execution of the bounded graph, with all, and with only the reported, bounds",
  rule="random graphs of up to 6 tasks with random distributions. Distinct = different graph and distribution.")

PROPS["K15"] = P(
  title="Strongly connected components and simple cycles are enumerated exactly",
  statement="For every dataflow graph the SCC decomposition is a partition of the tasks whose classes are exactly the mutual-reachability classes, and CycleDetection says whether a class with several tasks exists. For every graph without self-loops and parallel channels, CycleCount prints every simple cycle exactly once and their number, whatever the task identifiers are and however often it is run in a process.",
  quant=(["inputs", "histories"], "every topology, including sparse identifiers left by removed tasks and repeated runs"),
  why="Johnson's blocking logic and the recursive decomposition fail only on overlapping cycles in particular orders; global state leaks between runs, which single-shot tests never see.",
  files=[L+"algorithms/analysis/cycle_detection.cpp", L+"algorithms/scc.cpp"],
  mech=[("enumeration", L+"algorithms/analysis/cycle_detection.cpp: find_simple_cycles_scc, unblock"), ("SCC", L+"algorithms/scc.cpp: computeSCCKosaraju")],
  observe="printed cycles and totals, SCC map",
  flavour="rel", quick_n=120000, thorough_n=3000000, must=["cycles.expected", "components.found", "graphs.sparse-ids"],
  tech="differential oracle: brute-force reachability classes and brute-force simple-cycle enumeration against the printed list",
  rule="random topologies over 5 profiles. Distinct = different graph text; graphs with more than 3000 cycles are counted apart.")

PROPS["K22"] = P(
  title="Normalization preserves the graph's behaviour and follows edits",
  statement="For every consistent, weakly connected dataflow graph normalization succeeds and assigns every task a positive integer Z such that Z times the repetition count is the same for all tasks. Every normalized rate is the original rate scaled so that one cycle of the producer and of the consumer moves Z tokens of that task, all normalized values are integers, the normalized marking is the original one rounded down to the channel's gcd and scaled alike, and denormalizing it gives that value back. After channel rates are edited and the graph is normalized again the same holds for the new rates.",
  quant=(["inputs", "histories"], "every such graph, with zero phases, large or coprime rates; histories of normalize, edit, normalize"),
  why="The scaling factors are lcms over the whole graph and caches outlive edits; a wrong factor changes a floor somewhere far away, only for particular markings.",
  files=[L+"algorithms/normalization.cpp", L+"models/Dataflow.h"],
  mech=[("factors", L+"algorithms/normalization.cpp: normalize"), ("normalized access", L+"models/Dataflow.h: getNormIn/getNormOut/getNormMop/unnormalizeValue, getFineGCD")],
  observe="getZi, getNormIn, getNormOut, getNormMop, unnormalizeValue",
  flavour="rel", quick_n=90000, thorough_n=3000000, must=["edges.checked"],
  tech="online oracle over the normalized accessors with exact integer arithmetic",
  rule="the graphs of K01 (consistent). Distinct = different graph text.")

PROPS["K14"] = P(
  title="Graph transformations change exactly what they announce",
  statement="Removing tasks deletes exactly these tasks and the channels attached to them, dropping reentrancy resets exactly the reentrancy of the named tasks (all of them when none is named), and everything else keeps its identifiers, names, durations, rates and tokens. Merging tasks of a live graph replaces them by one task whose phases are whole repetitions of a valid sequence of their firings: every channel with the outside carries the same rates in the same order and the same tokens, channels between merged tasks disappear, and the merged graph runs forever. Splitting the outputs of a task with unit rates leaves it with at most one output and a tree of duplicating tasks that delivers the same channels with the same initial tokens.",
  quant=(["inputs"], "every live (C)SDF graph and every subset of tasks without initial phases, named by identifier or name; self-loops, parallel channels, tasks that are not adjacent"),
  why="The merge pattern comes from a simulated schedule whose period depends on rates and markings; a wrong prefix, a lost rate or a wrong order leaves a graph that still looks plausible and only deadlocks or changes behaviour later.",
  files=[L+"algorithms/transformation/merging.cpp", L+"algorithms/transformation/remove_reentrancy.cpp", L+"algorithms/transformation/singleOutput.cpp"],
  mech=[("merging", L+"algorithms/transformation/merging.cpp: merge_tasks"), ("removal", L+"algorithms/transformation/remove_reentrancy.cpp"), ("outputs", L+"algorithms/transformation/singleOutput.cpp")],
  observe="tasks, channels, rates and tokens of the graph after -a Merge, remove, RemoveReentrancy, SingleOutput",
  flavour="rel", quick_n=100000, thorough_n=2500000, must=["merges", "channel-sides", "remove", "RemoveReentrancy", "single-outputs"],
  tech="online checker comparing the transformed graph with the original record by record, and a token-game execution of the merged graph",
  rule="random graphs of up to 7 tasks and random task subsets. Distinct = different graph text and request.")

PROPS["K16"] = P(
  title="Mapping and routing give valid cores and connected shortest routes",
  statement="A mesh of X by Y tiles has one router and one core per tile, links in both directions between neighbours and between router and core, and nothing else, found consistently by identifier, ends and direction. After any mapping every task is on an existing core, on the one asked for when given, and (for the combined mapping) on a core of its own; after any routing every channel has a route of existing, consecutive, shortest links from the source's core to the target's core, along x first for XY routing. Mapping and routing leave the dataflow graph as it was, and modelling the communications replaces each routed channel by a chain of tasks over exactly its links, keeping rates, tokens and the repetition of the original tasks.",
  quant=(["inputs", "configurations"], "every SDF graph (parallel channels, self-loops), mesh size, explicit placement and random choice"),
  why="Node, link and table indexes are computed from coordinates in several places; a slip shows only for particular mesh shapes or task placements.",
  files=[L+"models/NoC.cpp", L+"models/NoCGraph.cpp", L+"algorithms/mapping/xyRouting.cpp", L+"algorithms/mapping/randomRouting.cpp", L+"algorithms/mapping/moduloMapping.cpp", L+"algorithms/mapping/randomMapping.cpp", L+"algorithms/mapping/modelCommunications.cpp", L+"algorithms/mapping/BufferlessNoCMapAndRoute.cpp"],
  mech=[("mesh", L+"models/NoC.cpp"), ("path search", L+"models/NoCGraph.cpp: findPathDijkstra, findLowContentionPath"), ("routing", L+"algorithms/mapping/xyRouting.cpp, randomRouting.cpp"), ("modelling", L+"algorithms/mapping/modelCommunications.cpp")],
  observe="getMapping, getRoute, getNoC after each algorithm, and the modelled graph",
  flavour="rel", quick_n=90000, thorough_n=2000000, must=["nodes", "neighbours", "mapped", "routes", "chains", "graphs", "paths", "optimal-paths"],
  tech="online checker with an independent mesh geometry: every route is walked link by link, every modelled chain is followed",
  rule="random SDF graphs of up to 10 tasks, meshes of 1..9 by 1..9 (square for the combined mapping). Distinct = different mesh, route or graph.")

PROPS["K17"] = P(
  title="Packet traces and their TDMA execution respect every dependency",
  statement="For every live SDF graph, the packet trace of the untimed execution holds exactly the repetition count of computations of each task per iteration, in an order in which every computation finds its input tokens; each production is split into the right number of packets, and every packet depends on exactly the computation that produced it, the preceding packets and its inputs. Executing any packet trace under TDMA starts each packet after the delivery of all its dependencies, transmits it in the slot of its source/destination pair with at most one packet per pair and slot, and delivers it after the hop distance; the reported throughput and execution time are those of that execution.",
  quant=(["inputs", "histories"], "every live SDF graph, packet size and iteration count; every packet trace, slot table, mesh and mapping"),
  why="Dependencies are tracked through token positions over several iterations; a wrong one only shows for particular rates and initial tokens, and no test executes a trace.",
  files=[L+"algorithms/symbolic_execution.cpp", L+"algorithms/software_noc.cpp", L+"algorithms/scheduling/TDMAScheduler.cpp"],
  mech=[("trace", L+"algorithms/symbolic_execution.cpp: symbolic_execution_with_packets"), ("TDMA", L+"algorithms/scheduling/TDMAScheduler.cpp")],
  observe="the packet trace printed by SymbolicExecutionWP, the times printed by TDMASchedule",
  flavour="rel", quick_n=70000, thorough_n=2500000, must=["computations", "transfers", "packets"],
  tech="offline trace checker: the packet trace is replayed as a token game with exact dependency sets, the TDMA log is compared with a cycle-by-cycle reference",
  rule="random live SDF graphs of up to 7 tasks; random traces of up to 30 packets on meshes up to 5 by 5. Distinct = different trace.")

PROPS["K18"] = P(
  title="Exact arithmetic, list and grouping primitives are correct",
  statement="Fractions stay reduced with a positive denominator and compare, multiply, divide, print and mix with integers exactly as rational numbers do. Rounding to multiples, modulo, integrality and the linear Diophantine solver agree with their mathematical definitions for negative values too; number lists with repetition expand, split and join without loss, and defaults apply to absent parameters only. The grouping of critical circuits always yields the connected groups of everything added, in whatever order groups are joined.",
  quant=(["inputs", "histories"], "every integer and fraction whose products fit the machine type, every list and every sequence of additions"),
  why="Every analysis computes with these primitives; sign, equality and joining corner cases pass all benchmark tests.",
  files=[L+"commons/commons.h", L+"commons/GroupList.h"],
  mech=[("fractions and rounding", L+"commons/commons.h")],
  observe="return values of the primitives",
  flavour="rel", quick_n=150000, thorough_n=6000000, must=["fractions", "less", "greater", "equal", "integers", "lists", "entries", "groupings", "joined groups"],
  tech="online oracle with 128-bit arithmetic and a union-find model",
  rule="40 operations per case on values from tiny to 2e9, biased to ties and neighbours. Distinct = different operand log.")

PROPS["K19"] = P(
  title="Generated graphs respect their parameters, are live and reproducible",
  statement="The random generator returns a consistent graph whose numbers of tasks, channels and phases, durations and rates lie within the requested bounds and whose initial tokens let a full iteration execute. Two runs of the tool with the same parameters and seed write the same graph. The LTE generator returns the four fully connected stages of the requested widths, consistent and live.",
  quant=(["inputs", "configurations"], "every seed and every combination of small bounds"),
  why="The generated structure depends on the seed; no test checks liveness or bounds of what is generated.",
  files=[L+"generators/RandomGenerator.cpp", L+"generators/LTEGeneator.cpp"],
  mech=[("random", L+"generators/RandomGenerator.cpp: generate_random_sdf"), ("LTE", L+"generators/LTEGeneator.cpp: generate_lte_sdf")],
  observe="the generated Dataflow, and the document written by two runs of the executable",
  flavour="rel", quick_n=24000, thorough_n=250000, must=["random graphs", "firings", "marked channels", "multi-phase", "repeated runs", "lte graphs"],
  tech="online checker: bounds, exact consistency and token-game execution of every generated graph; comparison of repeated runs in different process environments",
  rule="random bounds and seeds. Distinct = different generated graph.")

PROPS["K20"] = P(
  title="No analysis corrupts memory, overflows or runs into undefined behaviour",
  statement="On every valid graph and request, no analysis, scheduler, sizing, exploration, transformation, mapping, reader, printer or generator reads or writes outside its objects, uses freed or mismatched memory, steps outside a container, overflows an integer, divides integers by zero, shifts or converts out of range or otherwise executes undefined behaviour, and none crashes or aborts.",
  quant=(["inputs", "histories"], "the generated workloads of all the other properties: every algorithm, edit histories and documents"),
  why="Out-of-range accesses mostly return plausible values, so outputs stay right on the tested graphs and wrong elsewhere.",
  files=[L+"models/EventGraph.h", L+"models/Dataflow.h", L+"models/NoCGraph.cpp", L+"algorithms/throughput/kperiodic.cpp", L+"commons/commons.h"],
  mech=[("all code under /repo/src", "compiled with address and undefined-behaviour instrumentation and checked standard containers")],
  observe="sanitizer reports, container assertions, signals",
  flavour="san", quick_n=16000, thorough_n=600000, cpu=100, must=["executions watched"],
  tech="AddressSanitizer, UndefinedBehaviorSanitizer and checked libstdc++ containers over the workloads of all other monitors",
  rule="the inputs of all other monitors in rotation. Distinct = different input, as counted by the monitor that drew it.",
  note="leaks are not reported (kiter frees little by design); code that no monitor drives is not covered",
  assumptions=["gcc's ASan/UBSan and _GLIBCXX_ASSERTIONS report every violation they are specified to detect; uninitialised reads are not instrumented", "held on the generated inputs only"])

PROPS["K21"] = P(
  title="Analyses leave the graph as it was; answers depend on the graph alone",
  statement="Running any evaluation, sizing, printing or enumeration leaves every task, channel, name, identifier, rate, duration, token count and placement of the graph unchanged, and its answer is the same whatever was run on the graph before. The throughput reported by every evaluation is the same for two descriptions of the same graph: other names, another order of tasks and channels, identifiers with gaps left by removed elements, durations given as equal fractions, or tokens of a channel counted in another unit.",
  quant=(["histories", "inputs"], "every sequence of analyses on a live (C)SDF graph and every such renaming, reordering or rescaling"),
  why="Analyses cache in and normalize the graph they are given and iterate over identifier-indexed tables; a leftover or an index confusion only shows in a second analysis or with other identifiers.",
  files=[L+"models/Dataflow.h", L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/throughput/symbolic_execution.cpp" , L+"algorithms/normalization.cpp"],
  mech=[("cached computations", L+"models/Dataflow.h: reset_computation, set_read_only"), ("working copies", L+"algorithms/throughput/degroote.cpp, "+L+"algorithms/buffersizing/periodic_fixed.cpp")],
  observe="all getters of the graph around each analysis, printed answers",
  flavour="rel", quick_n=60000, thorough_n=1200000, must=["sequences", "answers compared", "texts compared", "disguises", "pairs compared", "feasible", "infeasible"],
  tech="online monitors: full graph snapshot around every analysis, metamorphic comparison (numbers and whole reports) with a fresh graph under fresh stream state and with re-described graphs",
  rule="sequences of 2..6 analyses out of 25; one disguise per graph. Distinct = different sequence or disguise and graph signature.")

PROPS["K23"] = P(
  title="Hostile documents and wrong usage are refused, never miscomputed",
  statement="A document that describes no graph (unknown or missing actors, wrong root, no graph or properties, numbers of rates or times that do not match, empty entries, ports of unknown direction) is refused, and any damaged document is either refused or read into a graph that can be written again, without a crash or memory error. The command line runs the algorithms in the given order on one graph, each with the parameters given before it, stops with a failure status at an unknown algorithm, generator, missing or unreadable file, and runs nothing after it; the help option lists the algorithms and runs none.",
  quant=(["inputs"], "every document obtained by structural or byte-level damage of a valid one, every command line over the supported options"),
  why="Hand-written error handling is exercised only by inputs nobody writes on purpose; tests feed valid files and valid options.",
  files=[L+"printers/SDF3Wrapper.cpp", "src/kiter/main.cpp", L+"commons/commons.h"],
  mech=[("reader", L+"printers/SDF3Wrapper.cpp: parseSDF3XML"), ("options", "src/kiter/main.cpp")],
  observe="outcome of parseSDF3XML under sanitizers; exit status, stderr and files of the executable",
  flavour="san", quick_n=7000, thorough_n=300000, cpu=60, must=["shown graphs", "refused documents", "read", "refused", "written", "command lines", "printed graphs", "unknown algorithms", "usages", "usage help", "usage missing"],
  tech="AddressSanitizer/UBSan-watched mutation workload with an oracle for the documents that must be refused, and an oracle over exit status and written files of the executable",
  rule="random graphs written as XML, then damaged; random option sequences. Distinct = different document or command line.",
  assumptions=["a truncated document is read in libxml2's recovery mode, as the code asks for, so only safety is claimed for it", "an uncaught C++ exception that names the error counts as a refusal (status is not zero)", "held on the generated inputs only"])

PROPS["K24"] = P(
  title="The channels reported as critical are the bottleneck",
  statement="For every consistent graph, the critical channels reported with a K-periodic evaluation (any periodicity vector), with the 1-periodic, strictly periodic and optimal K-periodic schedules, and with the K-periodic throughput used by the buffer exploration, form one closed circuit, and the graph reduced to those channels (all tasks kept, same repetition counts) has exactly the same best period in that class of schedules. When no such schedule exists, the reported channels alone already forbid one.",
  quant=(["inputs", "configurations"], "every consistent graph, live or blocked, with and without modelled capacities, every periodicity vector"),
  why="The exploration of buffer sizes and the refinement of periodicity vectors act on this set only; a wrong channel id gives a plausible answer that no test compares with anything.",
  files=[L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/dse/kperiodic.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp", L+"algorithms/scheduling/CSDF_SPeriodicScheduling.cpp", L+"algorithms/throughput/csdf_strictly_periodic.cpp", L+"models/EventGraph.cpp"],
  mech=[("critical circuit of the K-periodic evaluation", L+"algorithms/throughput/kperiodic.cpp: KSchedule"), ("critical edges of a schedule", L+"models/Scheduling.h: getCriticalEdges"), ("circuits for the exploration", L+"algorithms/dse/kperiodic.cpp: compute_Kperiodic_throughput_and_cycles")],
  observe="critical_edges, getCriticalEdges",
  flavour="rel", quick_n=60000, thorough_n=3000000, must=["circuits.checked", "circuits.partial", "circuits.infeasible", "bounded"],
  tech="offline oracle: exact maximum cycle ratio of the graph restricted to the reported channels, compared with that of the whole graph",
  rule="the profiles of K02, most of them limited by a circuit of several tasks, half of the exploration cases with capacities. Distinct = different graph, method and reported set.")

PROPS["K25"] = P(
  title="Reports, drawings and charts describe what they are given",
  statement="PrintInfos reports the names, the numbers of tasks and channels, the sums over the repetition vector, and one row per task and per channel with their true degrees, durations, repetition counts, mapping, rates and marking, and says so when the graph is inconsistent. PrintGraph draws each task and each channel exactly once with its marking and rates. PrintMapping draws every node and link of the network once, each task at the place of the core it is mapped on, and with coloured routes as many colours on a link as routes use it. The chart, the text, the DOT and the TikZ drawing of a periodic schedule show exactly the executions of that schedule.",
  quant=(["inputs", "configurations"], "every such graph, mapping and periodic schedule, any line length, scale or horizon; charts where all dates are whole numbers"),
  why="Users read results off these outputs; the tests only check that printing does not fail.",
  files=[L+"printers/stdout.cpp", L+"models/Scheduling.cpp"],
  mech=[("summaries and drawings", L+"printers/stdout.cpp: printInfos, GenerateGraphDOT, GenerateNoCDOT, PeriodicScheduling2DOT, Scheduling2Tikz"), ("charts and text", L+"models/Scheduling.cpp: asASCII, asText")],
  observe="the printed text",
  flavour="rel", quick_n=30000, thorough_n=1500000, must=["infos.consistent", "infos.inconsistent", "rows", "statements", "tasks.placed", "blocks", "chart.executions", "text.values"],
  tech="offline trace checker: the printed text is parsed and compared with the harness's own model of the graph, mapping and schedule",
  rule="the profiles of K02, a part of them made inconsistent or with auto-concurrency; random meshes; 1-periodic and optimal K-periodic schedules. Distinct = different graph or text.")

PROPS["K26"] = P(
  title="Initial phases are executed once and do not distort the steady state",
  statement="For every consistent graph whose tasks may have initial phases and that executes them without deadlock, the K-periodic throughput (optimal, and for any given periodicity vector) is never above the best throughput of the steady state reached once the initial phases are done, and is exactly that throughput when the initial phases only produce tokens. The 1-periodic, K-periodic and given-vector schedules list each initial phase once before the periodic executions; replayed with the true initial and periodic rates and durations, no channel runs short of tokens, no execution of a task overlaps the next, and the announced period is the one realised.",
  quant=(["inputs", "configurations"], "every such graph, any number of initial phases, rates, durations and tokens, every periodicity vector"),
  why="Initial phases add events that exist once in a repetitive system: a missed gcd, a wrong duration or a wrong event index changes numbers silently, and no test has initial phases on more than one shape of graph.",
  files=[L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp", L+"models/EventGraph.h", L+"models/Scheduling.cpp"],
  mech=[("constraints of initial phases", L+"algorithms/throughput/kperiodic.cpp: generateKPeriodicConstraint, generateKperiodicSelfloop"), ("incremental event graph", L+"algorithms/throughput/kperiodic.cpp: updateEventGraph"), ("schedules", L+"algorithms/throughput/kperiodic.cpp: period2scheduling; CSDF_1PeriodicScheduling")],
  observe="printed and returned throughput, start times",
  flavour="rel", quick_n=120000, thorough_n=6000000, must=["KPeriodicThroughput.produce", "KPeriodicThroughput.consume", "KPeriodicThroughput.equal", "KSchedule.produce", "KPeriodicScheduling.produce", "1PeriodicScheduling.produce", "KVectorScheduling.produce", "replayed.events"],
  tech="offline oracle: exact maximum cycle ratio of the steady-state graph; token-game replay of the emitted schedule including the initial firings",
  rule="the profiles of K02 with one to three initial phases on 40% of the tasks, six in ten with initial production only; kept when an untimed execution of the initial phases and two iterations does not block. Distinct = different graph and method.")

PROPS["K27"] = P(
  title="The exported constraint graph and the drawn schedule agree with the result",
  statement="For every consistent and live graph without initial phases: the bi-valued event graph that the K-periodic and strictly periodic analyses print has exactly one node per execution of a phase within the periodicity vector, carries on every arc the duration of its source and the weight its channel implies, and its largest ratio of time to weight over a circuit is the period the same run announces. The drawn schedule of the K-periodic analysis shows every phase of every task K times per period with the phase's duration at dates that a replay of the graph accepts, and no execution of a task is drawn over another.",
  quant=(["inputs", "configurations"], "every such graph and every periodicity vector given by parameters"),
  why="These exports are what a user inspects or feeds to another solver; nothing in the code compares them with the number printed next to them, and the tests never read them.",
  files=[L+"algorithms/throughput/kperiodic.cpp", L+"models/EventGraph.cpp", L+"algorithms/throughput/csdf_strictly_periodic.cpp"],
  mech=[("export", L+"models/EventGraph.cpp: printXML"), ("drawn schedule", L+"algorithms/throughput/kperiodic.cpp: print_schedule, scheduling2Tikz"), ("strict graph", L+"algorithms/throughput/csdf_strictly_periodic.cpp")],
  observe="printed text of the analyses",
  flavour="rel", quick_n=60000, thorough_n=3000000, must=["exports.arcs", "exports.strict", "drawn.schedules", "drawn.executions"],
  tech="offline oracle over the printed export: nodes and arcs against the graph, exact circuit ratio against the announced period, token-game replay of the drawn dates",
  rule="the profiles of K02 without initial phases; periodicity vectors all ones, repetition vector or random divisors. Distinct = different graph and vector.")

for k, v in PROPS.items(): v.setdefault("assumptions", BASE)
