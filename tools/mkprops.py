#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
ST = "source/girgs/include/girgs/SpatialTree.inl"
HT = "source/hypergirgs/include/hypergirgs/HyperbolicTree.inl"
GG = "source/girgs/source/Generator.cpp"
HG = "source/hypergirgs/source/Generator.cpp"
RL = "source/hypergirgs/source/RadiusLayer.cpp"
WS = "source/girgs/source/WeightScaling.cpp"
IS = ["source/girgs/include/girgs/IntSort.h", "source/hypergirgs/include/hypergirgs/IntSort.h"]
CLI = ["source/cli/gengirg/main.cpp", "source/cli/genhrg/main.cpp"]

prop("C01", "Threshold GIRG generation yields exactly the model's edges",
 "In threshold mode (alpha = infinity) GIRG edge generation returns, for every pair of nodes, exactly one edge if the torus max-norm distance to the power of the dimension is below w_u*w_v/W, and none otherwise. "
 "This holds for every dimension 1..5, all weights and positions, every thread setting, every number of threads the OpenMP runtime actually delivers, and every interleaving.",
 ["schedules", "inputs", "configurations"],
 "all weight vectors and positions (including ties, duplicates, cell-boundary coordinates), D = 1..5, requested and delivered thread counts, all interleavings",
 "Tests compare a handful of uniform random graphs at one thread count (8) and whatever schedule the OS gives.",
 [GG, ST, "source/girgs/include/girgs/WeightLayer.h", "source/girgs/include/girgs/SpatialTreeCoordinateHelper.inl"],
 [("cell recursion, sequential start and static parallel loop over first parallel level", ST), ("bucketing of nodes into layers/cells and prefix-sum gap repair", ST)],
 [("m_first_in_cell", "prefix sums from cell to node range", ST)], ["girgs::generateEdges", "girgs::SpatialTree<D,Callback>::generateEdges"])
prop("C02", "Threshold HRG generation yields exactly the model's edges",
 "At temperature 0, hyperbolic edge generation returns, for every pair of nodes, exactly one edge if their hyperbolic distance is below R, and none otherwise. "
 "This holds for all radii in (0,R) and angles in [0,2pi), every thread setting, every number of threads the OpenMP runtime actually delivers, and every interleaving of the generating threads.",
 ["schedules", "inputs", "configurations"],
 "all point sets, all R, requested and delivered thread counts, all interleavings of task creation, sampling and task processing",
 "The tests check few point sets at 8 threads; the split of the recursion over threads and tasks depends on the thread count and on the level where parallel tasks begin, which they never vary.",
 [HG, HT, RL, "source/hypergirgs/include/hypergirgs/Point.h"],
 [("task creation / top-level sampling split and atomic task queue", HT), ("radius layers, cells and gap repair", RL)],
 [("tasks, next_task_to_process", "work queue shared by the team", HT)], ["hypergirgs::generateEdges", "hypergirgs::HyperbolicTree::generate"])
prop("C03", "Sampled graphs are simple and respect forced and impossible pairs",
 "For every temperature and every alpha, a generated GIRG or HRG contains only edges between two distinct existing nodes and contains each unordered pair at most once. "
 "Pairs whose connection probability is 1 are always connected (alpha = 0 therefore gives the complete graph) and pairs whose probability is vanishingly small never are, for every thread count, delivered team and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all inputs, alpha in [0,inf], T in [0,1), seeds, thread counts, delivered team sizes, interleavings",
 "Tests check averages of edge counts and, for a few graphs, edges between different cells; simplicity and forced pairs under other thread counts and schedules are not looked at.",
 [ST, HT, GG, HG], [("type I / type II sampling with geometric jumps", ST), ("type I / type II sampling with distance filters", HT)], (),
 ["girgs::generateEdges", "hypergirgs::generateEdges"])
prop("C04", "GIRG edge sampling is reproducible per seed and thread number",
 "For a fixed input, a fixed non-negative seed and a fixed number of threads, GIRG edge sampling always produces the same set of edges. "
 "The interleaving of the threads, the clock, profiling output, heap contents, what the process generated before, and reuse of a generator object have no influence.",
 ["schedules", "histories", "configurations"],
 "pairs of executions with the same input, seed and thread number under different interleavings, clocks, heap contents and call histories",
 "The reproducibility test repeats two calls under schedules of the OS's choosing in one process history.",
 [GG, ST], [("one generator per thread, seeded seed+thread, static schedule", ST)], [("m_gens", "per-thread generators", ST)],
 ["girgs::generateEdges", "girgs::SpatialTree<D,Callback>::generateEdges"])
prop("C05", "HRG edge sampling is reproducible per seed and thread number",
 "For a fixed input, a fixed non-negative seed and a fixed number of threads, HRG edge sampling always produces the same set of edges. "
 "Which thread happens to process which part of the work, the interleaving, the clock, profiling output, heap contents, earlier calls and reuse of a generator object have no influence.",
 ["schedules", "histories", "configurations"],
 "pairs of executions with the same input, seed and thread number under different interleavings, clocks, heap contents and call histories",
 "The reproducibility test repeats two calls under the OS's schedules; a wrong task-to-generator assignment shows only when tasks are taken by unusual threads or in unusual orders.",
 [HG, HT], [("one generator per top-level role and per task from a seed sequence", HT)], [("gens", "generators per role and task", HT)],
 ["hypergirgs::generateEdges", "hypergirgs::HyperbolicTree::generate"])
prop("C06", "GIRG edges follow the model's probabilities independently",
 "Over seeds, each pair {u,v} of a GIRG is connected with probability min(1, (w_u*w_v/W / dist^d)^alpha), independently of all other pairs of the same graph and of the graphs of unrelated seeds. "
 "This holds for every dimension, alpha, weight and position input, and for every number of threads.",
 ["inputs", "configurations", "histories"],
 "all inputs, alpha in (0,inf), D = 1..5, thread counts; distribution over the seeds and over the per-thread random streams",
 "Tests compare average edge counts within a few percent; a bias of rare long-range pairs, or correlated random streams on different threads, stays invisible.",
 [ST, GG], [("type II geometric jumps with rejection, type I coin flips", ST), ("per-thread generators", ST)], (), ["girgs::generateEdges"])
prop("C07", "HRG edges follow the model's probabilities independently",
 "Over seeds, each pair of nodes of an HRG with temperature T in (0,1) is connected with probability 1/(1+exp((dist-R)/(2T))), independently of all other pairs of the same graph and of the graphs of other seeds. "
 "This holds for every input and every number of threads.",
 ["inputs", "configurations", "histories"],
 "all point sets, R, T in (0,1), thread counts; distribution over the seeds and over the random streams of threads and tasks",
 "The probability tests use one thread setting and coarse tolerances on averages; biased rare pairs or correlated per-task streams stay invisible.",
 [HT, HG, "source/hypergirgs/include/hypergirgs/DistanceFilter.h"], [("type I / II sampling and distance filters", HT), ("initialize_prngs: streams per role and task", HT)], (), ["hypergirgs::generateEdges"])
prop("C08", "Every generator call terminates under every schedule and team size",
 "Every sampling, weight-scaling, sorting or edge-generation call on valid input returns, whatever the number of threads requested, however few of them the OpenMP runtime delivers (thread limits, dynamic adjustment, nested regions), however the threads are interleaved or delayed, and whatever spurious wakeups occur.",
 ["schedules", "configurations", "fault_sequences"],
 "thread counts 1..64, delivered teams, interleavings, spurious wakeups, stalled threads, small and large n",
 "Tests run with 8 requested and 8 delivered threads on inputs deep enough to have parallel tasks.",
 [HT, ST, GG, HG, RL, *IS], [("task hand-over with mutex and condition variable", HT), ("single + barrier in gap repair", RL), ("barriers in the radix sort", IS[0])],
 [("tasks_generated", "flag that releases the waiting threads", HT)], ["return of every public call"])
prop("C09", "Edge callbacks get exclusive thread slots and all edges before return",
 "The generators with a user callback invoke it exactly once per edge, with a thread index between 0 and the maximum number of OpenMP threads of the caller minus 1. "
 "Two invocations with the same thread index never overlap, and no invocation happens after the generating call has returned.",
 ["schedules", "configurations"],
 "thread counts, delivered teams, calls from inside other parallel regions, interleavings with callbacks preempted in the middle",
 "Tests use callbacks that only count or append; none overlaps invocations deliberately or counts slots.",
 [ST, HT, GG, HG], [("thread index handed to the callback and used to index per-thread buffers and generators", ST)], (), ["EdgeCallback::operator()(int,int,int)"])
prop("C10", "Generation is free of data races and invalid memory accesses",
 "No execution of the samplers, weight scaling, sorting, edge generation or the command line tools on valid input performs two unsynchronised conflicting accesses to the same memory from different threads, or accesses memory outside live objects. "
 "This holds for every interleaving and every team size.",
 ["schedules", "inputs", "configurations"],
 "all interleavings, team sizes and inputs",
 "Races and off-by-one accesses rarely change a test's outcome, and no sanitizer is part of the test run.",
 [ST, RL, HT, GG, HG, WS, *IS], [("omp single/barrier before gap repair", RL), ("mutex around flushing, atomic counters", GG), ("condition variable hand-over", HT)], (), ["every memory access"])
prop("C11", "Buffered edge lists are complete when thread buffers overflow",
 "The edge lists returned by the list-returning generators contain every generated edge exactly once, also when threads produce more edges than fit in their local buffers and flush them while other threads are still generating or flushing. "
 "The list equals what the callback interface reports for the same call.",
 ["schedules", "inputs"],
 "graphs with more edges per thread than a local buffer (2^20), buffer sizes hit exactly, interleavings of flushes",
 "No test produces more than 2^20 edges on one thread, so the flush in the middle of the run is never executed.",
 [GG, HG], [("addEdge / flush under a mutex, clear, final flush", GG), ("addEdge / flush under a mutex, clear, final flush", HG)], [("local_edges", "per-thread edge buffers", GG)],
 ["girgs::generateEdges", "hypergirgs::generateEdges"])
prop("C12", "Parallel samplers are complete, reproducible and correctly distributed",
 "Weights, positions, radii and angles are reproducible for a seed and thread number under every interleaving; every requested entry is filled and lies in its documented range (weights [1,n/2], positions [0,1), radii (0,R), angles [0,2pi)). "
 "The entries follow the documented distribution, are pairwise independent, and no two threads use the same random stream.",
 ["schedules", "inputs", "configurations"],
 "n from 0 to several 10^5 (more than 10^4 entries per thread), thread counts, delivered teams, interleavings, seeds",
 "The tests sample at most n around 10^4, so the samplers never run on more than one thread with results checked.",
 [GG, HG], [("per-thread generator seed+tid, omp for schedule(static)", GG), ("warm-up and per-thread generators", HG)], (),
 ["girgs::generateWeights", "girgs::generatePositions", "hypergirgs::sampleRadii", "hypergirgs::sampleAngles", "hypergirgs::sampleRadiiAndAngles"])
prop("C13", "The parallel integer sort yields a sorted permutation",
 "Sorting by integer key with any key extractor and any keys not larger than the stated maximum gives a permutation of the input ordered by key. "
 "This holds for every input size, key width and maximum key, every number of threads requested and delivered, and every interleaving.",
 ["schedules", "inputs", "configurations"],
 "n from 0 to several 2^17 (where several threads take part), maximum keys around powers of two up to the type's range, key distributions, delivered teams, interleavings",
 "No test sorts more than 2^17 elements, so the multi-threaded path never runs, and no unit test covers the sort on its own.",
 IS, [("MSB radix pass with per-thread counters and barriers, LSB passes per queue", IS[0])], [("thread_counters, splitter", "shared histogram and queue boundaries", IS[0])], ["intsort::intsort"])
prop("C14", "Concurrent and nested callers do not influence each other",
 "Generator calls made at the same time from several application threads, or from inside an OpenMP parallel region of the application, behave as if each ran alone: each returns the same result that the same call returns when made on its own with the same team sizes, none crashes, and none waits forever.",
 ["schedules", "histories", "configurations"],
 "2..8 concurrent callers (std::thread or outer OpenMP threads), nested parallelism on or off, inner thread settings 1..8, interleavings",
 "All tests call the library from the main thread, one call at a time.",
 [ST, HT, GG, HG], [("per-call state, no globals; generators and buffers indexed by the OpenMP thread number", ST)], (), ["all public functions called concurrently"])
prop("C15", "Graph files are complete or the failure is reported",
 "When saving a graph as .dot, or when a command line tool writes an edge list or coordinate file, either the complete and exact content reaches the file or the failure is reported to the caller (exception or unsuccessful exit). "
 "This holds whatever mixture of short writes, interrupted calls, full disk, I/O errors, failing open or failing close occurs; a crash leaves only a prefix of the correct content.",
 ["fault_sequences", "crash_points", "inputs"],
 "every position of a failing, short or interrupted write, open or close; every crash point; every graph",
 "saveDot and the command line tools are not tested at all, and real disks in a test run do not fail.",
 [GG, *CLI], [("ofstream with open check", GG), ("ofstream with open check", CLI[0])], (), ["girgs::saveDot", "gengirg -edge/-dot", "genhrg -edge/-coord"])
prop("C16", "The command line tools generate what their arguments say, reproducibly",
 "For the same arguments (seeds and -threads included) gengirg and genhrg write the same graph in every run under every interleaving, and it is the graph the library generates for those parameters with that many threads: header and ids match n, each edge once, and coordinates are the ones the edges were generated from. "
 "Parameters outside the documented ranges are refused with an unsuccessful exit and without output files.",
 ["schedules", "inputs", "configurations"],
 "argument combinations, thread counts, interleavings, clock behaviour",
 "The command line tools have no tests.",
 CLI, [("argument parsing, range checks, omp_set_num_threads, file writers", CLI[0])], (), ["output files and exit status of gengirg and genhrg"])
prop("C17", "Allocation failure never yields a wrong result or a hang",
 "If any memory allocation made by a sampler, weight scaling, edge generation or saving fails, the call either still returns the complete correct result, or reports the failure by an exception, or ends the process; it never returns an incomplete or wrong result, hangs, corrupts memory or leaks a lock. "
 "After a reported failure, a repeated call with enough memory gives the correct result.",
 ["fault_sequences", "schedules"],
 "every allocation of a call failing once or from then on, together with interleavings and team sizes",
 "Tests never run out of memory.",
 [GG, HG, ST, HT, RL, WS], [("RAII containers, lock_guard around flush", GG)], (), ["all public functions under failing operator new"])
prop("C18", "Weight scaling is deterministic and hits the desired degree",
 "Scaling weights returns the same factor for the same input and thread number under every interleaving and multiplies every weight by exactly the returned factor, leaving their order unchanged. "
 "With the scaled weights the expected average degree of the model equals the desired degree up to the documented search accuracy, for alpha = infinity and for finite alpha up to 8 (except 1).",
 ["schedules", "inputs", "configurations"],
 "weights, desired degrees, D = 1..5, alpha in (0,8] or infinity, thread counts, interleavings of the parallel reductions",
 "Tests check a few random weight vectors with a tolerance on sampled degrees; the order in which partial sums are combined is never varied.",
 [GG, WS], [("parallel reductions, rich-club correction, exponential search", WS)], (), ["girgs::scaleWeights"])
prop("C19", "Negative seeds give fresh entropy to every generator",
 "With a negative seed every random generator of a call takes its seed from the system's entropy source, so repeated calls give different results and no two threads of a call share a stream. "
 "If the entropy source fails, the failure is reported or ends the process instead of a result from constant or missing entropy being returned.",
 ["fault_sequences", "schedules", "histories"],
 "all samplers and generators with negative seeds, thread counts, answers and failures of the entropy source",
 "Tests use fixed seeds, and the real entropy source does not fail.",
 [GG, HG, ST, HT], [("seed >= 0 ? seed : std::random_device()()", ST)], (), ["results with negative seeds"])
prop("C20", "Cell numbering is a bijection between cells and coordinates",
 "For every dimension and level, converting cell coordinates to a cell number and back is the identity, children and parents are inverse, and the generic and BMI2 implementations agree.",
 ["inputs"], "all cells of all levels", "Tests sample cells; all cells of all levels is a pure input space.",
 ["source/girgs/include/girgs/SpatialTreeCoordinateHelper.inl", "source/girgs/include/girgs/BitManipulationGeneric.inl"],
 [("deposit/extract", "source/girgs/include/girgs/BitManipulationGeneric.inl")], (), ["SpatialTreeCoordinateHelper"])
prop("C21", "Generated graphs have the desired average degree",
 "A graph generated from model parameters and a desired average degree (GIRG: weights, positions, scaling, edges; HRG: radius, radii, angles, edges) has this average degree: over seeds the mean converges to it for a GIRG, "
 "and for an HRG of at least 8000 nodes with alpha in [0.75,1] and temperature up to 0.6 it is within the error of the asymptotic radius estimate (10 %, below alpha 0.85 17 %), for both estimation variants. "
 "This holds for every number of threads requested or delivered.",
 ["inputs", "configurations"],
 "n, D, power law exponent, alpha, T, degree, both radius estimates, thread counts and delivered teams, seeds",
 "Tests check the degree of a few fixed parameter sets with a fixed seed and the default number of threads.",
 [GG, HG, WS, ST, HT], [("calculateRadius, calculateRadiusLikeNetworKit, samplers, scaleWeights", HG)], (), ["number of edges of a generated graph"])
prop("C22", "Generation takes work and memory linear in the size of the graph",
 "For fixed model parameters (power law exponent above 2, alpha above 1, or an HRG with alpha in [0.6,1] and temperature below 1) the expected work and the heap memory of sampling a graph grow linearly with the number of nodes plus edges, "
 "for GIRGs of dimension 1 to 3 and for HRGs, and for every number of threads requested or delivered.",
 ["inputs", "configurations"],
 "graphs of n, 4n and 16n nodes for random model parameters, thread counts and delivered teams",
 "Running time is not asserted by any test, and wall-clock time on small inputs would not show it.",
 [ST, HT, GG, HG], [("layered cell recursion, geometric skips, angular pruning", ST)], (), ["number of memory accesses and bytes of a call"])
prop("C23", "A library call leaves nothing behind but its result",
 "Generating, scaling, sorting and saving calls do not change what they are given by constant reference, nor the caller's OpenMP settings, global random state, locale, stream formatting, floating point control, signal handlers, environment or processor affinity; they print nothing unless profiling is asked for, and leave no thread or file open. "
 "Repeating a call does not accumulate memory, whether the call succeeds or reports a failed allocation or disk error, and whatever team is delivered.",
 ["histories", "fault_sequences", "configurations"],
 "sequences of identical calls of every kind, caller's OpenMP and stream settings, delivered teams, failing allocations and writes",
 "Tests run each call once in a process of their own settings and do not look at what remains afterwards.",
 [GG, HG, ST, HT, RL, WS], [("containers, lock_guard, local state only", GG)], (), ["state of the calling process around a call"])
prop("C24", "Generation divides its work among the delivered threads",
 "With t threads requested and at least two delivered, edge generation and the samplers divide their work: the longest chain of dependent work is clearly shorter than the total (for graphs of 6000 or more nodes, D up to 2 or 3, and samplers of 10^4 or more entries per thread), and the total work is at most three times that of a single thread.",
 ["schedules", "configurations"],
 "model parameters, threads requested and delivered, threads progressing at the same speed",
 "Tests check results only; code that does all work on one thread or under one lock passes them.",
 [ST, HT, GG, HG], [("parallel loop over cells of the first parallel level", ST), ("task queue", HT)], (), ["work per thread of a call"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
