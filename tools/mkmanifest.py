#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded search over schedules, delivered teams and faults; "
C = {
    "C01": ("edge set against an O(n^2) model", "exploration of random weights, positions, team sizes and interleavings against a brute-force model in extended precision; pairs within 1e-11 of the threshold are skipped"),
    "C02": ("edge set against an O(n^2) model", "exploration of random point sets, radii, team sizes and interleavings against a brute-force model in extended precision; pairs within rounding of the threshold are skipped"),
    "C03": ("simplicity, forced and impossible pairs as invariants", "exploration; forced and impossible mean probability within 1e-18 of 1 and 0"),
    "C04": ("runs of the same call under different schedules, clocks, heaps and histories compared", "exploration of pairs of executions with the same delivered team"),
    "C05": ("runs of the same call under different schedules, clocks, heaps and histories compared", "exploration of pairs of executions with the same delivered team"),
    "C06": ("statistical tests over thousands of simulated generations", "statistical: concentration bounds with false-alarm probability near 1e-9 per test; biases below a few percent of rare pairs are out of reach"),
    "C07": ("statistical tests over thousands of simulated generations", "statistical: concentration bounds with false-alarm probability near 1e-9 per test; biases below a few percent of rare pairs are out of reach"),
    "C08": ("exact deadlock detection, step bound under fair scheduling", "exploration of schedules with stalls, spurious wakeups and teams cut short; a deadlock is found exactly, a livelock by a step bound"),
    "C09": ("callback overlap, slot range and completeness as invariants", "exploration of schedules that preempt callbacks, including nested regions"),
    "C10": ("happens-before race detector and heap shadow inside the simulator", "exploration; memory accesses as instrumented by g++ -fsanitize=thread, heap blocks with bounds and freed state; stack and global bounds are not shadowed"),
    "C11": ("list against complete graphs and the callback", "exploration of graphs of 1 to 4 million edges, exact buffer sizes included"),
    "C12": ("runs compared, range invariants, distribution tests", "exploration and statistics (false-alarm probability below 1e-12 per test)"),
    "C13": ("sorted permutation against the input", "exploration of sizes, key ranges, types and teams, both copies of the header"),
    "C14": ("results of concurrent and nested callers against the same calls alone", "exploration of 2 to 5 callers, outer threads or nested regions"),
    "C15": ("simulated disk with failing, short and interrupted calls and crashes; file content against the graph", "exploration of one fault or crash per case at any call"),
    "C16": ("command lines run twice and against the library", "exploration of valid and invalid command lines in process"),
    "C17": ("k-th allocation fails; result, retry and termination checked", "exploration of allocation numbers, once or persistent"),
    "C18": ("factor compared across schedules, expected degree against an O(n^2) sum", "exploration; degree within the documented search accuracy"),
    "C21": ("mean degree over simulated pipelines against the desired degree", "statistical: GIRG means within 1 % plus 7 standard errors, HRG means within 10 to 17 % plus 7 standard errors (the radius is an asymptotic estimate)"),
    "C22": ("work counted in simulated memory accesses and heap bytes, growth over a 16-fold larger graph bounded", "exploration; per node and edge the work may grow by 2.6 (D = 3: 5) over a 16-fold larger graph, where linear growth measures 0.3 to 2.2 and quadratic growth 16; dimensions 4 and 5 are too expensive at sizes where they are linear"),
    "C23": ("identical calls repeated; heap, OpenMP settings, streams, locale, floating point control, signals, files and threads compared before and after", "exploration of calls, settings of the caller and failing allocations or disk writes; memory counts as leaked only if every one of the last calls leaves some behind (caches are allowed)"),
    "C24": ("length of the longest chain of dependent memory accesses against all of them, threads taking turns", "exploration; parallelism of at least 1.25 to 1.8 for 2 to 8 threads (samplers up to 2.2), where the code measures 1.5 to 5 and serialised code 1.0"),
    "C19": ("simulated entropy source, distinct or failing", "exploration of failing draws and of equality between calls"),
}
NA = {
    "C20": "a pure function of its input without threads, time, I/O or faults: nothing for a simulator to schedule. What it contributes to generated graphs is covered by C01 (both the generic and the BMI2 build).",
}
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py T,R,P,B",
    "checks": [{
        "property": k, "quick_cmd": "python3 bin/check %s" % k, "thorough_cmd": "python3 bin/check %s --tier thorough" % k,
        "technique": T + v[0], "level": "exploration", "level_note": v[1],
    } for k, v in sorted(C.items())],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks in /repo: its unmodified sources are compiled into libraries of their own and linked against the simulator's OpenMP, pthread, clock, entropy, heap and file layers. Genuine defects found are repaired by the fix: commits listed in known-findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
