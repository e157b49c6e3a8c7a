"""Writes the evidence of a check from what the run measured."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FL = {
    "T": "assertions on, every memory access a preemption point",
    "R": "as released, every memory access a preemption point",
    "P": "as released, preemption at synchronisation points only",
    "B": "as released with BMI2 code",
}

# how the cases of a property are made, and what makes one count
RULE = {
    "C01": ("weights, positions, D, threads, delivered team, call form and schedule drawn from the seed", "the graph has an edge and more than two nodes"),
    "C02": ("radii, angles, R, threads, delivered team, call form and schedule drawn from the seed", "the graph has an edge and more than two nodes"),
    "C03": ("GIRG or HRG input, alpha or T, threads, team and schedule drawn from the seed", "the input has a forced or impossible pair and the graph an edge"),
    "C04": ("one input and seed run 3 to 8 times under different schedules, clocks, heap contents, call forms and histories", "the graph has edges and randomness decided some of them"),
    "C05": ("one input and seed run 3 to 8 times under different schedules, clocks, heap contents, call forms and histories", "the graph has edges and randomness decided some of them"),
    "C06": ("thousands of graphs of one small input over seeds, one team size and schedule policy per case; evaluations counts graphs", "more than two pairs have a probability strictly between 0 and 1"),
    "C07": ("thousands of graphs of one small input over seeds, one team size and schedule policy per case; evaluations counts graphs", "more than two pairs have a probability strictly between 0 and 1"),
    "C08": ("one call of any kind, several at once, or several from the caller's own parallel region, under teams cut short, stalls and spurious wakeups", "more than one thread was requested"),
    "C09": ("a call with a callback (also nested in a parallel region, or after omp_set_num_threads), callbacks preempted in the middle", "the callback was called more than twice with several threads"),
    "C10": ("one call of any kind, several at once, or nested, with the happens-before detector and the heap shadow on", "more than one thread was requested"),
    "C11": ("graphs of 1 to 4 million edges on 1 to 8 threads, also with an exact number of full buffers", "more than 2^20 edges"),
    "C12": ("one sampler, size, team and seed run 2 to 4 times under different schedules; evaluations counts runs", "at least 1000 entries"),
    "C13": ("items, keys, key type, maximum key, team and schedule drawn from the seed", "more than one distinct key and more than one item"),
    "C14": ("2 to 5 callers at once or nested, compared with the same calls alone; evaluations counts callers", "a caller generated an edge"),
    "C15": ("a saving call or command line tool with one disk fault or a crash at a drawn position", "a fault or a crash happened or the complete file was checked"),
    "C16": ("command lines with valid or invalid values, run under two schedules and against the library", "a graph was written or a value refused"),
    "C17": ("one call of any kind in which the k-th allocation fails, once or from then on, and the call again afterwards", "an allocation failed"),
    "C18": ("weights, degree, D, alpha, threads; two schedules; degree of the model recomputed over all pairs", "scaling was applied to more than two nodes"),
    "C19": ("a call with a negative seed run twice, and again with the entropy source failing at a drawn place", "the entropy source was used"),
    "C21": ("model parameters, desired degree, threads and team drawn from the seed, 10 or 24 graphs each; evaluations counts graphs", "always"),
    "C23": ("one call of any kind made 7 to 14 times in the same way, a third of the cases with failing allocations or disk errors; evaluations counts calls", "always"),
    "C24": ("model parameters, threads and delivered team drawn from the seed; one run on one thread, one on the team with threads taking turns; evaluations counts runs", "always"),
    "C22": ("model parameters, threads and team drawn from the seed, graphs of n, 4n and 16n nodes; evaluations counts graphs", "always"),
}

REAL = ["all of source/girgs, source/hypergirgs and source/cli, compiled from /repo's working tree", "libstdc++ containers, random engines, streams and threads layer", "libm"]
STUB = ["OpenMP runtime: the simulator's own (teams, barriers, loops, tasks, ordered, reductions, locks, nesting, limits)",
        "thread scheduler: one thread runs at a time, the next one is drawn from the seed",
        "pthread mutexes, condition variables, threads, once, semaphores: simulated", "clock: simulated time with jumps",
        "entropy source (random_device, getrandom, getentropy, /dev/urandom): simulated with failures", "heap: own allocator with fill patterns, failures and bounds shadow",
        "files under /simdisk: simulated disk", "OpenMP pragmas are lowered by g++ 13; weak memory orders are not simulated (sequential consistency), the race detector covers what they would need"]


def title(prop):
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        x = json.loads(l)
        if x["id"] == prop:
            return x["title"]
    return prop


def evidence(prop, tier, seed, count, stats, search_s, b):
    def total(k):
        return sum(s[k] for s in stats)

    def merged(k):
        out = {}
        for s in stats:
            for a, v in s[k].items():
                out[a] = out.get(a, 0) + v
        return {a: v for a, v in sorted(out.items()) if v}

    hashes = set()
    scheds = set()
    for s in stats:
        hashes.update(s["hashes"])
        scheds.update(s["schedules"])
    cases = total("cases")
    runs = total("sim_runs")
    h = max(search_s, 1e-3) / 3600
    made, counts = RULE[prop]
    samples = [x for s in stats for x in s["samples"]][:6]
    cov = {
        "evaluations": total("evals"),
        "distinct_nontrivial": len(hashes),
        "rule": "a case: %s. It counts as non-trivial if %s; distinct by parameters and schedule hash (every scheduling decision and fault of the case)." % (made, counts),
        "samples": samples,
        "cases": cases,
        "planned_cases": count,
        "simulated_runs": runs,
        "seeds_per_hour": round(cases / h),
        "simulated_runs_per_hour": round(runs / h),
        "simulated_time_s": round(total("vtime_ns") / 1e9, 3),
        "scheduling_steps": total("steps"),
        "context_switches": total("switches"),
        "distinct_interleavings": len(scheds),
        "interleaving_measure": "hash over all scheduling points (kind, thread chosen) and fault decisions of a case",
        "code_points": max([s["code_points"] for s in stats] or [0]),
        "code_points_measure": "distinct instrumented program counters (16 bit hash) at which the shadow checked an access, largest of the workers",
        "faults_injected": merged("faults"),
        "fault_points_offered": merged("fault_points"),
        "checked": merged("stats"),
        "slowest_case_s": max([s["slowest"] for s in stats] or [0]),
        "libraries": {f: FL[f] for f in sorted(b["libs"])},
        "real_components": REAL,
        "stub_components": STUB,
    }
    return {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["seeded search, not exhaustive: schedules, faults and inputs outside those drawn are not covered",
                        "interleavings are sequentially consistent; relaxed atomics are only checked for races, not reordered",
                        "the OpenMP code is the one g++ generates"],
        "wall_s": 0.0, "violations": 0,
    }
