"""Writes MANIFEST.json from the properties that have a module in dst/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("A pure function of its inputs: no schedule, clock, I/O, fault or history can change the outcome, so there is nothing for a simulator to control; "
        "deciding it needs an independent numerical or symbolic oracle over inputs, which is another family of technique.")
WHY = {
    "N04": "Each statistic is a pure function of the fitted model; that repeated, reordered, interrupted or concurrent evaluation returns the same value is claimed under C06, C07 and C09, but its agreement with the published formula needs an input oracle.",
    "N07": "Validation is a pure predicate on the arguments; no schedule or fault takes part in it. What rejected calls may leave behind is claimed under C05 and C07.",
    "N08": "The search is a deterministic function of the data; that it is independent of faults, output streams, history and hash seed is claimed under C05-C08 and C12, but whether the decision tree itself is right needs an input oracle.",
}
tech = {
    "C01": "deterministic simulation of worker processes, seeded schedules; differential against the serial fit and per-regime reference fits",
    "C02": "deterministic simulation of worker processes with injected worker failures",
    "C03": "deterministic simulation of worker processes; live-worker invariant under failures and interruptions",
    "C04": "deterministic simulation of caller threads on shared inputs (seeded preemption at every spreg line)",
    "C05": "deterministic fault injection at seeded execution points; deep before/after comparison of inputs",
    "C06": "deterministic injection of KeyboardInterrupt/MemoryError at seeded execution points; refit comparison",
    "C07": "seeded call histories with faults; comparison with a fresh process and process-state snapshots",
    "C08": "simulated environment (hash seed, global RNGs, clock, cwd, locale) varied by seed across processes",
    "C09": "seeded read orders, interrupted and concurrent reads of lazy attributes against fresh-model reference reads",
    "C10": "deterministic simulation of interleaved generators; comparison with solo runs",
    "C11": "simulated stop and restart from pickled state at seeded points of a model's reading history",
    "C12": "simulated output stream with injected faults at seeded writes",
    "C13": "adversarial simulated solver behind the scipy.optimize seam; bounded-progress checks",
    "C14": "simulated data source with injected read faults",
    "C15": "simulated absence and failure of optional dependencies",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "sh check %s quick" % i, "thorough_cmd": "sh check %s thorough" % i, "technique": tech[i],
                       "level": "exploration",
                       "level_note": "seeded search over a fixed number of simulated runs; every run is replayable from its seed and plan; finds violations within the sampled schedules, faults and workloads, does not prove their absence"})
    else:
        na.append({"property": i, "reason": WHY.get(i, PURE)})
doc = {"version": 1, "setup_cmd": "sh setup", "hooks": {"guard": "SPREG_DST", "enable": "no hooks were needed: every seam (pool constructors, scipy.optimize, generators, streams, tracing) exists already, so nothing in /repo is guarded", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "All checks share one engine (dst/). Replay a failure with: sh check replay evidence/replay/<file>."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
