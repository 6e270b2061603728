#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "Encoding and translation are pure functions of their arguments: no schedule, clock, I/O, party or crash point can influence them, so there is nothing for a simulator to decide; the part of it that matters to routing (the pure identity of tags under concurrent reads) is decided with C01 and C13.",
    "N03": "Composition of filters is a pure function of the filter set that nothing in the middleware calls; there is no schedule, time, I/O or fault for it to depend on.",
}
W = {
    "engine": "the engines driven directly by concurrent readers",
    "factory": "the engine factory with simulated build and search durations and interval timers",
    "fc": "the whole filtering core from main() between models of reader, statistics database and management clients",
    "stat": "the statistics manager against a database model",
    "csv": "the subscription loader (and the startup of the filtering core) on a simulated disk",
    "change": "running engines that are changed, read, stored, crashed and restored",
    "gobtags": "the tag converter from main() on a simulated disk",
    "aleec": "the event capture server from main() with hostile and good clients",
}
PLAN = {
    "C01": ["engine", "factory"], "C02": ["engine"], "C03": ["factory", "fc"], "C04": ["factory"], "C05": ["factory"], "C06": ["factory"],
    "C07": ["stat", "fc"], "C08": ["stat", "fc"], "C09": ["fc"], "C10": ["fc"], "C11": ["fc"], "C12": ["fc", "aleec"],
    "C13": ["engine", "factory", "fc"], "C14": ["engine", "csv", "factory"], "C15": ["gobtags"], "C16": ["engine"], "C17": ["change"],
    "C18": ["fc", "aleec"],
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, timings, inputs and faults; oracle: reference model and history checks",
        "level": "exploration",
        "level_note": "Simulated: " + "; ".join(W[k] for k in PLAN[p["id"]]) + ". Samples seeds, proves nothing beyond them.",
    })
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
