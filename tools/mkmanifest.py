#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
from checks import registry
NOTES = {
 "nav": "TLC decides the cursor/view laws on the specification for small scopes and, step by step, on every recorded walk of the real views (addresses, distances, comparisons). Trusts TLC, the harness's recording, and that shapes beyond the sampled ones behave as the sampled ones.",
 "dsl": "Programs drawn by TLC from a grammar model are compiled against the headers and every array element after every statement is checked by TLC against the pointwise meaning in Dsl.tla (exact residues). Trusts TLC, g++, and the sampling of programs, boxes and data.",
 "misc": "Model checked exhaustively in small scope; behaviours generated by TLC are replayed into the real classes and every observation is checked by TLC against the specification.",
 "sched": "The interleaving model is checked exhaustively for small domains; the real drivers are run under thread counts, the sequential backend and TLC-generated partitions and interleavings of the points, each run validated against the schedule-free meaning.",
 "kern": "Every array after every kernel call in TLC-generated call histories is compared by TLC with the next-state relation of Kernels.tla over exact residues of rationals; sampled boxes, arguments and contents. Trusts TLC, the harness, and rational reconstruction of doubles.",
}
TECH = {
 "nav": "TLA+ view/cursor specification (TLC) with trace validation of recorded walks",
 "dsl": "TLA+ expression-language semantics (TLC): generated programs, trace validation",
 "misc": "TLA+ state machine (TLC): generated behaviours replayed, traces validated",
 "sched": "TLA+ interleaving model (TLC) and schedule replay with trace validation",
 "kern": "TLA+ kernel state machine (TLC): generated call histories, trace validation",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "THRUST_ITERATORS_VERIF", "enable": "unused: no hooks were needed, every check observes through the public interface", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ checked with TLC. Run in /verif: python3 bin/check.py <id> --tier quick|thorough."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        k = registry.KIND[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": TECH[k], "level": "model_checking", "level_note": NOTES[k]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
