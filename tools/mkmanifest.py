#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/plan.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("TLC checks the design invariants of the TLA+ specification in every state of the bounded exploration, and validates "
        "against the specification every call of every replayed and random history recorded from the real library. "
        "Assurance is exhaustive for the design up to the depth stated in the evidence, and for the code on the recorded "
        "histories only. Trusted: TLC, the harness' reader of SQL text, the specification as the meaning of the property.")
EXTRA = {
    "C01": " The heap model SliceHeap.tla shows the copying discipline sufficient for all interleavings within its bounds.",
    "C02": " Goroutine schedules are those that happen; the Go race detector's happens-before analysis covers the others of the same calls. "
           "The heap model SliceHeap.tla covers all interleavings of the abstract appends.",
}
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification model-checked with TLC; TLC-generated and random call histories replayed into the library, "
                     "recorded traces validated by TLC against the specification"
                     + (" (goroutines under the race detector)" if i == "C02" else ""),
        "level": "model_checking",
        "level_note": NOTE + EXTRA.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the exported API shows the whole abstract state. Repairs of defects are the fix: commits listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
