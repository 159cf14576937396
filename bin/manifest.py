#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, RULES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PLAN:
        continue
    q = PLAN[p]
    note = ("Randomised exploration, not proof: no violation in the executions generated, which the evidence file counts and describes (%s). "
            % ", ".join(sorted(q["drivers"])))
    if q.get("race"):
        note += "Trusts the Go race detector; sees the races that the executed interleavings order too little."
    else:
        note += "Trusts testing/synctest for virtual time and quiescence, the harness' reference models and checkers, and that inserted scheduling hooks don't change what the code does."
    checks.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=q["technique"], level="exploration", level_note=note))
m = dict(version=1, setup_cmd="bin/check --setup",
         hooks=dict(guard="none: no hooks are committed in /repo; the checks insert them through a build overlay (go build -overlay)",
                    enable="bin/check runs tools/instrument over /repo's current tree and builds the harness with the resulting overlay", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p, reason="not claimed") for p in ids if p not in PLAN],
         notes="See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found and repaired in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
