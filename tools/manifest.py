#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = {}
np = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(np):
    notes = json.load(open(np))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="python3 checks/run.py " + i + " thorough",
            evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "TLA+ specification, TLC exhaustive exploration, transition-tour and randomized scripts replayed on the real code, every recorded trace validated by TLC"),
            level="model_checking",
            level_note=n.get("note", "The specification is explored exhaustively for small constants; the code is bound to it by validating recorded executions (transition tour of the state graph plus seeded random and boundary scripts), so code paths no script reaches are not decided. Trusts TLC, the driver's projection of the public API and ASAN/UBSAN for memory errors.")))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks: python3 checks/run.py <id>; VERIF_TIER selects depth, VERIF_SEED the random choices. No hooks are needed in /repo: the drivers use the public interface and access hooks from the compiler (-fsanitize=thread, linked against the driver's own scheduler) for the concurrency schedules.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
