#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, H, I, F, C = "schedules", "histories", "inputs", "fault_sequences", "configurations"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, built=True, state=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, built=built, state=state or [], reason=reason))


exec(open(os.path.join(here, "tools", "properties.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                "observe_at": p["observe"], "hook_needed": None,
            },
        }) + "\n")

COMMON = ("Real code under a controlled scheduler and a virtual clock and network; every execution within the stated "
          "bound is run, no sampling. Trusted: the scheduler-aware replacements of the runtime, map, channel and "
          "lazy-cell libraries (./conform.sh compares them with the real ones), and "
          "sequential consistency between scheduling points. ")

m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's crates unchanged against replacements of their dependencies", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "./check.sh " + p["id"] + " --thorough",
        "technique": "stateless model checking of the implementation (deviation-bounded exhaustive exploration of schedules, timers, faults and operation histories)",
        "level": "model_checking",
        "level_note": COMMON + p["note"],
    } for p in P if p["built"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"] or "no check is built for it yet"} for p in P if not p["built"]],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")

import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "tools"))
import design

design.write(here, P)
