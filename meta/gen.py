#!/usr/bin/env python3
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "meta"))
from props import P  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"]}}) + "\n")
checks, na = [], []
for p in P:
    m = p["module"]
    if m and os.path.exists(os.path.join(HERE, "harness", m + ".py")) and not p["na"]:
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s quick" % m, "thorough_cmd": "./check %s thorough" % m,
            "technique": "symbolic execution of the real source (path exploration with z3 deciding branches and assertions), "
                         "counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": (p["level_note"] + " " if p["level_note"] else "") +
            "Exhaustive within the bounds stated in the evidence (string lengths, alphabets, graph sizes); nothing is claimed beyond them. "
            "Trusts z3 and the engine's models of str/re/dict operations, which are validated by re-running path models on the real code."})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Solver-based checking by symbolic execution of the instrumented real sources; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import design  # noqa: E402
design.write(P)
