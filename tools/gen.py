#!/usr/bin/env python3
"""tools/props.py -> properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NA
NOTE = ("Static: decided from the compiler's MIR of /repo's working tree on every run, for all inputs and paths of the analysed functions. Trusts the fact "
        "extractor and data-flow engine in /verif (driver/, sa/), rustc's MIR, and the named contracts of std and dependency functions.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 sa/build.py full stackenc alloc stack",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                "technique": p["tech"], "level": "other", "level_note": NOTE + (" " + p["note"] if p.get("note") else "")} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
