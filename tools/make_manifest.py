"""Writes MANIFEST.json from mc/plans.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc.plans import P, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
checks = []
na = []
for p in props:
    i = p["id"]
    if i in P:
        c = P[i]
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} -m mc.run {i}",
            "thorough_cmd": f"{PY} -m mc.run {i}",
            "technique": "explicit-state model checking: " + {
                "model_checking": "exhaustive exploration of bounded operation histories on the real code against a reference model",
                "fault_enumeration": "exhaustive enumeration of bounded fault scripts on the real code against a reference model",
                "exploration": "exhaustive enumeration of a bounded input and option space on the real code against an independent oracle",
            }[c["level"]],
            "level": c["level"],
            "level_note": c["rule"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import numpy, scipy, torch, mc.run\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import the code from /repo as it is in the working tree; no build step and no hooks. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
