"""Writes DESIGN.md from tools/design.md.in, the list of repaired defects and the planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(HERE, "tools", "design.md.in")).read()
fixed = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
rows = []
for line in fixed:
    _, p, commit, what = line.split(" ", 3)
    rows.append(f"* {p.split('=')[1]} `{commit}` {what}")
seeds = ["| bug | property (= check that catches it) | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} |")
text = text.replace("@FIXED@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
