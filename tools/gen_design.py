#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, properties.jsonl and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/tools/design/"
exec(open(V + "/tools/levels.py").read())
exec(open(D + "detail.py").read())
out = [open(D + "head.md").read(), "## 2. Properties\n"]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in NOT_APPLICABLE:
        out.append("Not applicable: " + NOT_APPLICABLE[i] + ".\n")
        continue
    spec, how, bounds = DETAIL[i]
    out.append(f"*Specification:* {spec}.  \n*Decided by:* {how}  \n*Bounds and cost (thorough in brackets):* {bounds}.  \n*What tests leave open:* {p['why_tests_cant']}\n")
out.append(open(D + "tail.md").read())
out += ["## 6. Planted bugs\n", "Each was written from the property and the code, confirmed by `tools/plant.py` (the demonstration passes without and fails with it, "
        "the stable tests pass with it), and run against the check of its property; all listed are caught by that check (quick tier, seed 1).\n",
        "| planted bug | caught by | needs | breaks |\n|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    out[-1] += f"\n| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |"
out.append("\n" + open(D + "end.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
