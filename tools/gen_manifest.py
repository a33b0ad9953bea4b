"""Write MANIFEST.json: checks for the properties that have one, reasons for the others."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
exec(open(f"{V}/tools/levels.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
    elif os.path.exists(f"{V}/vt/checks/{i}.py") and i in NOTES:
        t, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./run {i}", thorough_cmd=f"./run {i}",
                           technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="not claimed yet: its specification and conformance check are still being built"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks: TLA+ modules in spec/ checked by TLC, bound to the code by replay of TLC behaviours and TLC trace validation. No hooks in /repo. The tier comes from VERIF_TIER.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
