#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the checks registered in the analyzer."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = subprocess.check_output([os.path.join(here, "bin/zmqcheck"), "list"], text=True).split()
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

T = {}
def t(id, technique, note): T[id] = (technique, note)
exec(open(os.path.join(here, "tools", "techniques.py")).read())

NA = {
 "C37": "fairness is a statistical statement about histories; no structural clause of it is a necessary condition (the library in fact broadcasts on PUSH and DEALER)",
 "C38": "quantifies over all behaviours of peers implemented elsewhere; the clauses visible in this code are C12, C14, C15, C27 and C30",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na,
    notes="One analyzer (/verif/analyzer, Go, x/tools SSA, vendored) decides every property from the source of /repo on each run; every check rebuilds it when its sources are newer. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
