#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
T = "deterministic simulation with fault injection"
CL = {}
def claim(id, level, tech, note): CL[id] = dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
    evidence_file=f"evidence/{id}.json", technique=f"{T}: {tech}", level=level, level_note=note)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
na = [dict(property=p, reason=NA.get(p, "no check has been built for this property yet")) for p in props if p not in CL]
m = dict(version=1, setup_cmd="./setup.sh", checks=[CL[p] for p in props if p in CL], not_applicable=na, notes=NOTES)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(CL), "claimed", len(na), "not")
