#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = "bounded exhaustive explicit-state exploration of the real code against a reference model"
claimed = json.load(open(f"{root}/scripts/claimed.json"))
na = json.load(open(f"{root}/scripts/not_applicable.json"))
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        c = claimed[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {c['crate']} {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {c['crate']} {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", T),
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        notapp.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": notapp,
     "notes": "run.sh <crate> replay <file> re-executes the single case of a replay file"}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
