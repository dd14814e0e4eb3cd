#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (python3 tools/gen_manifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import registry
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"],
                           level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         hooks=dict(guard="POLYTRACKER_VERIF", enable="-DPOLYTRACKER_VERIF (vlib/build.py, PT_FLAGS)", source_commits=["8cc8cec"]),
         not_applicable=na,
         notes="Every check compiles and runs the sources of /repo's working tree; see DESIGN.md.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
