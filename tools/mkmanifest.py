#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=BL_VERIF_HOOKS"], text=True).split()
m = dict(version=1,
    setup_cmd="python3 -c \"import sys; sys.path.insert(0,'lib'); import checks, shutil; assert all(shutil.which(x) for x in ('clang++','ninja'))\"",
    hooks=dict(guard="BL_VERIF_HOOKS", enable="lib/build.py compiles /repo's sources with -DBL_VERIF_HOOKS; the environment variable BL_VERIF_CPU_FEATURES then selects the CPU feature level", source_commits=hooks),
    checks=[], not_applicable=[],
    notes="Every check builds blend2d from /repo's working tree into /verif/.build with sanitizers and runs monitored workloads; 'python3 run.py ID --replay FILE' repeats a reported case.")
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for this property yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
