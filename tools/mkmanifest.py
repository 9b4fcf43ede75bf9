#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py; properties without a check go to not_applicable."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "sim"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
    "C30": "timing and access patterns are outside what a simulated schedule can observe; the property has no fault, schedule or interleaving in it",
    "C31": "pure function of key and block: no schedule, fault, history or interleaving to simulate",
    "C32": "pure function of password, salt and cost: no schedule, fault, history or interleaving to simulate (allocation failure inside it is covered by C18)",
    "C33": "pure function of the input bytes: no schedule, fault, history or interleaving to simulate",
}
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 sim/check.py %s --quick" % i, thorough_cmd="python3 sim/check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="deterministic simulation with fault injection: " + PROPS[i]["technique"],
                           level="exploration", level_note=PROPS[i]["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "simulator seam" in l]
m = dict(version=1, setup_cmd="python3 sim/setup.py",
         hooks=dict(guard="TORSION_SIM", enable="the checks compile /repo/src with -DTORSION_SIM themselves (sim/check.py); the default build never defines it", source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="Every check builds its own simulator from /repo's working tree into /verif/build (git-ignored). Replay a violation with: python3 sim/check.py --replay <file>.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
