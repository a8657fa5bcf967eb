#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plans import PLANS
NA = {
 "C16": "Pure function of its argument: no concurrency, time, I/O, faults or history for a simulator to control. (That the header carries everything the decoder needs is still exercised by C05, which decodes through the encoded header.)",
 "C17": "Pure size arithmetic over one call; nothing for a schedule or fault to vary. (An encode that overruns its announced bound is still reported by C05 as a failing encode and by the simulated heap of C01-C03.)",
 "C18": "Pure string parsing without state, concurrency, I/O or faults.",
 "C20": "A performance claim about wall-clock time and ratio on representative data; simulated time says nothing about it.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        pl = PLANS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: " + pl["technique"], level=pl["level"], level_note=pl["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("sim:")]
m = dict(version=1, setup_cmd="python3 -c 'import simbuild; simbuild.prune()'",
         hooks=dict(guard="CLOUDINI_SIM_POINTS_PER_CHUNK, CLOUDINI_SIM_PROBE_POINTS",
                    enable="-DCLOUDINI_SIM_POINTS_PER_CHUNK=64 -DCLOUDINI_SIM_PROBE_POINTS=16 on the compile line of the small-chunk builds (simbuild.py); undefined in the shipped build and in the 'real' builds",
                    source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="Every check builds the code under test from /repo's working tree (simbuild.py), searches seeds derived from VERIF_SEED on 8 processes, verifies and minimises each violation, and writes a replay file for replay.sh. Exit 2 means the machinery itself failed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
