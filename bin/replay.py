#!/usr/bin/env python3
"""replay.py evidence/replay/<file>.json: rebuilds the native harness from /repo and replays the recorded input verbosely"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import CHECKS
d = json.load(open(sys.argv[1]))
for r in CHECKS[d["property"]]["runs"]:
    if r["harness"] != d["harness"]: continue
    for t in ("quick", "thorough"):
        ei, en, _ = vbuild.build(r["harness"], defs=r.get("defs_" + t, r.get("defs", ())), **r.get("build", {}))
        print(subprocess.run([en, "-v", "-t", "10", d["input"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode(errors="replace"))
        break
    break
