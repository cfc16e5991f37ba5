#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, CHECKS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(P): f.write(json.dumps(P[k]) + "\n")
checks = []
for k in sorted(CHECKS):
    c = CHECKS[k]
    checks.append({"property": k, "quick_cmd": "python3 bin/check.py %s quick" % k, "thorough_cmd": "python3 bin/check.py %s thorough" % k,
        "technique": c.get("technique") or "symbolic execution of the compiled code with an SMT solver (bounded), native replay of counterexamples", "level": "model_checking",
        "level_note": "Bounded: " + "; ".join(sorted(set(r["bounds"] for r in c["runs"]))) + ("; " + c["note"] if c.get("note") else "") + ". Assumes the models of libxml2, iconv and SHA-1 used in the symbolic build, whose paths are validated by native replay."})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
     "notes": "Solver-based: an LLVM pass instruments the code compiled from /repo; bin/check.py explores, replays natively, reports. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# the section on the properties in DESIGN.md
D = os.path.join(V, "DESIGN.md"); t = open(D).read(); a, b = "<!-- properties: written by bin/mkdocs.py -->\n", "<!-- end of properties -->"
o = []
for k in sorted(P):
    x = P[k]; o.append("### %s %s\n\n%s\n" % (k, x["title"], x["statement"]))
    if k in NA: o.append("Not applicable: %s\n" % NA[k]); continue
    o.append("*Why tests cannot settle it:* %s\n" % x["why_tests_cant"])
    for r in CHECKS[k]["runs"]: o.append("*Encoded and explored* (`harness/%s.cpp`, %s; budget %s s quick, %s s thorough): %s.\n" % (r["harness"], " ".join(r.get("defs_quick", r.get("defs", ()))), r.get("budget_quick"), r.get("budget_thorough"), r["bounds"]))
    if CHECKS[k]["assumptions"]: o.append("*Assumed:* %s.\n" % "; ".join(CHECKS[k]["assumptions"]))
    if CHECKS[k].get("note"): o.append("*Outside:* %s.\n" % CHECKS[k]["note"])
if a in t:
    i = t.index(a) + len(a); j = t.index(b); open(D, "w").write(t[:i] + "\n" + "\n".join(o) + "\n" + t[j:])
