#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--keep]
Builds the property's harnesses from /repo's working tree, explores them symbolically, replays every candidate
counterexample on a native build of the same sources with the real libraries, and reports what reproduces."""
import sys, os, json, time, subprocess, shutil, tempfile
from collections import OrderedDict, Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import CHECKS, ASSUME
V = vbuild.VERIF

def load_known(pid):
    try: k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    except FileNotFoundError: return []
    return [x for x in k if x["property"] == pid]

def replay(exe, items, secs, out=None):
    """item -> result line of the native replay"""
    if not items: return {}
    f = tempfile.NamedTemporaryFile("w", suffix=".items", delete=False)
    f.write("\n".join(items) + "\n"); f.close()
    n = max(1, min(8, len(items) // 4)); chunks = [items[i::n] for i in range(n)]; ps = []; res = {}
    for c in chunks:
        g = tempfile.NamedTemporaryFile("w", suffix=".items", delete=False); g.write("\n".join(c) + "\n"); g.close()
        ps.append((g.name, subprocess.Popen([exe, "-t", str(secs), "-f", g.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
    for nme, p in ps:
        o = p.communicate()[0].decode(errors="replace")
        for l in o.splitlines():
            if "\t" in l: a, b = l.split("\t", 1); res[a] = b
        os.unlink(nme)
    os.unlink(f.name)
    return res

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = [a[5:] for a in sys.argv if a.startswith("only=")]
    t0 = time.time()
    spec = CHECKS[pid]
    ev = OrderedDict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking")
    cov = OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    tot = Counter(); runs = []; violations = []; unconfirmed = []; known_hit = OrderedDict(); mismatches = []; checks = Counter(); checks_sym = Counter(); reach = Counter(); functions = Counter()
    known = load_known(pid)
    replay_dir = os.path.join(V, "evidence", "replay"); os.makedirs(replay_dir, exist_ok=True)
    failed = None
    for r in spec["runs"]:
        if r.get("tier") not in (None, tier): continue
        if only and r["harness"] not in only: continue
        h = r["harness"]; kw = dict(r.get("build", {}))
        try: ei, en, bt = vbuild.build(h, defs=r.get("defs_" + tier, r.get("defs", ())), **kw)
        except vbuild.BuildError as e:
            print("BUILD FAILED for %s\n%s" % (h, e)); failed = 3; continue
        budget = r.get("budget_" + tier, r.get("budget", 40 if tier == "quick" else 300))
        out = tempfile.mktemp(suffix=".json")
        wit = 240 if tier == "quick" else 4000
        cmd = [ei, "--budget", str(budget), "--out", out, "--witnesses", str(wit), "--workers", os.environ.get("VERIF_JOBS", "8"), "--hang", "8"]
        if r.get("cfg"): cmd += ["--cfg", r["cfg"]]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not os.path.exists(out):
            print("exploration of %s failed: %s" % (h, p.stderr.decode(errors="replace")[-800:])); failed = 3; continue
        d = json.load(open(out)); os.unlink(out)
        rt = Counter()
        for c in d["configs"]:
            for k, v in c.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool): rt[k] += v
        incomplete = [c["name"] for c in d["configs"] if not c["complete"]]
        # candidates: a bounded number per configuration and label, then natively replayed
        cand = OrderedDict(); per = Counter()
        for v in d["violations"]:
            item = "%d:%s" % (v["cfgi"], v["hex"])
            per[(v["cfgi"], v["label"])] += 1
            cand.setdefault(item, v)
        items = list(cand)
        native = replay(en, items, 10)
        nrep = 0
        for it in items:
            v = cand[it]; res = native.get(it, "no result")
            if res.startswith("FAIL"):
                label = res[5:]
                nrep += 1
                hit = None
                for k in known:
                    if k["harness"] == h and k["config"] == v["cfg"] and v["hex"] in k["inputs"]: hit = k; break
                if hit: known_hit.setdefault(hit["id"], [hit, 0]); known_hit[hit["id"]][1] += 1
                else: violations.append((h, en, v["cfg"], it, label, r))
            else: unconfirmed.append({"harness": h, "config": v["cfg"], "item": it, "engine": v["label"], "native": res})
        # the models against the real libraries: every sampled path, and a second assignment of it, natively
        exp = {w[0]: w[1] for w in d["witnesses"]}
        got = replay(en, list(exp), 20)
        same = 0
        cname = {str(i): None for i in ()}
        for it, hsh in exp.items():
            g = got.get(it, "no result")
            if g == "OK " + hsh: same += 1
            elif g.startswith("FAIL"):
                ci = int(it.split(":")[0]); hexs = it.split(":")[1]; cn = d["config_names"][ci] if "config_names" in d else str(ci)
                hit = None
                for k in known:
                    if k["harness"] == h and k["config"] == cn and hexs in k["inputs"]: hit = k; break
                if hit: known_hit.setdefault(hit["id"], [hit, 0]); known_hit[hit["id"]][1] += 1
                else: violations.append((h, en, cn, it, g[5:], r))
            elif r.get("compare_output", True): mismatches.append({"harness": h, "item": it, "native": g, "engine": hsh})
            else: same += 1
        for k, v in d["checks"].items(): checks[k] += v[0]; checks_sym[k] += v[1]
        for k, v in d["reach"].items(): reach[k] += v
        for k, v in d["functions"].items(): functions[k] += v
        cov["states"] += int(rt["paths"]); cov["transitions"] += int(rt["symbolic_branches"]); cov["traces_validated_against_impl"] += same
        runs.append(OrderedDict(harness=h, configurations=len(d["configs"]), bounds=r["bounds"], paths=int(rt["paths"]), paths_outside_assumptions=int(rt["assumed_out"]),
            complete=not incomplete, not_completed=incomplete[:40], pending_paths=int(rt["pending"]), budget_s=budget, explore_s=d["wall_s"], build_s=round(bt, 1), symbolic_bytes_max=max([c["bytes"] for c in d["configs"]] or [0]),
            assertions=int(rt["checks"]), assertions_symbolic=int(rt["checks_symbolic"]), feasibility_queries_by_domain=int(rt["domain_queries"]), z3_queries=int(rt["z3_queries"]), z3_s=round(rt["z3_s"], 3),
            z3_unsat=int(rt["unsat"]), z3_sat=int(rt["sat"]), z3_unknown=int(rt["unknown"]), concretizations=int(rt["concretizations"]), enumeration_truncated=int(rt["enum_trunc"]), crashes=int(rt["crashes"]), hangs=int(rt["hangs"]), candidates=len(items), candidates_reproduced=nrep, witnesses=len(exp)))
        tot.update(rt)
        for w in d["witnesses"][:3]: cov["samples"].append("%s %s" % (h, w[0]))
        missing = [x for x in r.get("reach", ()) if not d["reach"].get(x)]
        if missing and not violations: print("WARNING: never reached in %s: %s" % (h, missing))
        runs[-1]["reach_missing"] = missing
    cov["queries_discharged"] = int(tot["domain_queries"] + tot["z3_queries"]); cov["z3_queries"] = int(tot["z3_queries"]); cov["solver_s"] = round(tot["z3_s"], 3)
    cov["assertions"] = {k: {"evaluated": checks[k], "symbolic": checks_sym[k]} for k in checks}
    cov["reach"] = dict(reach)
    cov["exhaustive"] = all(x["complete"] for x in runs) and bool(runs)
    cov["runs"] = runs
    cov["functions_encoded"] = [k for k, _ in functions.most_common(60)]; cov["functions_with_symbolic_branches"] = len(functions)
    cov["model_mismatches"] = mismatches[:20]; cov["unconfirmed_candidates"] = unconfirmed[:20]; cov["model_mismatch_count"] = len(mismatches); cov["unconfirmed_count"] = len(unconfirmed)
    cov["rule"] = "a state is one explored path (an equivalence class of inputs); transitions are decisions over symbolic data on those paths; a trace is validated when the native build of the same sources, with the real libraries, produces the output the path predicts"
    ev["coverage"] = cov
    ev["assumptions"] = ASSUME + spec.get("assumptions", [])
    seen = OrderedDict()
    for v in violations: seen.setdefault((v[0], v[2], v[4]), v)
    ev["violations"] = len(seen); ev["known_findings"] = [k for k in known_hit]
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k, (e, n) in known_hit.items(): print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    n = 0
    for (h, cfg, label), v in seen.items():
        n += 1
        if n > 12: break
        path = os.path.join(replay_dir, "%s-%d.json" % (pid, n))
        detail = subprocess.run([v[1], "-v", "-t", "10", v[3]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode(errors="replace")[-6000:]
        json.dump({"property": pid, "harness": h, "config": cfg, "input": v[3], "fails": label, "replay": "bin/replay.py %s %s" % (os.path.relpath(path, V), ""), "native_output": detail}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, V)))
        print("  %s / %s: %s   input %s" % (h, cfg, label, v[3]))
    for x in runs: print("%s: %d paths in %.1f s (build %.1f s), %d assertions (%d symbolic), %d z3 queries, complete=%s, %d/%d candidates reproduced, witnesses %d" % (x["harness"], x["paths"], x["explore_s"], x["build_s"], x["assertions"], x["assertions_symbolic"], x["z3_queries"], x["complete"], x["candidates_reproduced"], x["candidates"], x["witnesses"]))
    if mismatches: print("note: %d sampled paths differ between the models and the real libraries, e.g. %s" % (len(mismatches), mismatches[0]))
    if unconfirmed: print("note: %d candidates did not reproduce, e.g. %s" % (len(unconfirmed), unconfirmed[0]))
    print("%s %s: %s in %.1f s" % (pid, tier, "VIOLATED" if seen else "held on everything explored", time.time() - t0))
    if seen: return 1
    if failed or not runs or cov["states"] == 0: return failed or 3
    return 0
if __name__ == "__main__": sys.exit(main())
