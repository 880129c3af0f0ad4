#!/usr/bin/env python3
"""catch.py [id...]: applies each planted bug to /repo, runs its property's quick check (and with ALL=1 every check), undoes it, and
keeps the outcome in seeded_results.json"""
import json, os, re, subprocess, sys, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = os.path.join(V, "seeded")
RES = os.path.join(V, "tools", "seeded_results.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    props = [prop] + [p for p in os.environ.get("ALSO", "").split() if p != prop]
    r = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
    if r.returncode:
        print(i, "does not apply"); continue
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
            v = {0: "missed", 1: "caught"}.get(r.returncode, "error %d" % r.returncode)
            if r.returncode == 1 and not re.search("^VIOLATION property=%s replay=" % p, r.stdout, re.M): v = "exit 1 without a line"
            m = re.search(r"seed=\d+: (\d+) cases", r.stdout)
            res.setdefault(i, {})[p] = v + (" after %s cases" % m.group(1) if m and v == "caught" else "")
            print(i, p, res[i][p], "%.0fs" % (time.time() - t), flush=True)
            if v.startswith("error"): print(r.stdout[-1500:])
            if os.environ.get("SHOW"): print(r.stdout[-1800:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
