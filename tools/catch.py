#!/usr/bin/env python3
"""catch.py [ID...]: runs the checks of the planted bugs' properties (or VF_CHECKS=C01,C02 / all) against each, in a scratch copy."""
import json, os, subprocess, sys, tempfile, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
want = os.environ.get("VF_CHECKS")
res = {}
for i in ids:
    s = VERIF + "/seeded/" + i
    m = json.load(open(s + "/meta.json"))
    checks = [m["property"]] if not want else (["C%02d" % k for k in range(1, 31)] if want == "all" else want.split(","))
    d = tempfile.mkdtemp(prefix="catch", dir="/tmp")
    try:
        subprocess.run("cp -a /repo/src /repo/external %s && cd %s && git init -q . && git apply %s/patch.diff" % (d, d, s), shell=True, check=True)
        for c in checks:
            t0 = time.time()
            r = subprocess.run([sys.executable, VERIF + "/run.py", c, "quick"], env=dict(os.environ, VF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=" + c in r.stdout
            lines = [l.strip() for l in r.stdout.split("\n") if l.strip()]
            if hit or len(checks) == 1:
                print(i, c, "CAUGHT" if hit else "missed rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), lines[1][:150] if hit and len(lines) > 1 else "", flush=True)
            if hit:
                res.setdefault(i, []).append(c)
    finally:
        shutil.rmtree(d)
p = VERIF + "/out/catch.json"
old = json.load(open(p)) if os.path.exists(p) else {}
for i in ids:
    old[i] = sorted(set(old.get(i, []) if want else []) | set(res.get(i, [])))
json.dump(old, open(p, "w"), indent=1)
