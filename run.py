#!/usr/bin/env python3
"""run.py ID: decides one property on /repo's current tree (see DESIGN.md)."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
import build

OUT = os.environ.get("VF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VF_OUT", os.path.join(VERIF, "evidence"))
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:handle_abort=0:symbolize=0",
            "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}

# which builds of the library decide a property
VARIANTS = {"C01": ["asan"], "C20": ["asan"], "C16": ["asan"], "C26": ["asan"], "C27": ["asan"], "C28": ["asan"], "C06": ["asan"],
            "C29": ["asan"], "C30": ["asan"]}
TECH = "model checking: exhaustive enumeration on the real code"


def env():
    e = dict(os.environ)
    e.update(ASAN_ENV)
    return e


def replay(exe, path, timeout=60):
    """(violated, message)"""
    try:
        r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    if r.returncode == 0:
        return False, "ok"
    if r.returncode == 1:
        m = re.search(r"REPLAY-VIOLATION (.*)", r.stdout)
        return True, m.group(1) if m else "violation"
    if r.returncode == 3:
        raise RuntimeError("replay of %s: %s" % (path, r.stderr[-2000:]))
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|double free[^\n]*|invalid free[^\n]*|free of a pointer[^\n]*)", r.stderr)
    return True, "crash (%s): %s" % (r.returncode, m.group(1) if m else r.stderr.strip().split("\n")[-1][:200])


def write_case(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def minimise(exe, path, lines, hang):
    """Drops operations as long as the replay still fails."""
    budget = time.time() + (25 if hang else 20)
    tmp = path + ".tmp"
    ops = [i for i, l in enumerate(lines) if l.startswith("op ")]
    changed = True
    while changed and time.time() < budget:
        changed = False
        for i in reversed([i for i, l in enumerate(lines) if l.startswith("op ")]):
            if time.time() > budget:
                break
            cand = lines[:i] + lines[i + 1:]
            write_case(tmp, cand)
            bad, _ = replay(exe, tmp, 5 if hang else 20)
            if bad:
                lines = cand
                changed = True
    if os.path.exists(tmp):
        os.unlink(tmp)
    return lines


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=\"(.*)\" (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def case_key(lines):
    return " ; ".join(l[3:] if l.startswith("op ") else l for l in lines if l.startswith(("system ", "op ", "finish")))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    limit = float(os.environ.get("VF_LIMIT", "240" if tier == "quick" else "5400"))
    workers = min(32, os.cpu_count() or 8)
    variants = VARIANTS.get(prop, ["fast"])
    results, violations, known_hit = [], [], []
    known = known_findings(prop)
    extra_env = {}
    if prop == "C30":
        extra_env["VF_SO"] = build.build_so()
        extra_env["VF_HEADER"] = build.REPO + "/src/tsm/libtsm.h"
        os.environ.update(extra_env)
    unrepro = []
    for v in variants:
        exe = build.build(v)
        res = os.path.join(OUT, "%s-%s-%d.json" % (prop, v, os.getpid()))
        r = subprocess.run([exe, "run", prop, tier, str(limit), str(workers), res], env=env())
        if r.returncode:
            raise RuntimeError("explorer failed with %d" % r.returncode)
        d = json.load(open(res))
        os.unlink(res)
        d["variant"] = v
        results.append(d)
        done = set()
        post = time.time() + (200 if tier == "quick" else 600)
        for x in d["violations"]:
            if violations and time.time() > post:
                print("note: more violations were found than are reported here")
                break
            lines = [l for l in x["text"].split("\n") if l]
            path = os.path.join(OUT, "%s-%d.replay" % (prop, len(violations) + 1))
            write_case(path, lines)
            bad, msg = replay(exe, path, 60)
            if not bad:
                unrepro.append(x)
                print("note: not reproduced in a fresh process: %s: %s" % (x["msg"], case_key(lines)[:400]))
                continue
            if len(violations) < 3:
                lines = minimise(exe, path, lines, x["kind"] == 2)
            k = case_key(lines)
            if k in done:
                continue
            done.add(k)
            write_case(path, ["# property " + prop, "# variant " + v, "# " + msg] + lines)
            bad, msg2 = replay(exe, path, 20 if x["kind"] == 2 else 60)
            msg = msg2 if bad else msg
            if k in known:
                known_hit.append(known[k])
                os.unlink(path)
                continue
            violations.append((path, msg, k))
    for w in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    level = results[0]["level"]
    jobs = [dict(j, build=d["variant"]) for d in results for j in d["jobs"]]
    cov = {"samples": [s for d in results for s in d["samples"]][:8] or ["(none)"]}
    tot = {k: sum(d[k] for d in results) for k in ("states", "transitions", "traces", "nontrivial")}
    if level == "fault_enumeration":
        cov.update(evaluations=tot["transitions"], distinct_nontrivial=tot["nontrivial"], rule=results[0]["rule"])
    else:
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
        if results[0]["rule"]:
            cov["rule"] = results[0]["rule"]
    cov["exhaustive"] = all(d["complete"] for d in results)
    cov["jobs"] = jobs
    cov["explore_s"] = [d["wall"] for d in results]
    if unrepro:
        cov["not_reproduced"] = unrepro
    if not cov["exhaustive"]:
        cov["completed"] = "%d of %d tasks" % (sum(j["done"] for j in jobs), sum(j["tasks"] for j in jobs))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set(a for d in results for a in d["assumptions"])),
          "wall_s": round(time.time() - t0, 3), "violations": len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d histories, %.1f s%s" % (
        prop, tier, tot["states"], tot["transitions"], tot["traces"], time.time() - t0, "" if cov["exhaustive"] else " (bound not completed)"))
    for path, msg, k in violations:
        print("  %s\n    %s" % (msg, k))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except RuntimeError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
