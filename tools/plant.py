#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes /verif/seeded/<id> from bugs described in SPEC.py
(BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]) after confirming each in a scratch copy."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run in /repo after the build: 0 if the property holds for this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
printf '#define BUILD_HAVE_XKBCOMMON 1\\n' > "$t/cfg.h"
{cc} -g -std=gnu99 -D_GNU_SOURCE -w {flags} -include "$t/cfg.h" -Isrc/tsm -Isrc/shared -Iexternal -Iexternal/wcwidth -I"$d" \\
    "$d/demo.c" src/tsm/*.c src/shared/*.c external/wcwidth/wcwidth.c -o "$t/demo" -lpthread || exit 3
export ASAN_OPTIONS={asan} UBSAN_OPTIONS=halt_on_error=1
timeout 120 "$t/demo"
"""


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)


def tests_ok(copy):
    """the stable tests, in a copy bound to its own build directory"""
    r = sh("cmake -S . -B _vb -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_GTKTSM=OFF >/dev/null && ninja -C _vb 2>&1 | tail -5", copy)
    if not os.path.isdir(copy + "/_vb/test"):
        return False, r.stdout
    bad = []
    for t in ("test_htable", "test_screen", "test_symbol", "test_vte", "test_selection", "test_vte_mouse"):
        p = copy + "/_vb/test/" + t
        if os.path.exists(p):
            q = sh("timeout 100 " + p, copy)
            if q.returncode:
                bad.append(t + ":\n" + q.stdout[-600:])
                continue
            q = sh("CK_FORK=no timeout 300 valgrind -q --tool=memcheck --leak-check=yes --show-reachable=yes --leak-resolution=high --error-exitcode=1 --suppressions=etc/test.supp " + p, copy)
            if q.returncode:
                bad.append("memcheck " + t + ":\n" + q.stdout[-600:])
    return not bad, "\n".join(bad) or r.stdout


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        try:
            c = d + "/repo"
            sh("cp -a /repo %s && git -C %s checkout -q -- . && rm -r -f %s/_build" % (c, c, c))
            s = d + "/seed"
            os.mkdir(s)
            shutil.copy(VERIF + "/tools/demo.h", s)
            open(s + "/demo.c", "w").write('#include "demo.h"\n' + b["demo"])
            san = b.get("san", False)
            open(s + "/demo.sh", "w").write(DEMO_SH.format(cc="gcc" if not san else "gcc -fsanitize=address,undefined", flags=b.get("flags", ""),
                                                         asan="detect_leaks=%d:exitcode=86" % b.get("leaks", 0)))
            os.chmod(s + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
            r = sh("bash %s/demo.sh" % s, c)
            if r.returncode:
                print(b["id"], "DEMO FAILS ON UNCHANGED TREE", r.returncode, r.stdout[-1500:])
                continue
            okk = True
            for f, old, new in b["edits"]:
                p = c + "/" + f
                t = open(p).read()
                if t.count(old) != 1:
                    print(b["id"], "edit matches", t.count(old), "times:", old[:60])
                    okk = False
                    break
                open(p, "w").write(t.replace(old, new))
            if not okk:
                continue
            open(s + "/patch.diff", "w").write(sh("git diff", c).stdout)
            r = sh("bash %s/demo.sh" % s, c)
            if r.returncode in (0, 3):
                print(b["id"], "DEMO DOES NOT FAIL WITH THE PATCH", r.returncode, r.stdout[-1500:])
                continue
            dm = r.stdout.strip().split("\n")[0 if not san else -1][:110]
            ok, out = tests_ok(c)
            if not ok:
                print(b["id"], "TESTS FAIL", out[-900:])
                continue
            t = VERIF + "/seeded/" + b["id"]
            if os.path.isdir(t):
                shutil.rmtree(t)
            shutil.copytree(s, t)
            print(b["id"], "ok:", dm)
        finally:
            shutil.rmtree(d)


main()
