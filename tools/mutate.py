#!/usr/bin/env python3
"""mutate.py FILE [START [STEP]]: mutation analysis of the checks.

Makes every single-token mutant of FILE (relative to /repo; every STEP-th from START), in a scratch copy, and runs the checks
on it with a reduced budget until one reports a violation; what survives is written to out/mutants-<file>.txt for review.
Nothing here is part of a check."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 31)]
ORDER = {
    "tsm-screen.c": "C07 C09 C08 C19 C15 C18 C10 C16 C01 C20 C17 C13 C14 C25 C30 C23 C02 C11 C06 C12 C03 C04 C22 C24 C21",
    "tsm-vte.c": "C03 C13 C11 C12 C21 C22 C23 C24 C25 C14 C07 C09 C10 C02 C01 C08 C04 C19 C15 C17 C18 C20 C30 C16 C05 C06",
    "tsm-selection.c": "C16 C17 C18 C01 C20 C15 C19",
    "tsm-render.c": "C17 C18 C01 C16 C15 C11",
    "tsm-unicode.c": "C05 C04 C06 C20 C08 C01 C30 C26 C28",
    "tsm-vte-charsets.c": "C12 C14",
    "shl-htable.c": "C26 C06 C20 C30", "shl-htable.h": "C26 C06 C20 C30", "shl-array.h": "C28 C06 C20", "shl-ring.c": "C27 C29", "shl-ring.h": "C27 C29", "shl-pty.c": "C29 C30",
    "shl-macro.h": "C27 C29", "wcwidth.c": "C05 C08", "libtsm-int.h": "C18 C01 C20 C16", "shl-llog.h": "C01",
}
TOK = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|0x[0-9a-fA-F]+|\d+|[A-Za-z_]\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\S', re.S)
REP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"],
       "+=": ["-="], "-=": ["+="], "|=": ["="], "&=": ["="], "<<": [">>"], "true": ["false"], "false": ["true"]}


def mutants(text):
    toks = [(m.start(), m.end(), m.group()) for m in TOK.finditer(text)]
    toks = [t for t in toks if not t[2].startswith(("/*", "//"))]
    out = []
    depth = 0
    line_start = {}
    for i, (a, b, t) in enumerate(toks):
        ls = text.rfind("\n", 0, a) + 1
        line = text[ls:text.find("\n", a)]
        if line.lstrip().startswith("#") or "llog_" in line:
            if t == "{": depth += 1
            if t == "}": depth -= 1
            continue
        if t == "{": depth += 1
        if t == "}": depth -= 1
        if depth < 1:
            continue
        prev = toks[i - 1][2] if i else ""
        nxt = toks[i + 1][2] if i + 1 < len(toks) else ""
        if t in REP and not (t in "<>" and False):
            for r in REP[t]:
                out.append((a, b, r))
        elif t in ("+", "-") and re.match(r"[\w\])]", prev) and prev not in ("return", "case"):
            out.append((a, b, "-" if t == "+" else "+"))
        elif re.match(r"0x|\d", t):
            v = int(t, 8 if re.match(r'0\d', t) else 0)
            out.append((a, b, str(v + 1)))
            if v:
                out.append((a, b, str(v - 1)))
        elif t == "if" and nxt == "(":
            # condition always true / always false
            d, j = 0, i + 1
            while True:
                if toks[j][2] == "(": d += 1
                if toks[j][2] == ")": d -= 1
                if d == 0: break
                j += 1
            out.append((toks[i + 1][1], toks[j][0], "0"))
            out.append((toks[i + 1][1], toks[j][0], "1"))
        elif t == ";" and depth >= 1:
            # drop a simple statement
            j = i - 1
            par = 0
            while j >= 0 and not (toks[j][2] in (";", "{", "}", ":") and par == 0):
                if toks[j][2] == ")": par += 1
                if toks[j][2] == "(": par -= 1
                if par < 0: break
                j -= 1
            if par < 0 or j < 0:
                continue
            st = text[toks[j + 1][0]:a]
            m = re.match(r"(if|for|while|else|do|return|case|default|struct|unsigned|int|size_t|uint|bool|char|const|static|break|goto|enum|tsm_|void|sigset)\b", st)
            if m and m.group(1) in ("if", "else", "for", "while"):
                # the controlled statement
                k = j + 1
                while toks[k][2] in ("else", "if", "for", "while"):
                    if toks[k][2] == "else":
                        k += 1
                        continue
                    d = 0
                    k += 1
                    while True:
                        if toks[k][2] == "(": d += 1
                        if toks[k][2] == ")": d -= 1
                        k += 1
                        if d == 0: break
                if k < i and toks[k][2] not in ("return", "break", "continue", "goto", "do"):
                    out.append((toks[k][0], a, ""))
                continue
            if m and m.group(1) != "tsm_":
                if m.group(1) == "break" and nxt in ("case", "default"):
                    out.append((toks[j + 1][0], a, ""))
                continue
            if re.match(r"tsm_\w+_t\b|struct", st):
                continue
            if st:
                out.append((toks[j + 1][0], a, ""))
    return out


def main():
    f = sys.argv[1]
    start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    text = open("/repo/" + f).read()
    ms = mutants(text)
    if len(sys.argv) > 4 and sys.argv[4] == "list":
        print(len(ms))
        return
    base = os.path.basename(f)
    checks = os.environ.get("VF_CHECKS", ORDER.get(base, " ".join(ALL))).split()
    log = open("%s/out/mutants-%s.txt" % (VERIF, base), "a")
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    out = tempfile.mkdtemp(prefix="mutout", dir="/tmp")
    env = dict(os.environ, VF_REPO=d, VF_OUT=out, VF_LIMIT=os.environ.get("VF_LIMIT", "60"), VF_SCALE=os.environ.get("VF_SCALE", "0.05"))
    subprocess.run("cp -a /repo/src /repo/external " + d, shell=True, check=True)
    order = list(checks)
    try:
        todo = range(start, len(ms), step)
        if os.environ.get("VF_AGAIN"):
            # the survivors of earlier runs, with other checks
            last = {}
            for l in open("%s/out/mutants-%s.txt" % (VERIF, base)):
                w = l.split(" | ")
                if len(w) > 1: last[int(w[1].split()[0])] = w[0]
            todo = [n for n in sorted(last) if last[n].startswith(("SURVIVED", "ERROR"))][start::step]
        for n in todo:
            a, b, r = ms[n]
            ls = text.rfind("\n", 0, a) + 1
            le = text.find("\n", b)
            new = text[:a] + r + text[b:]
            lineno = text.count("\n", 0, a) + 1
            desc = "%d %s:%d [%s -> %s] %s" % (n, base, lineno, text[a:b].replace("\n", " ")[:50], r, text[ls:le].strip().replace("\n", " ")[:100])
            open(d + "/" + f, "w").write(new)
            t0 = time.time()
            res = "SURVIVED"
            for c in order:
                q = subprocess.run([sys.executable, VERIF + "/run.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if q.returncode == 1 and "VIOLATION" in q.stdout:
                    res = "killed by " + c
                    break
                if q.returncode not in (0, 1):
                    res = ("no compile" if "command failed" in q.stdout else "ERROR rc=%d %s" % (q.returncode, q.stdout[-200:]))
                    break
            if res.startswith("killed"):
                # the check that kills goes first next time
                order.remove(c)
                order.insert(0, c)
            log.write("%s | %s | %.0fs\n" % (res, desc, time.time() - t0))
            log.flush()
    finally:
        shutil.rmtree(d)
        shutil.rmtree(out)


main()
