#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "a1eaf2bc3d0eea9010c63ff3c55f17b2924e683d"
TERM = "operation histories on the real terminal compared after every step with an independent reference model"
T = {
 "C01": ("bounded exhaustive exploration of the real code (ASan+UBSan build)", "all histories up to the configured depths over raw bytes, control functions with extreme counts and every API call on screens from 1x1; bounds and drawing checked after every call, leaks at the end of histories. Says nothing about longer histories or accesses the sanitizers cannot see."),
 "C02": ("exhaustive enumeration of input splittings on the real code", "every history up to the depth is executed in one piece and in all its splittings (all subsets of cuts for short inputs), with draws and queries in between; screen, modes and the ordered callback log must be equal. The code is its own oracle."),
 "C03": ("bounded exhaustive exploration of the real code against a parser model", "all byte pairs (triples when thorough) from 24 parser states, all finals with 30 intermediate combinations, all histories over byte classes; trusts the reference model of the VT500 parser and its list of documented departures (DESIGN.md)."),
 "C04": ("exhaustive enumeration of byte strings on the real decoder", "all 256^4 four-byte strings, longer ones over all byte classes, plus decoding seen on the screen. Trusts the 40-line reference decoder."),
 "C05": ("exhaustive enumeration of code points on the real code", "all 2^32 values for the encoder; all code points for the width, both from the table and on the screen. Trusts the width table copied into the oracle (tools/gen_tables.py)."),
 "C06": ("bounded exhaustive exploration of the real code (ASan) against a map model", "all append/get histories up to the depth including every failing allocation, and tables with thousands of symbols."),
 "C20": ("exhaustive fault enumeration on the real code (ASan)", "every history of the alphabets with every allocation index failing once or permanently; each is followed by a recovery whose behaviour must equal a fresh terminal's, and by a leak check."),
 "C26": ("bounded exhaustive exploration of the real code (ASan) against a multiset model", "all operation histories up to the depth for 3 key kinds, 4 address patterns, 8 hash functions."),
 "C27": ("bounded exhaustive exploration of the real code (ASan) against a FIFO model", "all operation histories up to the depth with sizes around the capacity and wrap boundaries."),
 "C28": ("bounded exhaustive exploration of the real code (ASan) against an array model", "all operation histories up to the depth for 5 element sizes and 5 initial capacities."),
 "C29": ("exhaustive enumeration of kernel answers to the real code (ASan)", "all histories with all combinations of answers per read and write, all event orders of an edge-triggered readiness kernel, and every failing call while opening; trusts the stand-in kernel described in DESIGN.md."),
 "C30": ("bounded exhaustive exploration of the real code (ASan)", "all reference/unreference histories up to the depth, every public function with null objects, all interleavings of short operation sequences on two terminals against two models, and the dynamic symbols of a library linked with the repository's version script."),
}
DEF = ("bounded exhaustive exploration of the real code against a reference model", "all " + TERM + ", up to the depths listed in the evidence. Values outside the alphabets and longer histories are not covered; trusts the reference model (src/model.cpp).")
T["C18"] = ("bounded exhaustive exploration of the real code with a simulated incremental renderer", "all histories up to the depth with a draw possible after every operation and the age counter placed at its overflow; after every draw a framebuffer updated by age must equal the full drawing.")
T["C14"] = ("bounded exhaustive exploration of the real code against a reference model", DEF[1] + " Every dirtying history is followed by each reset and each probing continuation.")
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = T.get(p, DEF)
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + t,
                   "level": "fault_enumeration" if p in ("C20", "C29") else "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "TSM_VERIF_HOOKS", "enable": "build.py compiles /repo's sources with -DTSM_VERIF_HOOKS", "source_commits": [HOOK]},
     "checks": checks, "not_applicable": [],
     "notes": "Scope: src/tsm, src/shared, external. The GTK viewer (src/gtktsm) needs GTK, which is not installed, and is not claimed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
