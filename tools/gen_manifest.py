#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "explicit-state model checking of the real code: exhaustive breadth-first exploration of operation histories in lockstep with a reference model"
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
FIX = "All histories over small alphabets (2-4 ids, 0-2 labels, self-loops, both directednesses, several id/label types) to the fixpoint of reachable states"
C = {
 "C01": (EXPL, MC, FIX + ", plus every short continuation of 14 larger shapes; return values and lookups compared on each transition/state. Unbounded in length within the alphabet; ids and labels outside it only through the shapes."),
 "C02": (EXPL, MC, FIX + ", plus shapes; counts of the mutable, static and mmap form of every state."),
 "C03": (EXPL, MC, FIX + ", undirected; symmetry of presence, label and adjacency in all three representations."),
 "C04": (EXPL, MC, FIX + ", directed; in/out agreement in all three representations."),
 "C05": (EXPL, MC, FIX + ", plus shapes; every enumeration of every representation, mutable ones included."),
 "C06": (EXPL, MC, FIX + ", plus interning operations and given dictionaries; dictionary contents and the ids on all elements."),
 "C07": (EXPL, MC, FIX + ", plus shapes and sparse/byte ids."),
 "C28": (EXPL, MC, FIX + ", plus shapes; the four counters in all representations."),
 "C30": (EXPL, MC, FIX + ", plus shapes; all id pairs over present, absent, extreme ids (all 256 for byte ids)."),
}
EXTRA = os.path.join(HERE, "tools", "manifest_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
