#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/tools"]
from props import PROPS
from specs import SPECS
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in SPECS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           technique="symbolic execution of the LLVM IR of the real C++ code; z3 decides every assertion, memory access and branch; counterexamples replayed natively",
                           level="model_checking",
                           level_note="Holds for every input within these bounds: " + SPECS[i]["bounds"] + ". " + "; ".join(SPECS[i].get("assumptions", [])) + (". " if SPECS[i].get("assumptions") else "") + "Trusted: clang 18's IR, the engine's IR semantics and library models (validated by running sampled paths natively on the same inputs), z3."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
assert set(SPECS) <= {p["id"] for p in PROPS}
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
               hooks=dict(guard="PPP_VERIF", enable="none of the checks needs hooks in /repo", source_commits=[]), not_applicable=na,
               notes="One driver (check.py) for all properties: it compiles the harness and /repo's current sources to LLVM IR, runs the symbolic executor engine/symx.cpp on it and replays what it finds on a native sanitizer build."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
