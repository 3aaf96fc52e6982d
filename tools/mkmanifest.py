#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Symbolic execution of the LLVM IR of the real crate, regenerated on every run; every branch and every assertion decided by Z3 "
        "for all inputs within the stated bounds, nothing outside them. Counterexamples are replayed against native builds before they are reported. "
        "Trusted: rustc's IR, the engine's IR semantics (cross-checked by native replay of sampled paths), Z3. Bounds: ")
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        b = p["bounds"] if isinstance(p["bounds"], str) else p["bounds"]["quick"] + " (thorough: " + p["bounds"]["thorough"] + ")"
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           technique="symbolic execution of the crate's LLVM IR with an SMT solver (Z3) deciding every branch and assertion",
                           level="model_checking", level_note=NOTE + b))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
