#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry in vlib/props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vlib.props import PROPS, NA
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier=quick" % p, "thorough_cmd": "python3 check.py %s --tier=thorough" % p,
            "technique": "bounded symbolic execution of the real code's LLVM bitcode%s with an SMT solver (Z3) deciding every path and assertion; counterexamples replayed natively" % (" and disassembled assembly kernels" if PROPS[p].uses_asm() else ""),
            "level": "other", "level_note": "solver verdict over all values within bounds: " + PROPS[p].bounds})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "make -j8 -C symx", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: harnesses are compiled with -fno-access-control from /verif/harness against /repo's sources."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
