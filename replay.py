#!/usr/bin/env python3
"""replay.py DIR-or-counterexample.json: rebuild the harness natively from /repo and run the recorded counterexample."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import engine, props
p = sys.argv[1]
if os.path.isdir(p):
    p = os.path.join(p, "counterexample.json")
c = json.load(open(p))
ws = engine.Workspace()
try:
    same = [j for P in props.PROPS.values() for j in P.jobs("thorough") if (j.name, j.harness, j.entry, j.params) == (c["job"], c["harness"], c["entry"], c["params"])]
    j = same[0] if same else engine.Job(c["job"], c["harness"], c["entry"], sources=c["sources"], params=c["params"], defs=c.get("defs", []))
    ok, tr, _ = ws.replay(j, c["violation"])
    print(tr)
    print("reproduced" if ok else "not reproduced")
    sys.exit(1 if ok else 0)
finally:
    ws.close()
