import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
"""debug: python3 tools/one.py Cxx 'job name' [symx flags]: build one job, run symx with its output on the terminal"""
from vlib import engine, props
import subprocess
engine.ensure_symx()
js = [j for j in props.PROPS[sys.argv[1]].jobs("thorough") if j.name == sys.argv[2]]
ws = engine.Workspace()
try:
    j = js[0]; cmd = [engine.SYMX, ws.linked(j), "--entry", j.entry, "--out", "/tmp/one.json", "--timeout", "300", "--solver-timeout", os.environ.get("ST", "20"), "--repo", engine.REPO] + (["--merge"] if j.merge else []) + (["--asm", ws.asmlib()[0]] if j.asm else [])
    for k, v in j.params.items(): cmd += ["--param", "%s=%d" % (k, v)]
    subprocess.run(cmd + j.flags + sys.argv[3:])
    import json; d = json.load(open("/tmp/one.json")); d.pop("functions", None); [v.update(values=[x for x in v.get("values", []) if any(x["v"])][:40]) for v in d.get("violations", [])]; print({k: v for k, v in d.items() if v})
finally: ws.close()
