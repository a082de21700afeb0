#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only JOB] [-v]
Decides one property: exit 0 held within the stated bounds, exit 1 + VIOLATION line otherwise, exit 2 undecided."""
import sys, os, json, time, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor, as_completed
from vlib import engine
from vlib.engine import VERIF
from vlib.props import PROPS

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    opts = [x for x in sys.argv[1:] if x.startswith("-")]
    prop = a[0]
    tier = "quick"
    for o in opts:
        if o.startswith("--tier="):
            tier = o[7:]
    only = [o[7:] for o in opts if o.startswith("--only=")]
    verbose = "-v" in opts
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPS[prop]
    jobs = spec.jobs(tier)
    if only:
        jobs = [j for j in jobs if any(re.search(o, j.name) for o in only)]
    try:
        engine.ensure_symx()
    except engine.BuildError as e:
        print(e); return 2
    ws = engine.Workspace()
    rc = 0
    try:
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k.get("status") == "known" and k["property"] == prop]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        results, viols, undecided = [], [], []
        stop = [False]
        def runj(j):
            if stop[0]:
                return j, {"result": "skipped", "reason": "another job already reported a violation"}
            try:
                return j, ws.run(j)
            except engine.BuildError as e:
                return j, {"result": "inconclusive", "reason": str(e)}
        with ThreadPoolExecutor(engine.NCPU) as ex:
            futs = [ex.submit(runj, j) for j in jobs]
            for f in as_completed(futs):
                j, r = f.result()
                results.append((j, r))
                if verbose or r["result"] not in ("ok", "skipped"):
                    print("[%s] %s: %s %s (%.1fs, %s paths, %s queries, solver %.1fs, rss %sMB)" % (prop, j.name, r["result"], r.get("reason", ""), r.get("wall_s", 0), r.get("paths"), r.get("queries"), r.get("solver_s", 0), r.get("rss_mb")), flush=True)
                if r["result"] == "violation":
                    viols.append((j, r, r["violations"][0])); stop[0] = not verbose
                elif r["result"] in ("inconclusive", "vacuous"):
                    undecided.append((j, r))
        rep = os.path.join(VERIF, "evidence", "replays")
        confirmed = []
        for j, r, v in viols:
            print("  %s: %s: %s at %s" % (j.name, v["kind"], v["msg"], v["where"]))
            ok, tr, vf = ws.replay(j, v)
            d = os.path.join(rep, "%s-%s" % (prop, re.sub(r"\W", "_", j.name)))
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d, exist_ok=True)
            shutil.copy(vf, os.path.join(d, "values.txt"))
            json.dump({"job": j.name, "harness": j.harness, "entry": j.entry, "params": j.params, "sources": j.sources, "defs": j.defs, "violation": v, "native": tr, "confirmed": ok}, open(os.path.join(d, "counterexample.json"), "w"), indent=1)
            with open(os.path.join(d, "replay.sh"), "w") as f:
                f.write("#!/bin/sh\n# replays this counterexample against the code in /repo\nexec python3 %s/replay.py %s\n" % (VERIF, d))
            print(re.sub(r"(?m)^", "    ", tr.strip()[:1500]))
            if ok:
                confirmed.append((j, v, d))
            else:
                print("  the native replay does not reproduce this: treated as undecided")
                undecided.append((j, {"result": "inconclusive", "reason": "counterexample not reproduced natively"}))
        ev = spec.evidence(prop, tier, seed, results, confirmed, undecided, time.time() - t0)
        ev["known_findings"] = [k["what"] for k in known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if confirmed:
            for j, v, d in confirmed:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.join(d, "counterexample.json")))
            rc = 1
        elif undecided:
            for j, r in undecided:
                print("UNDECIDED property=%s job=%s: %s" % (prop, j.name, r.get("reason")))
            # a question the solver could not settle in its time is outside what was explored; anything else means the check itself failed
            limits = all("solver gave no answer" in str(r.get("reason")) or "time" in str(r.get("reason")) for _, r in undecided)
            rc = 0 if limits and 2 * len(undecided) <= len(jobs) else 2
        else:
            print("OK property=%s tier=%s: %d jobs, %d paths, %d solver queries, %.1fs" % (prop, tier, len(jobs), sum(r.get("paths", 0) or 0 for _, r in results), sum(r.get("queries", 0) or 0 for _, r in results), time.time() - t0))
    finally:
        ws.close()
    return rc

if __name__ == "__main__":
    sys.exit(main())
