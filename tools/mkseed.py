#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and keep it: mkseed.py SPEC.py   (SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo, libs)])"""
import sys, os, subprocess, json, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WT = "/tmp/seedwt"
DEMO = r'''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 9; trap 'rm -rf "$T"' EXIT
B=_build/src
g++ -std=c++14 -pthread -O1 -g -include cstdint -fno-access-control -DHAVE_CONFIG_H -I_build $(grep -q 'define HAVE_SSE2' _build/config.h 2>/dev/null && echo) -Isrc/util -Isrc/decoder -Isrc/encoder -Isrc/net -Isrc/input -Isrc/salsify %s "$D/demo.cc" -o "$T/demo" %s || exit 8
cd "$T" && timeout 120 ./demo "$T"
'''
LIBS = " ".join('"$OLDPWD"' * 0 + "$B/" + l for l in ["encoder/libalfalfaencoder.a", "input/libalfalfainput.a", "decoder/libalfalfadecoder.a", "net/libnet.a", "util/libalfalfautil.a"]) + " /usr/lib/x86_64-linux-gnu/libx264.a -ljpeg -lpthread -lm -ldl"
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
g = {}; exec(open(sys.argv[1]).read(), g); only = sys.argv[2:]
for s in g["SEEDS"]:
    if only and s["id"] not in only: continue
    if os.path.exists(WT): shutil.rmtree(WT)
    run("cp -a /repo %s" % WT)
    d = "%s/seeded/%s" % (VERIF, s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.cc", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO % (s.get("cxx", ""), LIBS)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = run("bash %s/demo.sh" % d, cwd=WT)
    ok = clean.returncode == 0; msg = "" if ok else "CLEAN FAILS %d %s" % (clean.returncode, (clean.stdout + clean.stderr)[-800:])
    for f, old, new in s["edits"]:
        p = "%s/%s" % (WT, f); t = open(p).read()
        if t.count(old) != 1: ok = False; msg += " edit matches %d times in %s" % (t.count(old), f)
        open(p, "w").write(t.replace(old, new))
    if ok:
        diff = run("git diff", cwd=WT).stdout; open(d + "/patch.diff", "w").write(diff)
        b = run("make -C _build -j8 && make -C _build/src/tests -j8 check TESTS=", cwd=WT)
        if b.returncode: ok = False; msg = "BUILD " + b.stderr[-600:]
    if ok:
        t = run("make -C _build/src/tests check TESTS='encode-loopback serdes.test'", cwd=WT)
        if t.returncode: ok = False; msg = "TESTS FAIL " + t.stdout[-400:]
    if ok:
        r = run("bash %s/demo.sh" % d, cwd=WT)
        if r.returncode in (0, 8, 9): ok = False; msg = "DEMO with patch rc=%d" % r.returncode + (r.stdout + r.stderr)[-500:]
    print(s["id"], "KEPT" if ok else "DROPPED " + msg, flush=True)
    if not ok: shutil.rmtree(d)
if os.path.exists(WT): shutil.rmtree(WT)
