from .engine import Job
PROPS = {}
NA = {
    "C36": "needs whole-clip encoding (millions of solver-visible operations per frame, floating-point rate decisions); the parts it rests on are decided separately by C01-C22, C31, C33",
    "C37": "the two ends together: the sender is a single main() around a camera, encoder threads and clocks, with no boundary at which it can be executed symbolically within reach; the receiver's half is claimed as C40, the packets and budgets as C23-C27",
    "C38": "the claim ranges over thread schedules of encoder futures; the symbolic executor is sequential and no solver-based concurrency encoding of this C++ is available here",
}
class Prop:
    def __init__(self, pid, quick, thorough=None, bounds="", outside="", assumptions=()):
        self.q, self.t, self.bounds, self.outside, self.assumptions = quick, thorough, bounds, outside, list(assumptions)
        PROPS[pid] = self
    def jobs(self, tier):
        return (self.q() + (self.t() if self.t else [])) if tier == "thorough" else self.q()
    def uses_asm(self):
        return any(j.asm for j in self.q())
    def evidence(self, prop, tier, seed, results, confirmed, undecided, wall):
        S = lambda k: sum(r.get(k, 0) or 0 for _, r in results)
        fns = {}
        for _, r in results:
            for f in r.get("functions", []):
                e = fns.setdefault(f["f"], {"file": f["file"], "instrs": 0}); e["instrs"] += f["instrs"]
        cov = {
            "explanation": "Bounded symbolic execution of the real code's LLVM bitcode (and the disassembly of its assembly kernels), rebuilt from /repo on this run; every branch feasibility and every assertion decided by Z3 over all values within the bounds.",
            "bounds": self.bounds, "outside_the_claim": self.outside,
            "jobs": [{"name": j.name, "entry": j.entry, "params": j.params, "result": r["result"], "reason": r.get("reason", ""), "paths": r.get("paths"), "forks": r.get("forks"), "merges": r.get("merges"), "queries": r.get("queries"), "asserts_discharged": r.get("asserts_discharged"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "reached": r.get("reached"), "possible": r.get("possible")} for j, r in results],
            "functions_encoded": sorted("%s (%s)" % (k, v["file"]) for k, v in fns.items()),
            "paths": S("paths"), "assertions_discharged": S("asserts_discharged"), "assertions_by_simplifier": S("asserts_by_simplifier"),
            "solver_queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "solver_cache_hits": S("solver_cache_hits"), "solver_s": round(S("solver_s"), 3), "max_query_s": max([r.get("solver_max_s", 0) or 0 for _, r in results] or [0]),
            "canonical_forms": {"assertions_decided": S("decided_by_canonical_form"), "self_checks": S("canonical_form_checks"), "queries_decided_up_to_renaming": S("decided_up_to_renaming"), "sweep_proofs": S("sweep_proofs"), "sweep_merges": S("sweep_merges")},
            "ir_instructions": S("instructions"), "x86_instructions": S("x86_instructions"), "paths_cut_by_alloc_limit": S("cut_alloc"),
            "undecided_jobs": len(undecided),
        }
        return {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": self.assumptions + COMMON, "wall_s": round(wall, 2), "violations": len(confirmed)}
COMMON = [
    "clang 18 -O2 bitcode of /repo's sources stands for the g++ build; every reported violation is replayed on a g++ build",
    "symx (this repository's LLVM/x86 symbolic executor), Z3 5.3 and clang are trusted; message formatting and stream output are stubbed",
    "operator new never fails below the stated allocation limit",
]
def shards(**kw):
    import itertools
    ks = list(kw)
    for vs in itertools.product(*[kw[k] for k in ks]):
        yield dict(zip(ks, vs))

# ---------------------------------------------------------------- boolean coder
def _c01q():
    js = [Job("enc_step k=%d" % k, "boolcoder.cc", "enc_step", params={"k": k}, reach=["step"], possible=["carry rippled"] if k > 1 else []) for k in (0, 1, 2, 3)]
    js += [Job("enc_step lead=%d" % l, "boolcoder.cc", "enc_step", params={"k": k, "lead": l}, reach=["step"], possible=["carry rippled"] if k > 1 else []) for k, l in ((2, 3), (2, 6))]
    js += [Job("enc_finish k=%d c=%d" % (k, c), "boolcoder.cc", "enc_finish", params={"k": k, "c": c}, reach=["finished"]) for k in (2,) for c in (-24, -17, -16, -9, -8, -7, -4, -1)]
    js += [Job("roundtrip n=%d prob=%d" % (n, p), "boolcoder.cc", "roundtrip", params={"n": n, "prob": p}, reach=["decoded"]) for n, p in ((0, 0), (8, 128), (8, 255), (8, 0), (7, 1), (9, 250))]
    js += [Job("roundtrip again", "boolcoder.cc", "roundtrip", params={"n": 3, "prob": 77, "again": 1}, reach=["decoded"])]
    js += [Job("dec_step rem=%d" % r, "boolcoder.cc", "dec_step", params={"rem": r}, reach=["step"]) for r in (0, 3)]
    return js
Prop("C01", _c01q, lambda: [Job("enc_finish k=%d c=%d" % (k, c), "boolcoder.cc", "enc_finish", params={"k": k, "c": c}, reach=["finished"]) for k in (0, 1, 2, 3) for c in range(-24, 0)]
     + [Job("roundtrip n=1", "boolcoder.cc", "roundtrip", params={"n": 1}, reach=["decoded"])], bounds="encoder step: any state with up to 3 emitted octets")
Prop("C02", lambda: [Job("dec_step rem=%d" % r, "boolcoder.cc", "dec_step", params={"rem": r}, reach=["step"]) for r in (0, 1, 3)]
     + [Job("dec_run n=%d k=%d" % (n, k), "boolcoder.cc", "dec_run", params={"n": n, "k": k}, reach=["run"]) for n, k in ((0, 2), (1, 2), (2, 2), (3, 2))]
     + [Job("dec_trunc n=%d" % n, "boolcoder.cc", "dec_trunc", params={"n": n}, reach=["trunc"]) for n in (0, 1, 2, 3)])

# ---------------------------------------------------------------- transport
Prop("C26", lambda: [Job("pacer k=%d len=%d narrow=%d" % (k, l, n), "pacer.cc", "pacer", params={"k": k, "len": l, "narrow": n}, reach=["pop", "front"]) for k, l, n in ((5, 1, 0), (5, 1, 1), (3, 40, 0))],
     bounds="every history of up to 5 push/pop operations, any clock readings (even running backwards), gaps 0..10 s")
Prop("C27", lambda: [Job("budget default=%d" % d, "sender.cc", "budget", params={"default_limit": d}, reach=["budget"], possible=["exhausted", "one packet"]) for d in (0, 1)],
     bounds="every delay, limit and packet numbers with fewer than 2^40 packets in flight")
ENC = ["src/encoder/encoder.cc"]
Prop("C35", lambda: [Job("calc_prob", "encprob.cc", "calcprob", sources=ENC, reach=["prob"], possible=["clamped low", "clamped high"])], bounds="branch counts below 2^23")

PKT = ["src/net/packet.cc"]
def J(name, h, e, **kw):
    p = kw.get("params", {})
    return Job(name + "".join(" %s=%d" % x for x in p.items()), h, e, **kw)
Prop("C23", lambda: [J("parse", "packet.cc", "packet_parse", sources=PKT, params={"n": n}, reach=["refused"] if n < 23 else ["accepted", "refused"]) for n in (0, 1, 2, 5, 6, 10, 13, 15, 16, 17, 18, 21, 22, 23, 24, 40)]
     + [J("cut", "packet.cc", "frame_cut", sources=PKT, params={"n": n}, reach=["cut"]) for n in (1, 1400, 1401)])
Prop("C24", lambda: [J("cut", "packet.cc", "frame_cut", sources=PKT, params={"n": n}, reach=["cut"]) for n in (1, 1399, 1400, 1401, 2800, 2801)]
     + [J("reassemble", "packet.cc", "reassemble", sources=PKT, params={"count": c, "arrivals": a, "len": l}, reach=["complete"] + (["partial"] if c > 1 else [])) for c, a, l in ((1, 3, 2), (2, 4, 2), (3, 5, 2), (4, 4, 1), (2, 3, 20))]
     + [J("foreign", "packet.cc", "foreign", sources=PKT, params={"count": c}, reach=["accepted", "refused"]) for c in (1, 2, 3)])
Prop("C25", lambda: [J("ack parse", "packet.cc", "ack_parse", sources=PKT, params={"n": n}, reach=["refused"] + (["accepted"] if n >= 20 else [])) for n in (0, 1, 2, 7, 8, 11, 15, 16, 17, 19, 20, 23, 24, 27, 28, 36)]
     + [J("ack roundtrip", "packet.cc", "ack_roundtrip", sources=PKT, params={"k": k}, reach=["roundtrip"]) for k in (0, 1, 3, 8)]
     + [J("ack sequence", "sender.cc", "ackseq", sources=PKT, params={"frames": f}, reach=["acked", "refused"]) for f in (1, 2, 4)])

import glob, os
from .engine import REPO
DEC = [os.path.relpath(f, REPO) for f in sorted(glob.glob(REPO + "/src/decoder/*.cc")) if os.path.basename(f) not in ("player.cc", "tokens.cc", "transform.cc", "prediction.cc", "quantization.cc", "tree.cc")] + ["src/util/raster.cc"]
Prop("C10", lambda: [Job("frame", "quant.cc", "frame_steps", sources=DEC, merge=True, reach=["frame"]),
     Job("segments key", "quant.cc", "segment_steps_key", sources=DEC, merge=True, reach=["segments"]), Job("segments inter", "quant.cc", "segment_steps_inter", sources=DEC, merge=True, reach=["segments"])])

# ---------------------------------------------------------------- transforms
Prop("C11", lambda: [Job("dequantise", "transform.cc", "dequantise", sources=DEC, asm=True, merge=True, reach=["dequantised"]),
     Job("iwht", "transform.cc", "iwht", sources=DEC, asm=True, merge=True, reach=["iwht"]),
     Job("idct", "transform.cc", "idct", sources=DEC, asm=True, merge=True, reach=["idct"]),
     J("idct", "transform.cc", "idct", sources=DEC, asm=True, merge=True, reach=["idct"], params={"dconly": 1})])
Prop("C12", lambda: [Job("fdct", "transform.cc", "fdct", sources=DEC, asm=True, merge=True, reach=["fdct"]),
     Job("fwht", "transform.cc", "fwht", sources=DEC, asm=True, merge=True, reach=["fwht"])])

# ---------------------------------------------------------------- prediction
def D(name, h, e, more=[], **kw): return J(name, h, e, sources=DEC + more, asm=True, merge=True, **kw)
Prop("C13", lambda: [D("sub-blocks", "predict.cc", "intra_sub", reach=["intra"], params={"row": r}) for r in range(8)]
     + [D(n, "predict.cc", e, reach=["intra"], params={"row": r, "col": c}) for n, e in (("luma", "intra_luma"), ("chroma", "intra_chroma")) for r in (0, 1) for c in (0, 1)])
SR = ["src/encoder/safe_references.cc"]
Prop("C14", lambda: [D("phases", "predict.cc", "inter_phases", reach=["inter"], params={"size": s, "my": m, "last": l}) for s in (4, 8, 16) for m in range(8) for l in (0, 1)]
     + [D("place", "predict.cc", "inter_place", reach=["inter"], params={"size": 4, "y": y, "mx": 2, "my": 6}) for y in [-1] + list(range(0, 27)) + [1000]]
     + [D("margin", "predict.cc", "safe_margin", more=SR, reach=["margin"], params={"w": w, "h": h}) for w, h in ((16, 16), (17, 20))]
     + [D("search", "predict.cc", "safe_inter", more=SR, reach=["inter"], params={"my": m}) for m in range(8)])

# ---------------------------------------------------------------- loop filter
Prop("C15", lambda: [D("edges", "loopfilter.cc", "edges", reach=["filtered"], params={"kind": k, "plane": p}) for k in range(4) for p in (0, 1)])
Prop("C16", lambda: [J(n, "strength.cc", e, sources=DEC, merge=True, reach=["strength"], possible=["inner edges skipped", "unfiltered"], params={"mb": m, "segments": s, "deltas": d}) for n, e in (("key", "strength_key"), ("inter", "strength_inter")) for m, s, d in ((3, 1, 1), (0, 0, 1), (1, 1, 0), (2, 0, 0))])
Prop("C32", lambda: [D(e, "distortion.cc", e, more=["src/encoder/variance.cc"], reach=["distortion"]) for e in ("sse4", "sse8", "sse16", "variance4", "variance8", "variance16", "sad16")])

# ---------------------------------------------------------------- files and sockets
NET = ["src/net/socket.cc", "src/net/address.cc"]
Prop("C30", lambda: [J("write", "io.cc", "write_all", sources=NET, reach=["written"] + (["error"] if n or k else []) if n or not k else ["error"], params={"n": n, "kind": k}) for n in (0, 1, 4) for k in (0, 1, 2)]
     + [J("read exactly", "io.cc", "read_exact", sources=NET, reach=["read"] + ["error", "end"] , params={"n": n, "source": s}) for n, s in ((1, 2), (3, 6), (3, 4))]
     + [J("read", "io.cc", "read_some", sources=NET, reach=["read", "error"], params={"limit": l, "source": 3}) for l in (1, 2, 8)]
     + [J("getline", "io.cc", "lines", sources=NET, reach=["line", "error"], params={"source": s}) for s in (1, 3)]
     + [J("receive", "io.cc", "datagram_in", sources=NET, reach=["received", "refused"], params={"n": n, "stamp": s}) for n in (0, 3) for s in (0, 1)]
     + [J("send", "io.cc", "datagram_out", sources=NET, reach=["sent", "error"], params={"n": n, "to": t}) for n in (1, 3) for t in (0, 1)])
IVFS = ["src/util/ivf.cc", "src/util/ivf_writer.cc", "src/util/file.cc", "src/util/mmap_region.cc"]
Prop("C28", lambda: [J("roundtrip", "ivf.cc", "roundtrip", sources=IVFS, reach=["read back"], params={"frames": f, "longest": l, "hash": h}) for f, l, h in ((0, 1, 0), (1, 3, 1), (3, 2, 0), (2, 4, 1))])
Prop("C29", lambda: [J("open", "ivf.cc", "hostile", sources=IVFS, params={"n": n}, reach=["refused"] + (["opened", "frame refused"] if n >= 32 else []) + (["frame"] if n >= 44 else [])) for n in (0, 1, 4, 7, 8, 31, 32, 40, 43, 44, 45, 56, 60)])
Prop("C39", lambda: [J("loop", "poller.cc", "loop", sources=["src/net/poller.cc"], params={"outs": o, "rounds": r, "study": y}, reach=["served", "exit", "busy", "failure", "timeout"] + (["nothing"] if y != 8 else [])) for o, r, y in ((2, 1, 7), (5, 1, 7), (0, 1, 7), (2, 2, 1), (2, 2, 2), (5, 2, 5), (7, 2, 4))],
     bounds="three registered actions in seven arrangements of directions; one call of the loop, or a second one after actions were cancelled in the first; every interest, end of file, readiness or trouble the system may report, result and status of each callback, timeout, failure", outside="more than three actions; callbacks that register further actions")
Prop("C34", lambda: [J("history", "pool.cc", "history", sources=DEC, override=True, reach=["history", "hashed", "reused"] , params={"k": 6, "resize": 0}), J("history", "pool.cc", "history", sources=DEC, override=True, reach=["history", "reused", "refused"], params={"k": 5, "sizes": 2}), J("history", "pool.cc", "history", sources=DEC, override=True, reach=["history"], params={"k": 5, "resize": 1})] + [J("history", "pool.cc", "history", sources=DEC, override=True, reach=["history", "hashed", "reused"], params={"k": 5, "resize": 0, "dw": a, "dh": b}) for a, b in ((15, 15), (7, 3), (0, 15), (15, 0), (1, 8))])
Prop("C31", lambda: [J("yuv4mpeg", "picture.cc", "through", sources=DEC + ["src/input/yuv4mpeg.cc"], reach=["pictures"], params={"w": w, "h": h, "frames": f}) for w, h, f in ((16, 16, 1), (17, 3, 2), (1, 1, 2), (15, 18, 1), (32, 2, 2), (31, 33, 1), (2, 17, 1))])
Prop("C33", lambda: [D("levels", "quantenc.cc", "levels", reach=["quantised"], params={"kind": k, "from": f, "upto": f + 31}) for k in range(3) for f in (0, 32, 64, 96)]
     + [D("residue", "quantenc.cc", "residue", reach=["residue"]), D("second", "quantenc.cc", "second", reach=["second"])],
     bounds="all 128 quantiser indices, every residue of 8-bit pictures; levels as divided by the quantiser, before rate-distortion optimisation moves them", outside="Encoder::trellis_quantize and check_reset_y2, which may move a level towards zero by choice")

# ---------------------------------------------------------------- syntax, over a transparent boolean channel
def T(name, h, e, more=[], **kw): return J(name, h, e, sources=DEC + more, asm=True, tape=True, **kw)
Prop("C05", lambda: [T("component", "mv.cc", "component", reach=["short", "long"]), T("vectors", "mv.cc", "vectors", reach=["vector"])])
_TOK = (("y after y2", "tokens_y_after", 1), ("y2", "tokens_y2", 0), ("uv", "tokens_uv", 0), ("y", "tokens_y_with", 0))
def _c04(types, starts, befores, afters):
    return [T(n, "tokens.cc", e, reach=["block"], params={"start": s, "n": 2, "before": b, "after": a, "around": (s + i) % 4}) for i, (n, e, f) in enumerate(types) for s in starts for b in befores for a in afters if s > f]
Prop("C04", lambda: [T(n, "tokens.cc", e, reach=["block"], params={"start": f, "n": 2}) for n, e, f in _TOK]
     + [T("alone " + n, "tokens.cc", e, reach=["block"], params={"start": 7, "n": 1, "before": 0, "after": 70}) for n, e, f in _TOK]
     + [T("only " + n, "tokens.cc", e, reach=["block"], params={"start": s, "n": 1, "before": 0, "after": 0}) for n, e, f in _TOK for s in (f, 8, 15)]
     + _c04(_TOK[1:2], range(1, 15), (1,), (0,)) + _c04(_TOK[:1] + _TOK[2:], (5, 14), (-3,), (0, 1))
     + [T("range", "tokens.cc", "tokens_y2", reach=["block", "refused"], params={"start": 5, "n": 1, "far": 32767})],
     lambda: _c04(_TOK, range(1, 15), (0, 2), (0, 9)) + [T("three", "tokens.cc", e, reach=["block"], timeout=3000, params={"start": f, "n": 3}) for n, e, f in _TOK],
     bounds="two adjacent arbitrary coefficients (any value in and beyond the codable range) at every position of the block among fixed others, every neighbour context, every token probability table",
     outside="more than two coefficients arbitrary at once (the coder's state between tokens is the previous token alone); the arithmetic coder underneath, which C01 and C02 decide")
Prop("C03", lambda: [T(e, "trees.cc", e, reach=["symbol"]) for e in ("kf_y", "y", "uv", "sub", "segment", "shortmv", "mvref", "submv", "split")] + [T("layouts", "trees.cc", "layouts", reach=["layout"])],
     bounds="every symbol of every tree, every node probability", outside="the arithmetic coder underneath, which C01 and C02 decide")
_HG = dict(top=1, seg=2 | 1, segq=4, segl=8, segm=16, lf=32, lfr=64, lfm=128, quant=256, refs=512 | 1024, intra=2048)
Prop("C06", lambda: [T("%s %s" % (e, n), "header.cc", e, reach=["header"], params={"groups": g, "fill": f}) for e in ("key", "inter") for n, g, f in [("absent", 0, 0), ("present", 0, 1), ("mixed", 0, 2), ("mixed", 0, 3)] + [(k, v, 1) for k, v in _HG.items() if e == "inter" or v < 512]]
     + [T("refused key=%d" % k, "header.cc", "refused", reach=["refused", "accepted"], params={"key": k, "fill": f, "pinned": 1}) for k in (0, 1) for f in (2,)],
     bounds="every value of every field; presence of the optional fields arbitrary within one group at a time (segment quantisers, filter levels, tree probabilities, filter deltas, quantiser deltas, reference flags, mode probabilities), by four patterns elsewhere",
     outside="combinations of presence across groups other than the patterns; ")

_GN = lambda keys: [("absent", 0, 0), ("present", 0, 1), ("mixed", 0, 2), ("mixed", 0, 3)] + [(k, _HG[k], 1) for k in keys]
Prop("C18", lambda: [T("key", "state.cc", "key_references", reach=["references"], params={"groups": 0, "fill": f}) for f in (0,)]
     + [T("inter", "state.cc", "inter_references", reach=["references"], params={"groups": 512, "fill": f, "pinned": 1}) for f in (0, 2)],
     bounds="every combination of refresh and copy flags, three distinct references, one-macroblock pictures", outside="pictures of more than one macroblock (references are whole pictures)")
Prop("C19", lambda: [T("key %s" % n, "state.cc", "key_state", reach=["state"], params={"groups": g, "fill": f, "segments": i & 1, "deltas": i >> 1 & 1}) for i, (n, g, f) in enumerate(_GN(("top", "seg", "segq", "segl", "segm", "lf", "lfr", "lfm")))]
     + [T("inter %s" % n, "state.cc", "inter_state", reach=["state"], params={"groups": g, "fill": f, "segments": p, "deltas": p ^ i & 1, "vectors": i & 1, "mode": p}) for p in (0, 1) for i, (n, g, f) in enumerate(_GN(("top", "seg", "segq", "segl", "segm", "lf", "lfr", "lfm", "intra")))],
     bounds="one frame after any history: every previous table, segment adjustment, map entry and filter delta; every header value, presence of optional fields as in C06; a one-macroblock frame", outside="larger frames (the tables are those of the whole frame)")

def H(n, e, **kw): return J(n, "identity.cc", e, sources=DEC, wrap="hash_wrap.hh", **kw)
Prop("C21", lambda: [H("states", "states", reach=["equal", "different"], params=p) for p in ({"parts": 1}, {"parts": 1, "segments": 1, "deltas": 1}, {"parts": 2}, {"parts": 2, "deltas": 1}, {"parts": 4}, {"parts": 4, "segments": 1}, {"parts": 8}, {"parts": 14})]
     + [H("decoders", "decoders", reach=["decoder"]), H("decoder hashes", "decoder_hashes", reach=["decoder"])],
     bounds="two arbitrary states: every probability, adjustment, delta and dimension, presence of each optional part, a segment map of six entries; three arbitrary 16x16 pictures", outside="collisions of boost's mixing function, which is replaced by an ideal hash (the sequence of things hashed)")
def V(n, e, **kw): return J(n, "saved.cc", e, sources=DEC + ["src/util/file.cc", "src/util/mmap_region.cc"], **kw)
_SM = {"small": 1, "mw": 2, "mh": 1}
Prop("C20", lambda: [V("state", "states", reach=["restored"], params={"segments": s, "deltas": d, "mw": w, "mh": h}) for s, d, w, h in ((0, 0, 1, 1), (1, 0, 3, 2), (0, 1, 1, 1), (1, 1, 16, 1))]
     + [V("decoder", "decoders", reach=["restored"], params=dict(_SM, w=w, h=h)) for w, h in ((16, 16), (17, 3), (16, 33))]
     + [V("damaged", "damaged", reach=[r], params=dict(_SM, kind=k, segments=s, deltas=s)) for k, r in enumerate(("cut", "cut", "longer", "changed", "changed")) for s in (0, 1)],
     bounds="every probability, adjustment, delta, dimension and map entry (maps of up to 16 entries), every pixel of pictures of up to 3 macroblocks; files cut at every length within 20 bytes of the end or 40 of the start, every wrong label or length of every part", outside="golden and alternate references, which the format leaves out by design; cuts elsewhere")

# ---------------------------------------------------------------- macroblock modes and vectors
def M(name, **kw): return T(name, "modes.cc", "key_modes" if name.startswith("key") else "inter_modes", reach=["macroblock"], params=kw, merge=not name.startswith(("key", "intra")))
_CORNERS = [(c, r) for c in (0, 1) for r in (0, 1)]
Prop("C17", lambda: [T("census", "modes.cc", "census", reach=["census"], merge=True), T("clamps", "modes.cc", "clamps", reach=["clamp"], merge=True)]
     + [M("use", mode=m, ref=1 + (m + c + r) % 3, col=c, row=r) for m in range(4) for c, r in _CORNERS + [(2, 2)]]
     + [M("split", mode=4, layout=l, at=a, mix=x, ref=1 + x % 3, col=c, row=r, subs=1) for l, a, x, c, r in ((0, 0, 0, 1, 0), (0, 1, 1, 0, 1), (1, 0, 2, 1, 0), (1, 1, 3, 0, 1), (2, 0, 0, 0, 0), (2, 3, 1, 1, 0), (3, 7, 3, 0, 1))],
     lambda: [M("split", mode=4, layout=l, at=a, mix=x, ref=1 + x % 3, col=c, row=r, subs=1) for l, a, x, c, r in ((0, 0, 0, 1, 1), (1, 1, 3, 1, 1), (2, 3, 1, 1, 1), (3, 0, 2, 1, 0), (3, 5, 1, 0, 0), (3, 12, 0, 1, 0))],
     bounds="every combination of the three neighbours' references, sign biases, split flags and 16-bit vectors; every position and size of a frame up to 1024x1024 macroblocks for the clamp; macroblocks at the corners, edges and middle of a 3x3 frame for its use",
     outside="split layouts with all three neighbours present, which the thorough tier adds; error concealment")
Prop("C07", lambda: [M("key", at=a, mix=a * 3, col=c, row=r) for a in (0, 3, 5, 12, 15) for c, r in _CORNERS] + [M("key header", segment=s, skip=k) for s, k in ((1, 0), (0, 1), (1, 1))]
     + [M("intra", ref=0, at=a, mix=a * 3) for a in (0, 6, 15)] + [M("intra header", ref=0, segment=s, skip=k) for s, k in ((1, 0), (0, 1), (1, 1))]
     + [M("inter", mode=m, ref=r) for m in range(4) for r in (1, 2, 3)] + [M("inter short", mode=3, ref=r, short=1, col=r & 1, row=~r & 1) for r in (1, 2)] + [M("inter header", mode=m, ref=1, segment=1, skip=1) for m in range(4)]
     + [M("split", mode=4, layout=l, at=a, mix=x, subs=1, col=(a + x) & 1, row=(a + x + 1) & 1) for l, n in ((0, 2), (1, 2), (2, 4)) for a in range(n) for x in (0, 1)]
     + [M("split short", mode=4, layout=l, at=a, subs=1, short=1, mix=1, col=a, row=1 - a) for l in (0, 1) for a in (0, 1)]
     + [M("sixteenths", mode=4, layout=3, at=a, mix=a, subs=1, col=a & 1, row=~a & 1) for a in (5, 10, 15)],
     lambda: [M("sixteenths", mode=4, layout=3, at=a, mix=a, subs=1, col=a & 1, row=~a & 1) for a in (0, 3, 7, 12)],
     bounds="a macroblock at each corner, edge and the middle of a 3x3 frame; every intra mode, every sub-block mode at one arbitrary sub-block among fixed others, every reference, split layout and arbitrary neighbours (reference, sign bias, split or not, any 16-bit vectors), segment and skip flag with any probabilities; vector differences of 16..1023 half-units (short ones in jobs of their own)",
     outside="two arbitrary sub-block modes at once; the arithmetic coder underneath (C01, C02)")

# ---------------------------------------------------------------- whole frames
def FR(n, e, **kw): return T("%s frame" % n, "frames.cc", e, reach=["frame"], params=dict(kw, pinned=1))
_FRAMES = lambda: [FR("key", "key_frames", fill=f, groups=g, mw=w, mh=h, log2=l, salt=x) for f, g, w, h, l, x in ((1, 0, 2, 3, 1, 0), (0, 0, 3, 2, 0, 1), (1, 0, 1, 10, 3, 2), (0, 0, 4, 5, 2, 3), (1, 16, 3, 3, 0, 9), (2, 0, 3, 2, 1, 10))] \
     + [FR("inter", "inter_frames", fill=f, groups=g, mw=w, mh=h, log2=l, salt=x, segments=s) for f, g, w, h, l, x, s in ((1, 2, 2, 3, 1, 4, 1), (0, 0, 3, 2, 0, 5, 0), (1, 2, 1, 10, 3, 6, 0), (0, 0, 4, 5, 2, 7, 1), (1, 0, 3, 3, 2, 8, 1), (1, 16, 2, 3, 0, 11, 1), (3, 2, 3, 2, 1, 12, 1))] \
     + [FR(n + " sparse", n + "_frames", fill=0, mw=5, mh=5, log2=1, salt=x, sparse=1) for n in ("key", "inter") for x in (13, 16, 24)]
def _also(pid, more, bounds):
    P, q = PROPS[pid], PROPS[pid].q; P.q = lambda: q() + more(); P.bounds += bounds
_also("C04", _FRAMES, "; whole frames of up to twenty macroblocks in nine shapes and one to eight partitions, fixed in which blocks are empty and arbitrary in signs, large values and probabilities")
_also("C19", lambda: [j for j in _FRAMES() if "segments=1" in j.name], "; the segment map of frames of four to twenty macroblocks, announced by the frame or kept from before")
def HO(n, e, **kw): return T("%s hostile" % n, "frames.cc", e, reach=["hostile"], params=dict(kw, pinned=1))
_HOSTILE = lambda: [HO("key", "key_hostile", at=a, window=w, channel=c, fill=f, mw=2, mh=2, log2=1, pixels=x, ones=o, salt=a) for a, w, c, f, x, o in ((0, 8, 0, 0, 1, 2), (9, 8, 0, 0, 1, 3), (18, 8, 0, 0, 1, 0), (1100, 8, 0, 0, 1, 2), (5000, 8, 0, 1, 0, 4), (9999, 8, 0, 0, 1, 2), (0, 10, 1, 0, 0, 2), (12, 8, 1, 0, 1, 0), (60, 8, 1, 0, 1, 3), (99999, 8, 2, 0, 1, 2))] \
     + [HO("inter", "inter_hostile", at=a, window=w, channel=c, fill=f, groups=0, mw=2, mh=2, log2=1, pixels=x, ones=o, salt=a, segments=a & 1) for a, w, c, f, x, o in ((0, 8, 0, 0, 1, 2), (11, 8, 0, 0, 1, 3), (30, 8, 0, 0, 1, 0), (1100, 8, 0, 0, 1, 2), (1120, 8, 0, 0, 1, 0), (99999, 8, 0, 0, 1, 2), (0, 10, 1, 0, 0, 2), (25, 8, 2, 0, 1, 0))]
def HR(n, e, **kw): return J(n, "hostile.cc", e, sources=DEC, asm=True, reach=["hostile"], params=kw)
_OCTETS = lambda: [HR("%s octets" % ("key", "inter")[k], "%s_octets" % ("key", "inter")[k], at=a, wide=n, shift=h, salt=x, plain=8, first=24, total=60, cut=c) for k, a, n, h, x, c in
    [(0, 0, 4, 0, 0, 0), (0, 0, 3, 5, 0, 0), (1, 0, 4, 1, 3, 0), (0, 1, 8, 0, 1, 0), (0, 2, 8, 0, 2, 0), (0, 5, 8, 0, 3, 0), (0, 6, 8, 0, 3, 0), (0, 9, 8, 0, 4, 0), (0, 30, 3, 0, 5, 0), (0, 34, 3, 5, 6, 0), (0, 38, 3, 2, 7, 15), (1, 1, 8, 0, 0, 0), (1, 2, 8, 0, 1, 0), (1, 30, 3, 0, 0, 0), (1, 36, 3, 5, 1, 20), (1, 40, 3, 0, 2, 0)]]
Prop("C09", lambda: _HOSTILE() + _OCTETS() + [T("container", "container.cc", "reader", reach=["read"], params={"n": n, "partial": p, "num": m}) for n in (0, 2, 4, 10, 14) for p in (0, 1) for m in (1, 4)],
     bounds="every access the parser, predictor, loop filter and display make on: frames of any of five lengths up to 14 octets, taken apart; 2x2-macroblock key and inter frames, a window of eight to ten arbitrary values at eighteen places of the headers and coefficients, everything after it out of step and fixed; frames of 60 octets (or cut short) through the arithmetic decoder, four to eight arbitrary bits in the octets of the tag, sizes and dimensions, three in the partitions",
     outside="wider windows; larger pictures; the assembly kernels' accesses are bounds-checked as executed, other kernels of the project (encoder) are not reached")
# ---------------------------------------------------------------- container
SER = ["src/encoder/serializer.cc"]
Prop("C08", lambda: [FR("key", "key_frames", fill=f, groups=0, mw=w, mh=h, log2=l, salt=x) for f, w, h, l, x in ((0, 1, 14, 2, 5), (0, 1, 19, 3, 6), (0, 1, 12, 1, 7))] + [j for j in _FRAMES() if "mh=10" in j.name or "mh=5" in j.name] + [T(e + " roundtrip", "container.cc", e + "_roundtrip", more=SER, reach=["roundtrip"], params={"log2": l, "first": f, "part": p, "big": b}) for e in ("key", "inter") for l, f, p, b in ((0, 3, 2, 0), (1, 9, 1, 5), (2, 1, 0, 0), (3, 4, 2, 0), (1, 2050, 1, 300), (0, 7, 3, 0), (1, 8, 1, 70000), (1, 8, 1, 0x923456))]
     + [T("too long", "container.cc", "toolong", more=SER, reach=["fits" if n < 1 << 19 else "refused"], params={"len": n}) for n in ((1 << 19) - 1, 1 << 19)] + [T("too large", "container.cc", "toolarge", more=SER, reach=["fits", "refused"])]
     + [T("reader", "container.cc", "reader", reach=["read"], params={"n": n, "partial": p, "num": m}) for n in (0, 1, 2, 3, 4, 9, 10, 11, 14) for p in (0, 1) for m in (1, 2)] + [T("partial", "container.cc", "reader", reach=["refused", "taken apart", "partitions refused", "partial"], params={"n": 13, "num": 2, "partial": 1}), T("reader", "container.cc", "reader", reach=["refused", "taken apart", "partitions refused"], params={"n": 22, "num": 4})]
     + [T("slices", "container.cc", "slices", reach=["slice", "refused"], params={"n": n}) for n in (0, 1, 5)] + [T("fields", "container.cc", "bits", reach=["field" if o + l <= 8 * n else "refused"], params={"n": n, "offset": o, "length": l}) for n, o, l in ((1, 0, 1), (1, 7, 1), (1, 7, 2), (3, 5, 19), (4, 14, 2), (4, 30, 2), (4, 1, 31), (5, 5, 33), (8, 1, 63), (6, 40, 8), (3, 20, 8))])

# ---------------------------------------------------------------- the encoder's copy of the receiver's state
ENCS = ["src/encoder/variance.cc", "src/encoder/costs.cc"] + SR
def K(n, e, **kw): return T(n, "track.cc", e, more=ENCS, reach=["tracked", "again"], params=kw)
Prop("C22", lambda: [K("key %s" % n, "key_track", groups=g, fill=f, segments=i & 1, deltas=i >> 1 & 1, log2=i % 4) for i, (n, g, f) in enumerate(_GN(("top", "lf", "lfr", "lfm")))]
     + [K("inter %s" % n, "inter_track", groups=g, fill=f, segments=p, deltas=p ^ i & 1, ref=(i + p) % 4, log2=(i + p) % 4) for p in (0, 1) for i, (n, g, f) in enumerate(_GN(("top", "lf", "lfr", "lfm", "intra")) + [("references", 512, 0)])]
     + [K("filtered %s" % n, n + "_track", fill=2, level=l, pinned=1, deltas=1) for n, l in (("key", 20), ("inter", 33))],
     bounds="two frames in a row after any prior state (every table, filter delta and segment adjustment), every header value with presence of optional fields as in C06, each of the three references and intra prediction, references with arbitrary pixels at four places, one to eight partitions; one-macroblock frames with fixed coefficients; the loop filter on in two jobs with fixed levels",
     outside="segmentation announced by the frame itself, which the encoder never does on its own (it only happens when a foreign segmented stream is re-encoded)")

# ---------------------------------------------------------------- what was not said where the jobs are listed
def _say(pid, bounds, outside=""):
    P = PROPS[pid]; P.bounds = bounds; P.outside = outside or P.outside
_say("C01", "one put() from any state of the encoder that the invariant admits (any interval, any pending bits, 0..3 emitted octets, or 3..6 of them with arbitrary leading octets) with any value and probability; finish() from any state for eight pending-bit counts with two emitted octets (thorough: all 24, 0..3 octets); whole sequences of 0..9 values with one of six fixed probabilities through the real encoder and decoder. The step preserves the exact position of the interval, so by induction sequences of any length round trip with C02's step.",
     "a carry through more than six emitted octets at once (the loop is the same for each octet)")
_say("C02", "one get() from any state of the decoder the invariant admits, with 0, 1 or 3 octets left and any probability; whole runs over every string of 0..3 octets; the step preserves the exact remainder, so by induction strings and sequences of any length",
     "strings whose length is not covered by 0, 1, 3 octets left (the step reads at most one octet)")
_say("C10", "every base index, delta (present or absent), four segment adjustments in -127..127, absolute or relative; key and inter frames")
_say("C11", "coefficients -2048..2048 and steps 4..440 for dequantisation; inverse transforms for coefficients within +-2200 (inverse DCT) and +-2040 (inverse WHT), every prediction; both the assembly kernels and the portable code", "coefficients beyond those ranges, where the standard's own 16-bit intermediates overflow")
_say("C12", "every 8-bit source and prediction; forward WHT inputs within +-2040, which covers every DC a residue can produce")
_say("C13", "every pixel of a 32x32 picture, every mode, every sub-block row and macroblock position in a 2x2 macroblock frame (corner, edges, interior); separate and in-place output", "larger frames: prediction looks one macroblock up and left and four pixels to the right")
_say("C14", "all 64 fractional phases of 4x4, 8x8 and 16x16 blocks with arbitrary pixels; every whole-pixel row position against a 16x16 picture (inside, across each border, far beyond) with every column; the encoder's bordered reference for two picture sizes", "positions and phases at once for 8x8 and 16x16 (the code computes the window first and filters it then); pictures larger than the ones built")
_say("C15", "every pixel around the edge, every interior limit 1..63, edge limit 0..193 and threshold 0..3, luma, or both chroma planes, of a macroblock amid a 3x3 picture, with everything else unchanged; the kernels the build calls", "the simple filter, whose frames the parser refuses as unsupported")
_say("C16", "every level, sharpness, segment adjustment (absolute or relative), reference and mode delta, and every type of macroblock at each place of a 2x2 frame; kernels replaced by stand-ins that record the edge and limits they are given (C15 decides the kernels)", "arbitrary macroblocks at all four places at once")
_say("C23", "datagrams of sixteen lengths from 0 to 40 octets, every octet arbitrary; frames of 1, 1400 and 1401 octets", "datagrams of other lengths (fields are at fixed offsets, the payload is copied whole)")
_say("C24", "frames of 1..2801 arbitrary octets cut; every arrival order and duplication of up to 5 arrivals of up to 4 fragments with arbitrary contents; a stray packet with every field arbitrary", "longer histories; frames of more than four fragments when reassembled")
_say("C25", "datagrams of fifteen lengths up to 36 octets, every octet arbitrary; lists of up to 8 complete states; every history of 1, 2 or 4 sent frames and one arbitrary acknowledgement", "longer lists")
_say("C28", "files of up to 3 frames with arbitrary contents up to 4 octets, every header field", "longer files (each append is the same step)")
_say("C29", "every file of thirteen lengths from 0 to 60 octets, and every frame number", "longer files; the mapping itself (mmap is a stand-in over the same octets)")
_say("C30", "every way the system can split, fail (or end) each call, for buffers of up to 4 octets, three reads of up to 3 octets, lines of up to 3, one datagram each way", "larger buffers (the loops are the same per call); EINTR is a failure like any other here")
_say("C31", "seven display sizes with every combination of odd and even, and more and less than a macroblock, up to 33x33, one or two frames, every pixel arbitrary", "other sizes")
_say("C32", "every pixel of both blocks, 4x4, 8x8 and 16x16; the assembly and intrinsic kernels as built", "")
_say("C34", "every history of up to 6 operations (take, return, hash, share) on one or two sizes of picture, whole macroblocks or not", "threads (C38)")
_say("C08", "frames with one to eight partitions of up to 70000 octets whose first and last four octets are arbitrary, any flags and dimensions; frames of nine lengths up to 22 octets with every octet arbitrary, complete or cut; every slice of a range of up to 5 octets; bit fields at eleven places", "other lengths; the coded contents of the partitions, which are scripted")
_say("C05", "every component difference in the codable range (-1023..1023 half units), every vector probability; both components of a vector", "the arithmetic coder underneath (C01, C02)")
_RCV = lambda f, g, n, plan, r=[], **kw: J("receive", "receiver.cc", "receive", sources=PKT, reach=["session", "late", "complete"] + r, params=dict(frames=f, fragments=g, arrivals=n, plan=plan, **kw))
Prop("C40", lambda: [_RCV(4, 1, 5, p, grace=2500 * (p % 2)) for p in range(24)] + [_RCV(3, 2, 4, p, ["abandoned"]) for p in range(6)] + [_RCV(2, 2, 5, p, ["abandoned"]) for p in (0, 1)] + [_RCV(2, 3, 6, p, given=3) for p in (0, 1)] + [_RCV(3, 3, 7, 5, ["abandoned"], given=4)]
     + [_RCV(6, 1, 6, p, given=3) for p in (719, 0, 23, 333)] + [_RCV(7, 1, 7, p, ["from a kept state"], given=4) for p in (5039, 2519, 41)]
     + [_RCV(5, 1, 5, p, given=2, again=1, back=b) for p, b in ((39, 2), (39, 3), (119, 2), (0, 2), (35, 2), (41, 2), (63, 1))])
_say("C40", "every arrival order, with repeats and losses, of up to seven packets of two to seven frames of one to three fragments; every assignment of source states to four frames and chosen ones beyond; arbitrary octets; frames that reach an earlier state again", "states and times are tokens (the loop only compares states); the decoder, the clock, the display thread and the sockets, which are stand-ins; packets no honest sender emits")
Prop("C41", lambda: [J("play", "player.cc", "play", sources=DEC + IVFS + ["src/decoder/player.cc"], override=True, reach=["refused", "played", "end"] + (["picture"] if f else []), params={"frames": f, "broken": b}) for f, b in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (2, 1), (3, 1))])
_say("C41", "files of up to four frames, each a key frame or not, shown or not, damaged or not, with any format code and any content", "longer files; decoding itself, which is a stand-in here (C04-C19 decide it); frames whose own header is malformed before the first key frame")
