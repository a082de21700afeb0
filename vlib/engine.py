"""Build bitcode from /repo's working tree, run symx jobs, replay counterexamples natively."""
import os, subprocess, tempfile, shutil, json, time, hashlib, threading, sys, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
HARN = os.path.join(VERIF, "harness")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
INC = ["-I" + os.path.join(HARN, "include"), "-I" + HARN] + ["-I%s/src/%s" % (REPO, d) for d in ("util", "decoder", "encoder", "input", "net", "salsify", "display")]
CXXCOMMON = ["-std=c++14", "-include", "cstdint", "-DNDEBUG", "-fno-access-control", "-w", "-DSYM_REPODIR=" + REPO]
BCFLAGS = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D__SYMX__=1", "-emit-llvm", "-c", "-fno-builtin-printf", "-Xclang", "-no-opaque-pointers"][:-2]

class BuildError(Exception):
    pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)

def ensure_symx():
    srcs = [os.path.join(VERIF, "symx", f) for f in os.listdir(os.path.join(VERIF, "symx"))]
    if os.path.exists(SYMX) and all(os.path.getmtime(f) <= os.path.getmtime(SYMX) for f in srcs):
        return
    import fcntl
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-j8", "-C", os.path.join(VERIF, "symx")], timeout=1500)
        if r.returncode:
            raise BuildError("building symx failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
        os.utime(SYMX)

class Job:
    def __init__(self, name, harness, entry, sources=(), params=None, merge=False, timeout=600, asm=False, flags=(), defs=(), reach=(), possible=(), native_only=(), solver_timeout=120, extra=(), known=None, opt=None, override=False, tape=False, wrap=None):
        self.name, self.harness, self.entry, self.sources, self.params = name, harness, entry, list(sources), dict(params or {})
        self.merge, self.timeout, self.asm, self.flags, self.defs = merge, timeout, asm, list(flags), list(defs)
        self.reach, self.possible, self.solver_timeout, self.extra, self.known, self.opt, self.override = list(reach), list(possible), solver_timeout, list(extra), known, opt, override
        self.tape, self.wrap = tape, "tape_wrap.hh" if tape else wrap # wrap: a header of ours forced in front of every unit of the repository

def clang_overlay(d):
    """prediction.cc explicitly instantiates members that the file-level `template class` instantiates again, which g++ accepts and
    clang refuses; give clang a copy without the redundant instantiations (same lines, nothing else changed)."""
    src = os.path.join(REPO, "src/decoder/prediction.cc")
    if not os.path.exists(src):
        return []
    t = open(src, errors="replace").read()
    if not re.search(r"^template class VP8Raster::Block", t, re.M):
        return []
    t = re.sub(r"^template\s+(?!class\b|struct\b|<)[^;{}]*;", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.M)
    out, y = os.path.join(d, "prediction_clang.cc"), os.path.join(d, "overlay.yaml")
    open(out, "w").write(t)
    json.dump({"version": 0, "roots": [{"name": src, "type": "file", "external-contents": out}]}, open(y, "w"))
    return ["-ivfsoverlay", y]

class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif_", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.lock, self.memo = threading.Lock(), {}
        self.overlay = clang_overlay(self.dir)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def once(self, key, fn):
        with self.lock:
            if key not in self.memo:
                self.memo[key] = [threading.Lock(), None, None]
            ent = self.memo[key]
        with ent[0]:
            if ent[1] is None and ent[2] is None:
                try:
                    ent[1] = fn()
                except Exception as e:
                    ent[2] = e
        if ent[2] is not None:
            raise ent[2]
        return ent[1]
    def _path(self, key, ext):
        return os.path.join(self.dir, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ext)
    def bc(self, src, defs=(), opt=None, wrap=None):
        p = src if src.startswith("/") else os.path.join(HARN, src[8:]) if src.startswith("harness/") else os.path.join(REPO, src)
        key = ("bc", p, tuple(defs), opt, wrap)
        def build():
            out = self._path(key, ".bc")
            fl = list(BCFLAGS)
            if opt:
                fl[0] = opt
            cmd = ["clang++"] + CXXCOMMON + self.overlay + fl + INC + ["-D" + d for d in defs] + (["-include", wrap] if wrap and not p.endswith(("/rt.cc", "/tape.cc")) else []) + [p, "-o", out]
            r = sh(cmd)
            if r.returncode:
                raise BuildError("clang failed on %s:\n%s" % (p, r.stderr[-3000:]))
            return out
        return self.once(key, build)
    def asmlib(self):
        def build():
            d = os.path.join(REPO, "src/decoder")
            objs = []
            for f in sorted(os.listdir(d)):
                if f.endswith(".asm") and f not in ("config.asm", "x86inc.asm", "x86_abi_support.asm"):
                    o = os.path.join(self.dir, f + ".o")
                    r = sh(["yasm", "-f", "elf64", "-I" + d, os.path.join(d, f), "-o", o], cwd=d)
                    if r.returncode:
                        raise BuildError("yasm failed on %s: %s" % (f, r.stderr[-1000:]))
                    objs.append(o)
            so = os.path.join(self.dir, "asm.so")
            r = sh(["ld", "-shared", "-Bsymbolic", "-o", so] + objs)
            if r.returncode:
                raise BuildError("ld: " + r.stderr[-1000:])
            return so, objs
        return self.once("asm", build)
    def linked(self, job):
        key = ("link", job.harness, tuple(job.sources), tuple(job.defs), job.opt, job.override, job.tape, job.wrap)
        def build():
            srcs = ["harness/" + job.harness, "harness/rt.cc"] + job.sources + (["harness/tape.cc"] if job.tape else [])
            with ThreadPoolExecutor(NCPU) as ex:
                bcs = list(ex.map(lambda s: self.bc(s, job.defs if s.startswith("harness/") else (), job.opt, job.wrap), srcs))
            out = self._path(key, ".linked.bc")
            r = sh(["llvm-link-18"] + (bcs[:-1] + ["--override=" + bcs[-1]] if job.tape else bcs[1:] + ["--override=" + bcs[0]] if job.override else bcs) + ["-o", out])
            if r.returncode:
                raise BuildError("llvm-link: " + r.stderr[-3000:])
            return out
        return self.once(key, build)
    def native(self, job, san):
        key = ("nat", job.harness, tuple(job.sources), tuple(job.defs), job.entry, san, job.tape, job.wrap)
        def build():
            fl = ["-g", "-pthread"] + (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr,shift,signed-integer-overflow"] if san else ["-O2"])
            if job.tape: # the channel must stay replaceable
                fl = ["-O0" if f in ("-O1", "-O2") else f for f in fl] + ["-fno-inline"]
            if job.wrap:
                fl = fl + ["-include", job.wrap]
            srcs = [os.path.join(HARN, job.harness), os.path.join(HARN, "replay.cc")] + ([os.path.join(HARN, "tape.cc")] if job.tape else []) + [s if s.startswith("/") else os.path.join(REPO, s) for s in job.sources]
            cxx = "clang++" if job.tape else "g++" # with one channel for all partitions, the order in which arguments are evaluated must be the one the engine saw
            def one(s):
                o = self._path(key + (s,), ".o")
                r = sh([cxx] + (self.overlay if job.tape else []) + CXXCOMMON + fl + INC + ["-D" + d for d in job.defs] + ["-DSYM_ENTRY=" + job.entry, "-c", s, "-o", o])
                if r.returncode:
                    raise BuildError("g++ failed on %s:\n%s" % (s, r.stderr[-3000:]))
                return o
            with ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(one, srcs))
            out = self._path(key, ".exe")
            r = sh(["g++"] + fl + objs + (self.asmlib()[1] if True else []) + ["-z", "noexecstack", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-o", out, "-lm", "-ljpeg"] )
            if r.returncode:
                r = sh(["g++"] + fl + objs + self.asmlib()[1] + ["-o", out, "-lm"])
            if r.returncode:
                raise BuildError("native link: " + r.stderr[-3000:])
            return out
        return self.once(key, build)
    def run(self, job):
        bc = self.linked(job)
        out = os.path.join(self.dir, "out_%s_%d.json" % (re.sub(r"\W", "_", job.name), threading.get_ident()))
        cmd = [SYMX, bc, "--entry", job.entry, "--out", out, "--timeout", str(job.timeout), "--solver-timeout", str(job.solver_timeout), "--repo", REPO]
        if job.merge:
            cmd.append("--merge")
        if job.asm:
            cmd += ["--asm", self.asmlib()[0]]
        for k, v in job.params.items():
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += job.flags
        t0 = time.time()
        try:
            r = sh(cmd, timeout=job.timeout + job.solver_timeout + 60)
        except subprocess.TimeoutExpired:
            return {"result": "inconclusive", "reason": "engine timeout", "wall_s": time.time() - t0}
        try:
            res = json.load(open(out))
        except Exception:
            return {"result": "inconclusive", "reason": "engine failure rc=%s %s" % (r.returncode, r.stderr[-500:]), "wall_s": time.time() - t0}
        res["stderr"] = r.stderr[-500:]
        if res["result"] == "ok":
            miss = [l for l in job.reach if not res["reached"].get(l)]
            miss += [l for l in job.possible if not res["possible"].get(l)]
            if miss:
                res["result"], res["reason"] = "vacuous", "labels not reached: " + ", ".join(miss)
        return res
    def replay(self, job, viol):
        """run the counterexample natively; returns (confirmed, transcript, files)"""
        vf = os.path.join(self.dir, "values_%s.txt" % re.sub(r"\W", "_", job.name))
        with open(vf, "w") as f:
            for r in viol["values"]:
                f.write(" ".join(str(x) for x in r["v"]) + "\n")
        args = ["%s=%d" % kv for kv in job.params.items()]
        tr = ""
        for san in (False, True):
            try:
                exe = self.native(job, san)
            except BuildError as e:
                tr += "native build failed: %s\n" % e
                continue
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")
            try:
                r = sh([exe, vf] + args, timeout=120, env=env, cwd=self.dir)
            except subprocess.TimeoutExpired:
                tr += "[%s] native replay: timeout\n" % ("sanitized" if san else "plain")
                continue
            tr += "[%s] exit %d\n%s\n%s\n" % ("sanitized" if san else "plain", r.returncode, r.stdout[-1500:], r.stderr[-1500:])
            if san and ("AddressSanitizer: out of memory" in r.stderr or "requested allocation size" in r.stderr):
                continue # the sanitiser's own limit, not the program's
            if r.returncode not in (0, 8, 9) and "error while loading shared libraries" not in r.stderr:
                return True, tr, vf
        return False, tr, vf
