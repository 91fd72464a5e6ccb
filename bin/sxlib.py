"""Driver: regenerate bitcode from /repo, run irsym on harness entries, replay counterexamples on the
real code built natively, write evidence.  Used by bin/check."""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
CLANG = "clang++-18"
BCFLAGS = ("-std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -DEIGEN_DONT_VECTORIZE "
           "-DEIGEN_NO_STATIC_ASSERT -ffp-contract=off -fno-math-errno -DNDEBUG -gline-tables-only -fno-builtin-printf "
           "-U_FORTIFY_SOURCE -fno-pic -fno-pie -w -DCFG_SRC_PATH=\"\" -DCFG_PATH=\"\"").split()
NATFLAGS = ("-std=c++17 -O2 -DEIGEN_NO_STATIC_ASSERT -ffp-contract=off -DNDEBUG -w -g1 -DCFG_SRC_PATH=\"\" -DCFG_PATH=\"\"").split()

GROUPS = {
    "solver": dict(src=["solver/src/**/*.cpp"], inc=["solver/include"]),
    "momutil": dict(src=["momentumopt/src/momentumopt/utilities/*.cpp"], inc=["momentumopt/include"]),
    "momcnt": dict(src=["momentumopt/src/momentumopt/cntopt/*.cpp", "momentumopt/src/momentumopt/setting/*.cpp"], inc=["momentumopt/include"]),
    "momdyn": dict(src=["momentumopt/src/momentumopt/dynopt/*.cpp"], inc=["momentumopt/include"]),
    "momdyn_opt": dict(src=["momentumopt/src/momentumopt/dynopt/DynamicsState.cpp", "momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp"], inc=["momentumopt/include"]),
    "momdyn_state": dict(src=["momentumopt/src/momentumopt/dynopt/DynamicsState.cpp"], inc=["momentumopt/include"]),
    "momfb": dict(src=["momentumopt/src/momentumopt/dynopt/DynamicsState.cpp", "momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp"], inc=["momentumopt/include"]),
    "momkin_state": dict(src=["momentumopt/src/momentumopt/kinopt/KinematicsState.cpp"], inc=["momentumopt/include"]),
    "momkin": dict(src=["momentumopt/src/momentumopt/kinopt/*.cpp"], inc=["momentumopt/include"]),
    "lqr": dict(src=["solver_lqr/src/**/*.cpp"], inc=["solver_lqr/include"]),
}
NATIVE_LIBS = ["libyaml-cpp.so.0.8", "libyaml-cpp.so.0.7", "libyaml-cpp.so", "libboost_thread.so.1.83.0"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    lock = os.path.join(BUILD, ".lock")
    with open(lock, "w") as lf:
        import fcntl
        fcntl.flock(lf, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(VERIF, "engine"), "-j4", "OUT=" + BUILD])
    if r.returncode:
        print(r.stdout)
        raise SystemExit("engine build failed")
    return os.path.join(BUILD, "irsym")


def includes(groups):
    inc = [os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", "shim")]
    for g in ["solver", "momutil", "lqr"]:
        for i in GROUPS[g]["inc"]:
            inc.append(os.path.join(REPO, i))
    return ["-I" + i for i in inc] + ["-isystem", "/usr/include/eigen3"]


_hdr_hash = None


def header_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        fs = []
        for g in ("solver", "momentumopt", "solver_lqr"):
            for ext in ("hpp", "h"):
                fs += glob.glob(os.path.join(REPO, g, "include", "**", "*." + ext), recursive=True)
        fs += glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "shim", "**", "*"), recursive=True)
        for f in sorted(fs):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def compile_one(src, out_ext, compiler, flags, groups, cache):
    h = hashlib.sha256()
    h.update((src + compiler + " ".join(flags) + header_hash()).encode())
    h.update(open(src, "rb").read())
    out = os.path.join(cache, os.path.basename(src).replace(".cpp", "") + "_" + h.hexdigest()[:20] + out_ext)
    if os.path.exists(out):
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [compiler] + flags + includes(groups) + ["-c", src, "-o", tmp]
    r = sh(cmd)
    if r.returncode:
        return None, "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:])
    os.rename(tmp, out)
    return out, None


def sources(groups):
    s = []
    for g in groups:
        for p in GROUPS[g]["src"]:
            s += sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    return s


def compile_all(srcs, ext, compiler, flags, groups, extra_first=None):
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    outs = []
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda s: compile_one(s, ext, compiler, flags + (extra_first if s.startswith(VERIF) and extra_first else []), groups, cache), srcs))
    for o, e in res:
        if e:
            raise RuntimeError(e)
        outs.append(o)
    return outs


def prune_cache():
    c = os.path.join(BUILD, "cache")
    fs = sorted(glob.glob(os.path.join(c, "*")), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while fs and tot > 600e6:
        tot -= os.path.getsize(fs[0]); os.remove(fs.pop(0))


class Cpp:
    """One harness file linked with groups of repo sources."""

    def __init__(self, prop, harness, groups, skip=(), hflags=(), wrap=()):
        self.prop, self.harness, self.groups, self.skip, self.hflags = prop, os.path.join(VERIF, "harness", harness), groups, skip, list(hflags)
        self.wrap = list(wrap)
        self.out = os.path.join(VERIF, "out" + os.environ.get("SX_REPO", "").replace("/", "_"), prop + "_" + os.path.basename(harness).replace(".cpp", ""))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.native = {}

    def srcs(self):
        return [s for s in sources(self.groups) if not any(k in s for k in self.skip)]

    def bitcode(self):
        bcs = compile_all([self.harness] + self.srcs(), ".bc", CLANG, BCFLAGS + ["-emit-llvm"], self.groups, self.hflags)
        self.bc = os.path.join(self.out, "all.bc")
        r = sh(["llvm-link-18", "-o", self.bc] + bcs)
        if r.returncode:
            raise RuntimeError("llvm-link: " + r.stdout[-2000:])
        # internalise everything but the harness entries, drop unreachable code
        r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(self.entry_names + ["__wrap_" + w for w in self.wrap] + self.wrap), self.bc, "-o", self.bc + ".2"])
        if r.returncode == 0:
            os.rename(self.bc + ".2", self.bc)
        return self.bc

    def build_native(self, kind):
        if kind in self.native:
            return self.native[kind]
        flags = list(NATFLAGS)
        if kind == "asan":
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"]
        if kind == "pattern":
            flags += ["-ftrivial-auto-var-init=pattern"]
        rt = os.path.join(VERIF, "harness", "sx_replay.cpp")
        objs = compile_all([self.harness, rt] + self.srcs(), ".o", "g++", flags, self.groups, self.hflags)
        exe = os.path.join(self.out, "replay_" + kind)
        r = sh(["g++", "-rdynamic", "-o", exe] + (["-fsanitize=address"] if kind == "asan" else []) + objs + ["-Wl,--wrap=" + w for w in self.wrap] + ["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-lpthread", "-ldl"])
        if r.returncode:
            raise RuntimeError("native link: " + r.stdout[-2000:])
        self.native[kind] = exe
        return exe

    def run_entry(self, engine, e, jobs, outdir):
        args = [engine, self.bc, "-e", e["name"], "-o", outdir, "-j", str(jobs), "-t", str(e["budget"]), "-tb", str(e.get("tb", 3)), "-ta", str(e.get("ta", 20))]
        for l in NATIVE_LIBS:
            for d in ("/usr/lib/x86_64-linux-gnu", "/lib/x86_64-linux-gnu"):
                if os.path.exists(os.path.join(d, l)):
                    args += ["-l", os.path.join(d, l)]
                    break
        t0 = time.time()
        try:
            r = sh(args, timeout=e["budget"] + 90)
            log = r.stdout
        except subprocess.TimeoutExpired:
            sh(["pkill", "-f", self.bc])
            log = "engine timeout"
        f = os.path.join(outdir, "result_%s.json" % e["name"])
        if not os.path.exists(f):
            return dict(entry=e["name"], error="engine produced no result: " + log[-1500:], wall=time.time() - t0, asserts=[], aborts=[], functions=[])
        d = json.load(open(f))
        d["wall"] = time.time() - t0
        d["viol_files"] = sorted(glob.glob(os.path.join(outdir, "viol_%s_*.json" % e["name"])))
        return d

    def replay(self, vf):
        """True when the witness violates an assertion in the native build of the real code."""
        w = json.load(open(vf))
        wit = vf.replace(".json", ".wit")
        with open(wit, "w") as f:
            for n, v in w["inputs"]:
                f.write("%s\t%s\n" % (n.replace("\t", " "), v if not isinstance(v, float) else repr(v)))
        hang = w["label"].startswith("hang")
        mem = w["label"].startswith("memory") and "runaway" not in w["label"]
        run = "runaway" in w["label"]
        kinds = [("asan", [""])] if mem else [("plain", ["", "85", "170", "255"]), ("pattern", ["1"])]
        for kind, perts in kinds:
            try:
                exe = self.build_native(kind)
            except RuntimeError as ex:
                return False, str(ex)
            for p in perts:
                env = dict(os.environ)
                if p:
                    env["MALLOC_PERTURB_"] = p
                env["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0"
                try:
                    r = subprocess.run([exe, w["entry"], wit], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, cwd=self.out,
                                       preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))) if not mem else None)
                except subprocess.TimeoutExpired:
                    if hang or run:
                        return True, "native run does not terminate (20 s)"
                    continue
                out = r.stdout.decode("utf8", "replace")
                if r.returncode == 3 or (r.returncode not in (0, 4) and (mem or run or "abort" in w["label"] or "uncaught" in w["label"] or r.returncode < 0)):
                    return True, "%s build (MALLOC_PERTURB_=%s): rc=%d %s" % (kind, p or "unset", r.returncode, out[-600:])
        return False, "not reproduced"


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop and k.get("status", "open") == "open"]
