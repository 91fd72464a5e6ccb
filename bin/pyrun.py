"""Runs Python harness entries under pysx.py and replays their counterexamples on the real modules with plain floats."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from sxlib import VERIF

PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY): PY = "python3-vt"
PYSX = os.path.join(VERIF, "bin", "pysx.py")


def env():
    e = dict(os.environ); e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"); return e


def run(prop, H, entries, tier, ncpu):
    hf = os.path.join(VERIF, "pyharness", H["file"]); out = os.path.join(VERIF, "out" + os.environ.get("SX_REPO", "").replace("/", "_"), prop + "_" + H["file"].replace(".py", "")); os.makedirs(out, exist_ok=True)

    def one(e):
        o = os.path.join(out, e["name"] + ".json")
        if os.path.exists(o): os.remove(o)
        try: p = subprocess.run([PY, PYSX, hf, e["name"], o, str(e["budget"]), str(e.get("ta", 20))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), timeout=e["budget"] + 120); msg = p.stdout
        except subprocess.TimeoutExpired: msg = "timeout"
        if not os.path.exists(o): return dict(entry=e["name"], error="no result: " + msg[-1500:], asserts=[], viol_files=[], harness=H["file"])
        r = json.load(open(o)); r["harness"] = H["file"]; r["viol_files"] = []
        for i, v in enumerate(r.pop("viols", [])[:12]):
            f = os.path.join(out, "viol_%s_%d.json" % (e["name"], i)); v["harness"] = hf; json.dump(v, open(f, "w"), indent=1); r["viol_files"].append(f)
        return r
    with ThreadPoolExecutor(ncpu) as ex: return list(ex.map(one, entries))


def replayer(H):
    hf = os.path.join(VERIF, "pyharness", H["file"])

    def rep(vf):
        w = json.load(open(vf)); p = subprocess.run([PY, PYSX, hf, w["entry"], "/dev/null", "60", "20", vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), timeout=300)
        return p.returncode == 3 and "REPRODUCED" in p.stdout, p.stdout[-600:]
    return rep
