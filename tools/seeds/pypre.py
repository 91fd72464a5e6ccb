PYSH='''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); P=/opt/vp/venv/bin/python; "$P" -c "import numpy, scipy" 2>/dev/null || P=python3-vt
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg timeout 100 "$P" "$D/demo.py"
'''
PYPRE='''import sys, types, re, os
import numpy as np
from unittest.mock import MagicMock
R = os.path.join(os.getcwd(), "momentumopt/python/momentumopt/")
def stub(name, text=""):
    m = types.ModuleType(name); m.__path__ = []; m.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) if k.startswith("__") else MagicMock(); sys.modules[name] = m
    for w in set(re.findall(r"\\\\b(Planner\\\\w+Param_\\\\w+|Kin\\\\w+Sequence|Dynamics\\\\w+|SolverLqrSetting|ContactPlanFromFile|TerrainDescription|PlannerSetting)\\\\b", text)): setattr(m, w, w if "Param_" in w else MagicMock())
def load(path, stubs=()):
    t = open(R + path).read()
    for s in stubs: stub(s, t)
    m = types.ModuleType("momentumopt.under_test"); m.__package__ = "momentumopt"; m.__file__ = R + path; exec(compile(t, R + path, "exec"), m.__dict__); return m
def check(ok, what):
    if not ok: print("FAIL", what); sys.exit(1)
'''.replace("\\\\\\\\","\\\\").replace("\\\\b","\\b").replace("\\\\w","\\w")
PK="momentumopt/python/momentumopt/"
def py(body): return dict(files={"demo.py": PYPRE+body}, demo_sh=PYSH)
