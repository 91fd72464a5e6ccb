#!/usr/bin/env python3
"""mkseed.py SEEDFILE... : creates /verif/seeded/<id>/ from a seed description (python dict in a file) and confirms it:
patch applies, builds, stable tests pass, demo 0 without / nonzero with; then runs the property's check on the patched tree."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
CPP = '''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DEIGEN_NO_STATIC_ASSERT -Isolver/include -Imomentumopt/include -Isolver_lqr/include -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L_build -lsolver -lyaml-cpp -Wl,-rpath,"$PWD/_build" || exit 3
cp solver/tests/yaml_config_files/default_stgs.yaml "$T"; cd "$T" && timeout 60 ./demo
'''
def seed(path, run_check=True):
    d = {}; exec(open(path).read(), d); s = d["S"]; o = V + "/seeded/" + s["id"]; os.makedirs(o, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    for f, a, b in s["edits"]:
        p = R + "/" + f; t = open(p, newline="").read()
        if "\r\n" in t: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
        assert t.count(a) == 1, (f, a, t.count(a)); open(p, "w", newline="").write(t.replace(a, b))
    try:
        open(o + "/patch.diff", "w", newline="").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout.decode("utf8"))
        for n, t in s.get("files", {}).items(): os.makedirs(os.path.dirname(o + "/" + n), exist_ok=True); open(o + "/" + n, "w").write(t)
        if "demo_cpp" in s:
            open(o + "/demo.cpp", "w").write(s["demo_cpp"]); open(o + "/demo.sh", "w").write(s.get("demo_sh", CPP))
        else:
            open(o + "/demo.sh", "w").write(s["demo_sh"])
        os.chmod(o + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(o + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); 
        try: res = json.load(open("/tmp/seed_out.json"))
        except Exception: res = {}
        want = set(base["stable"])
        ok = want <= set(res.get("passed", []))
        w = sh("bash %s/demo.sh" % o, cwd=R)
        chk = None
        if run_check:
            c = sh("%s/bin/check %s --tier quick" % (V, s["property"]), cwd=V); chk = "VIOLATION property=%s" % s["property"] in c.stdout and c.returncode == 1
            if not chk: open("/tmp/seed_check_%s.txt" % s["id"], "w").write(c.stdout)
    finally:
        sh("git -C /repo checkout -- ."); 
    sh("bash /opt/vp/build.sh"); z = sh("bash %s/demo.sh" % o, cwd=R)
    print("%s: tests %s, demo patched rc=%d, demo clean rc=%d, caught=%s" % (s["id"], "ok" if ok else "FAIL " + str(want - set(res.get("passed", []))), w.returncode, z.returncode, chk), flush=True)
    if z.returncode: print(z.stdout[-1500:])
    if not w.returncode: print("patched demo output", w.stdout[-800:])
for p in sys.argv[1:]:
    try: seed(p)
    except Exception as e: print(p, "ERR", repr(e)); sh("git -C /repo checkout -- .")
